// -*- mode: Bluespec; -*-
/// Integers modulo the Goldilocks prime, its degree-3 and degree-5 extensions, and the
/// deterministic pseudo-random source the other modules draw test data from.
/// Everything here is the mathematical definition; nothing follows the implementation.
module gl {
  pure val P = 2^64 - 2^32 + 1

  pure def fadd(a: int, b: int): int = (a + b) % P
  pure def fsub(a: int, b: int): int = (a - b + P) % P
  pure def fneg(a: int): int = (P - a) % P
  pure def fmul(a: int, b: int): int = (a * b) % P

  /// b^e mod m by square and multiply over the 256 low bits of e
  pure def powmod(b: int, e: int, m: int): int =
    range(0, 256).foldl({ r: 1, b: b % m, e: e }, (s, _) =>
      if (s.e == 0) s
      else { r: if (s.e % 2 == 1) (s.r * s.b) % m else s.r, b: (s.b * s.b) % m, e: s.e / 2 }).r
  pure def fpow(b: int, e: int): int = powmod(b, e, P)
  pure def finv(a: int): int = fpow(a, P - 2)

  // ---- polynomials modulo x^3 - x - 1 (coefficient lists of length 3)
  pure def e3add(a: List[int], b: List[int]): List[int] =
    [fadd(a[0], b[0]), fadd(a[1], b[1]), fadd(a[2], b[2])]
  pure def e3sub(a: List[int], b: List[int]): List[int] =
    [fsub(a[0], b[0]), fsub(a[1], b[1]), fsub(a[2], b[2])]
  pure def e3neg(a: List[int]): List[int] = [fneg(a[0]), fneg(a[1]), fneg(a[2])]
  pure def e3mul(a: List[int], b: List[int]): List[int] = {
    // product of degree <= 4, then x^3 = x + 1 and x^4 = x^2 + x
    val c0 = a[0] * b[0]
    val c1 = a[0] * b[1] + a[1] * b[0]
    val c2 = a[0] * b[2] + a[1] * b[1] + a[2] * b[0]
    val c3 = a[1] * b[2] + a[2] * b[1]
    val c4 = a[2] * b[2]
    [(c0 + c3) % P, (c1 + c3 + c4) % P, (c2 + c4) % P]
  }
  pure def e3pow(b: List[int], e: int): List[int] =
    range(0, 200).foldl({ r: [1, 0, 0], b: b, e: e }, (s, _) =>
      if (s.e == 0) s
      else { r: if (s.e % 2 == 1) e3mul(s.r, s.b) else s.r, b: e3mul(s.b, s.b), e: s.e / 2 }).r
  /// inverse through the norm: a^(p^2+p) / a^(p^2+p+1), the latter in the base field
  pure def e3inv(a: List[int]): List[int] = {
    val ap = e3pow(a, P)
    val app = e3pow(ap, P)
    val n = e3mul(ap, app)
    val norm = e3mul(n, a)
    val d = finv(norm[0])
    [fmul(n[0], d), fmul(n[1], d), fmul(n[2], d)]
  }
  pure def e3scale(a: List[int], k: int): List[int] = [fmul(a[0], k), fmul(a[1], k), fmul(a[2], k)]
  pure def e3of(a: int): List[int] = [a % P, 0, 0]

  // ---- polynomials modulo x^5 - 3 (coefficient lists of length 5)
  pure def e5add(a: List[int], b: List[int]): List[int] = range(0, 5).foldl([], (l, i) => l.append(fadd(a[i], b[i])))
  pure def e5sub(a: List[int], b: List[int]): List[int] = range(0, 5).foldl([], (l, i) => l.append(fsub(a[i], b[i])))
  pure def e5neg(a: List[int]): List[int] = range(0, 5).foldl([], (l, i) => l.append(fneg(a[i])))
  pure def e5mul(a: List[int], b: List[int]): List[int] =
    range(0, 5).foldl([], (l, k) =>
      l.append(range(0, 5).foldl(0, (s, i) =>
        s + (if (i <= k) a[i] * b[k - i] else 3 * a[i] * b[k + 5 - i])) % P))
  pure def e5pow(b: List[int], e: int): List[int] =
    range(0, 330).foldl({ r: [1, 0, 0, 0, 0], b: b, e: e }, (s, _) =>
      if (s.e == 0) s
      else { r: if (s.e % 2 == 1) e5mul(s.r, s.b) else s.r, b: e5mul(s.b, s.b), e: s.e / 2 }).r
  pure def e5inv(a: List[int]): List[int] = {
    val a1 = e5pow(a, P)
    val a2 = e5pow(a1, P)
    val a3 = e5pow(a2, P)
    val a4 = e5pow(a3, P)
    val n = e5mul(e5mul(a1, a2), e5mul(a3, a4))
    val d = finv(e5mul(n, a)[0])
    range(0, 5).foldl([], (l, i) => l.append(fmul(n[i], d)))
  }

  // ---- data source: a 64-bit linear congruential generator, then squarings that keep the middle digits,
  // so that neighbouring seeds have unrelated remainders
  pure def lcg(s: int): int = (s * 6364136223846793005 + 1442695040888963407) % 2^64
  pure def mix(s: int): int = {
    val a = lcg(lcg(s))
    val b = (a * a / 2^41 + a) % 2^64
    val c = (b * b / 2^37 + b * 2862933555777941757) % 2^64
    (c * c / 2^29) % 2^64
  }
  /// the k-th field element of stream s
  pure def felt(s: int, k: int): int = mix((s * 1000003 + k * 7919 + 17) % 2^64) % P
}
