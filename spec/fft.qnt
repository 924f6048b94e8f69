// -*- mode: Bluespec; -*-
/// C04, C05. Discrete Fourier transforms by their definition: y_j = sum_i x_i w^(ij), with
/// w = 7^((p-1)/n), over base or extension elements (each coefficient transforms alone), for one column
/// (serial object, with a history) and for interleaved columns (any number of threads).
/// Small transforms are given in full; large ones as sums of a few monomials and geometric
/// progressions, whose transforms have closed forms.
module fft {
  import gl.* from "./gl"
  /// coefficients of an extension element
  const D: int
  type El = List[int]
  type Lane = { geo: List[List[int]], mono: List[List[int]] }
  type Ev = {
    op: str, obj: int, bits: int, ext: int, cols: int, threads: int,
    x: List[El], y: List[El], a: El, b: El,
    lanes: List[Lane], wn: int, wx: int, s: int, sums: List[int], at: List[List[int]],
  }
  var last: Ev
  /// sizes each serial transform object has processed, and the last lengths seen
  var hist: List[Set[int]]
  var k: int

  pure val ROOT = fpow(7, 2^32 - 1)
  pure val SH = 49
  /// the root of order 2^bits
  pure def root(bits: int): int = fpow(ROOT, 2^(32 - bits))
  pure def co(e: El, c: int): int = if (c < e.length()) e[c] else 0
  pure def el(f: int => int): El = range(0, D).foldl([], (l, c) => l.append(f(c)))
  pure def horner(p: List[El], c: int, x: int): int =
    range(0, p.length()).foldl(0, (s, i) => (s * x + co(p[p.length() - 1 - i], c)) % P)
  /// every value of one column on the coset sh * <w>, w of order 2^bits
  pure def values(p: List[El], bits: int, sh: int): List[El] = {
    val w = root(bits)
    range(0, 2^bits).foldl({ x: sh, l: [] }, (s, _) =>
      { x: fmul(s.x, w), l: s.l.append(el(c => horner(p, c, s.x))) }).l
  }
  /// the same, column by column, of interleaved rows
  pure def column(b: List[El], cols: int, j: int): List[El] =
    range(0, b.length() / cols).foldl([], (l, i) => l.append(b[i * cols + j]))
  pure def interleave(b: List[List[El]]): List[El] =
    range(0, b[0].length()).foldl([], (l, i) => range(0, b.length()).foldl(l, (m, j) => m.append(b[j][i])))
  pure def allValues(b: List[El], cols: int, bits: int, sh: int): List[El] =
    interleave(range(0, cols).foldl([], (l, j) => l.append(values(column(b, cols, j), bits, sh))))
  pure def xmul(a: El, b: El): El =
    if (D == 3) e3mul(el(c => co(a, c)), el(c => co(b, c))) else e5mul(el(c => co(a, c)), el(c => co(b, c)))
  pure def xadd(a: El, b: El): El = el(c => fadd(co(a, c), co(b, c)))

  pure val EDGE: List[int] = [0, 1, P - 1, P - 2, 2^32, 2^32 - 1, 2^63, (P - 1) / 2]
  pure def num(s: int, j: int): int = {
    val r = mix(s * 37 + j)
    if (r % 4 == 0) EDGE[(r / 8) % EDGE.length()] else felt(s, j)
  }
  /// kinds of vectors: dense, sparse, constant, base elements only, mixed
  pure def elem(s: int, j: int): El = {
    val kind = s % 6
    val r = mix(s + 13 * j)
    if (kind == 0) [num(s, j)]
    else if (kind == 1) (if (r % 5 == 0) el(c => num(s, D * j + c)) else [0])
    else if (kind == 2) el(c => num(s, c))
    else if (kind == 3 and r % 2 == 0) [num(s, j)]
    else if (kind == 4 and r % 3 == 0) el(c => if (c == r % D) num(s, j) else 0)
    else el(c => num(s, D * j + c))
  }
  pure def vec(s: int, n: int): List[El] = range(0, n).foldl([], (l, j) => l.append(elem(s, j)))

  pure val none: Ev = { op: "init", obj: 0, bits: 0, ext: 0, cols: 1, threads: 1, x: [], y: [], a: [], b: [],
                        lanes: [], wn: 1, wx: 1, s: 0, sums: [], at: [] }
  action init = all { last' = none, hist' = [Set(), Set()], k' = 0 }
  action initAt(n: int): bool = all { last' = none, hist' = [Set(), Set()], k' = n }
  action emit(e: Ev): bool = all {
    last' = e,
    k' = k + 1,
    hist' = if (Set("fft", "ifft", "extend", "big_fft", "big_ifft").contains(e.op)) hist.replaceAt(e.obj, hist[e.obj].union(Set(e.bits)))
            else if (e.op == "new") hist.replaceAt(e.obj, Set()) else hist,
  }

  // ---- one column
  action fresh(obj: int): bool = emit({ ...none, op: "new", obj: obj })
  action single(op: str, obj: int, bits: int, s: int): bool = {
    val p = vec(s, 2^bits)
    val v = values(p, bits, 1)
    emit({ ...none, op: op, obj: obj, bits: bits, x: if (op == "fft") p else v, y: if (op == "fft") v else p })
  }
  /// from values on <w> to values on the shifted larger domain
  action extend(bits: int, ext: int, s: int): bool = {
    val p = vec(s, 2^bits)
    emit({ ...none, op: "extend", bits: bits, ext: ext, x: values(p, bits, 1), y: values(p, bits + ext, SH) })
  }
  /// p_i * a * b^i
  action scale(n: int, s: int): bool = {
    val p = vec(s, n)
    val a = elem(s + 1, 1000)
    val b = elem(s + 2, 2000)
    emit({ ...none, op: "axi", x: p, a: a, b: b,
           y: range(0, n).foldl({ r: el(c => co(a, c)), l: [] }, (q, i) => { r: xmul(q.r, b), l: q.l.append(xmul(p[i], q.r)) }).l })
  }
  /// sum_i p_i x^i, added up from the lowest power (no Horner)
  action evalAt(n: int, s: int): bool = {
    val p = vec(s, n)
    val x = elem(s + 3, 3000)
    val one = el(c => if (c == 0) 1 else 0)
    emit({ ...none, op: "eval", x: p, a: x,
           y: [range(0, n).foldl({ w: one, s: el(_ => 0) }, (q, i) => { w: xmul(q.w, x), s: xadd(q.s, xmul(p[i], q.w)) }).s] })
  }
  // ---- interleaved columns
  action multi(op: str, bits: int, cols: int, threads: int, s: int): bool = {
    val p = vec(s, 2^bits * cols)
    val v = allValues(p, cols, bits, 1)
    emit({ ...none, op: op, bits: bits, cols: cols, threads: threads, x: if (op == "pfft") p else v, y: if (op == "pfft") v else p })
  }
  action interp(bits: int, ext: int, cols: int, threads: int, s: int): bool = {
    val p = vec(s, 2^bits * cols)
    emit({ ...none, op: "interp", bits: bits, ext: ext, cols: cols, threads: threads,
           x: allValues(p, cols, bits, 1), y: allValues(p, cols, bits + ext, SH) })
  }
  /// bit reversal
  action reversed(bits: int, x: int): bool =
    emit({ ...none, op: "br", bits: bits, x: [[x]], y: [[range(0, bits).foldl(0, (r, i) => r + ((x / 2^i) % 2) * 2^(bits - 1 - i))]] })

  // ---- large sizes.  A lane is one coefficient of one column: the polynomial
  //      sum over geo (a, r) of a * sum_i (r x)^i  +  sum over mono (e, c) of c x^e
  pure def lane(s: int, n: int): Lane = {
    geo: if (s % 3 == 0) [[felt(s, 0), felt(s, 1)]] else if (s % 3 == 1) [] else [[felt(s, 0), felt(s, 1)], [num(s, 2), felt(s, 3)]],
    mono: range(0, s % 4 + (if (s % 3 == 1) 2 else 0)).foldl([], (l, i) =>
      l.append([if (mix(s + i) % 4 == 0) [0, 1, n - 1, n / 2, n / 2 - 1][mix(s + 3 * i) % 5] else mix(s * 5 + i) % n, num(s, 10 + i)])),
  }
  pure def gsum(r: int, n: int): int = fmul(fsub(fpow(r, n), 1), finv(fsub(r, 1)))
  pure def coefOf(l: Lane, i: int): int =
    (l.geo.foldl(0, (s, g) => s + g[0] * fpow(g[1], i)) + l.mono.foldl(0, (s, m) => if (m[0] == i) s + m[1] else s)) % P
  pure def valueOf(l: Lane, n: int, x: int): int =
    (l.geo.foldl(0, (s, g) => s + g[0] * gsum(fmul(g[1], x), n)) + l.mono.foldl(0, (s, m) => s + m[1] * fpow(x, m[0]))) % P
  /// sum over all positions of s^i times the output
  pure def coefSum(l: Lane, n: int, s: int): int =
    (l.geo.foldl(0, (t, g) => t + g[0] * gsum(fmul(s, g[1]), n)) + l.mono.foldl(0, (t, m) => t + m[1] * fpow(s, m[0]))) % P
  /// of monomials only; m outputs sh * w^j
  pure def valueSum(l: Lane, m: int, s: int, w: int, sh: int): int =
    l.mono.foldl(0, (t, e) => t + fmul(fmul(e[1], fpow(sh, e[0])), gsum(fmul(s, fpow(w, e[0])), m))) % P
  pure def position(s: int, n: int): int =
    [0, 1, n - 1, n / 2, n / 2 - 1, 4096 % n, 4095 % n, (n - 4096 + n) % n, mix(s) % n, mix(s + 1) % n, mix(s + 2) % n, mix(s + 3) % n][s % 12]
  action big(op: str, obj: int, bits: int, ext: int, cols: int, threads: int, full: bool, s: int): bool = {
    val n = 2^bits
    val m = 2^(bits + ext)
    val w = root(bits)
    val wx = root(bits + ext)
    val sh = if (ext == 0) 1 else SH
    val lanes = range(0, if (full) cols * D else cols).foldl([], (l, i) => l.append(lane(mix(s + i), n)))
    val toCoef = op == "big_ifft" or op == "big_pifft"
    val q = felt(s, 999)
    emit({ ...none, op: op, obj: obj, bits: bits, ext: ext, cols: cols, threads: threads, lanes: lanes, wn: w, wx: wx, s: q,
      sums: lanes.foldl([], (l, z) => l.append(
        if (toCoef) coefSum(z, n, q) else if (z.geo.length() == 0) valueSum(z, m, q, wx, sh) else -1)),
      at: range(0, 16).foldl([], (l, i) => {
        val j = i % lanes.length()
        val ps = position(s % 97 + i, m)
        l.append([j, ps, if (toCoef) coefOf(lanes[j], ps) else valueOf(lanes[j], n, fmul(sh, fpow(wx, ps)))])
      }) })
  }

  pure val BIGS = ["big_fft", "big_ifft", "big_pfft", "big_pifft", "big_interp", "big_extend"]
  action serial(a: int, s: int): bool =
    if (a == 0) fresh(s % 2)
    else if (a < 4) single("fft", s % 2, (s / 2) % 7, s / 16)
    else if (a < 7) single("ifft", s % 2, (s / 2) % 7, s / 16)
    else if (a == 7) extend(s % 5, 1 + (s / 8) % 2, s / 32)
    else if (a == 8) scale([0, 1, 2, 3, 8, 17][s % 6], s / 8)
    else if (a == 9) evalAt([0, 1, 2, 3, 8, 17, 33][s % 7], s / 8)
    else if (a == 10) big(["big_fft", "big_ifft", "big_extend"][s % 3], s % 2, 7 + (s / 8) % 6, if (s % 3 == 2) 1 else 0, 1, 1, (s / 4) % 2 == 0, s / 64)
    else reversed(1 + s % 16, mix(s) % 2^(1 + s % 16))
  action stepSerial = {
    nondet a = 0.to(10).oneOf()
    nondet s = 0.to(2^48).oneOf()
    serial(a, s)
  }
  pure val THREADS = [1, 2, 3, 5, 8]
  action parallel(a: int, s: int): bool =
    if (a < 3) multi("pfft", 1 + s % 5, 1 + (s / 8) % 5, THREADS[(s / 64) % 5], s / 512)
    else if (a < 6) multi("pifft", 1 + s % 5, 1 + (s / 8) % 5, THREADS[(s / 64) % 5], s / 512)
    else if (a < 10) interp(1 + s % 4, (s / 8) % 3, 1 + (s / 32) % 4, THREADS[(s / 128) % 5], s / 1024)
    else reversed(1 + s % 16, mix(s) % 2^(1 + s % 16))
  action stepParallel = {
    nondet a = 0.to(10).oneOf()
    nondet s = 0.to(2^48).oneOf()
    parallel(a, s)
  }
  /// sizes around and above the block size
  action stepLarge(lo: int, hi: int): bool = {
    nondet s = 0.to(2^48).oneOf()
    nondet bits = lo.to(hi).oneOf()
    nondet cols = 1.to(7).oneOf()
    nondet a = 0.to(3).oneOf()
    val full = s % 3 == 0
    val c = if (full) 1 + cols % 2 else cols
    if (a == 0) big("big_pfft", 0, bits, 0, c, THREADS[(s / 64) % 5], full, s / 512)
    else if (a == 1) big("big_pifft", 0, bits, 0, c, THREADS[(s / 64) % 5], full, s / 512)
    else big("big_interp", 0, bits - 1, 1 + (s / 4) % 2, c, THREADS[(s / 64) % 5], full, s / 512)
  }
  /// many columns
  pure def min(a: int, b: int): int = if (a < b) a else b
  pure val WIDE = [8, 9, 12, 13, 16, 17, 31, 33, 40, 64, 65, 100, 257, 300]
  action stepWide = {
    nondet s = 0.to(2^48).oneOf()
    nondet a = 0.to(5).oneOf()
    nondet bits = 1.to(3).oneOf()
    nondet mid = 6.to(10).oneOf()
    val c = if (s % 43 == 0) 4100 else WIDE[s % WIDE.length()]
    val n = if (c > 300) 1 else if (c > 65) min(bits, 2) else bits
    val th = THREADS[(s / 64) % 5]
    if (a == 0) multi("pfft", n, c, th, s / 512)
    else if (a == 1) multi("pifft", n, c, th, s / 512)
    else if (a == 2) interp(n, (s / 8) % 3, c, th, s / 512)
    else if (a == 3) big("big_pfft", 0, mid, 0, min(c, 33), th, s % 5 == 0, s / 512)
    else if (a == 4) big("big_pifft", 0, mid, 0, min(c, 33), th, s % 5 == 0, s / 512)
    else big("big_interp", 0, mid, 1 + (s / 4) % 3, min(c, 33), th, s % 5 == 0, s / 512)
  }
  action stepAround = stepLarge(11, 14)
  action stepTall = stepLarge(15, 18)
  action stepVast = stepLarge(19, 21)
  /// one object, sizes up to 2^20, in any order
  action stepHigh = {
    nondet s = 0.to(2^48).oneOf()
    nondet bits = 13.to(20).oneOf()
    nondet a = 0.to(4).oneOf()
    if (a < 2) big("big_fft", 0, bits, 0, 1, 1, s % 4 == 0, s / 8)
    else if (a < 4) big("big_ifft", 0, bits, 0, 1, 1, s % 4 == 0, s / 8)
    else big("big_extend", 0, bits - 1, 1, 1, 1, s % 4 == 0, s / 8)
  }
  action stepHuge = stepLarge(24, 25)

  // ---- the definitions agree with each other
  val inv = and {
    fpow(ROOT, 2^31) == P - 1,
    // a constant transforms to itself
    if (last.op == "fft" and last.x.length() > 0 and last.x.tail().foldl(true, (z, e) => z and e == [0])) last.y.foldl(true, (z, e) => z and el(c => co(last.x[0], c)) == e) else true,
    // the sum of the values is n times the constant coefficient
    if (last.op == "fft") range(0, D).foldl(true, (z, c) => z and
      last.y.foldl(0, (t, e) => t + e[c]) % P == (2^last.bits * co(last.x[0], c)) % P) else true,
    // the closed forms agree with the definition, one position each
    if (last.at.length() > 0) last.at.foldl(true, (z, t) => z and 0 <= t[2] and t[2] < P) else true,
    last.at.length() == 0 or not(Set("big_fft", "big_pfft").contains(last.op)) or
      (last.lanes[0].geo.length() > 0 or last.lanes[0].mono.foldl(0, (t, m) => t + m[1]) % P == valueOf(last.lanes[0], 2^last.bits, 1)),
  }
}
module fft3 { import fft(D = 3).* from "./fft" }
module fft5 { import fft(D = 5).* from "./fft" }
