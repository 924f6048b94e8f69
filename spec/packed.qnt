// -*- mode: Bluespec; -*-
/// C29. The packed (SIMD) Goldilocks operations: W lanes of 64-bit words, each a representation of
/// an element modulo p.  Every lane of every operation is the field operation on that lane's words
/// and on nothing else.  Words at or above p are admitted as operands of the ring operations (the
/// kernels feed unreduced words to them); the result is then still the right class, and it is the
/// canonical word whenever the definition below says `exact`.
module packed {
  import gl.* from "./gl"
  const W: int
  type Ev = { op: str, form: int, a: List[int], b: List[int], k: int, out: List[int], out2: List[int], exact: List[bool], ok: bool }
  var last: Ev
  var k: int

  pure val EDGE: List[int] = [0, 1, 2, 3, 2^16, 2^31 - 1, 2^31, 2^31 + 1, 2^32 - 2, 2^32 - 1, 2^32, 2^32 + 1, 2^33 - 1, 2^33,
    2^62, 2^63 - 1, 2^63, 2^63 + 1, 2^63 + 2^31, 2^63 + 2^32 - 1, (P - 1) / 2, (P + 1) / 2, P - 2^32, P - 2^32 + 1, P - 2^31,
    2^64 - 2^33, 2^64 - 2^33 + 2^32 - 1, P - 3, P - 2, P - 1]
  pure val OVER: List[int] = [P, P + 1, P + 2, P + 2^31, 2^64 - 2^31, 2^64 - 2^32 + 2, 2^64 - 3, 2^64 - 2, 2^64 - 1]
  /// a word from a seed: kind 0 canonical, 1 any word
  pure def word(kind: int, s: int): int = {
    val c = mix(s) % (if (kind == 0) 4 else 6)
    val r = mix(s + 977)
    if (c <= 1) EDGE[r % EDGE.length()]
    else if (c == 2) r % P
    else if (c == 3) (r % P) / 2^(mix(s + 31) % 60)
    else if (c == 4) OVER[r % OVER.length()]
    else (r * 2^32 + mix(s + 5)) % 2^64
  }
  pure def lanes(kind: int, s: int): List[int] = range(0, W).foldl([], (l, j) => l.append(word(kind, s + 131 * j)))
  pure def rep(v: int): List[int] = range(0, W).foldl([], (l, j) => l.append(v))
  pure def each(f: (int) => int): List[int] = range(0, W).foldl([], (l, j) => l.append(f(j)))
  pure def flags(f: (int) => bool): List[bool] = range(0, W).foldl([], (l, j) => l.append(f(j)))
  pure val NONE: List[int] = []
  pure val NOFLAG: List[bool] = []

  action ev(e: Ev): bool = all { last' = e, k' = k + 1 }
  /// operands as the form has them: packed with packed, packed with one scalar, scalar with packed
  pure def lhs(form: int, a: List[int]): List[int] = if (form == 2) rep(a[0]) else a
  pure def rhs(form: int, b: List[int]): List[int] = if (form == 1 or form == 4) rep(b[0]) else b

  action binary(op: str, form: int, a: List[int], b: List[int]): bool = {
    val x = lhs(form, a)
    val y = rhs(form, b)
    ev({ op: op, form: form, a: a, b: b, k: 0, ok: true, out2: NONE,
      out: each(j => if (op == "add") (x[j] + y[j]) % P else if (op == "sub") (x[j] + 2 * P - y[j]) % P else (x[j] * y[j]) % P),
      // a difference is canonical when its first operand is
      exact: flags(j => op != "sub" or x[j] < P) })
  }
  action square(a: List[int]): bool =
    ev({ op: "square", form: 0, a: a, b: NONE, k: 0, ok: true, out2: NONE, out: each(j => (a[j] * a[j]) % P), exact: flags(j => true) })
  action neg(a: List[int]): bool =
    ev({ op: "neg", form: 0, a: a, b: NONE, k: 0, ok: true, out2: NONE, out: each(j => (2 * P - a[j]) % P), exact: flags(j => true) })
  /// 128-bit words: a holds the high halves, b the low ones
  action reduce(a: List[int], b: List[int]): bool =
    ev({ op: "reduce", form: 0, a: a, b: b, k: 0, ok: true, out2: NONE, out: each(j => (a[j] * 2^64 + b[j]) % P), exact: flags(j => true) })
  /// division by one scalar, refused for zero and for words that are no element
  action divide(form: int, a: List[int], d: int): bool = {
    val good = d % P != 0 and d < P
    val i = finv(d)
    ev({ op: "div", form: form, a: a, b: rep(d), k: 0, ok: good, out2: NONE,
      out: if (good) each(j => (a[j] * i) % P) else NONE, exact: flags(j => true) })
  }
  /// blocks of n lanes of two vectors, as 2x2 matrices, transposed
  action interleave(a: List[int], b: List[int], n: int): bool = {
    val good = n == 1 or n == 2 or n == 4 or n == 8
    val fits = good and n <= W
    ev({ op: "interleave", form: 0, a: a, b: b, k: n, ok: fits, exact: NOFLAG,
      out: if (not(fits)) NONE else if (n == W) a else each(j => if ((j / n) % 2 == 0) a[j] else b[j - n]),
      out2: if (not(fits)) NONE else if (n == W) b else each(j => if ((j / n) % 2 == 0) a[j + n] else b[j]) })
  }
  /// lists of n scalars are seen as n / W vectors in order, and writes through the view reach the list
  action view(s: int, n: int): bool = {
    val xs = range(0, n).foldl([], (l, j) => l.append(word(1, s + 7 * j)))
    val at = if (n > 0) mix(s) % n else 0
    ev({ op: "view", form: 0, a: xs, b: [word(1, s + 3)], k: at, ok: n % W == 0, exact: NOFLAG, out2: NONE,
      out: if (n % W == 0 and n > 0) xs.replaceAt(at, word(1, s + 3)) else NONE })
  }
  action constants(a: int): bool =
    ev({ op: "constants", form: 0, a: rep(0), b: rep(1), k: a, ok: true, out: rep(a), out2: rep(0), exact: NOFLAG })
  /// the sign bit of each word, for unsigned comparisons
  action shift(a: List[int]): bool =
    ev({ op: "shift", form: 0, a: a, b: NONE, k: 0, ok: true, out2: NONE, out: each(j => (a[j] + 2^63) % 2^64), exact: flags(j => true) })

  action init = all { last' = { op: "init", form: 0, a: NONE, b: NONE, k: 0, out: NONE, out2: NONE, exact: NOFLAG, ok: true }, k' = 0 }
  action step = {
    nondet s = 0.to(2^60).oneOf()
    nondet c = 0.to(19).oneOf()
    nondet form = 0.to(4).oneOf()
    nondet kind = 0.to(1).oneOf()
    val a = lanes(kind, s)
    val b = lanes(kind, s + 1000003)
    if (c < 3) binary("add", form, a, b)
    else if (c < 7) binary("sub", form, a, b)
    else if (c < 10) binary("mul", form, a, b)
    else if (c < 12) square(a)
    else if (c < 14) neg(a)
    else if (c < 16) reduce(lanes(1, s), lanes(1, s + 5))
    else if (c == 16) divide(form % 2, a, if (s % 5 == 0) OVER[mix(s) % OVER.length()] else if (s % 5 == 1) 0 else word(0, s))
    else if (c == 17) interleave(a, b, if (s % 6 == 5) mix(s) % 20 else 2^(s % 4))
    else if (c == 18) view(s, (if (s % 3 == 0) 1 else W) * (mix(s) % 5))
    else if (s % 2 == 0) shift(a)
    else constants(word(kind, s))
  }
  // ---- every pair of boundary words through every binary operation, the lanes holding different pairs
  pure val ALL: List[int] = EDGE.concat(OVER)
  pure def al(j: int): int = ALL[j % ALL.length()]
  action initSweep(n: int): bool = all { last' = { op: "init", form: 0, a: NONE, b: NONE, k: n, out: NONE, out2: NONE, exact: NOFLAG, ok: true }, k' = n }
  action stepSweep = {
    val n = k % (ALL.length() * 5)
    val i = n / 5
    // lane j pairs word i with word j, j+W, .. in turn: the sweep rotates with k
    val r = k / (ALL.length() * 5)
    val a = each(j => al(i))
    val b = each(j => al(i + r * W + j))
    if (n % 5 == 0) binary("add", 0, a, b)
    else if (n % 5 == 1) binary("sub", 0, a, b)
    else if (n % 5 == 2) binary("mul", 0, a, b)
    else if (n % 5 == 3) reduce(b, a)
    else if (r % 2 == 0) square(b) else neg(b)
  }
  val inv = and {
    last.out.foldl(true, (ok, x) => ok and x >= 0 and x < 2^64),
    // ring laws on what was just computed
    last.op != "sub" or range(0, last.out.length()).foldl(true, (ok, j) =>
      ok and (last.out[j] + rhs(last.form, last.b)[j] - lhs(last.form, last.a)[j]) % P == 0),
    last.op != "div" or not(last.ok) or range(0, W).foldl(true, (ok, j) => ok and (last.out[j] * last.b[0] - last.a[j]) % P == 0),
    last.op != "reduce" or range(0, W).foldl(true, (ok, j) => ok and (last.a[j] * (2^32 - 1) + last.b[j] - last.out[j]) % P == 0),
  }
}
module packed4 { import packed(W = 4).* }
module packed8 { import packed(W = 8).* }
