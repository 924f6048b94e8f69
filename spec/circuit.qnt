// -*- mode: Bluespec; -*-
/// Rank-one constraint systems over Goldilocks with an assignment: what it means to satisfy them, including the
/// custom gates of the recursive verifier, and how satisfied systems of many shapes are grown.
module circuit {
  import gl.* from "./gl"
  import gl_perm.* from "./gl_perm"
  type Lc = List[List[int]]              // [wire, coefficient]
  type Con = { a: Lc, b: Lc, c: Lc }     // a * b = c, wire 0 is one
  type Gate = { kind: str, params: List[int] }
  type Use = { id: int, signals: List[int] }
  /// w is an assignment that satisfies everything
  type Circ = { pubOut: int, pubIn: int, w: List[int], cons: List[Con], gates: List[Gate], uses: List[Use] }

  // ---- meaning
  pure def eval(l: Lc, w: List[int]): int = l.foldl(0, (s, t) => (s + t[1] * w[t[0]]) % P)
  pure def holds(c: Con, w: List[int]): bool = fmul(eval(c.a, w), eval(c.b, w)) == eval(c.c, w)
  pure def e3at(x: List[int], i: int): List[int] = [x[3 * i], x[3 * i + 1], x[3 * i + 2]]
  pure def e3k(a: List[int], k: int): List[int] = e3scale(a, k)
  pure def bfly(a: List[int], b: List[int], w: int): List[List[int]] = [e3add(a, e3k(b, w)), e3sub(a, e3k(b, w))]
  pure val DOWN: List[int] = [3, 2, 1, 0]
  /// what a gate computes from its inputs
  pure def gate(g: Gate, x: List[int]): List[int] =
    if (g.kind == "CMulAdd") e3add(e3mul(e3at(x, 0), e3at(x, 1)), e3at(x, 2))
    else if (g.kind == "EvPol4") {
      // c0 + c1 z + .. + c4 z^4; the coefficients, then z
      val z = e3at(x, 5)
      DOWN.foldl(e3at(x, 4), (r, i) => e3add(e3mul(r, z), e3at(x, i)))
    }
    else if (g.kind == "FFT4") {
      // two layers of a transform of four elements in bit-reversed order, or one layer of two transforms of two
      val f = g.params[0]
      val inc = g.params[1]
      val k = g.params[2]
      if (g.params[3] == 4) {
        val l = bfly(e3at(x, 0), e3at(x, 1), fmul(f, f))
        val r = bfly(e3at(x, 2), e3at(x, 3), fmul(f, f))
        val even = bfly(l[0], r[0], f)
        val odd = bfly(l[1], r[1], fmul(f, inc))
        val all4 = [even[0], odd[0], even[1], odd[1]]
        all4.foldl([], (o, e) => o.concat(e3k(e, k)))
      } else {
        val l = bfly(e3at(x, 0), e3at(x, 1), f)
        val r = bfly(e3at(x, 2), e3at(x, 3), fmul(f, inc))
        val all4 = [l[0], l[1], r[0], r[1]]
        all4.foldl([], (o, e) => o.concat(e3k(e, k)))
      }
    }
    else rounds(x)
  pure def nIn(g: Gate): int = if (g.kind == "CMulAdd") 9 else if (g.kind == "EvPol4") 18 else 12
  pure def useHolds(g: Gate, u: Use, w: List[int]): bool = {
    val x = u.signals.foldl([], (l, i) => l.append(w[i]))
    val n = nIn(g)
    gate(g, x.slice(0, n)) == x.slice(n, x.length())
  }
  pure def conOk(c: Circ, w: List[int]): List[bool] = c.cons.foldl([], (l, x) => l.append(holds(x, w)))
  pure def useOk(c: Circ, w: List[int]): List[bool] = c.uses.foldl([], (l, u) => l.append(useHolds(c.gates[u.id], u, w)))
  pure def satisfied(c: Circ, w: List[int]): bool =
    conOk(c, w).select(x => not(x)).length() == 0 and useOk(c, w).select(x => not(x)).length() == 0

  // ---- growth
  pure def small(s: int): int = { val r = mix(s) if (r % 4 == 0) felt(r, 1) else [0, 1, 2, 3, P - 1, P - 2, 2^32, P - 2^32][r / 4 % 8] }
  /// coefficients: mostly from few values, so that gates with equal selectors occur
  pure def coef(s: int): int = { val r = mix(s) if (r % 5 == 0) felt(r, 2) else if (r % 11 == 0) 0 else if (r % 7 < 3) [1, 17, 273, P - 1, P - 17, P - 273][r / 7 % 6] else [1, P - 1, 2, 1, 3][r / 5 % 5] }
  /// a combination of n different wires
  pure def lcOf(c: Circ, n: int, s: int): Lc = {
    val t = c.w.length()
    range(0, n).foldl([], (l, i) => {
      val v = mix(s + 5 * i) % t
      if (l.select(x => x[0] == v).length() > 0) l else l.append([v, coef(s + 5 * i + 1)])
    })
  }
  pure def wire(c: Circ, v: int): Circ = { ...c, w: c.w.append(v) }
  pure def con(c: Circ, x: Con): Circ = { ...c, cons: c.cons.append(x) }
  /// adds to `l` a new wire (coefficient one or minus one), a constant, or both, so that a b = l
  pure def complete(c: Circ, a: Lc, b: Lc, l: Lc, s: int): Circ = {
    val target = fmul(eval(a, c.w), eval(b, c.w))
    val rest = fsub(target, eval(l, c.w))
    val k = c.w.length()
    val l0 = l.select(t => t[0] != 0)
    if (s % 4 == 0) {
      // no new wire: a constant takes the difference
      val d = fsub(target, eval(l0, c.w))
      con(c, { a: a, b: b, c: if (d == 0 and s % 8 == 0) l0 else l0.append([0, d]) })
    } else {
      val sign = if (s % 3 == 0) P - 1 else 1
      con(wire(c, fmul(sign, rest)), { a: a, b: b, c: if (s % 2 == 0) l.append([k, sign]) else [[k, sign]].concat(l) })
    }
  }
  pure def one(c: Circ, s: int): int = if (c.w.length() == 1) 0 else 1 + mix(s) % (c.w.length() - 1)
  /// the same coefficients on other wires
  pure def twin(c: Circ, l: Lc, s: int): Lc = {
    val r = l.foldl([], (z, t) => {
      val v = if (t[0] == 0) 0 else one(c, s + 3 * z.length())
      z.append([if (z.select(x => x[0] == v).length() > 0) t[0] else v, t[1]])
    })
    val vs = r.foldl([], (z, t) => if (z.select(x => x == t[0]).length() > 0) z else z.append(t[0]))
    if (vs.length() < r.length()) l else r
  }
  /// the coefficients in the opposite order
  pure def swapped(l: Lc): Lc = range(0, l.length()).foldl([], (z, i) => z.append([l[i][0], l[l.length() - 1 - i][1]]))
  /// shapes of constraints
  pure def grow(c: Circ, s: int): Circ = {
    val kind = mix(s) % 16
    val r = mix(s + 1)
    val x = [[one(c, s + 2), if (r % 3 == 0) P - 1 else 1]]
    val y = [[one(c, s + 3), 1]]
    if (kind < 3) complete(c, x, y, [], 1 + r)
    else if (kind == 3) complete(c, x, x, [], r)
    else if (kind == 4) complete(c, lcOf(c, 1 + r % 3, s + 4), lcOf(c, 1 + r / 8 % 3, s + 5), lcOf(c, r / 64 % 3, s + 6), r / 8)
    else if (kind == 5) complete(c, lcOf(c, 2 + r % 6, s + 4), lcOf(c, 2 + r / 8 % 5, s + 5), lcOf(c, r / 64 % 6, s + 6), r / 8)
    // linear: an empty side, with zero coefficients or none
    else if (kind == 6) complete(c, [], if (r % 2 == 0) [] else lcOf(c, 2, s), lcOf(c, 1 + r % 6, s + 6), r / 8)
    else if (kind == 7) complete(c, if (r % 2 == 0) [] else [[0, 0], [one(c, s + 2), 0]], lcOf(c, 1, s), lcOf(c, 1 + r % 3, s + 6), r / 8)
    else if (kind == 8) complete(c, lcOf(c, 2, s), if (r % 2 == 0) [[0, 0]] else [], lcOf(c, r % 5, s + 6), r / 8)
    // one side or both a constant
    else if (kind == 9) complete(c, [[0, 1 + small(s + 4) % (P - 1)]], lcOf(c, 1 + r % 4, s + 5), lcOf(c, r / 8 % 4, s + 6), r / 8)
    else if (kind == 10) complete(c, lcOf(c, 1 + r % 4, s + 5), [[one(c, s + 2), 0], [0, 1 + small(s + 4) % (P - 1)]].select(t => t[1] != 0 or t[0] != 0), lcOf(c, r / 8 % 4, s + 6), r / 8)
    else if (kind == 11) complete(c, [[0, 1]], [[0, 1 + r % 5]], lcOf(c, r / 8 % 3, s + 6), r / 8)
    // a wire that is zero or one
    else if (kind == 12) {
      val k = c.w.length()
      con(wire(c, r % 2), { a: [[k, 1]], b: if (r % 4 < 2) [[0, P - 1], [k, 1]] else [[k, P - 1], [0, 1]], c: [] })
    }
    // gates that differ in one selector, mostly the constant
    else if (kind >= 14 and c.cons.length() > 0) {
      val z0 = c.cons[if (r % 3 == 0) mix(s + 4) % c.cons.length() else c.cons.length() - 1]
      val z = if (mix(s + 8) % 2 == 0) { a: swapped(z0.a), b: swapped(z0.b), c: swapped(z0.c) } else z0
      complete(c, twin(c, z.a, s + 5), twin(c, z.b, s + 6), twin(c, z.c, s + 7), if (r % 4 < 3) 4 * r else r)
    }
    // a constant on every side
    else complete(c, [[0, coef(s + 4)], [one(c, s + 2), coef(s + 7)]].select(t => t[0] != 0 or c.w.length() > 1),
                  [[one(c, s + 3), 1], [0, 5]].select(t => t[0] != 0 or t[1] == 5), [[0, small(s)]], r)
  }
  /// a use of a gate on existing wires; every output (and, for the hash, every state in between) is a new wire
  pure def use(c: Circ, id: int, s: int): Circ = {
    val g = c.gates[id]
    val n = nIn(g)
    val ins = range(0, n).foldl([], (l, i) => l.append(one(c, s + i)))
    val out = gate(g, ins.foldl([], (l, i) => l.append(c.w[i])))
    val k = c.w.length()
    { ...c, w: c.w.concat(out), uses: c.uses.append({ id: id, signals: ins.concat(range(0, out.length()).foldl([], (l, i) => l.append(k + i))) }) }
  }
  pure def start(po: int, pi: int, extra: int, s: int): Circ =
    { pubOut: po, pubIn: pi, w: range(0, po + pi + extra).foldl([1], (l, i) => l.append(small(s + i))), cons: [], gates: [], uses: [] }
  pure val NOCIRC: Circ = { pubOut: 0, pubIn: 0, w: [1], cons: [], gates: [], uses: [] }
}
