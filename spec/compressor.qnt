// -*- mode: Bluespec; -*-
/// C26. The recursion circuit as a table of twelve cells a row.  A system grows by constraints and custom gates; at each
/// point it is laid out.  The specification owns what assignments satisfy it, the function of every kind of row
/// (`rowOk`), and a layout of its own: the invariant checks that the rows of that layout hold exactly when the
/// system is satisfied.
module compressor {
  import gl.* from "./gl"
  import gl_perm.* from "./gl_perm"
  import circuit.* from "./circuit"
  import rows.* from "./rows"
  type Alt = { w: List[int], ok: bool }
  type Event = { op: str, circ: Circ, force: int, alts: List[Alt] }
  var circ: Circ
  var last: Event

  // ---- a layout: one gate a row, in order
  pure def fixedOf(k: str, c: List[int]): Fixed = { sels: if (k == "") [] else [k], c: c }
  pure val Z12: List[int] = range(0, 12).foldl([], (l, _) => l.append(0))
  pure def fftCols(g: Gate): List[int] = {
    val f = g.params[0]
    val inc = g.params[1]
    val k = g.params[2]
    val k4 = [k, fmul(k, fmul(f, f)), fmul(k, f), fmul(k, fpow(f, 3)), fmul(k, fmul(f, inc)), fmul(fmul(k, inc), fpow(f, 3)), 0, 0, 0, 0, 0, 0]
    val k2 = [0, 0, 0, 0, 0, 0, k, fmul(k, f), fmul(k, fmul(f, inc)), 0, 0, 0]
    if (g.params[3] == 4) k4 else k2
  }
  pure def useRows(g: Gate, u: Use): List[{ f: Fixed, w: List[int] }] = {
    val s = u.signals
    if (g.kind == "CMulAdd") [{ f: fixedOf("CMULADD", [0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 0]), w: s }]
    else if (g.kind == "EvPol4") [{ f: fixedOf("EVPOL4", Z12), w: s.slice(0, 12) }, { f: fixedOf("", Z12), w: s.slice(12, 21).concat([0, 0, 0]) }]
    else if (g.kind == "FFT4") [{ f: fixedOf("FFT4", fftCols(g)), w: s.slice(0, 12) }, { f: fixedOf("", Z12), w: s.slice(12, 24) }]
    else range(0, 31).foldl([], (l, j) => l.append({
      f: { sels: if (j == 30) [] else if (j >= 4 and j < 26) ["POSEIDON12", "PARTIAL"] else ["POSEIDON12"], c: if (j == 30) Z12 else RC.slice(12 * j, 12 * j + 12) },
      w: s.slice(12 * j, 12 * j + 12) }))
  }
  pure def cells(w: List[int], ws: List[int]): List[int] = w.foldl([], (l, i) => l.append(ws[i]))
  pure def useRowsOk(g: Gate, u: Use, w: List[int]): bool = {
    val r = useRows(g, u)
    range(0, r.length()).foldl(true, (ok, i) => ok and rowOk(r[i].f, cells(r[i].w, w), cells(r[if (i + 1 < r.length()) i + 1 else i].w, w)))
  }

  // ---- growth
  pure val KINDS = ["CMulAdd", "EvPol4", "FFT4", "FFT4", "Poseidon12"]
  /// an order of some of the gates
  pure def gatesOf(s: int): List[Gate] =
    range(0, mix(s) % 6).foldl([], (l, i) => {
      val k = KINDS[mix(s + 7 * i) % 5]
      val g = { kind: k, params: if (k == "FFT4") [1 + small(s + 7 * i + 1) % (P - 1), 1 + small(s + 7 * i + 2) % (P - 1), 1 + small(s + 7 * i + 3) % (P - 1),
                                                   if (mix(s + 7 * i + 4) % 2 == 0) 4 else 2] else [] }
      if (l.select(x => x.kind == g.kind and (k != "FFT4" or x.params == g.params)).length() > 0) l else l.append(g)
    })
  pure def first(s: int): Circ = {
    val n = [0, 1, 2, 3, 11, 12, 13, 14, 24, 25][mix(s) % 10]
    val out = [0, 0, n, n / 2][mix(s + 1) % 4]
    { ...start(out, n - out, 1 + mix(s + 2) % 4, s), gates: gatesOf(s + 3) }
  }
  pure def heavy(c: Circ): int = c.uses.select(u => c.gates[u.id].kind == "Poseidon12").length()
  pure def more(c: Circ, s: int): Circ = {
    val id = if (c.gates.length() == 0) 0 else mix(s + 1) % c.gates.length()
    if (c.gates.length() > 0 and mix(s) % 5 < 2 and (c.gates[id].kind != "Poseidon12" or heavy(c) < 2)) use(c, id, mix(s + 2))
    else grow(c, mix(s + 2))
  }
  // ---- assignments near the satisfying one: mostly one wire of the newest constraint or gate
  pure def wiresOf(c: Circ, s: int): List[int] =
    if (c.uses.length() > 0 and (s % 2 == 0 or c.cons.length() == 0)) {
      val l = c.uses[if (s % 3 == 0) c.uses.length() - 1 else mix(s) % c.uses.length()].signals
      // rarely one of the many inner states of a hash
      if (s % 5 == 0) l.slice(0, 12) else if (s % 5 == 1) l.slice(l.length() - 3, l.length()) else l
    }
    else if (c.cons.length() > 0) {
      val x = c.cons[if (s % 3 == 0) c.cons.length() - 1 else mix(s) % c.cons.length()]
      x.a.concat(x.b).concat(x.c).foldl([], (l, t) => l.append(t[0]))
    }
    else [1]
  pure def alter(c: Circ, s: int): List[int] = {
    val n = c.w.length()
    val near = wiresOf(c, mix(s)).select(i => i != 0)
    val i = if (near.length() > 0 and s % 5 > 0) near[mix(s + 1) % near.length()] else 1 + mix(s + 1) % (n - 1)
    c.w.replaceAt(i, if (s % 3 == 0 and c.w[i] != 0) fneg(c.w[i]) else fadd(c.w[i], 1 + small(s + 2) % (P - 1)))
  }
  pure def alt(c: Circ, w: List[int]): Alt = { w: w, ok: satisfied(c, w) }

  action init = all { circ' = NOCIRC, last' = { op: "init", circ: NOCIRC, force: 0, alts: [] } }
  action to_(c: Circ, s: int): bool = all {
    circ' = c,
    last' = { op: if (c.uses.length() > 0) "gates" else "plain", circ: c, force: if (mix(s + 1) % 6 == 0) 9 else 0,
              alts: range(0, 4).foldl([{ w: c.w, ok: true }], (l, i) => l.append(alt(c, alter(c, mix(s + 2 + i))))) },
  }
  action step = {
    nondet s = 0.to(2^48).oneOf()
    val fresh = circ.w.length() == 1 or circ.cons.length() + 2 * circ.uses.length() > 2 + mix(s) % 14
    val c0 = if (fresh) first(mix(s + 9)) else circ
    val c1 = more(c0, mix(s + 3))
    to_(if (mix(s + 4) % 3 == 0) more(c1, mix(s + 5)) else c1, s)
  }
  /// large systems: six growths at a time, up to some seventy constraints, up to 60 public values
  action stepMany = {
    nondet s = 0.to(2^48).oneOf()
    val fresh = circ.w.length() == 1 or circ.cons.length() > 24 + mix(s) % 40
    val n = 26 + mix(s + 8) % 35
    val c0 = if (fresh) { ...start(if (s % 2 == 0) n else n / 3, if (s % 2 == 0) 0 else n - n / 3, 1 + mix(s + 2) % 4, mix(s + 9)), gates: gatesOf(mix(s + 9) + 3) } else circ
    to_(range(0, 6).foldl(c0, (c, i) => more(c, mix(s + 20 + i))), s)
  }
  val inv = and {
    satisfied(circ, circ.w),
    last.alts.foldl(true, (ok, a) => ok and range(0, last.circ.uses.length()).foldl(true, (q, i) => {
      val u = last.circ.uses[i]
      val g = last.circ.gates[u.id]
      q and useHolds(g, u, a.w) == useRowsOk(g, u, a.w)
    })),
  }
}
