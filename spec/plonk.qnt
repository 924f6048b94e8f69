// -*- mode: Bluespec; -*-
/// C25. Gates with three wires in place of rank-one constraints.  A system grows constraint by constraint; at each
/// point the specification says which assignments satisfy each constraint.  `gates` is a conversion of its own,
/// checked against the meaning of constraints by the invariant: what the implementation produces may differ, but
/// must be satisfied by the same assignments, with every added wire determined.
module plonk {
  import gl.* from "./gl"
  import circuit.* from "./circuit"
  type Alt = { w: List[int], ok: List[bool] }
  type Event = { op: str, circ: Circ, alts: List[Alt] }
  var circ: Circ
  var last: Event

  // ---- a conversion: [l, r, o, qm, ql, qr, qo, qc] with qm l r + ql l + qr r + qo o + qc = 0
  type Out = { g: List[List[int]], add: List[List[int]], n: int }
  type Red = { l: Lc, k: int, o: Out }
  /// at most m terms and a constant: the first two terms are replaced by an added wire, again and again
  pure def reduce(l: Lc, m: int, o: Out): Red = {
    val k = l.select(t => t[0] == 0).foldl(0, (s, t) => fadd(s, t[1]))
    l.foldl({ l: l.select(t => t[0] != 0), k: k, o: o }, (z, _) =>
      if (z.l.length() <= m) z
      else {
        val x = z.l[0]
        val y = z.l[1]
        { l: z.l.slice(2, z.l.length()).append([z.o.n, 1]), k: z.k,
          o: { g: z.o.g.append([x[0], y[0], z.o.n, 0, fneg(x[1]), fneg(y[1]), 1, 0]), add: z.o.add.append([x[0], y[0], x[1], y[1]]), n: z.o.n + 1 } }
      })
  }
  pure def first(r: Red): List[int] = if (r.l.length() == 0) [0, 0] else r.l[0]
  pure def gates(c: Con, n: int): Out = {
    val a = reduce(c.a, 1, { g: [], add: [], n: n })
    val b = reduce(c.b, 1, a.o)
    val o = reduce(c.c, 1, b.o)
    val x = first(a)
    val y = first(b)
    val z = first(o)
    { ...o.o, g: o.o.g.append([x[0], y[0], z[0], fmul(x[1], y[1]), fmul(x[1], b.k), fmul(a.k, y[1]), fneg(z[1]), fsub(fmul(a.k, b.k), o.k)]) }
  }
  pure def extend(add: List[List[int]], w: List[int]): List[int] =
    add.foldl(w, (z, x) => z.append(fadd(fmul(x[2], z[x[0]]), fmul(x[3], z[x[1]]))))
  pure def gateOk(g: List[int], w: List[int]): bool =
    (g[3] * w[g[0]] * w[g[1]] + g[4] * w[g[0]] + g[5] * w[g[1]] + g[6] * w[g[2]] + g[7]) % P == 0

  // ---- assignments near the satisfying one
  pure def alter(c: Circ, s: int): List[int] = {
    val n = c.w.length()
    // often a wire of the newest constraint
    val x = c.cons[c.cons.length() - 1]
    val near = x.a.concat(x.b).concat(x.c)
    val v = if (near.length() > 0 and s % 4 > 0) near[mix(s) % near.length()][0] else mix(s) % n
    val i = if (v == 0) n - 1 else v
    val w1 = c.w.replaceAt(i, if (s % 3 == 0) fneg(c.w[i]) else fadd(c.w[i], 1 + small(s + 1) % (P - 1)))
    val j = mix(s + 2) % n
    if (s % 5 > 1 or j == 0) w1 else w1.replaceAt(j, small(s + 3))
  }
  pure def alt(c: Circ, w: List[int]): Alt = { w: w, ok: conOk(c, w) }
  action init = all { circ' = NOCIRC, last' = { op: "init", circ: NOCIRC, alts: [] } }
  action to_(c: Circ, s: int): bool = all {
    circ' = c,
    last' = { op: "convert", circ: c,
              alts: range(0, 4).foldl([alt(c, c.w)], (l, i) => l.append(alt(c, alter(c, mix(s + i))))) },
  }
  action step = {
    nondet s = 0.to(2^48).oneOf()
    val c = if (circ.w.length() == 1 or circ.cons.length() > 3 + mix(s) % 12) start(s % 3, 1 + s / 4 % 3, s / 16 % 4, mix(s)) else circ
    to_(grow(c, mix(s + 3)), s)
  }
  val inv = and {
    conOk(circ, circ.w).select(x => not(x)).length() == 0,
    // the conversion is right on every assignment of the event
    last.alts.foldl(true, (ok, a) => ok and range(0, last.circ.cons.length()).foldl(true, (q, i) => {
      val o = gates(last.circ.cons[i], a.w.length())
      val w = extend(o.add, a.w)
      q and a.ok[i] == (o.g.select(g => not(gateOk(g, w))).length() == 0)
    })),
  }
}
