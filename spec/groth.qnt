// -*- mode: Bluespec; -*-
/// C35, C36. Rank-one constraint systems over the scalar field of BLS12-381 as circuits for Groth16.
/// `step` grows a system and says which variables, values and constraints the circuit made of it has.  `work` is the
/// life of keys and proofs: systems are set up (again and again), witnesses proved, proofs checked against keys and
/// public inputs of their own or of another, through files of either form.
module groth {
  import gl.* from "./gl"
  pure val R = 52435875175126190479447740508185965837690552500527637822603658699938581184513
  /// the base field of BN254
  pure val Q = 21888242871839275222246405745257275088696311157297823662689037894645226208583
  type Lc = List[List[int]]              // [wire, coefficient]
  type Con = { a: Lc, b: Lc, c: Lc }     // a * b = c, wire 0 is one
  /// ws: two assignments that satisfy everything
  type Circ = { pubOut: int, pubIn: int, ws: List[List[int]], cons: List[Con] }

  // ---- meaning
  pure def rmul(a: int, b: int): int = (a * b) % R
  pure def rneg(a: int): int = (R - a) % R
  pure def eval(l: Lc, w: List[int]): int = l.foldl(0, (s, t) => (s + t[1] * w[t[0]]) % R)
  pure def holds(c: Con, w: List[int]): bool = rmul(eval(c.a, w), eval(c.b, w)) == eval(c.c, w)
  pure def conOk(c: Circ, w: List[int]): List[bool] = c.cons.foldl([], (l, x) => l.append(holds(x, w)))
  pure def satisfied(c: Circ, w: List[int]): bool = c.cons.select(x => not(holds(x, w))).length() == 0
  /// the public wires, one included
  pure def inputs(c: Circ): int = 1 + c.pubOut + c.pubIn
  pure def wires(c: Circ): int = c.ws[0].length()
  pure def pubs(c: Circ, w: List[int]): List[int] = w.slice(1, inputs(c))
  /// of wire i: how the constraints mention it when the empty products are left out
  pure def net(l: Lc, i: int): int = l.foldl(0, (s, t) => if (t[0] == i) (s + t[1]) % R else s)
  pure def trivial(x: Con): bool = (x.a.length() == 0 or x.b.length() == 0) and x.c.length() == 0
  pure def mentioned(c: Circ, i: int): bool =
    c.cons.select(x => not(trivial(x)) and (net(x.a, i) != 0 or net(x.b, i) != 0 or net(x.c, i) != 0)).length() > 0

  // ---- the circuit: variables of two kinds; `off` variables of the second kind come before the circuit's
  pure def variable(c: Circ, i: int, off: int): List[int] = if (i < inputs(c)) [0, i] else [1, i - inputs(c) + off]
  pure def known(c: Circ, w: List[int], off: int): List[List[int]] =
    [w.slice(0, inputs(c)), range(0, off).foldl([], (l, _) => l.append(0)).concat(w.slice(inputs(c), w.length()))]
  pure def evalV(c: Circ, l: Lc, k: List[List[int]], off: int): int =
    l.foldl(0, (s, t) => { val v = variable(c, t[0], off) (s + t[1] * k[v[0]][v[1]]) % R })
  pure def holdsV(c: Circ, x: Con, k: List[List[int]], off: int): bool =
    trivial(x) or rmul(evalV(c, x.a, k, off), evalV(c, x.b, k, off)) == evalV(c, x.c, k, off)

  // ---- growth: every new wire follows from the others, in both assignments
  pure def elem(s: int): int = {
    val r = mix(s)
    if (r % 3 == 0) (mix(s + 1) * 2^192 + mix(s + 2) * 2^128 + mix(s + 3) * 2^64 + mix(s + 4)) % R
    else [0, 1, 2, 3, R - 1, R - 2, 2^64, 2^255 - R, 16, 255, 256, 10^20][r / 4 % 12]
  }
  pure def one(c: Circ, s: int): int = if (wires(c) == 1) 0 else 1 + mix(s) % (wires(c) - 1)
  pure def lcOf(c: Circ, n: int, s: int): Lc =
    range(0, n).foldl([], (l, i) => l.append([mix(s + 5 * i) % wires(c), elem(s + 5 * i + 1)]))
  pure def con(c: Circ, x: Con): Circ = { ...c, cons: c.cons.append(x) }
  /// a new wire with coefficient one or minus one makes a * b = l + wire
  pure def complete(c: Circ, a: Lc, b: Lc, l: Lc, s: int): Circ = {
    val k = wires(c)
    val sign = if (s % 3 == 0) R - 1 else 1
    val d = { ...c, ws: c.ws.foldl([], (z, w) => z.append(w.append(rmul(sign, rmul(eval(a, w), eval(b, w)) + R - eval(l, w))))) }
    con(d, { a: a, b: b, c: if (s % 2 == 0) l.append([k, sign]) else [[k, sign]].concat(l) })
  }
  pure def grow(c: Circ, s: int): Circ = {
    val kind = mix(s) % 12
    val r = mix(s + 1)
    val k = wires(c)
    val x = [[one(c, s + 2), if (r % 3 == 0) R - 1 else 1]]
    val y = [[one(c, s + 3), 1]]
    if (kind < 3) complete(c, x, y, [], r)
    else if (kind == 3) complete(c, x, x, lcOf(c, r % 3, s + 4), r)
    else if (kind == 4) complete(c, lcOf(c, 1 + r % 3, s + 4), lcOf(c, 1 + r / 8 % 3, s + 30), lcOf(c, r / 64 % 3, s + 60), r / 8)
    // an empty side
    else if (kind == 5) complete(c, [], if (r % 2 == 0) [] else lcOf(c, 2, s + 4), lcOf(c, 1 + r % 3, s + 30), r / 8)
    else if (kind == 6) complete(c, lcOf(c, 2, s + 4), [], lcOf(c, r % 3, s + 30), r / 8)
    // nothing to check
    else if (kind == 7) con(c, { a: if (r % 2 == 0) [] else lcOf(c, 2, s + 4), b: if (r % 2 == 0) lcOf(c, r / 2 % 3, s + 30) else [], c: [] })
    // the new wire is a factor
    else if (kind == 8) {
      val l = lcOf(c, 1 + r % 3, s + 4)
      con({ ...c, ws: c.ws.foldl([], (z, w) => z.append(w.append(eval(l, w)))) },
          if (r % 2 == 0) { a: [[k, 1]], b: [[0, 1]], c: l } else { a: [[0, R - 1]], b: [[k, 1]], c: l.foldl([], (z, t) => z.append([t[0], rneg(t[1])])) })
    }
    // a wire that is zero or one
    else if (kind == 9)
      con({ ...c, ws: [c.ws[0].append(r % 2), c.ws[1].append(r / 2 % 2)] },
          { a: [[k, 1]], b: if (r % 8 < 4) [[0, R - 1], [k, 1]] else [[k, R - 1], [0, 1]], c: [] })
    else complete(c, lcOf(c, 1, s + 4).concat([[0, elem(s + 9)]]), y, [[0, elem(s + 10)]], r)
  }
  /// wires other than one in another order, so that any of them may be public
  pure def turn(c: Circ, k: int): Circ = {
    val n = wires(c) - 1
    pure def at(i: int): int = if (i == 0) 0 else 1 + (i - 1 + k) % n
    pure def lc(l: Lc): Lc = l.foldl([], (z, t) => z.append([at(t[0]), t[1]]))
    { ...c, ws: c.ws.foldl([], (z, w) => z.append(range(0, n).foldl([1], (v, i) => v.append(w[1 + (i + n - k % n) % n])))),
      cons: c.cons.foldl([], (z, x) => z.append({ a: lc(x.a), b: lc(x.b), c: lc(x.c) })) }
  }
  pure def start(n: int, s: int): Circ =
    { pubOut: 0, pubIn: 0, ws: [range(0, n).foldl([1], (l, i) => l.append(elem(s + 9 * i))), range(0, n).foldl([1], (l, i) => l.append(elem(s + 9 * i + 500)))], cons: [] }
  pure def publish(c: Circ, s: int): Circ = {
    val n = wires(c)
    val po = mix(s) % (if (n < 4) n else 4)
    val pi = mix(s + 1) % (n - po)
    { ...turn(c, mix(s + 2) % n), pubOut: po, pubIn: if (pi > 3) pi % 4 else pi }
  }
  /// an assignment near the satisfying ones
  pure def alter(c: Circ, s: int): List[int] = {
    val w = c.ws[s % 2]
    val x = c.cons[mix(s + 7) % c.cons.length()]
    val near = x.a.concat(x.b).concat(x.c).select(t => t[0] != 0)
    val i = if (near.length() > 0 and s % 4 > 0) near[mix(s) % near.length()][0] else one(c, s)
    if (i == 0) w else w.replaceAt(i, if (s % 3 == 0) rneg(w[i]) else (w[i] + 1 + mix(s + 1) % 1000) % R)
  }

  type Alt = { w: List[int], ok: List[bool] }
  type Key = { circ: Circ }
  type Proof = { key: int, pubs: List[int], ok: bool }
  type Event = { op: str, circ: Circ, off: int, map: List[int], wit: List[int], inp: List[int], aux: List[int], pubs: List[int], alts: List[Alt],
                 key: int, proof: int, other: int, part: int, hex: bool, direct: bool, ok: bool }
  pure val NOC: Circ = { pubOut: 0, pubIn: 0, ws: [[1], [1]], cons: [] }
  pure val NOE: Event = { op: "init", circ: NOC, off: 0, map: [], wit: [], inp: [], aux: [], pubs: [], alts: [],
                          key: 0, proof: 0, other: 0, part: 0, hex: false, direct: false, ok: true }
  var circ: Circ
  var issued: List[Key]
  var proofs: List[Proof]
  var last: Event
  action init = all { circ' = NOC, issued' = [], proofs' = [], last' = NOE }

  // ---- C35
  pure def alt(c: Circ, w: List[int]): Alt = { w: w, ok: conOk(c, w) }
  /// the assignment as it lies in a file with more values than wires
  pure def spread(c: Circ, w: List[int], s: int): { map: List[int], wit: List[int] } = {
    val n = w.length()
    val extra = mix(s) % 3
    val t = n + extra
    // wires at every k-th place, k coprime to the size
    val k = [1, 2, 3, 5, 7].select(x => range(1, t).select(i => (i * x) % t == 0).length() == 0)[mix(s + 1) % 2]
    val m = range(0, n).foldl([], (l, i) => l.append((i * k + (if (s % 4 == 0) 1 else 0)) % t))
    { map: m, wit: range(0, t).foldl([], (l, j) => { val at = range(0, n).select(i => m[i] == j) l.append(if (at.length() == 1) w[at[0]] else elem(s + j)) }) }
  }
  action synthesize(g: Circ, s: int): bool = {
    val c = publish(g, mix(s + 11))
    val w = c.ws[0]
    val f = if (s % 2 == 0) { map: [], wit: w } else spread(c, w, s / 2)
    val n = inputs(c)
    all {
      circ' = g, issued' = issued, proofs' = proofs,
      last' = { ...NOE, op: "synthesize", circ: c, off: s / 8 % 2, map: f.map, wit: f.wit,
                inp: w.slice(0, n), aux: w.slice(n, w.length()), pubs: pubs(c, w),
                alts: range(0, 5).foldl([alt(c, w), alt(c, c.ws[1])], (l, i) => l.append(alt(c, alter(c, mix(s + 20 + i))))) },
    }
  }
  action step = {
    nondet s = 0.to(2^48).oneOf()
    val c = if (circ.cons.length() == 0 or circ.cons.length() > 3 + mix(s) % 12) start(1 + s % 4, mix(s + 1)) else circ
    synthesize(grow(c, mix(s + 2)), s)
  }

  // ---- C36
  pure def complete_(c: Circ): bool = range(inputs(c), wires(c)).select(i => not(mentioned(c, i))).length() == 0
  pure def system(s: int): Circ = {
    val c = range(0, 2 + mix(s) % 7).foldl(start(1 + s % 3, mix(s + 1)), (z, i) => grow(z, mix(s + 60 * i)))
    // wires nobody mentions are not provable: here they are squared
    val d = range(1, wires(c)).foldl(c, (z, i) => if (mentioned(z, i)) z else complete(z, [[i, 1]], [[i, 1]], [], 1))
    publish(d, mix(s + 5))
  }
  action setup(c: Circ, s: int): bool = all {
    circ' = c, issued' = issued.append({ circ: c }), proofs' = proofs,
    last' = { ...NOE, op: "setup", circ: c, key: issued.length(), hex: s % 2 == 0, direct: s / 2 % 3 == 0 },
  }
  action prove(s: int): bool = {
    val k = mix(s) % issued.length()
    val c = issued[k].circ
    val w = if (mix(s + 1) % 4 == 0) alter(c, mix(s + 2)) else c.ws[mix(s + 3) % 2]
    all {
      circ' = circ, issued' = issued, proofs' = proofs.append({ key: k, pubs: pubs(c, w), ok: satisfied(c, w) }),
      last' = { ...NOE, op: "prove", circ: c, key: k, proof: proofs.length(), wit: w, pubs: pubs(c, w), hex: s % 2 == 0 },
    }
  }
  /// `part`: 1, 2, 3 is an element of the proof taken from proof `other`
  action check_(s: int): bool = {
    val p = mix(s) % proofs.length()
    val x = proofs[p]
    val k = if (mix(s + 1) % 3 == 0) mix(s + 2) % issued.length() else x.key
    val other = mix(s + 3) % proofs.length()
    val part = if (mix(s + 4) % 3 > 0 or other == p) 0 else 1 + mix(s + 5) % 3
    val i = if (x.pubs.length() == 0) 0 else mix(s + 6) % x.pubs.length()
    val kind = mix(s + 7) % 8
    val v = if (kind == 0 and x.pubs.length() > 0) x.pubs.replaceAt(i, (x.pubs[i] + 1 + mix(s + 8) % 100) % R)
            else if (kind == 1) proofs[other].pubs
            else if (kind == 2 and x.pubs.length() > 0) x.pubs.slice(0, x.pubs.length() - 1)
            else if (kind == 3) x.pubs.append(mix(s + 8) % 2)
            else if (kind == 4 and x.pubs.length() > 1) x.pubs.replaceAt(i, x.pubs[0]).replaceAt(0, x.pubs[i])
            else x.pubs
    all {
      circ' = circ, issued' = issued, proofs' = proofs,
      last' = { ...NOE, op: "verify", key: k, proof: p, other: other, part: part, pubs: v, hex: s % 2 == 0,
                ok: x.ok and k == x.key and v == x.pubs and part == 0 },
    }
  }
  /// the contract for a key over BN254: alpha, beta, gamma, delta and the points of the public inputs, in this order
  action contract(s: int): bool = all {
    circ' = circ, issued' = issued, proofs' = proofs,
    last' = { ...NOE, op: "contract", hex: s % 2 == 0,
              wit: range(0, 2 + 3 * 4 + 2 * (1 + mix(s) % 5)).foldl([], (l, i) => l.append(if (mix(s + i) % 8 == 0) mix(s + i) / 8 % 300 else elem(s + 6 * i) % Q)) },
  }
  action work = {
    nondet s = 0.to(2^48).oneOf()
    val r = mix(s + 100) % 16
    if (issued.length() == 0 or (r < 2 and issued.length() < 5)) setup(if (issued.length() > 0 and s % 3 == 0) circ else system(mix(s + 200)), s / 3)
    else if (proofs.length() == 0 or r < 6) prove(s)
    else if (r < 15) check_(s)
    else contract(s)
  }
  val inv = and {
    satisfied(circ, circ.ws[0]), satisfied(circ, circ.ws[1]),
    last.alts.foldl(true, (q, a) => {
      val k = known(last.circ, a.w, last.off)
      q and range(0, a.ok.length()).select(i => a.ok[i] != holdsV(last.circ, last.circ.cons[i], k, last.off)).length() == 0
    }),
    last.map == [] or range(0, wires(last.circ)).select(i => last.wit[last.map[i]] != last.circ.ws[0][i]).length() == 0,
    last.op == "setup" implies complete_(last.circ),
    last.op == "prove" implies proofs[last.proof].ok == satisfied(last.circ, last.wit),
  }
}
