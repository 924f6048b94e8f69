// -*- mode: Bluespec; -*-
/// C20 (and C19).  The columns a prover commits to for a trace and given challenges: the trace, the two halves of the
/// merge of each inclusion, the running product of each relation.
module stark_cols {
  import gl.* from "./gl"
  import pil.* from "./pil"
  import world.* from "./world"
  import relations.* from "./relations"
  /// `short`: the columns stay in the base field; `holds`: the relation is true of the trace; h1, h2 of an inclusion that holds
  type RelCols = { kind: str, short: bool, holds: bool, f: List[E3], t: List[E3], h1: List[E3], h2: List[E3], num: List[E3], den: List[E3] }
  type Ev = { op: str, nbExt: int, names: int, hash: int, chal: Chal, sat: bool, rels: List[RelCols] }
  var w: World
  var last: Ev
  var k: int

  /// the cell of a column at a row, as an element of the cubic field
  pure def cells(l: List[Col], i: int): List[E3] = l.foldl([], (o, c) => o.append(e3of(c[i % c.length()])))
  pure def envAt(z: World, c: Chal, i: int): Env =
    { cm: cells(z.p.cms, i), cmN: cells(z.p.cms, i + 1), k: cells(z.p.consts, i), kN: cells(z.p.consts, i + 1), pub: [], x: e3of(fpow(omega(z.p.nb), i)),
      h1: [], h2: [], h1N: [], z: [], zN: [], chal: c }
  /// the table's rows in order, each value of the left column beside its last equal in the table
  pure def merged(f: List[E3], t: List[E3]): List[E3] =
    range(0, t.length()).foldl([], (s, j) => {
      val lastOne = range(j + 1, t.length()).foldl(true, (z, i) => z and t[i] != t[j])
      val o = s.append(t[j])
      if (lastOne) f.foldl(o, (l, x) => if (x == t[j]) l.append(x) else l) else o
    })
  pure def every2(l: List[E3], from: int): List[E3] = range(0, l.length() / 2).foldl([], (o, i) => o.append(l[2 * i + from]))
  pure def after(l: List[E3]): List[E3] = l.slice(1, l.length()).append(l[0])
  pure def inclCols(z: World, x: Incl, c: Chal): RelCols = {
    val n = rows(z)
    val hold = included(n, z.v, x)
    // values of the trace's expressions as field elements
    val vs = range(0, n).foldl([], (l, i) => l.append(cells(z.v, i)))
    val t = vs.foldl([], (l, v) => l.append(tAt(v, x, c)))
    val f = range(0, n).foldl([], (l, i) => l.append(fAt(vs[i], x, t[i], c)))
    val s = if (hold) merged(f, t) else f.concat(t)
    val h1 = every2(s, 0)
    val h2 = every2(s, 1)
    val r = range(0, n).foldl([], (l, i) => l.append(inclAt(vs[i], vs[(i + 1) % n], x, { ...envAt(z, c, i), h1: [h1[i]], h2: [h2[i]], h1N: [after(h1)[i]] }, 0)))
    { kind: "lookup", short: x.f.length() == 1 and x.selT < 0, holds: hold, f: f, t: t, h1: h1, h2: h2,
      num: r.foldl([], (l, y) => l.append(y.num)), den: r.foldl([], (l, y) => l.append(y.den)) }
  }
  pure def permCols(z: World, x: Incl, c: Chal): RelCols = {
    val n = rows(z)
    val r = range(0, n).foldl([], (l, i) => l.append(permAt(cells(z.v, i), x, envAt(z, c, i))))
    { kind: "permutation", short: false, holds: permuted(n, z.v, x), f: r.foldl([], (l, y) => l.append(y.f)), t: r.foldl([], (l, y) => l.append(y.t)), h1: [], h2: [],
      num: r.foldl([], (l, y) => l.append(y.num)), den: r.foldl([], (l, y) => l.append(y.den)) }
  }
  pure def connCols(z: World, x: Conn, c: Chal): RelCols = {
    val r = range(0, rows(z)).foldl([], (l, i) => l.append(connAt(cells(z.v, i), x, envAt(z, c, i))))
    { kind: "connection", short: false, holds: connected(z.p, z.v, x), f: [], t: [], h1: [], h2: [],
      num: r.foldl([], (l, y) => l.append(y.num)), den: r.foldl([], (l, y) => l.append(y.den)) }
  }
  pure def cube(s: int): E3 = [felt(s, 1), felt(s, 2), felt(s, 3)]
  pure def colsOf(z: World, s: int): Ev = {
    val c = { u: cube(s), d: cube(s + 1), g: cube(s + 2), b: cube(s + 3) }
    val l = z.p.lookups.foldl([], (o, x) => o.append(inclCols(z, x, c)))
      .concat(z.p.perms.foldl([], (o, x) => o.append(permCols(z, x, c))))
      .concat(z.p.conns.foldl([], (o, x) => o.append(connCols(z, x, c))))
    { op: "columns", nbExt: z.p.nb + 1 + s % 2, names: mix(s) % 6, hash: [0, 0, 0, 0, 0, 1, 2][mix(s + 1) % 7], chal: c, sat: broken(z.p, z.v) == Set(), rels: l }
  }
  pure val NOCHAL: Chal = { u: ZERO, d: ZERO, g: ZERO, b: ZERO }
  pure def event(op: str): Ev = { op: op, nbExt: 0, names: 0, hash: 0, chal: NOCHAL, sat: true, rels: [] }
  action grown(z: World, op: str): bool = all { w' = z, last' = event(op), k' = k + 1 }
  action init = all { w' = withId(empty(3, 0), bin("mul", cst(0), bin("sub", num(1), cst(0)))), last' = event("init"), k' = 0 }
  action step = {
    nondet a = 0.to(15).oneOf()
    nondet s = 0.to(2^48).oneOf()
    val h = k % 8
    if (h == 0) grown({ val z = empty(if (s % 4 == 0) 4 else 3, s) boolean(z, s) }, "empty")
    else if (h == 1) grown(grow(w, [10, 12, 13][s % 3], s), "grow")
    else if (h == 2) grown(grow(w, [10, 12, 13, a][s % 4], s), "grow")
    else if (h < 5) grown(grow(w, a, s), OPS[a])
    else if (h == 6) grown(spoil(w, s), "spoil")
    else all { w' = w, k' = k + 1, last' = colsOf(w, s) }
  }
  // ---- the products close exactly when the relation holds; the merge is made of the table and the left column
  pure def prod(l: List[E3]): E3 = l.foldl(ONE, (a, x) => e3mul(a, x))
  pure def pairsOf(l: List[E3]): List[List[int]] = { val n = after(l) range(0, l.length()).foldl([], (o, i) => o.append(l[i].concat(n[i]))) }
  val inv = (last.op == "columns") implies and {
    last.rels.foldl(true, (z, r) => z and ((prod(r.num) == prod(r.den)) == r.holds)),
    last.rels.foldl(true, (z, r) => z and (if (r.kind == "lookup" and r.holds) {
      val s = range(0, r.h1.length()).foldl([], (l, i) => l.append(r.h1[i]).append(r.h2[i]))
      sameBag(pairsOf(s), pairsOf(r.t).concat(r.f.foldl([], (l, x) => l.append(x.concat(x)))))
    } else true)),
    last.sat implies last.rels.foldl(true, (z, r) => z and r.holds),
  }
}
