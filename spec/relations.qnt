// -*- mode: Bluespec; -*-
/// The identities that stand for a program: its own, and for every inclusion, permutation and connection the two that make
/// a running product start at one and advance by the quotient of two expressions in the challenges.
module relations {
  import gl.* from "./gl"
  import pil.* from "./pil"
  type E3 = List[int]
  type Chal = { u: E3, d: E3, g: E3, b: E3 }
  /// values of the columns at a row and (N) at the next; h1, h2 per inclusion, z per relation
  type Env = { cm: List[E3], cmN: List[E3], k: List[E3], kN: List[E3], pub: List[E3], x: E3, h1: List[E3], h2: List[E3], h1N: List[E3], z: List[E3], zN: List[E3], chal: Chal }
  /// the combined columns of an inclusion or permutation and the two sides of the running product
  type Rel = { f: E3, t: E3, num: E3, den: E3 }
  type Point = { dom: str, row: int, env: Env, exprs: List[E3], ids: List[E3], rels: List[Rel] }
  pure val ONE: E3 = [1, 0, 0]
  pure val ZERO: E3 = [0, 0, 0]
  // ---- expressions at a point
  pure def nodeAt(e: Env, done: List[E3], doneN: List[E3], v: List[E3], d: Node): E3 =
    if (d.op == "cm") (if (d.nx) e.cmN[d.v] else e.cm[d.v])
    else if (d.op == "const") (if (d.nx) e.kN[d.v] else e.k[d.v])
    else if (d.op == "exp") (if (d.nx) doneN[d.v] else done[d.v])
    else if (d.op == "number") e3of(canon(d.v))
    else if (d.op == "public") e.pub[d.v]
    else if (d.op == "add") e3add(v[d.a], v[d.b])
    else if (d.op == "sub") e3sub(v[d.a], v[d.b])
    else if (d.op == "mul") e3mul(v[d.a], v[d.b])
    else e3neg(v[d.a])
  pure def exprAt(e: Env, done: List[E3], doneN: List[E3], x: Expr): E3 = {
    val v = x.foldl([], (l, d) => l.append(nodeAt(e, done, doneN, l, d)))
    v[v.length() - 1]
  }
  /// every expression here and, where it looks no further, at the next row
  pure def exprsAt(p: Prog, e: Env): { here: List[E3], after: List[E3] } = {
    val en = { ...e, cm: e.cmN, k: e.kN }
    p.exprs.foldl({ here: [], after: [] }, (r, x) => {
      here: r.here.append(exprAt(e, r.here, r.after, x)),
      after: r.after.append(if (usesNext(p.exprs, x)) ZERO else exprAt(en, r.after, r.after, x)),
    })
  }
  // ---- relations as identities
  pure def comb(v: List[E3], l: List[int], u: E3): E3 = l.foldl(ZERO, (a, j) => e3add(e3mul(a, u), v[j]))
  pure def chosen(v: E3, other: E3, s: E3): E3 = e3add(e3mul(s, e3sub(v, other)), other)
  pure def tAt(v: List[E3], x: Incl, c: Chal): E3 = { val t = comb(v, x.t, c.u) if (x.selT < 0) t else chosen(t, c.d, v[x.selT]) }
  pure def fAt(v: List[E3], x: Incl, other: E3, c: Chal): E3 = { val f = comb(v, x.f, c.u) if (x.selF < 0) f else chosen(f, other, v[x.selF]) }
  pure def inclAt(v: List[E3], vN: List[E3], x: Incl, e: Env, j: int): Rel = {
    val c = e.chal
    val t = tAt(v, x, c)
    val f = fAt(v, x, t, c)
    val tN = tAt(vN, x, c)
    val b1 = e3add(ONE, c.b)
    val gb = e3mul(c.g, b1)
    { f: f, t: t,
      num: e3mul(b1, e3mul(e3add(c.g, f), e3add(gb, e3add(t, e3mul(c.b, tN))))),
      den: e3mul(e3add(gb, e3add(e.h1[j], e3mul(c.b, e.h2[j]))), e3add(gb, e3add(e.h2[j], e3mul(c.b, e.h1N[j])))) }
  }
  pure def permAt(v: List[E3], x: Incl, e: Env): Rel = {
    val t = tAt(v, x, e.chal)
    val f = fAt(v, x, e.chal.d, e.chal)
    { f: f, t: t, num: e3add(f, e.chal.b), den: e3add(t, e.chal.b) }
  }
  pure def connAt(v: List[E3], x: Conn, e: Env): Rel = {
    val c = e.chal
    val r = range(0, x.pols.length()).foldl({ n: ONE, d: ONE, ks: 1 }, (q, j) => {
      n: e3mul(q.n, e3add(c.g, e3add(v[x.pols[j]], e3mul(c.b, e3scale(e.x, q.ks))))),
      d: e3mul(q.d, e3add(c.g, e3add(v[x.pols[j]], e3mul(c.b, v[x.conns[j]])))),
      ks: fmul(q.ks, KS) })
    { f: ZERO, t: ZERO, num: r.n, den: r.d }
  }
  pure def pointOf(p: Prog, dom: str, r: int, e: Env): Point = {
    val v = exprsAt(p, e)
    val n1 = p.lookups.length()
    val rels = range(0, n1).foldl([], (l, j) => l.append(inclAt(v.here, v.after, p.lookups[j], e, j)))
      .concat(p.perms.foldl([], (l, x) => l.append(permAt(v.here, x, e))))
      .concat(p.conns.foldl([], (l, x) => l.append(connAt(v.here, x, e))))
    val own = p.ids.foldl([], (l, j) => l.append(v.here[j]))
    // the running product starts at one and advances by the quotient; column 0 is one on the first row alone
    val more = range(0, rels.length()).foldl([], (l, j) =>
      l.append(e3mul(e.k[0], e3sub(e.z[j], ONE))).append(e3sub(e3mul(e.zN[j], rels[j].den), e3mul(e.z[j], rels[j].num))))
    { dom: dom, row: r, env: e, exprs: v.here, ids: own.concat(more), rels: rels }
  }
}
