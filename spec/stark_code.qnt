// -*- mode: Bluespec; -*-
/// C18, C19.  What the compiled code of a program has to compute.  A program grows (world.qnt); then every identity of it,
/// its own and those that stand for its inclusions, permutations and connections, is evaluated at arbitrary values of
/// all columns at one row and the next: on the trace domain, on the extended domain and at a point outside both.  The
/// values need satisfy nothing.
module stark_code {
  import gl.* from "./gl"
  import pil.* from "./pil"
  import world.* from "./world"
  import relations.* from "./relations"
  type Ev = { op: str, nbExt: int, names: int, points: List[Point] }
  var w: World
  var last: Ev
  var k: int

  // ---- arbitrary values
  pure val EDGE: List[int] = [0, 1, P - 1, 2^32 - 1, 2^32, P - 2^32, 2]
  pure def one(s: int): int = if (mix(s) % 3 == 0) EDGE[mix(s + 1) % EDGE.length()] else felt(s, 0)
  pure def some(s: int, dim: int): E3 = if (dim == 1) [one(s), 0, 0] else [felt(s, 1), felt(s, 2), felt(s, 3)]
  pure def many(n: int, s: int, dim: int): List[E3] = range(0, n).foldl([], (l, i) => l.append(some(s + 7 * i, dim)))
  pure def hDim(x: Incl): int = if (x.f.length() == 1 and x.selT < 0) 1 else 3
  pure def envOf(p: Prog, s: int, dim: int): Env = {
    val m = p.cms.length()
    val c = p.consts.length()
    pure def h(q: int): List[E3] = range(0, p.lookups.length()).foldl([], (l, j) => l.append(some(q + 7 * j, if (dim == 3) 3 else hDim(p.lookups[j]))))
    val nz = p.lookups.length() + p.perms.length() + p.conns.length()
    { cm: many(m, s, dim), cmN: many(m, s + 1000, dim), k: many(c, s + 2000, dim), kN: many(c, s + 3000, dim), pub: many(p.publics.length(), s + 4000, 1),
      x: some(s + 5000, dim), h1: h(s + 5100), h2: h(s + 5300), h1N: h(s + 5500), z: many(nz, s + 5700, 3), zN: many(nz, s + 5900, 3),
      chal: { u: some(s + 6000, 3), d: some(s + 6100, 3), g: some(s + 6200, 3), b: some(s + 6300, 3) } }
  }
  pure def event(op: str): Ev = { op: op, nbExt: 0, names: 0, points: [] }
  action grown(z: World, op: str): bool = all { w' = z, last' = event(op), k' = k + 1 }
  action init = all { w' = withId(empty(3, 0), bin("mul", cst(0), bin("sub", num(1), cst(0)))), last' = event("init"), k' = 0 }
  action step = {
    nondet a = 0.to(15).oneOf()
    nondet s = 0.to(2^48).oneOf()
    val h = k % 8
    if (h == 0) grown({ val z = empty(3, s) boolean(z, s) }, "empty")
    else if (h == 1) grown(grow(w, [10, 12, 13, a][s % 4], s), "grow")
    else if (h < 6) grown(grow(w, a, s), OPS[a])
    else {
      val nb = w.p.nb
      val ext = nb + 1 + s % 3
      pure def place(n: int, stride: int, q: int): int = [0, n - 1, n - stride, mix(q) % n][mix(q + 1) % 4]
      all { w' = w, k' = k + 1, last' = { op: "code", nbExt: ext, names: mix(s) % 6, points: [
        pointOf(w.p, "n", place(2^nb, 1, s), envOf(w.p, s, 1)),
        pointOf(w.p, "2ns", place(2^ext, 2^(ext - nb), s + 1), envOf(w.p, s + 10000, 1)),
        pointOf(w.p, "point", 0, envOf(w.p, s + 20000, 3)) ] } }
    }
  }
  // ---- the same meaning as pil.qnt: at the values of a row of the trace the expressions are the trace's
  pure def traceEnv(z: World, i: int): Env = {
    val n = rows(z)
    pure def cells(l: List[Col], j: int): List[E3] = l.foldl([], (o, c) => o.append(e3of(c[j % n])))
    val m = z.p.lookups.length() + z.p.perms.length() + z.p.conns.length()
    { ...envOf(z.p, 1, 1), cm: cells(z.p.cms, i), cmN: cells(z.p.cms, i + 1), k: cells(z.p.consts, i), kN: cells(z.p.consts, i + 1),
      pub: z.pubs.foldl([], (l, x) => l.append(e3of(x))) }
  }
  val inv = (last.op == "code") implies {
    val i = k % rows(w)
    val v = exprsAt(w.p, traceEnv(w, i)).here
    range(0, v.length()).foldl(true, (ok, j) => ok and v[j] == e3of(w.v[j][i]))
  }
}
