// -*- mode: Bluespec; -*-
/// C33.  A program is written down as PIL source: columns in any order and grouping, namespaces left and entered again,
/// named intermediate expressions before or after their uses, relations over names or over whole expressions.  Whatever
/// the order, the compiled program has the declared columns and the meaning (values of every expression, relations, public
/// values) of the program that was written down, and proofs for it are accepted exactly for traces that satisfy it.
module source {
  import gl.* from "./gl"
  import pil.* from "./pil"
  import world.* from "./world"
  /// a statement: the columns or expressions it declares (`arr`: as one array), the public or the relation it states
  /// (`inl`: over whole expressions rather than names of intermediates); `ns`: namespace; `gap`: lines before it
  type Item = { kind: str, ids: List[int], arr: bool, inl: bool, ns: int, gap: int }
  type Cfg = { tall: int, nbExt: int, steps: List[int], q: int, hash: int, names: int }
  /// `degs`: degrees of the expressions; `cms`, `consts`: columns in the order of their declarations; `rels`: the same of public
  /// values, identities, inclusions, permutations and connections
  type Ev = { op: str, plan: List[Item], degs: List[int], cms: List[int], consts: List[int],
              pubs: List[int], ids: List[int], lookups: List[int], perms: List[int], conns: List[int], vals: List[int],
              cfg: Cfg, sat: bool, named: bool, p: Prog }
  var w: World
  var last: Ev
  var k: int

  pure def stmt(kind: str, l: List[int], s: int): Item =
    { kind: kind, ids: l, arr: if (l.length() > 1) mix(s) % 3 > 0 else mix(s) % 5 == 0, inl: bit(s, 3), ns: mix(s + 1) % 4, gap: mix(s + 2) % 3 }
  /// a list of numbers cut into declarations of up to four
  pure def cut(kind: str, l: List[int], s: int): List[Item] =
    l.foldl({ o: [], left: l }, (q, x) =>
      if (q.left.length() == 0) q else {
        val n = [1, 1, 1, 2, 3, 4][mix(s + x) % 6]
        val m = if (n > q.left.length()) q.left.length() else n
        { o: q.o.append(stmt(kind, q.left.slice(0, m), s + 10 * x)), left: q.left.slice(m, q.left.length()) }
      }).o
  pure def singles(kind: str, n: int, s: int): List[Item] = range(0, n).foldl([], (o, i) => o.append(stmt(kind, [i], s + 10 * i)))
  pure def mixed(l: List[Item], s: int): List[Item] = shuffled(l.length(), s).foldl([], (o, i) => o.append(l[i]))
  pure def perm(n: int, s: int): List[int] = if (bit(s, 5)) range(0, n) else shuffled(n, s)
  pure def planOf(z: World, s: int): List[Item] = {
    val k0 = perm(z.p.consts.length() - 1, s + 2).foldl([], (o, i) => o.append(i + 1))
    val l = cut("cm", perm(z.p.cms.length(), s + 1), s + 100).concat(cut("const", k0, s + 200)).append({ ...stmt("const", [0], s + 3), arr: false, ns: 3 })
      .concat(cut("im", perm(z.p.exprs.length(), s + 4), s + 300))
      .concat(singles("public", z.p.publics.length(), s + 400)).concat(singles("id", z.p.ids.length(), s + 500)).concat(singles("lookup", z.p.lookups.length(), s + 600))
      .concat(singles("perm", z.p.perms.length(), s + 700)).concat(singles("conn", z.p.conns.length(), s + 800))
    if (bit(s, 7)) l else mixed(l, s + 5)
  }
  pure def stated(plan: List[Item], kind: str): List[int] = plan.foldl([], (o, x) => if (x.kind == kind) o.concat(x.ids) else o)
  /// the name of an intermediate is a linear factor, whatever it stands for
  pure def degree(e: Expr): int = {
    val l = e.foldl([], (o, d) => o.append(
      if (d.op == "cm" or d.op == "const" or d.op == "exp") 1 else if (d.op == "number" or d.op == "public") 0
      else if (d.op == "neg") o[d.a] else if (d.op == "mul") o[d.a] + o[d.b] else if (o[d.a] > o[d.b]) o[d.a] else o[d.b]))
    l[l.length() - 1]
  }
  pure val NOCFG: Cfg = { tall: 0, nbExt: 0, steps: [], q: 0, hash: 0, names: 0 }
  pure val NOTHING: Ev = { op: "init", plan: [], degs: [], cms: [], consts: [], pubs: [], ids: [], lookups: [], perms: [], conns: [], vals: [],
                           cfg: NOCFG, sat: true, named: false,
                           p: { nb: 0, consts: [], cms: [], exprs: [], ids: [], lookups: [], perms: [], conns: [], publics: [] } }
  pure def written(z: World, s: int, op: str): Ev = {
    val p = planOf(z, s)
    val q = stated(p, "public")
    { op: op, plan: p, degs: z.p.exprs.foldl([], (o, e) => o.append(degree(e))), cms: stated(p, "cm"), consts: stated(p, "const"), pubs: q,
      ids: stated(p, "id"), lookups: stated(p, "lookup"), perms: stated(p, "perm"), conns: stated(p, "conn"),
      vals: q.foldl([], (o, i) => o.append(z.pubs[i])), cfg: NOCFG, sat: true, named: bit(s, 11), p: z.p }
  }
  /// relations that need not hold, to be compiled only
  pure def anyOf(z: World, n: int, s: int): List[int] = range(0, n).foldl([], (o, i) => o.append(mix(s + i) % z.p.exprs.length()))
  pure def anySel(z: World, s: int): int = if (bit(s, 1)) -1 else mix(s + 1) % z.p.exprs.length()
  pure def anyIncl(z: World, s: int): Incl = {
    val n = 1 + mix(s) % 3
    { f: anyOf(z, n, s + 1), t: anyOf(z, n, s + 11), selF: anySel(z, s + 21), selT: anySel(z, s + 31) }
  }
  pure def loose(z: World, s: int): World = {
    val n = 1 + mix(s + 1) % 3
    { ...z, p: { ...z.p, lookups: if (bit(s, 1)) z.p.lookups.append(anyIncl(z, s + 100)) else z.p.lookups,
                 perms: if (bit(s, 2)) z.p.perms.append(anyIncl(z, s + 200)) else z.p.perms,
                 conns: if (bit(s, 3)) z.p.conns.append({ pols: anyOf(z, n, s + 300), conns: anyOf(z, n, s + 310) }) else z.p.conns,
                 ids: if (bit(s, 4)) z.p.ids.append(mix(s + 2) % z.p.exprs.length()) else z.p.ids } }
  }
  action grown(z: World, s: int): bool = all { w' = z, last' = written(loose(z, s + 7), s, "compile"), k' = k + 1 }
  action prove(s: int): bool = {
    val ext = w.p.nb + 1 + mix(s) % 2
    all { w' = w, k' = k + 1, last' = { ...written(w, s, "prove"), cfg: { tall: 0, nbExt: ext, steps: if (bit(s, 2)) [ext, 2] else [ext], q: 1 + mix(s + 1) % 4, hash: 0, names: 0 },
          sat: broken(w.p, w.v) == Set() } }
  }
  action init = all { w' = withId(empty(3, 0), bin("mul", cst(0), bin("sub", num(1), cst(0)))), last' = NOTHING, k' = 0 }
  action step = {
    nondet a = 0.to(15).oneOf()
    nondet s = 0.to(2^48).oneOf()
    val h = k % 11
    if (h == 0) grown({ val z = empty(3 + s % 2, s) boolean(z, s) }, s)
    else if (h < 8) grown(grow(w, a, s), s)
    else if (h == 8) prove(s)
    else if (h == 9) grown(spoil(w, s), s)
    else prove(s)
  }
  // ---- nothing is forgotten or said twice, products of at most two factors
  pure def all_(l: List[int], n: int): bool = l.length() == n and l.foldl(Set(), (z, i) => z.union(Set(i))) == 0.to(n - 1)
  val inv = (last.op != "init") implies and {
    all_(last.cms, w.p.cms.length()), all_(last.consts, w.p.consts.length()), all_(stated(last.plan, "im"), w.p.exprs.length()),
    all_(last.pubs, last.p.publics.length()), all_(last.ids, last.p.ids.length()), all_(last.lookups, last.p.lookups.length()),
    all_(last.perms, last.p.perms.length()), all_(last.conns, last.p.conns.length()),
    last.degs.foldl(true, (z, d) => z and d <= 2),
    last.vals == last.pubs.foldl([], (o, i) => o.append(publicsOf(w.p)[i])),
    w.v == valsOf(w.p),
  }
}
