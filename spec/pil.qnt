// -*- mode: Bluespec; -*-
/// The meaning of a PIL program: columns of field elements, expressions over them (a row and the next, the last row's
/// next being the first), polynomial identities, inclusions, permutations, connections and public values.  Nothing
/// here knows about polynomials, challenges or proofs.
module pil {
  import gl.* from "./gl"
  type Col = List[int]
  /// a node of an expression in postfix order; `a` and `b` are earlier nodes of the same expression
  type Node = { op: str, a: int, b: int, v: int, nx: bool }
  type Expr = List[Node]
  /// expression numbers; -1 is no selector
  type Incl = { f: List[int], t: List[int], selF: int, selT: int }
  type Conn = { pols: List[int], conns: List[int] }
  type Public = { kind: str, pol: int, row: int }
  type Prog = {
    nb: int, consts: List[Col], cms: List[Col], exprs: List[Expr], ids: List[int],
    lookups: List[Incl], perms: List[Incl], conns: List[Conn], publics: List[Public],
  }

  // ---- expressions
  pure def nd(op: str, a: int, b: int, v: int, nx: bool): Node = { op: op, a: a, b: b, v: v, nx: nx }
  pure def leaf(op: str, v: int, nx: bool): Expr = [nd(op, 0, 0, v, nx)]
  pure def num(v: int): Expr = leaf("number", v, false)
  pure def cm(c: int): Expr = leaf("cm", c, false)
  pure def cmN(c: int): Expr = leaf("cm", c, true)
  pure def cst(c: int): Expr = leaf("const", c, false)
  pure def ex(c: int): Expr = leaf("exp", c, false)
  pure def bin(op: str, x: Expr, y: Expr): Expr = {
    val n = x.length()
    x.concat(y.foldl([], (l, d) => l.append({ ...d, a: d.a + n, b: d.b + n }))).append(nd(op, n - 1, n + y.length() - 1, 0, false))
  }
  pure def una(op: str, x: Expr, v: int): Expr = x.append(nd(op, x.length() - 1, 0, v, false))

  // ---- values
  pure def zip(f: (int, int) => int, a: Col, b: Col): Col = range(0, a.length()).foldl([], (l, i) => l.append(f(a[i], b[i])))
  pure def every(n: int, v: int): Col = range(0, n).foldl([], (l, _) => l.append(v))
  pure def rot(c: Col, nx: bool): Col = if (nx) c.slice(1, c.length()).append(c[0]) else c
  pure def canon(v: int): int = ((v % P) + P) % P
  pure def nodeCol(p: Prog, n: int, done: List[Col], pubs: List[int], c: List[Col], d: Node): Col =
    if (d.op == "cm") rot(p.cms[d.v], d.nx)
    else if (d.op == "const") rot(p.consts[d.v], d.nx)
    else if (d.op == "exp") rot(done[d.v], d.nx)
    else if (d.op == "number") every(n, canon(d.v))
    else if (d.op == "public") every(n, if (d.v < pubs.length()) pubs[d.v] else 0)
    else if (d.op == "add") zip(fadd, c[d.a], c[d.b])
    else if (d.op == "sub") zip(fsub, c[d.a], c[d.b])
    else if (d.op == "mul") zip(fmul, c[d.a], c[d.b])
    else if (d.op == "neg") zip((x, _) => fneg(x), c[d.a], c[d.a])
    else if (d.op == "addc") zip((x, _) => fadd(x, canon(d.v)), c[d.a], c[d.a])
    else zip((x, _) => fmul(x, canon(d.v)), c[d.a], c[d.a])
  pure def exprCol(p: Prog, done: List[Col], pubs: List[int], e: Expr): Col = {
    val n = 2^p.nb
    val c = e.foldl([], (l, d) => l.append(nodeCol(p, n, done, pubs, l, d)))
    c[c.length() - 1]
  }
  pure def exprCols(p: Prog, pubs: List[int]): List[Col] = p.exprs.foldl([], (done, e) => done.append(exprCol(p, done, pubs, e)))
  /// public values, from a column or from an expression that contains no public value
  pure def publicsOf(p: Prog): List[int] = {
    if (p.publics.length() == 0) [] else {
      val done = if (p.publics.select(x => x.kind == "imP").length() > 0) exprCols(p, []) else []
      p.publics.foldl([], (l, x) => l.append(if (x.kind == "cmP") p.cms[x.pol][x.row] else done[x.pol][x.row]))
    }
  }
  pure def valsOf(p: Prog): List[Col] = exprCols(p, publicsOf(p))

  // ---- what an expression is made of
  pure def mentions(es: List[Expr], e: Expr, f: Node => bool): bool = {
    val per = es.foldl([], (l, x) => l.append(x.foldl(false, (z, d) => z or f(d) or (d.op == "exp" and l[d.v]))))
    e.foldl(false, (z, d) => z or f(d) or (d.op == "exp" and per[d.v]))
  }
  pure def usesNext(es: List[Expr], e: Expr): bool = mentions(es, e, d => d.nx)
  pure def usesPublic(es: List[Expr], e: Expr): bool = mentions(es, e, d => d.op == "public")

  // ---- relations.  A row of an inclusion or permutation is the vector of its values under its selector; a row that
  // is not selected is the default row (0, …, 0, 1), on the left of an inclusion the row of the table beside it
  pure def row(vals: List[Col], l: List[int], i: int): List[int] = l.foldl([], (r, e) => r.append(vals[e][i]))
  pure def selected(r: List[int], s: int): List[int] = r.foldl([], (l, x) => l.append(fmul(x, s))).append(fsub(1, s))
  pure def tRow(vals: List[Col], x: Incl, i: int): List[int] =
    selected(row(vals, x.t, i), if (x.selT < 0) 1 else vals[x.selT][i])
  pure def fRowIn(vals: List[Col], x: Incl, i: int): List[int] = {
    val f = row(vals, x.f, i).append(0)
    if (x.selF < 0) f else {
      val t = tRow(vals, x, i)
      val s = vals[x.selF][i]
      range(0, f.length()).foldl([], (l, j) => l.append(fadd(fmul(s, fsub(f[j], t[j])), t[j])))
    }
  }
  pure def fRowPerm(vals: List[Col], x: Incl, i: int): List[int] =
    selected(row(vals, x.f, i), if (x.selF < 0) 1 else vals[x.selF][i])
  pure def included(n: int, vals: List[Col], x: Incl): bool = {
    val t = range(0, n).foldl(Set(), (z, i) => z.union(Set(tRow(vals, x, i))))
    range(0, n).foldl(true, (z, i) => z and t.contains(fRowIn(vals, x, i)))
  }
  /// the same rows the same number of times
  pure def sameBag(a: List[List[int]], b: List[List[int]]): bool = {
    val left = a.foldl({ rest: b, ok: true }, (z, r) =>
      if (not(z.ok)) z else {
        val at = range(0, z.rest.length()).foldl(-1, (k, i) => if (k < 0 and z.rest[i] == r) i else k)
        if (at < 0) { ...z, ok: false } else { rest: z.rest.slice(0, at).concat(z.rest.slice(at + 1, z.rest.length())), ok: true }
      })
    left.ok and left.rest.length() == 0
  }
  pure def permuted(n: int, vals: List[Col], x: Incl): bool =
    sameBag(range(0, n).foldl([], (l, i) => l.append(fRowPerm(vals, x, i))), range(0, n).foldl([], (l, i) => l.append(tRow(vals, x, i))))
  pure val KS = 12275445934081160404
  pure def omega(nb: int): int = fpow(fpow(7, 2^32 - 1), 2^(32 - nb))
  /// the label of row j of the i-th connected column
  pure def cellLabels(nb: int, m: int): List[Col] = {
    val w = omega(nb)
    range(0, m).foldl([], (l, i) => l.append(
      range(0, 2^nb).foldl({ x: fpow(KS, i), l: [] }, (z, _) => { x: fmul(z.x, w), l: z.l.append(z.x) }).l))
  }
  pure def connected(p: Prog, vals: List[Col], x: Conn): bool = {
    val n = 2^p.nb
    val m = x.pols.length()
    val lab = cellLabels(p.nb, m)
    val cells = range(0, m * n)
    sameBag(cells.foldl([], (l, q) => l.append([vals[x.pols[q / n]][q % n], lab[q / n][q % n]])),
            cells.foldl([], (l, q) => l.append([vals[x.pols[q / n]][q % n], vals[x.conns[q / n]][q % n]])))
  }
  /// the kinds of relations that do not hold
  pure def broken(p: Prog, vals: List[Col]): Set[str] = {
    val n = 2^p.nb
    val i = if (p.ids.foldl(true, (z, e) => z and vals[e].foldl(true, (y, v) => y and v == 0))) Set() else Set("identity")
    val l = if (p.lookups.foldl(true, (z, x) => z and included(n, vals, x))) Set() else Set("lookup")
    val m = if (p.perms.foldl(true, (z, x) => z and permuted(n, vals, x))) Set() else Set("permutation")
    val c = if (p.conns.foldl(true, (z, x) => z and connected(p, vals, x))) Set() else Set("connection")
    i.union(l).union(m).union(c)
  }
}
