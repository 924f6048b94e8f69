// -*- mode: Bluespec; -*-
/// C16, C17, C18, C19, C20, C21.  Programs that grow column by column and relation by relation together with a trace that
/// satisfies them.
module world {
  import gl.* from "./gl"
  import pil.* from "./pil"
  type World = { p: Prog, v: List[Col], pubs: List[int], bools: List[int], tall: int }

  pure val NUMBERS = [0, 1, 2, -1, 3, 7, 2^32, 2^32 - 1, P - 1, P - 2, P, P + 5, -2^32, 2^63, 2^64 - 1, -(P - 1)]
  pure def bit(s: int, n: int): bool = (mix(s) / 2^n) % 2 == 1
  pure def among(l: List[int], s: int): int = l[mix(s) % l.length()]
  pure def rows(z: World): int = 2^z.p.nb

  // ---- data
  pure def column(n: int, kind: int, s: int): Col =
    if (kind == 0) range(0, n).foldl([], (l, i) => l.append(felt(s, i)))
    else if (kind == 1) range(0, n).foldl([], (l, i) => l.append(mix(s + i) % 2))
    else if (kind == 2) range(0, n).foldl([], (l, i) => l.append(mix(s + i) % 4))
    else if (kind == 3) every(n, felt(s, 0))
    else if (kind == 4) range(0, n).foldl([], (l, i) => l.append(i))
    else if (kind == 5) range(0, n).foldl([], (l, i) => l.append(if (i == mix(s) % n) 1 else 0))
    else if (kind == 6) range(0, n).foldl([], (l, i) => l.append((i + s) % 2))
    else every(n, 0)
  pure def withCm(z: World, c: Col): World = { ...z, p: { ...z.p, cms: z.p.cms.append(c) } }
  pure def withConst(z: World, c: Col): World = { ...z, p: { ...z.p, consts: z.p.consts.append(c) } }
  pure def withExpr(z: World, e: Expr): World =
    { ...z, p: { ...z.p, exprs: z.p.exprs.append(e) }, v: z.v.append(exprCol(z.p, z.v, z.pubs, e)) }
  pure def withId(z: World, e: Expr): World = { val y = withExpr(z, e) { ...y, p: { ...y.p, ids: y.p.ids.append(y.p.exprs.length() - 1) } } }
  /// the number of the newest column or expression
  pure def newCm(z: World): int = z.p.cms.length() - 1
  pure def newConst(z: World): int = z.p.consts.length() - 1
  pure def newExpr(z: World): int = z.p.exprs.length() - 1

  pure def empty(nb: int, s: int): World = {
    val n = 2^nb
    { p: { nb: nb, consts: [column(n, 5, 0).foldl([], (l, _) => l.append(if (l.length() == 0) 1 else 0)),
                            range(0, n).foldl([], (l, i) => l.append(if (i == n - 1) 1 else 0))],
           cms: [column(n, 0, s), column(n, 1, s)],
           exprs: [], ids: [], lookups: [], perms: [], conns: [], publics: [] }, v: [], pubs: [], bools: [1], tall: 0 }
  }

  // ---- expressions as the PIL compiler emits them: at most one product of two linear factors each
  pure def term(z: World, s: int, nxt: bool): Expr = {
    val a = mix(s) % 10
    val nx = nxt and bit(s, 9)
    if (a < 4) leaf("cm", mix(s + 1) % z.p.cms.length(), nx)
    else if (a < 6) leaf("const", if (z.tall > 0) 1 + mix(s + 1) % (z.p.consts.length() - 1) else mix(s + 1) % z.p.consts.length(), nx)
    else if (a < 8 and z.p.exprs.length() > 0) {
      val e = mix(s + 1) % z.p.exprs.length()
      if (usesNext(z.p.exprs, z.p.exprs[e])) (if (nxt) leaf("exp", e, false) else leaf("cm", 0, false)) else leaf("exp", e, nx)
    } else if (a == 8 and z.pubs.length() > 0) leaf("public", mix(s + 1) % z.pubs.length(), false)
    else num(among(NUMBERS, s + 1))
  }
  pure def sum(z: World, s: int, nxt: bool): Expr = {
    val a = mix(s) % 5
    if (a < 2) term(z, s + 1, nxt)
    else if (a == 2) bin("add", term(z, s + 1, nxt), term(z, s + 2, nxt))
    else if (a == 3) bin("sub", term(z, s + 1, nxt), term(z, s + 2, nxt))
    else bin("sub", bin("add", term(z, s + 1, nxt), term(z, s + 2, nxt)), term(z, s + 3, nxt))
  }
  pure def random(z: World, s: int, nxt: bool): Expr = {
    val a = mix(s) % 8
    if (a == 0) sum(z, s + 10, nxt)
    else if (a == 1) bin("mul", sum(z, s + 10, nxt), sum(z, s + 20, nxt))
    else if (a == 2) bin("sub", term(z, s + 10, nxt), bin("mul", sum(z, s + 20, nxt), term(z, s + 30, nxt)))
    else if (a == 3) una("neg", bin("mul", sum(z, s + 10, nxt), term(z, s + 20, nxt)), 0)
    else if (a == 4) bin("add", bin("mul", term(z, s + 10, nxt), num(among(NUMBERS, s))), bin("mul", term(z, s + 20, nxt), term(z, s + 30, nxt)))
    else if (a == 5) bin("add", bin("mul", num(among(NUMBERS, s)), sum(z, s + 10, nxt)), una("neg", term(z, s + 20, nxt), 0))
    else if (a == 6) bin("mul", bin("sub", num(1), term(z, s + 10, nxt)), term(z, s + 20, nxt))
    else bin("add", bin("mul", sum(z, s + 10, nxt), sum(z, s + 20, nxt)), sum(z, s + 30, nxt))
  }
  /// an expression number with the given values: a new column, or a sum of a new column and another
  pure def asExpr(z: World, c: Col, s: int): World = {
    if (bit(s, 3) and z.p.cms.length() > 2) {
      val o = mix(s + 1) % z.p.cms.length()
      val y = withCm(z, zip(fsub, c, z.p.cms[o]))
      withExpr(y, bin("add", cm(newCm(y)), cm(o)))
    } else { val y = withCm(z, c) withExpr(y, cm(newCm(y))) }
  }

  // ---- growth: every operation keeps all relations true
  pure def define(z: World, s: int): World = {
    val y = withExpr(z, random(z, s, true))
    val x = withCm(y, y.v[newExpr(y)])
    withId(x, if (bit(s, 40)) bin("sub", cm(newCm(x)), ex(newExpr(x))) else bin("sub", ex(newExpr(x)), cm(newCm(x))))
  }
  pure def recur(z: World, s: int): World = {
    val n = rows(z)
    val x = mix(s + 1) % z.p.cms.length()
    val q = mix(s + 2) % z.p.cms.length()
    val a = mix(s + 3) % 4
    val c = range(1, n).foldl([felt(s, 0)], (l, i) => {
      val o = l[i - 1]
      val u = z.p.cms[x][i - 1]
      val t = z.p.cms[q][i - 1]
      l.append(if (a == 0) fadd(o, u) else if (a == 1) fadd(fmul(o, o), u) else if (a == 2) fadd(fmul(o, u), t) else fsub(fmul(3, o), t))
    })
    val y = withCm(z, c)
    val m = newCm(y)
    val e = if (a == 0) bin("add", cm(m), cm(x)) else if (a == 1) bin("add", bin("mul", cm(m), cm(m)), cm(x))
            else if (a == 2) bin("add", bin("mul", cm(m), cm(x)), cm(q)) else bin("sub", bin("mul", num(3), cm(m)), cm(q))
    val y2 = withExpr(y, e)
    withId(y2, bin("mul", bin("sub", num(1), cst(1)), bin("sub", cmN(m), ex(newExpr(y2)))))
  }
  pure def boolean(z: World, s: int): World = {
    val y = withCm(z, column(rows(z), 1, s))
    val m = newCm(y)
    withId({ ...y, bools: y.bools.append(m) }, if (bit(s, 1)) bin("mul", cm(m), bin("sub", num(1), cm(m))) else bin("sub", bin("mul", cm(m), cm(m)), cm(m)))
  }
  /// equal to another column wherever a selector is one
  pure def gated(z: World, s: int): World = {
    val b = among(z.bools, s)
    val x = mix(s + 1) % z.p.cms.length()
    val y = withCm(z, range(0, rows(z)).foldl([], (l, i) => l.append(if (z.p.cms[b][i] == 1) z.p.cms[x][i] else felt(s, i))))
    withId(y, bin("mul", cm(b), bin("sub", cm(newCm(y)), cm(x))))
  }
  /// a selector with at least one row selected: its expression
  pure def selector(z: World, s: int): World = {
    val c = column(rows(z), 1, s)
    val y = withCm(z, c.replaceAt(mix(s + 1) % rows(z), 1))
    withExpr(y, cm(newCm(y)))
  }
  pure def at(l: List[bool], i: int): int = range(0, l.length()).foldl(-1, (r, j) => if (r >= 0) r else if (l[(i + j) % l.length()]) (i + j) % l.length() else -1)
  pure def lookup(z: World, s: int): World = {
    val n = rows(z)
    val m = 1 + mix(s) % 3
    // the table: constants, columns or expressions
    val t = range(0, m).foldl({ z: z, t: [] }, (q, j) => {
      val h = s + 100 * j
      val a = mix(h + 1) % 4
      val y = if (a == 0) { val c = withConst(q.z, column(n, [4, 0, 2][mix(h) % 3], h)) withExpr(c, cst(newConst(c))) }
              else if (a == 1) withExpr(q.z, cm(mix(h + 2) % z.p.cms.length()))
              else if (a == 2) asExpr(q.z, column(n, [2, 0][mix(h) % 2], h), h)
              else withExpr(q.z, random(q.z, h, false))
      { z: y, t: q.t.append(newExpr(y)) }
    })
    val useT = mix(s + 7) % 3 == 0
    val useF = mix(s + 8) % 3 == 0
    val y1 = if (useT) selector(t.z, s + 9) else t.z
    val sT = if (useT) newExpr(y1) else -1
    val ok = range(0, n).foldl([], (l, i) => l.append(not(useT) or y1.v[sT][i] == 1))
    val y2 = if (useF) selector(y1, s + 10) else y1
    val sF = if (useF) newExpr(y2) else -1
    val few = 1 + mix(s + 11) % n
    val from = range(0, n).foldl([], (l, i) => l.append(at(ok, mix(s + 12 + mix(s + i) % few) % n)))
    val f = range(0, m).foldl({ z: y2, f: [] }, (q, j) => {
      val c = range(0, n).foldl([], (l, i) => l.append(if (useF and y2.v[sF][i] == 0) felt(s + j, i) else y2.v[t.t[j]][from[i]]))
      val y = asExpr(q.z, c, s + 30 + j)
      { z: y, f: q.f.append(newExpr(y)) }
    })
    { ...f.z, p: { ...f.z.p, lookups: f.z.p.lookups.append({ f: f.f, t: t.t, selF: sF, selT: sT }) } }
  }
  pure def shuffled(n: int, s: int): List[int] =
    range(0, n).foldl({ from: range(0, n), l: [] }, (q, i) => {
      val j = mix(s + i) % q.from.length()
      { from: q.from.slice(0, j).concat(q.from.slice(j + 1, q.from.length())), l: q.l.append(q.from[j]) }
    }).l
  pure def permutation(z: World, s: int): World = {
    val n = rows(z)
    val m = 1 + mix(s) % 3
    val o = shuffled(n, s + 1)
    val f = range(0, m).foldl({ z: z, f: [] }, (q, j) => {
      val h = s + 100 * j
      val y = if (bit(h, 1)) withExpr(q.z, random(q.z, h, true)) else asExpr(q.z, column(n, [2, 0, 1][mix(h) % 3], h), h)
      { z: y, f: q.f.append(newExpr(y)) }
    })
    val sel = mix(s + 7) % 2 == 0
    val y1 = if (sel) selector(f.z, s + 8) else f.z
    val sF = if (sel) newExpr(y1) else -1
    val y2 = if (sel) asExpr(y1, range(0, n).foldl([], (l, i) => l.append(y1.v[sF][o[i]])), s + 9) else y1
    val sT = if (sel) newExpr(y2) else -1
    val t = range(0, m).foldl({ z: y2, t: [] }, (q, j) => {
      val c = range(0, n).foldl([], (l, i) => l.append(if (sel and y2.v[sT][i] == 0) felt(s + j, i) else y2.v[f.f[j]][o[i]]))
      val y = asExpr(q.z, c, s + 30 + j)
      { z: y, t: q.t.append(newExpr(y)) }
    })
    { ...t.z, p: { ...t.z.p, perms: t.z.p.perms.append({ f: f.f, t: t.t, selF: sF, selT: sT }) } }
  }
  /// cells of equal value are joined in cycles
  pure def connection(z: World, s: int): World = {
    val n = rows(z)
    val m = 1 + mix(s) % 3
    val q0 = range(0, m).foldl({ z: z, l: [] }, (q, j) => {
      val y = asExpr(q.z, column(n, [1, 2, 2, 7][mix(s + j) % 4], s + j), s + 50 + j)
      { z: y, l: q.l.append(newExpr(y)) }
    })
    val cell = range(0, m * n).foldl([], (l, c) => l.append(q0.z.v[q0.l[c / n]][c % n]))
    // each class is split by a random colour, so that equal cells need not be joined
    val class = range(0, m * n).foldl([], (l, c) => l.append((cell[c] + 2^64 * (if (bit(s + 60, 0)) mix(s + 61 + c) % 3 else 0))))
    val to_ = range(0, m * n).foldl([], (l, c) => l.append(range(1, m * n + 1).foldl(-1, (r, d) => if (r < 0 and class[(c + d) % (m * n)] == class[c]) (c + d) % (m * n) else r)))
    val lab = cellLabels(z.p.nb, m)
    val q1 = range(0, m).foldl({ z: q0.z, l: [] }, (q, j) => {
      val c = range(0, n).foldl([], (l, i) => l.append({ val d = to_[j * n + i] lab[d / n][d % n] }))
      val y = withConst(q.z, c)
      val x = withExpr(y, cst(newConst(y)))
      { z: x, l: q.l.append(newExpr(x)) }
    })
    { ...q1.z, p: { ...q1.z.p, conns: q1.z.p.conns.append({ pols: q0.l, conns: q1.l }) } }
  }
  pure def publish(z: World, s: int): World = {
    val n = rows(z)
    val r = [0, n - 1, mix(s) % n][mix(s + 1) % 3]
    val y0 = withConst(z, range(0, n).foldl([], (l, i) => l.append(if (i == r) 1 else 0)))
    val c = newConst(y0)
    val j = z.publics()
    if (bit(s, 5)) {
      val m = mix(s + 2) % z.p.cms.length()
      val y = { ...y0, p: { ...y0.p, publics: y0.p.publics.append({ kind: "cmP", pol: m, row: r }) }, pubs: y0.pubs.append(z.p.cms[m][r]) }
      withId(y, bin("mul", cst(c), bin("sub", cm(m), leaf("public", j, false))))
    } else {
      val e = random(z, s + 3, true)
      val y1 = withExpr(y0, if (usesPublic(z.p.exprs, e)) bin("add", cm(0), cmN(1)) else e)
      val y = { ...y1, p: { ...y1.p, publics: y1.p.publics.append({ kind: "imP", pol: newExpr(y1), row: r }) }, pubs: y1.pubs.append(y1.v[newExpr(y1)][r]) }
      withId(y, bin("mul", cst(c), bin("sub", ex(newExpr(y)), leaf("public", j, false))))
    }
  }
  pure def publics(z: World): int = z.pubs.length()
  pure def data(z: World, s: int): World =
    if (bit(s, 2)) withCm(z, column(rows(z), mix(s) % 8, s)) else withConst(z, column(rows(z), mix(s) % 8, s))
  pure val OPS = ["data", "data", "define", "define", "define", "define", "recur", "recur", "boolean", "gated", "lookup", "lookup", "permutation", "connection", "publish", "publish"]
  pure def grow(z: World, a: int, s: int): World =
    if (a < 2) data(z, s) else if (a < 6) define(z, s) else if (a < 8) recur(z, s) else if (a == 8) boolean(z, s) else if (a == 9) gated(z, s)
    else if (a < 12) lookup(z, s) else if (a == 12) permutation(z, s) else if (a == 13) connection(z, s) else publish(z, s)
  /// one cell overwritten
  pure def spoil(z: World, s: int): World = {
    val c = mix(s) % z.p.cms.length()
    val r = [0, rows(z) - 1, mix(s + 1) % rows(z), mix(s + 1) % rows(z)][mix(s + 2) % 4]
    val o = z.p.cms[c]
    val v = [fadd(o[r], 1), felt(s, 9), o[(r + 1) % rows(z)], fsub(1, o[r])][mix(s + 3) % 4]
    val p = { ...z.p, cms: z.p.cms.replaceAt(c, o.replaceAt(r, v)) }
    { ...z, p: p, v: valsOf(p), pubs: publicsOf(p) }
  }
}
