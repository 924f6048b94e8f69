// -*- mode: Bluespec; -*-
/// C15. FRI over a script of challenges and query positions: a polynomial given by its coefficients, the layers it
/// folds into, the rows each query opens, and whether a verifier that sees them must accept.  Folding is stated on
/// coefficients; the implementation folds values.
module fri {
  import gl.* from "./gl"
  type El = List[int]
  /// bits of the degree bound and of the domain, bits of every layer, query positions, one challenge per step
  type Cfg = { nb: int, ext: int, steps: List[int], ys: List[int], chal: List[El], hash: int }
  type Alter = { what: str, a: int, b: int, c: int }
  /// `layers`: the values of every layer's polynomial; `open`: per layer and query, the values in the opened row
  type Ev = { op: str, cfg: Cfg, layers: List[List[El]], rows: List[List[List[El]]], ok: bool, alters: List[Alter] }
  var cfg: Cfg
  /// coefficients of the layers
  var polys: List[List[El]]
  var last: Ev
  var k: int

  pure val ZERO = [0, 0, 0]
  pure val SH = 49
  pure def bit(s: int, n: int): bool = (mix(s) / 2^n) % 2 == 1
  pure def root(bits: int): int = fpow(fpow(7, 2^32 - 1), 2^(32 - bits))
  pure def element(s: int, kind: int): El =
    if (kind == 0) [felt(s, 0), felt(s, 1), felt(s, 2)]
    else if (kind == 1) [felt(s, 0), 0, 0]
    else if (kind == 2) ZERO
    else [[0, 1, P - 1, 2^32][mix(s) % 4], [0, P - 1][mix(s + 1) % 2], [0, 1][mix(s + 2) % 2]]
  /// f folded by n at challenge a: the sums of n consecutive coefficients weighted by powers of a
  pure def folding(f: List[El], n: int, a: El): List[El] =
    range(0, (f.length() + n - 1) / n).foldl([], (l, m) => l.append(
      range(0, n).foldl(ZERO, (z, j) => {
        val i = m * n + (n - 1 - j)
        e3add(e3mul(z, a), if (i < f.length()) f[i] else ZERO)
      })))
  pure def fpows(b: int, n: int): List[int] = range(0, n).foldl({ x: 1, l: [] }, (z, _) => { x: fmul(z.x, b), l: z.l.append(z.x) }).l
  /// the values of f at sh, sh w, sh w^2, …
  pure def values(f: List[El], bits: int, sh: int): List[El] =
    fpows(root(bits), 2^bits).foldl([], (l, w) => {
      val x = fmul(sh, w)
      l.append(range(0, f.length()).foldl(ZERO, (z, i) => e3add(e3scale(z, x), f[f.length() - 1 - i])))
    })
  pure def shiftOf(c: Cfg, i: int): int = fpow(SH, 2^(c.steps[0] - c.steps[i]))
  /// polynomials of every layer, the first being the committed one
  pure def folded(c: Cfg, f: List[El]): List[List[El]] =
    range(1, c.steps.length()).foldl([f], (l, i) => l.append(folding(l[i - 1], 2^(c.steps[i - 1] - c.steps[i]), c.chal[i])))
  pure def layersOf(c: Cfg, ps: List[List[El]]): List[List[El]] =
    range(0, ps.length()).foldl([], (l, i) => l.append(values(ps[i], c.steps[i], shiftOf(c, i))))
  /// the values of layer i that query q opens: those that fold into one value of layer i + 1
  pure def opened(c: Cfg, ls: List[List[El]], i: int, q: int): List[El] = {
    val n = 2^c.steps[i + 1]
    range(0, 2^(c.steps[i] - c.steps[i + 1])).foldl([], (l, j) => l.append(ls[i][c.ys[q] % n + j * n]))
  }
  pure def rowsOf(c: Cfg, ls: List[List[El]]): List[List[List[El]]] =
    range(0, c.steps.length() - 1).foldl([], (l, i) => l.append(
      range(0, c.ys.length()).foldl([], (m, q) => m.append(opened(c, ls, i, q)))))
  /// coefficients the last layer may have
  pure def room(c: Cfg): int = {
    val b = c.steps[c.steps.length() - 1] - (c.ext - c.nb)
    if (b < 0) 1 else 2^b
  }
  pure def low(c: Cfg, f: List[El]): bool = range(0, f.length()).foldl(true, (z, i) => z and (i < room(c) or f[i] == ZERO))

  // ---- behaviours
  pure def config(s: int): Cfg = {
    val nb = 1 + mix(s) % 5
    val ext = nb + 1 + mix(s + 1) % 3
    val st = range(1, ext + 1).foldl([ext], (l, b) => if (mix(s + 3 * b) % 3 == 0) l.append(ext - b) else l)
    { nb: nb, ext: ext, steps: st,
      ys: range(0, if (mix(s + 9) % 9 == 0) 17 + mix(s + 2) % 48 else 1 + mix(s + 2) % 6).foldl([], (l, i) => l.append(if (bit(s + i, 4)) mix(s + 5 + i) % 2^ext else mix(s + 5 + i) % 2)),
      chal: st.foldl([], (l, b) => l.append(element(s + 100 * b, [0, 0, 0, 1, 3, 2][mix(s + 6) % 6]))),
      hash: [0, 0, 0, 1, 2][mix(s + 7) % 5] }
  }
  /// a polynomial within the bound, or with coefficients beyond it
  pure def poly(c: Cfg, s: int): List[El] = {
    val n = 2^c.nb
    val kind = [0, 0, 0, 1, 3][mix(s) % 5]
    val count = [n, n, n, 1, n - 1][mix(s + 1) % 5]
    range(0, count).foldl([], (l, i) => l.append(element(s + 7 * i, kind)))
  }
  pure def high(c: Cfg, s: int): List[El] = {
    val n = 2^c.nb
    val f = poly(c, s)
    // just beyond the bound, at the end, or full
    val at = [n, n, 2^c.ext - 1, n + mix(s + 3) % (2^c.ext - n)][mix(s + 4) % 4]
    val g = f.concat(range(f.length(), at).foldl([], (l, i) => l.append(if (bit(s, 5)) element(s + 11 * i, 0) else ZERO)))
    g.append(element(s + 99, [0, 1][mix(s + 5) % 2]))
  }
  pure val KINDS = ["root", "row", "row_swap", "path", "last", "last_swap", "last_shift", "last_drop", "last_double", "query_swap", "root_swap", "query_drop"]
  pure def alterations(s: int): List[Alter] =
    range(0, 8).foldl([], (l, i) => l.append({ what: KINDS[mix(s + i) % KINDS.length()], a: mix(s + 10 + i), b: mix(s + 20 + i), c: 1 + mix(s + 30 + i) % (P - 1) }))
  pure def event(op: str, c: Cfg): Ev = { op: op, cfg: c, layers: [], rows: [], ok: true, alters: [] }
  action says(op: str, c: Cfg, ps: List[List[El]], ok: bool, alters: List[Alter]): bool = {
    val ls = layersOf(c, ps)
    all { cfg' = c, polys' = ps, k' = k + 1, last' = { op: op, cfg: c, layers: ls, rows: rowsOf(c, ls), ok: ok, alters: alters } }
  }
  action honest(c: Cfg, s: int): bool = {
    val ps = folded(c, poly(c, s))
    says("honest", c, ps, true, if (bit(s, 7)) alterations(s) else [])
  }
  action beyond(c: Cfg, s: int): bool = {
    val ps = folded(c, high(c, s))
    says("beyond", c, ps, low(c, ps[ps.length() - 1]), [])
  }
  /// layer i is not the folding of the one before it, and the layers after it are its foldings
  action forged(c: Cfg, s: int): bool = {
    val f = poly(c, s)
    val i = 1 + mix(s + 40) % (c.steps.length() - 1)
    val ps = range(1, c.steps.length()).foldl([f], (l, j) => {
      val h = folding(l[j - 1], 2^(c.steps[j - 1] - c.steps[j]), c.chal[j])
      l.append(if (j == i) h.replaceAt(0, e3add(h[0], element(s + 41, [0, 1][mix(s + 42) % 2]))) else h)
    })
    says("forged", c, ps, false, [])
  }
  action init = all { cfg' = config(1), polys' = [], last' = event("init", config(1)), k' = 0 }
  action step = {
    nondet s = 0.to(2^48).oneOf()
    nondet a = 0.to(6).oneOf()
    val c = config(s)
    if (a < 4) honest(c, s) else if (a < 6 or c.steps.length() == 1) beyond(c, s) else forged(c, s)
  }
  // ---- the layers are what folding means on values: each value of layer i + 1 at y is sum_j a^j f_j(y), the f_j being
  // read off the opened values by interpolation
  pure def foldsTo(c: Cfg, ls: List[List[El]], i: int, g: int): bool = {
    val n = 2^(c.steps[i] - c.steps[i + 1])
    val row = range(0, n).foldl([], (l, j) => l.append(ls[i][g + j * 2^c.steps[i + 1]]))
    val z = root(c.steps[i] - c.steps[i + 1])
    val zi = finv(z)
    val x = finv(fmul(shiftOf(c, i), fpow(root(c.steps[i]), g)))
    // coefficient j of the interpolating polynomial times x^-j, by the inverse transform
    val sum = range(0, n).foldl({ a: e3of(1), x: 1, r: ZERO }, (q, j) => {
      val cj = range(0, n).foldl(ZERO, (y, m) => e3add(y, e3scale(row[m], fpow(zi, j * m))))
      { a: e3mul(q.a, c.chal[i + 1]), x: fmul(q.x, x), r: e3add(q.r, e3mul(q.a, e3scale(cj, q.x))) }
    }).r
    e3scale(sum, finv(n)) == ls[i + 1][g]
  }
  val inv =
    if (last.op == "honest" or last.op == "beyond")
      and {
        range(0, cfg.steps.length() - 1).foldl(true, (z, i) => z and foldsTo(cfg, last.layers, i, mix(k + i) % 2^cfg.steps[i + 1])),
        last.op == "honest" implies low(cfg, polys[polys.length() - 1]),
      }
    else if (last.op == "forged") not(range(0, cfg.steps.length() - 1).foldl(true, (z, i) => z and foldsTo(cfg, last.layers, i, 0)))
    else true
}
