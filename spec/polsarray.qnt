// -*- mode: Bluespec; -*-
/// C22. A set of columns declared by a PIL program: cells, lookup by name, the column file.
/// The file holds the rows in order, each with its columns in identifier order, eight bytes a cell.
module polsarray {
  import gl.* from "./gl"
  type Decl = { ns: str, name: str, kind: str, id: int, len: int, isArray: bool, elem: str }
  type Ev = { op: str, want: str, decls: List[Decl], n: int, ns: str, name: str, i: int, j: int, v: int, id: int, cut: int, ok: bool, cells: List[List[int]], file: List[int] }
  var decls: List[Decl]
  var want: str
  var cells: List[List[int]]
  var file: List[int]
  var last: Ev
  var k: int

  pure def mine(ds: List[Decl], kind: str): List[Decl] = ds.select(d => d.kind == kind)
  pure def total(ds: List[Decl], kind: str): int = mine(ds, kind).foldl(0, (s, d) => s + d.len)
  pure def rows(c: List[List[int]]): int = if (c.length() == 0) 0 else c[0].length()
  pure def flat(c: List[List[int]]): List[int] =
    range(0, rows(c)).foldl([], (l, r) => range(0, c.length()).foldl(l, (m, x) => m.append(c[x][r])))
  pure def unflat(f: List[int], cols: int): List[List[int]] =
    range(0, cols).foldl([], (l, x) => l.append(range(0, f.length() / cols).foldl([], (m, r) => m.append(f[r * cols + x]))))
  pure val NS = ["Main", "Global", "Arith", "M", "Main2"]
  pure val NM = ["a", "b", "pc", "free", "A", "a1", "L1", "ab"]
  pure val EL = ["field", "bool", "u16", "s64", ""]
  pure val EDGE: List[int] = [0, 1, P - 1, 2^63, 2^32, 255, 256, 2^32 - 1, 2^56]
  pure def cellv(s: int, j: int): int = if (mix(s + j) % 3 == 0) EDGE[mix(s + 7 * j) % 9] else felt(s, j)

  /// names are distinct; identifiers of each kind are assigned one after the other, in a
  /// shuffled order of declaration
  pure def declare(s: int): List[Decl] = {
    val m = 1 + s % 6
    range(0, m).foldl({ l: [], c: 0, f: 0, i: 0 }, (z, x) => {
      val r = mix(s + 101 * x)
      val kind = if (x == 0) "cmP" else if (x == 1) "constP" else ["cmP", "constP", "cmP", "imP"][r % 4]
      val len = if (r % 3 == 0) 1 + (r / 8) % 4 else 1
      val d = { ns: NS[(r / 64) % 5], name: NM[(x + s / 8) % 8], kind: kind, len: len,
                id: if (kind == "cmP") z.c else if (kind == "constP") z.f else z.i,
                isArray: r % 3 == 0, elem: EL[(r / 512) % 5] }
      { l: if (r % 2 == 0) z.l.append(d) else [d].concat(z.l),
        c: if (kind == "cmP") z.c + len else z.c, f: if (kind == "constP") z.f + len else z.f, i: if (kind == "imP") z.i + len else z.i }
    }).l
  }
  pure def zero(cols: int, n: int): List[List[int]] =
    range(0, cols).foldl([], (l, _) => l.append(range(0, n).foldl([], (m, _) => m.append(0))))
  pure val nothing: Ev = { op: "init", want: "cmP", decls: [], n: 0, ns: "", name: "", i: 0, j: 0, v: 0, id: 0, cut: 0, ok: true, cells: [], file: [] }
  pure val first: List[Decl] = [{ ns: "Main", name: "a", kind: "cmP", id: 0, len: 1, isArray: false, elem: "field" }]
  action init = all {
    decls' = first, want' = "cmP", cells' = [[0, 0]], file' = [0, 0], k' = 0,
    last' = { ...nothing, op: "new", decls: first, n: 2, cells: [[0, 0]] },
  }
  action make(s: int): bool = {
    val ds = declare(s)
    val w = if (total(ds, "constP") > 0 and s % 3 == 0) "constP" else "cmP"
    val n = 2^(s % 6)
    val z = zero(total(ds, w), n)
    all { decls' = ds, want' = w, cells' = z, file' = flat(z), k' = k + 1,
          last' = { ...nothing, op: "new", want: w, decls: ds, n: n, cells: z } }
  }
  /// an identifier that no reference declares: refused
  action hole(s: int): bool = {
    val ds = declare(s)
    val gap = ds.foldl([], (l, d) => l.append(if (d.kind == "cmP" and d.id + d.len == total(ds, "cmP")) { ...d, id: d.id + 1 } else d))
    all { decls' = decls, want' = want, cells' = cells, file' = file, k' = k + 1,
          last' = { ...nothing, op: "hole", want: "cmP", decls: gap, n: 2 } }
  }
  action same(e: Ev): bool = all { decls' = decls, want' = want, cells' = cells, file' = file, k' = k + 1, last' = e }
  pure def pick(ds: List[Decl], w: str, s: int): Decl = mine(ds, w)[s % mine(ds, w).length()]
  action setCell(s: int): bool = {
    val d = pick(decls, want, s)
    val i = (s / 8) % d.len
    val j = (s / 64) % rows(cells)
    val v = cellv(s, 0)
    val c = cells.replaceAt(d.id + i, cells[d.id + i].replaceAt(j, v))
    all { decls' = decls, want' = want, cells' = c, file' = file, k' = k + 1,
          last' = { ...nothing, op: "set", ns: d.ns, name: d.name, i: i, j: j, v: v, id: d.id + i, cells: c } }
  }
  action getCell(s: int): bool = {
    val d = pick(decls, want, s)
    val i = (s / 8) % d.len
    val j = (s / 64) % rows(cells)
    same({ ...nothing, op: "get", ns: d.ns, name: d.name, i: i, j: j, id: d.id + i, v: cells[d.id + i][j], cells: cells })
  }
  action save = all { decls' = decls, want' = want, cells' = cells, file' = flat(cells), k' = k + 1,
                      last' = { ...nothing, op: "save", cells: cells, file: flat(cells) } }
  /// some file of the right length
  action load(s: int): bool = {
    val f = if (s % 3 == 0) file else range(0, cells.length() * rows(cells)).foldl([], (l, j) => l.append(cellv(s, j)))
    all { decls' = decls, want' = want, cells' = unflat(f, cells.length()), file' = f, k' = k + 1,
          last' = { ...nothing, op: "load", file: f, cells: unflat(f, cells.length()) } }
  }
  /// bytes missing at the end, or a word that is no element: refused
  action loadBad(s: int): bool = {
    val f = flat(cells)
    same(if (s % 2 == 0) { ...nothing, op: "load_bad", file: f, cut: 1 + (s / 2) % (8 * f.length()), ok: false, cells: cells }
         else { ...nothing, op: "load_bad", file: f.replaceAt((s / 2) % f.length(), P + (s / 64) % (2^32 - 1)), ok: false, cells: cells })
  }
  action buffer = same({ ...nothing, op: "buffer", file: flat(cells), cells: cells })
  action step = {
    nondet a = 0.to(13).oneOf()
    nondet s = 0.to(2^48).oneOf()
    if (a < 2) make(s) else if (a == 2) hole(s) else if (a < 7) setCell(s) else if (a < 9) getCell(s) else if (a == 9) save
    else if (a < 12) load(s) else if (a == 12) loadBad(s) else buffer
  }
  /// a file larger than the transfer buffer; cell (c, r) is i + v c + j r mod p
  action stepLarge = {
    nondet a = 0.to(2^48).oneOf()
    nondet cols = Set(3, 7, 9).oneOf()
    val ds = [{ ns: "Main", name: "a", kind: "cmP", id: 0, len: cols, isArray: true, elem: "field" }]
    same({ ...nothing, op: "large", decls: ds, n: 2^25 / (if (cols == 3) 2 else 8), i: felt(a, 1), v: felt(a, 2), j: felt(a, 3),
           // bytes missing in the last transfer
           cut: 1 + a % 4000 })
  }
  val inv = and {
    unflat(flat(cells), cells.length()) == cells,
    cells.length() == total(decls, want),
    file.length() == cells.length() * rows(cells),
    // each column is reached by exactly one name and index
    range(0, cells.length()).foldl(true, (ok, c) => ok and mine(decls, want).select(d => d.id <= c and c < d.id + d.len).length() == 1),
  }
}
