// -*- mode: Bluespec; -*-
/// C10 (gl) and C11 (bn128, bls12381): Merkle trees over rows, their openings and what those bind.
module merkle {
  const BG: bool
  const QQ: int
  const IX: int
  import hashes(BIG = BG, Q = QQ, IDX = IX).* from "./hashes"

  type Path = List[List[int]]
  /// build: rows by pattern, the nodes in order.  open/check: index, row, path (terms), root (terms), ok
  type Ev = { op: str, h: int, w: int, pats: List[List[int]], rowOf: List[int], nodes: List[List[int]], calls: List[Call],
              i: int, row: List[int], path: Path, root: List[int], ok: bool, kind: int, workers: int }
  type Tree = { h: int, w: int, pats: List[List[int]], rowOf: List[int], levels: List[List[List[int]]] }
  var last: Ev
  var k: int
  var dag: Dag
  var tree: Tree

  pure val noTree: Tree = { h: 0, w: 0, pats: [], rowOf: [], levels: [] }
  pure val none: Ev = { op: "init", h: 0, w: 0, pats: [], rowOf: [], nodes: [], calls: [], i: 0, row: [], path: [], root: [],
                        ok: true, kind: 0, workers: 0 }
  /// log2 bound on the number of levels
  pure val DEPTH = range(0, 20)

  pure def padded(l: List[List[int]]): List[List[int]] =
    range(l.length(), ceilDiv(l.length(), ARITY) * ARITY).foldl(l, (r, i) => r.append(ZERO))
  type Lv = { d: Dag, levels: List[List[List[int]]], cur: List[List[int]] }
  pure def up(s: Lv): Lv =
    if (s.cur.length() <= 1) s else {
      val p = padded(s.cur)
      val n = range(0, p.length() / ARITY).foldl({ d: s.d, v: [] }, (r, i) => {
        val c = node(r.d, range(0, ARITY).foldl([], (g, e) => g.append(p[i * ARITY + e])))
        { d: c.d, v: r.v.append(c.v) }
      })
      { d: n.d, levels: s.levels.append(p), cur: n.v }
    }
  pure def build(d: Dag, h: int, w: int, pats: List[List[int]], rowOf: List[int]): { d: Dag, t: Tree } = {
    val ls = pats.foldl({ d: d, v: [] }, (r, p) => {
      val c = leaf(r.d, p)
      { d: c.d, v: r.v.append(c.v) }
    })
    val leaves = rowOf.foldl([], (l, p) => l.append(ls.v[p]))
    val top = DEPTH.foldl({ d: ls.d, levels: [], cur: leaves }, (s, i) => up(s))
    { d: top.d, t: { h: h, w: w, pats: pats, rowOf: rowOf, levels: top.levels.append(top.cur) } }
  }
  pure def rootOf(t: Tree): List[int] = t.levels[t.levels.length() - 1][0]
  /// the path of row i: Goldilocks the sibling of each level, 256-bit the whole group of sixteen
  pure def pathOf(t: Tree, i: int): Path =
    range(0, t.levels.length() - 1).foldl([], (p, l) => {
      val j = i / ARITY^l
      if (BG) p.append(range(0, 16).foldl([], (g, e) => g.append(t.levels[l][j - j % 16 + e][0])))
      else p.append(t.levels[l][if (j % 2 == 0) j + 1 else j - 1])
    })
  pure def climb(d: Dag, row: List[int], i: int, p: Path): Res =
    range(0, p.length()).foldl(leaf(d, row), (r, l) => {
      val e = (i / ARITY^l) % ARITY
      if (BG) call(r.d, p[l].replaceAt(e, r.v[0]), ZERO, [IX])
      else call(r.d, if (e == 0) r.v.concat(p[l]) else p[l].concat(r.v), ZERO, [0, 1, 2, 3])
    })

  /// the calls of a tree are kept with it; those of a check are its own, numbered after them
  action emit(e: Ev, d: Dag): bool = all {
    last' = { ...e, calls: d.calls.slice(dag.calls.length(), d.calls.length()) },
    k' = k + 1,
    dag' = dag,
    tree' = tree,
  }
  action init = all { last' = none, k' = 0, dag' = noCalls, tree' = noTree }
  pure def vals(s: int, n: int): List[int] = range(0, n).foldl([], (l, j) => l.append(value(s, j)))
  /// m = 0: every row different
  action make(h: int, w: int, s: int, m: int, workers: int): bool = {
    val pats = range(0, if (m == 0) h else m).foldl([], (l, i) => l.append(vals(s + 1000 * i, w)))
    val rowOf = range(0, h).foldl([], (l, i) => l.append(if (m == 0) i else (i * i / 7 + s) % m))
    val b = build(noCalls, h, w, pats, rowOf)
    all {
      last' = { ...none, calls: b.d.calls, op: "build", h: h, w: w, pats: pats, rowOf: rowOf, workers: workers,
           // a digest is its first term when it is the output of a call
           nodes: b.t.levels.foldl([], (l, v) => l.concat(v)).foldl([], (l, v) => l.append(if (v[0] < 0) [v[0]] else v)),
           root: rootOf(b.t) },
      k' = k + 1,
      dag' = b.d,
      tree' = b.t,
    }
  }
  action opening(i: int): bool =
    if (i >= tree.h) emit({ ...none, op: "open", i: i, ok: false }, dag)
    else emit({ ...none, op: "open", i: i, row: tree.pats[tree.rowOf[i]], path: pathOf(tree, i), root: rootOf(tree) }, dag)
  action check(kind: int, i: int, row: List[int], p: Path, root: List[int]): bool = {
    val c = climb(dag, row, i, p)
    emit({ ...none, op: "check", kind: kind, i: i, row: row, path: p, root: root, ok: c.v == root }, c.d)
  }
  action tamper(i: int, kind: int, s: int): bool = {
    val row = tree.pats[tree.rowOf[i]]
    val p = pathOf(tree, i)
    val r = rootOf(tree)
    val j = s % row.length()
    val o = (i + 1 + s % max(1, tree.h - 1)) % tree.h
    if (kind == 1) check(1, i, row.replaceAt(j, (row[j] + [1, 2^32, P - 1, 2^63][(s / 64) % 4]) % P), p, r)
    else if (kind == 2 and p.length() > 0) {
      val l = (s / 64) % p.length()
      val e = (s / 4096) % p[l].length()
      check(2, i, row, p.replaceAt(l, p[l].replaceAt(e, mix(s, 3))), r)
    }
    else if (kind == 3) check(3, o, row, p, r)
    else if (kind == 4) check(4, i, row, p, r.replaceAt(s % W, mix(s, 4)))
    else if (kind == 5) check(5, i, row, pathOf(tree, o), r)
    else if (kind == 6) check(6, i, tree.pats[tree.rowOf[o]], p, r)
    else if (kind == 7) check(7, i, row.replaceAt(0, row[row.length() - 1]).replaceAt(row.length() - 1, row[0]), p, r)
    else if (kind == 8 and p.length() > 0) check(8, i, row, p.slice(0, p.length() - 1), r)
    else if (kind == 9 and p.length() > 0) {
      val l = (s / 64) % p.length()
      check(9, i, row, p.replaceAt(l, p[(l + 1) % p.length()]), r)
    }
    else if (kind == 10 and p.length() > 0) {
      // two neighbouring values of a sibling exchanged
      val l = (s / 64) % p.length()
      val e = (s / 4096) % p[l].length()
      val f = (e + 1) % p[l].length()
      check(10, i, row, p.replaceAt(l, p[l].replaceAt(e, p[l][f]).replaceAt(f, p[l][e])), r)
    }
    else if (kind == 11 and p.length() > 0) {
      // one bit of the index
      val l = (s / 64) % p.length()
      val g = ARITY^l
      val e = (i / g) % ARITY
      check(11, i - e * g + ((e + 1 + s % (ARITY - 1)) % ARITY) * g, row, p, r)
    }
    else if (kind == 12 and BG and row.length() == 4) {
      // the row read as one number, plus or minus the order of the field
      val n = pack(row) + (if (pack(row) >= QQ) 0 - QQ else QQ)
      val y = range(0, 4).foldl([], (l, e) => l.append((n / 2^(64 * e)) % 2^64))
      if (n < 2^256 and y.foldl(true, (ok, x) => ok and x < P)) check(12, i, y, p, r) else check(0, i, row, p, r)
    }
    else check(0, i, row, p, r)
  }
  action step = {
    nondet s = 0.to(2^60).oneOf()
    nondet a = 0.to(24).oneOf()
    nondet h = 1.to(if (BG) 40 else 24).oneOf()
    nondet w = oneOf(Set(1, 2, 3, 4, 5,  7, 8, 9, 11, 12, 13, 16, 17, 49))
    if (tree.h == 0 or a == 0) make(if (s % 29 == 0) 257 + h else h, w, s, if (s % 29 == 0) 5 else if (s % 3 == 0) 3 else 0, 1 + s % 8)
    else {
      val i = s % tree.h
      if (a < 5) opening(if (s % 17 == 0) tree.h + s % 3 else i) else tamper(i, a - 5, s / 1024)
    }
  }
  /// tall trees of few distinct rows
  action initTall(h: int): bool = all { last' = none, k' = h, dag' = noCalls, tree' = noTree }
  action stepTall = {
    nondet s = 0.to(2^60).oneOf()
    if (tree.h == 0) make(k, if (k < 4000) 200 else 2 + s % 2, s, 4, 1 + s % 8)
    else {
      val i = if (s % 3 == 0) tree.h - 1 else if (s % 3 == 1 or tree.h > 65536 and k % 2 == 1) tree.h - 1 - s / 16 % 64 else s / 16 % tree.h
      if (k % 2 == 1) opening(i) else tamper(i, (s / 64) % 13, s / 1024)
    }
  }
  /// an altered opening binds: it verifies only where it is the same opening
  val inv = if (last.op == "check") {
      if (last.kind == 0) last.ok
      else if (last.kind == 1) not(last.ok)
      else if (last.kind == 3) last.ok implies tree.pats[tree.rowOf[last.i]] == last.row
      else if (last.kind == 4 or last.kind == 12) not(last.ok)
      else true
    }
    else if (last.op == "open" and last.ok) climb(dag, last.row, last.i, last.path).v == last.root
    else true
}
module mt_gl { import merkle(BG = false, QQ = 2^64 - 2^32 + 1, IX = 0).* }
module mt_bn128 { import merkle(BG = true, QQ = 21888242871839275222246405745257275088548364400416034343698204186575808495617, IX = 0).* }
module mt_bls12381 { import merkle(BG = true, QQ = 52435875175126190479447740508185965837690552500527637822603658699938581184513, IX = 1).* }
