// -*- mode: Bluespec; -*-
/// C21. The JSON document of a STARK proof, and joining two documents.
/// A document is the set of its leaves: a key, the indices below it, and a number or the length of an array.
module proof_json {
  import gl.* from "./gl"
  type Path = List[int]
  /// a key, in pieces
  type Key = List[str]
  /// kind: 0 a number, 1 an array of n items, 2 an address
  type Leaf = { kind: int, n: int }
  type Doc = (Key, Path) -> Leaf
  /// an opening: the row and the siblings on the way
  type Opening = { row: List[int], path: List[Path] }
  type Proof = { hash: int, roots: List[Path], rootC: List[Path], evals: List[Path], publics: List[Path], last: List[Path],
                 trees: List[List[Opening]], layers: List[{ root: Path, open: List[Opening] }], addr: int }
  type Ev = { op: str, s: int, a: int, b: int }
  var proofs: List[Proof]
  var docs: List[Doc]
  /// the last document written
  var out: Doc
  var last: Ev
  var k: int

  // ---- the document
  pure val TREE: List[str] = ["1", "2", "3", "4", "C"]
  pure def digits(i: int): str = ["0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "10", "11", "12", "13", "14", "15", "16", "17"][i]
  pure def number(k: Key, at: Path, v: int): Set[((Key, Path), Leaf)] = Set(((k, at), { kind: 0, n: v }))
  pure def array(k: Key, at: Path, n: int): Set[((Key, Path), Leaf)] = Set(((k, at), { kind: 1, n: n }))
  pure def numbers(k: Key, at: Path, l: Path): Set[((Key, Path), Leaf)] =
    range(0, l.length()).foldl(array(k, at, l.length()), (o, i) => o.union(number(k, at.append(i), l[i])))
  /// a field element, or a digest: alone, or all its parts
  pure def element(k: Key, at: Path, e: Path): Set[((Key, Path), Leaf)] = if (e.length() == 1) number(k, at, e[0]) else numbers(k, at, e)
  pure def digest(k: Key, at: Path, d: Path): Set[((Key, Path), Leaf)] =
    element(k, at, if (d.length() == 4 and d[1] == 0 and d[2] == 0 and d[3] == 0) [d[0]] else d)
  pure def elements(k: Key, l: List[Path]): Set[((Key, Path), Leaf)] =
    range(0, l.length()).foldl(array(k, [], l.length()), (o, i) => o.union(element(k, [i], l[i])))
  pure def rowsOf(k: Key, o: List[Opening]): Set[((Key, Path), Leaf)] =
    range(0, o.length()).foldl(array(k, [], o.length()), (z, i) => z.union(numbers(k, [i], o[i].row)))
  pure def pathsOf(k: Key, o: List[Opening]): Set[((Key, Path), Leaf)] =
    range(0, o.length()).foldl(array(k, [], o.length()), (z, i) =>
      range(0, o[i].path.length()).foldl(z.union(array(k, [i], o[i].path.length())), (y, j) => y.union(numbers(k, [i, j], o[i].path[j]))))
  pure def docOf(p: Proof): Doc = {
    val roots = range(0, 4).foldl(Set(), (o, i) => o.union(digest(["root", TREE[i]], [], p.roots[i])))
    val consts = if (p.rootC.length() == 1) digest(["root", "C"], [], p.rootC[0]) else Set()
    val trees = range(0, 5).foldl(Set(), (o, t) =>
      // without queries the second and third trees are not mentioned
      if (p.trees[t].length() == 0 and (t == 1 or t == 2)) o
      else o.union(rowsOf(["s0_vals", TREE[t]], p.trees[t])).union(pathsOf(["s0_siblings", TREE[t]], p.trees[t])))
    val layers = range(0, p.layers.length()).foldl(Set(), (o, i) => {
      val s = ["s", digits(i + 1)]
      o.union(digest(s.append("_root"), [], p.layers[i].root)).union(rowsOf(s.append("_vals"), p.layers[i].open)).union(pathsOf(s.append("_siblings"), p.layers[i].open))
    })
    val addr = if (p.hash == 0) Set() else Set(((["proverAddr"], []), { kind: 2, n: p.addr }))
    setToMap(roots.union(consts).union(trees).union(layers).union(addr).union(elements(["evals"], p.evals)).union(elements(["publics"], p.publics)).union(elements(["finalPol"], p.last)))
  }
  /// all of the first under a_, all of the second under b_, the first's constant root, and its public values but
  /// the last four (the root constants of the circuit it proves), which are all of them when fewer than four
  pure def joined(a: Doc, b: Doc): Doc = {
    val n = if (a.keys().contains((["publics"], []))) a.get((["publics"], [])).n else 0
    val m = if (n >= 4) n - 4 else n
    val both = a.keys().map(x => ((["a_"].concat(x._1), x._2), a.get(x))).union(b.keys().map(x => ((["b_"].concat(x._1), x._2), b.get(x))))
    val consts = a.keys().filter(x => x._1 == ["root", "C"]).map(x => (x, a.get(x)))
    val publics = a.keys().filter(x => x._1 == ["publics"] and x._2.length() > 0 and x._2[0] < m).map(x => (x, a.get(x)))
      .union(a.keys().filter(x => x == (["publics"], [])).map(x => (x, { kind: 1, n: m })))
    setToMap(both.union(consts).union(publics))
  }

  // ---- and back
  pure def has(d: Doc, k: Key, at: Path): bool = d.keys().contains((k, at))
  pure def numbersIn(d: Doc, k: Key, at: Path): Path = range(0, d.get((k, at)).n).foldl([], (l, i) => l.append(d.get((k, at.append(i))).n))
  pure def elementIn(d: Doc, k: Key, at: Path): Path = if (d.get((k, at)).kind == 0) [d.get((k, at)).n] else numbersIn(d, k, at)
  pure def digestIn(d: Doc, h: int, k: Key): Path = { val e = elementIn(d, k, []) if (h == 0 and e.length() == 1) [e[0], 0, 0, 0] else e }
  pure def elementsIn(d: Doc, k: Key): List[Path] = range(0, d.get((k, [])).n).foldl([], (l, i) => l.append(elementIn(d, k, [i])))
  pure def openingsIn(d: Doc, v: Key, s: Key): List[Opening] =
    if (not(has(d, v, []))) [] else range(0, d.get((v, [])).n).foldl([], (l, i) => l.append({
      row: numbersIn(d, v, [i]), path: range(0, d.get((s, [i])).n).foldl([], (o, j) => o.append(numbersIn(d, s, [i, j]))) }))
  pure def proofIn(d: Doc, h: int): Proof = {
    val layers = range(1, 18).foldl([], (l, i) => {
      val s = ["s", digits(i)]
      if (has(d, s.append("_vals"), [])) l.append({ root: digestIn(d, h, s.append("_root")), open: openingsIn(d, s.append("_vals"), s.append("_siblings")) }) else l
    })
    { hash: h, roots: range(0, 4).foldl([], (l, i) => l.append(digestIn(d, h, ["root", TREE[i]]))),
      rootC: if (has(d, ["root", "C"], [])) [digestIn(d, h, ["root", "C"])] else [], evals: elementsIn(d, ["evals"]), publics: elementsIn(d, ["publics"]), last: elementsIn(d, ["finalPol"]),
      trees: range(0, 5).foldl([], (l, t) => l.append(openingsIn(d, ["s0_vals", TREE[t]], ["s0_siblings", TREE[t]]))), layers: layers,
      addr: if (has(d, ["proverAddr"], [])) d.get((["proverAddr"], [])).n else 0 }
  }

  // ---- proofs of every shape
  pure def num(s: int): int = { val m = mix(s) val j = mix(s + 77777) if (j % 5 == 0) [0, 1, P - 1, 2^32, 2^63][(j / 5) % 5] else m % P }
  /// a number of the big fields, its stored limbs all below p
  pure def big(s: int): int = if (mix(s) % 7 == 0) mix(s + 1) % 3 else felt(s, 1) + felt(s, 2) * 2^64 + felt(s, 3) * 2^128 + (felt(s, 4) / 2^4) * 2^192
  pure def node(h: int, s: int): Path = if (h > 0) [big(s)] else [num(s)].concat(if (mix(s + 9) % 5 == 0) [0, 0, 0] else if (mix(s + 9) % 5 == 1) [0, num(s + 2), 0] else [num(s + 1), num(s + 2), num(s + 3)])
  pure def list3(n: int, s: int): List[Path] = range(0, n).foldl([], (l, i) => l.append([num(s + 10 * i), if (mix(s + i) % 3 == 0) 0 else num(s + 10 * i + 1), if (mix(s + i) % 3 < 2) 0 else num(s + 10 * i + 2)]))
  pure def openings(h: int, q: int, w: int, depth: int, s: int): List[Opening] = range(0, q).foldl([], (l, i) => l.append({
    row: range(0, w).foldl([], (o, j) => o.append(num(s + 1000 * i + j))),
    path: range(0, depth).foldl([], (o, j) => o.append(range(0, if (h == 0) 4 else 16).foldl([], (y, c) =>
      if (h > 0 and c > 3) y.append(y[c % 4]) else y.append(if (h == 0) num(s + 1000 * i + 500 + 20 * j + c) else big(s + 1000 * i + 500 + 20 * j + c))))) }))
  pure def proof(s: int): Proof = {
    val h = mix(s) % 3
    val q = if (mix(s + 1) % 9 == 0) 0 else 1 + mix(s + 1) % 3
    val n = if (mix(s + 2) % 6 == 0) 9 + mix(s + 3) % 8 else mix(s + 3) % 4
    val few = if (n > 4) 1 else q
    { hash: h, roots: range(0, 4).foldl([], (l, i) => l.append(node(h, s + 100 * i + 10))), rootC: if (mix(s + 4) % 3 == 0) [] else [node(h, s + 500)],
      evals: list3(mix(s + 5) % 5, s + 600),
      publics: range(0, mix(s + 6) % 9).foldl([], (l, i) => l.append(if (mix(s + 7) % 4 == 0 and i % 2 == 1) [num(s + 700 + i), num(s + 701 + i), 0] else [num(s + 700 + i)])),
      last: list3(1 + mix(s + 8) % 4, s + 800),
      trees: range(0, 5).foldl([], (l, t) => l.append(openings(h, if (q == 0) 0 else few, if (t == 0 or t == 4) 1 + mix(s + t) % 3 else mix(s + t) % 4, mix(s + 10) % 3, s + 10000 * (t + 1)))),
      layers: range(0, n).foldl([], (l, i) => l.append({ root: node(h, s + 900 + 10 * i), open: openings(h, if (q == 0) 0 else few, 3 * (1 + mix(s + i) % 2), if (n > 4) i % 2 else mix(s + 20 + i) % 3, s + 100000 * (i + 1)) })),
      addr: if (h == 0) 0 else mix(s + 9) }
  }
  action init = all { proofs' = [proof(1)], docs' = [docOf(proof(1))], out' = docOf(proof(1)), last' = { op: "init", s: 0, a: 0, b: 0 }, k' = 0 }
  action step = {
    nondet s = 0.to(2^48).oneOf()
    val n = docs.length()
    val m = proofs.length()
    if (k % 4 < 2) { val p = proof(s) all { proofs' = [p], docs' = docs.append(docOf(p)).slice(if (n > 1) n - 1 else 0, n + 1), out' = docOf(p), last' = { op: "write", s: s, a: 0, b: 0 }, k' = k + 1 } }
    else {
      val a = s % n
      val b = (s / 2^20) % n
      val j = joined(docs[a], docs[b])
      // the next join may take what was joined
      all { proofs' = proofs, docs' = if (j.keys().size() < 400) docs.append(j) else docs, last' = { op: "join", s: s, a: a, b: b }, out' = j, k' = k + 1 }
    }
  }
  val inv = (last.op == "write") implies proofIn(out, proofs[0].hash) == proofs[0]
}
