// -*- mode: Bluespec; -*-
/// C16, C17, C21.  Programs grow (world.qnt); now and then a cell is overwritten.  At any point a proof is made: it must be
/// accepted when every relation holds on the trace, and never otherwise, and an accepted proof stops being accepted when
/// it is altered.
module stark {
  import gl.* from "./gl"
  import pil.* from "./pil"
  import world.* from "./world"
  /// `tall`: the trace is repeated 2^tall times.  FRI steps and hash: 0 Goldilocks, 1 BN128, 2 BLS12-381; `names`: how columns are named and grouped
  type Cfg = { tall: int, nbExt: int, steps: List[int], q: int, hash: int, names: int }
  type Alter = { what: str, a: int, b: int, c: int }
  /// `talk`: what the transcript absorbs ("draw": one challenge, "positions": the query positions)
  type Ev = { op: str, cfg: Cfg, sat: bool, broken: Set[str], alters: List[Alter], pubs: List[int], talk: List[str], circuits: List[str] }
  var w: World
  var last: Ev
  var k: int

  // ---- proofs
  pure def config(nb: int, s: int, big: bool): Cfg = {
    val ext = nb + 1 + mix(s) % 3
    val top = if (big and ext < 5) 5 else ext
    val st = range(1, top).foldl({ l: [top], s: s }, (q, b) => { l: if (mix(s + 3 * b) % 3 == 0) q.l.append(top - b) else q.l, s: s })
    { tall: 0, nbExt: top, steps: st.l, q: if (big) 8 + mix(s + 1) % 5 else 1 + mix(s + 1) % 6, hash: [0, 0, 0, 0, 1, 2][mix(s + 2) % 6], names: mix(s + 4) % 6 }
  }
  pure val KINDS = ["root1", "root2", "root3", "root4", "layer", "layer_swap", "eval", "eval_swap", "eval_drop", "public", "public_swap", "row", "row_swap",
                    "path", "fold_row", "fold_path", "last", "last_swap", "last_drop", "const_root", "root_swap", "query_drop", "last_double", "query_swap"]
  /// changes that one check alone can notice while the challenges stay: one coefficient of the last polynomial above the
  /// bound, another value at one queried position, one coordinate of the quotient's value
  pure val AIMED = ["last_degree", "last_one", "eval_pair"]
  pure def alterations(s: int): List[Alter] =
    range(0, 10).foldl([], (l, i) => l.append({ what: KINDS[mix(s + i) % KINDS.length()], a: mix(s + 10 + i), b: mix(s + 20 + i), c: 1 + mix(s + 30 + i) % (P - 1) }))
      .concat(range(0, 6).foldl([], (l, i) => l.append({ what: AIMED[i % 3], a: mix(s + 60 + i), b: mix(s + 70 + i), c: 1 + mix(s + 80 + i) % (P - 1) })))
  /// the conversation that prover and verifier imagine: every challenge follows everything committed before it
  pure def talk(c: Cfg): List[str] = {
    val front = ["publics", "root1", "draw", "draw", "root2", "draw", "draw", "root3", "draw", "root4", "draw", "evals", "draw", "draw"]
    val layers = range(1, c.steps.length()).foldl([], (l, _) => l.concat(["draw", "layer"]))
    front.concat(layers).concat(["draw", "last", "positions"])
  }
  /// circuits that verify the proof: alone, with a main component (for the root given in the text or as an input, or two
  /// proofs at once), or with an input that turns the checks on or off
  pure val CIRCUITS = ["plain", "main", "norm", "agg", "enable1", "enable0"]
  pure def circuits(s: int): List[str] = [CIRCUITS[mix(s + 50) % 6], CIRCUITS[(mix(s + 50) + 1 + mix(s + 51) % 5) % 6]]
  pure def event(op: str): Ev = { op: op, cfg: { tall: 0, nbExt: 0, steps: [], q: 0, hash: 0, names: 0 }, sat: true, broken: Set(), alters: [], pubs: [], talk: [], circuits: [] }
  action grown(z: World, op: str): bool = all { w' = z, last' = event(op), k' = k + 1 }
  action prove(s: int, alter: bool): bool = {
    val b = broken(w.p, w.v)
    val c0 = config(w.p.nb, s, alter)
    // behaviours from initMany have many queries
    val c = if (k >= 120000) { ...c0, q: 17 + mix(s + 7) % 70 } else c0
    all { w' = w, k' = k + 1, last' = { op: if (b != Set()) "prove_broken" else if (alter) "prove_alter" else "prove", cfg: c, sat: b == Set(), broken: b,
          alters: if (alter and b == Set()) alterations(s) else [], pubs: w.pubs, talk: talk(c), circuits: circuits(s) } }
  }
  action init = all { w' = withId(empty(3, 0), bin("mul", cst(0), bin("sub", num(1), cst(0)))), last' = event("init"), k' = 0 }
  action initMany = all { w' = withId(empty(3, 0), bin("mul", cst(0), bin("sub", num(1), cst(0)))), last' = event("init"), k' = 120000 }
  /// six growths, a proof, a proof to alter, a spoiled cell, its proof, and again from an empty program
  action step = {
    nondet a = 0.to(15).oneOf()
    nondet s = 0.to(2^48).oneOf()
    val h = k % 12
    if (h == 0) grown({ val z = empty(3 + s % 3, s) boolean(z, s) }, "empty")
    else if (h < 7) grown(grow(w, a, s), OPS[a])
    else if (h == 7) prove(s, false)
    else if (h == 8) prove(s, true)
    else if (h == 9) grown(spoil(w, s), "spoil")
    else if (h == 10) prove(s, false)
    else grown(spoil(w, s), "spoil")
  }
  // ---- tall traces: the columns repeated, so that the columns fill many blocks.  No relation may look at the absolute
  // row: the first-row column is not repeated and connections name cells
  pure def repeated(z: World, t: int): World = {
    pure def rep(c: Col): Col = range(0, 2^t).foldl([], (l, _) => l.concat(c))
    val p = { ...z.p, nb: z.p.nb + t, cms: z.p.cms.foldl([], (l, c) => l.append(rep(c))),
              consts: z.p.consts.foldl([], (l, c) => l.append(if (l.length() == 0) range(0, 2^(z.p.nb + t)).foldl([], (m, i) => m.append(if (i == 0) 1 else 0)) else rep(c))) }
    { ...z, p: p, v: valsOf(p), pubs: publicsOf(p) }
  }
  pure def tallConfig(nb: int, t: int, s: int): Cfg = {
    val top = nb + t + 1 + mix(s) % 2
    { tall: t, nbExt: top, steps: [top, top - 3 - mix(s + 1) % 3, 4 + mix(s + 2) % 4], q: 1 + mix(s + 3) % 8, hash: 0, names: mix(s + 4) % 6 }
  }
  action initTall(nb: int, t: int): bool = all { w' = { ...withId(empty(nb, 5), bin("mul", cst(0), bin("sub", num(1), cst(0)))), tall: t }, last' = event("init"), k' = 0 }
  action stepTall = {
    nondet a = 0.to(15).oneOf()
    nondet s = 0.to(2^48).oneOf()
    val y = { ...empty(w.p.nb, s), tall: w.tall }
    val h = k % 8
    if (h == 0) grown(boolean(withConst(y, column(rows(y), 0, s)), s), "empty")
    else if (h < 6) { val b = if (h == 1) 10 + a % 2 else if (h == 2) 12 else if (a == 13) 3 else a grown(grow(w, b, s), OPS[b]) }
    else if (h == 6) { val c = tallConfig(w.p.nb, w.tall, s) all { w' = w, k' = k + 1, last' = { ...event("prove"), cfg: c, pubs: w.pubs, talk: talk(c) } } }
    else { val b = { val r = repeated(w, 1) broken(r.p, r.v) } all { w' = w, k' = k + 1, last' = { ...event("repeats"), sat: b == Set(), broken: b } } }
  }
  val invTall = and {
    if (k % 8 >= 1) broken(w.p, w.v) == Set() else true,
    // repeating the columns keeps the relations
    last.op == "repeats" implies last.sat,
  }
  val inv = and {
    // growth preserves every relation
    if (k % 12 >= 1 and k % 12 <= 9) broken(w.p, w.v) == Set() else true,
    w.v == valsOf(w.p),
    w.pubs == publicsOf(w.p),
  }
}
