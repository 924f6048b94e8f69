// -*- mode: Bluespec; -*-
/// C12 (gl) and C13 (bn128, bls12381): the Fiat-Shamir transcripts as sponges over permutation calls.
module transcript {
  const BG: bool
  const QQ: int
  const IX: int
  import hashes(BIG = BG, Q = QQ, IDX = IX).* from "./hashes"

  /// out: the terms returned (limb m of each, m = 3 for the whole word); pos: for each query position its
  /// bits, least significant first, as 512 * word + bit of `out`
  type Ev = { op: str, items: List[List[int]], n: int, bits: int, calls: List[Call],
              out: List[{ r: int, m: int }], pos: List[List[int]] }
  var last: Ev
  var k: int
  var dag: Dag
  var pending: List[int]
  var cap: List[int]
  /// unread output words, and the unread 64-bit parts of the last word taken (256-bit only)
  var words_: List[int]
  var parts: List[{ r: int, m: int }]

  type St = { dag: Dag, pending: List[int], cap: List[int], words: List[int], parts: List[{ r: int, m: int }],
              got: List[{ r: int, m: int }] }
  pure val RATE = if (BG) 16 else 8
  pure val OUTS = if (BG) range(0, 17) else range(0, 12)
  /// bits used of each word for query positions
  pure val USED = if (BG) 253 else 63

  pure def permute(s: St): St = {
    val r = call(s.dag, pad(s.pending, RATE), s.cap, OUTS)
    { dag: r.d, pending: [], cap: r.v.slice(0, if (BG) 1 else 4), words: r.v, parts: [], got: s.got }
  }
  pure def absorb(s: St, x: int): St = {
    val t = { ...s, words: [], parts: [], pending: s.pending.append(x) }
    if (t.pending.length() == RATE) permute(t) else t
  }
  pure def ready(s: St): St = if (s.words.length() == 0) permute(s) else s
  pure def word(s0: St): St = {
    val s = ready(s0)
    { ...s, words: s.words.tail(), got: s.got.append({ r: s.words[0], m: 3 }) }
  }
  pure def field1(s0: St): St =
    if (BG) {
      val s = if (s0.parts.length() > 0) s0 else {
        val t = ready(s0)
        { ...t, words: t.words.tail(), parts: range(0, 3).foldl([], (l, m) => l.append({ r: t.words[0], m: m })) }
      }
      { ...s, parts: s.parts.tail(), got: s.got.append(s.parts[0]) }
    } else word(s0)

  pure def cur(d: Dag, p: List[int], c: List[int], w: List[int], q: List[{ r: int, m: int }]): St =
    { dag: d, pending: p, cap: c, words: w, parts: q, got: [] }
  action become(s: St, op: str, items: List[List[int]], n: int, bits: int, pos: List[List[int]]): bool = all {
    last' = { op: op, items: items, n: n, bits: bits, pos: pos, out: s.got,
              calls: s.dag.calls.slice(dag.calls.length(), s.dag.calls.length()) },
    k' = k + 1,
    dag' = s.dag,
    pending' = s.pending,
    cap' = s.cap,
    words_' = s.words,
    parts' = s.parts,
  }
  action init = all {
    last' = { op: "init", items: [], n: 0, bits: 0, calls: [], out: [], pos: [] },
    k' = 0, dag' = noCalls, pending' = [], cap' = ZERO, words_' = [], parts' = [],
  }
  val now: St = cur(dag, pending, cap, words_, parts)
  /// Goldilocks: every value of every item; 256-bit: each item is one word, a value [x] or a digest [x, 1]
  action put_(items: List[List[int]]): bool = {
    val flat = items.foldl([], (l, i) => if (BG) l.append(i[0]) else l.concat(i))
    become(flat.foldl(now, (s, x) => absorb(s, x)), "put", items, 0, 0, [])
  }
  action challenge = become(field1(field1(field1(now))), "field", [], 0, 0, [])
  action single = become(field1(now), "single", [], 0, 0, [])
  action queries(n: int, bits: int): bool =
    become(range(0, ceilDiv(n * bits, USED)).foldl(now, (s, i) => word(s)), "queries", [], n, bits,
       range(0, n).foldl([], (l, i) => l.append(range(0, bits).foldl([], (m, j) =>
         m.append(512 * ((i * bits + j) / USED) + (i * bits + j) % USED)))))

  pure def digest(s: int): List[int] =
    if (BG) [pack([mix(s, 1), mix(s, 2), mix(s, 3), mix(s, 4)]) % QQ, 1] else range(0, 4).foldl([], (l, j) => l.append(value(s, j)))
  action step = {
    nondet a = 0.to(19).oneOf()
    nondet s = 0.to(2^60).oneOf()
    nondet n = 1.to(9).oneOf()
    nondet b = 1.to(24).oneOf()
    if (a <= 5) put_(range(0, n).foldl([], (l, j) => l.append([value(s, j)])))
    else if (a <= 7) put_([digest(s)])
    else if (a == 8) put_([[value(s, 0)], digest(s + 1), [value(s, 2)]])
    else if (a == 9) put_(range(0, RATE - pending.length()).foldl([], (l, j) => l.append([value(s, j)])))
    else if (a == 10) put_([])
    else if (a <= 13) challenge
    else if (a <= 16) single
    else if (a == 17) queries(n * n, b)
    else if (a == 18) queries(if (s % 3 == 0) 128 else n, if (s % 2 == 0) 1 + s % 4 else b)
    else put_(range(0, n * 4).foldl([], (l, j) => l.append([value(s, j)])))
  }
  /// everything absorbed is in the calls or pending, and no challenge is older than the last absorption
  val inv = and {
    pending.length() < RATE,
    if (last.op == "put" and last.items.length() > 0 and pending.length() > 0) words_ == [] and parts == [] else true,
    if (last.op == "queries") last.pos.length() == last.n else true,
    last.out.foldl(true, (ok, x) => ok and x.r < 0),
  }
}
module tr_gl { import transcript(BG = false, QQ = 2^64 - 2^32 + 1, IX = 0).* }
module tr_bn128 { import transcript(BG = true, QQ = 21888242871839275222246405745257275088548364400416034343698204186575808495617, IX = 0).* }
module tr_bls12381 { import transcript(BG = true, QQ = 52435875175126190479447740508185965837690552500527637822603658699938581184513, IX = 1).* }
