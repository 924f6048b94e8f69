// -*- mode: Bluespec; -*-
/// C06. The Goldilocks Poseidon permutation by its definition: width 12, x^7, 8 full and 22
/// partial rounds, circulant MDS matrix; the round constants are those of the published instance.
module gl_poseidon {
  import gl.* from "./gl"
  import gl_perm.* from "./gl_perm"
  type Ev = { op: str, inp: List[int], cap: List[int], outs: int, out: List[int] }
  var last: Ev
  var k: int

  pure val EDGE: List[int] = [0, 1, 2, 2^32 - 1, 2^32, 2^32 + 1, 2^63, (P - 1) / 2, P - 2, P - 1]
  pure def word(s: int, j: int): int =
    if (mix(s + 3 * j) % 4 == 0) EDGE[mix(s + j) % EDGE.length()] else felt(s, j)

  action init = all {
    last' = { op: "init", inp: [], cap: [], outs: 0, out: [] },
    k' = 0,
  }
  action hash(inp: List[int], cap: List[int], outs: int): bool = all {
    last' = { op: "hash", inp: inp, cap: cap, outs: outs, out: permute(inp.concat(cap)).slice(0, outs) },
    k' = k + 1,
  }
  pure def rep(n: int, v: int): List[int] = range(0, n).foldl([], (l, j) => l.append(v))
  /// inputs of another length than 8, capacities of another length than 4
  action refuse(n: int, c: int): bool = all {
    last' = { op: "refuse", inp: rep(n, 1), cap: rep(c, 2), outs: 4, out: [] },
    k' = k + 1,
  }
  action step = {
    nondet s = 0.to(2^60).oneOf()
    nondet o = 1.to(12).oneOf()
    nondet n = 0.to(16).oneOf()
    nondet c = 0.to(12).oneOf()
    if (k == 0) hash(rep(8, 0), rep(4, 0), 12)
    else if (k == 1) hash(rep(8, P - 1), rep(4, P - 1), 12)
    else if (k == 2) hash(range(1, 9), range(9, 13), 12)
    else if (k % 10 == 3 and not(n == 8 and c == 4)) refuse(n, c)
    // one word different from zero, at each position in turn
    else if (k % 4 == 0) hash(rep(8, 0).replaceAt(s % 8, word(s, 0)), rep(4, 0), o)
    else if (k % 4 == 1) hash(rep(8, 0), rep(4, 0).replaceAt(s % 4, word(s, 0)), o)
    else hash(range(0, 8).foldl([], (l, j) => l.append(word(s, j))), range(8, 12).foldl([], (l, j) => l.append(word(s, j))), o)
  }
  val inv = last.out.foldl(true, (ok, x) => ok and x >= 0 and x < P)
}
