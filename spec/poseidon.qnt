// -*- mode: Bluespec; -*-
/// C07. The Poseidon permutation by its definition (x^5, 8 full rounds, RP partial rounds),
/// over a prime field Q, at width T.  Constants come from the instances in spec/poseidon, which
/// tools/gen_poseidon.py derives with the Grain generator of the Poseidon paper.  Three instances:
/// BN128 and BLS12-381 (the paper's parameters, digest = element 0) and Neptune's (Cauchy matrix, its own
/// round numbers, digest = element 1), which is what the optimised BLS12-381 hash of the prover is.
module poseidon {
  const Q: int
  const T: int
  const RP: int
  /// which element of the final state is the digest
  const IDX: int
  const C: List[int]
  const M: List[int]
  type Ev = { op: str, init: int, inp: List[int], outs: int, out: List[int], one: int }
  var last: Ev
  var k: int

  pure def pow5(x: int): int = { val y = (x * x) % Q { val z = (y * y) % Q (z * x) % Q } }
  pure def round(s: List[int], i: int): List[int] = {
    val a = range(0, T).foldl([], (l, j) => {
      val x = (s[j] + C[i * T + j]) % Q
      l.append(if (j == 0 or i < 4 or i >= 4 + RP) pow5(x) else x)
    })
    range(0, T).foldl([], (l, r) => l.append(range(0, T).foldl(0, (x, j) => x + M[r * T + j] * a[j]) % Q))
  }
  pure def permute(s: List[int]): List[int] = range(0, RP + 8).foldl(s, (st, i) => round(st, i))

  pure val EDGE: List[int] = [0, 1, 2, 2^32, 2^64 - 1, 2^64, 2^128, Q - 1, Q - 2, (Q - 1) / 2, Q / 3]
  pure def word(s: int, j: int): int = {
    val a = (s * 6364136223846793005 + j * 1442695040888963407 + 1013904223) % 2^64
    val b = (a * a + s) % Q
    val c = (b * b * b + j * 7 + s) % Q
    if (c % 5 == 0) EDGE[(c / 16) % EDGE.length()] else (c * c + a) % Q
  }
  action init = all {
    last' = { op: "init", init: 0, inp: [], outs: 0, out: [], one: 0 },
    k' = 0,
  }
  action hash(i0: int, inp: List[int], outs: int): bool = {
    val f = permute([i0].concat(inp))
    all {
      last' = { op: "hash", init: i0, inp: inp, outs: outs, out: f.slice(0, outs), one: f[IDX] },
      k' = k + 1,
    }
  }
  /// k = 0: all zero; then boundary patterns; then random inputs
  action step = {
    nondet s = 0.to(2^60).oneOf()
    nondet o = 1.to(T).oneOf()
    val z = range(1, T).foldl([], (l, j) => l.append(0))
    if (k == 0) hash(0, z, T)
    else if (k == 1) hash(Q - 1, z.foldl([], (l, x) => l.append(Q - 1)), T)
    else if (k == 2) hash(1, z.replaceAt(T - 2, 1), 1)
    else hash(word(s, 0), range(1, T).foldl([], (l, j) => l.append(word(s, j))), o)
  }
  val inv = last.out.foldl(true, (ok, x) => ok and x >= 0 and x < Q)
}
