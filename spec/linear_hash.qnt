// -*- mode: Bluespec; -*-
/// C08 (gl) and C09 (bn128, bls12381): the linear hashes.
module linear_hash {
  const BG: bool
  const QQ: int
  const IX: int
  import hashes(BIG = BG, Q = QQ, IDX = IX).* from "./hashes"

  type Ev = { op: str, xs: List[int], cols: int, bs: int, calls: List[Call], out: List[int] }
  var last: Ev
  var k: int

  action init = all {
    last' = { op: "init", xs: [], cols: 0, bs: 0, calls: [], out: [] },
    k' = 0,
  }
  action emit(op: str, xs: List[int], cols: int, bs: int, r: Res): bool = all {
    last' = { op: op, xs: xs, cols: cols, bs: bs, calls: r.d.calls, out: r.v },
    k' = k + 1,
  }
  action hash(xs: List[int], bs: int): bool = emit("hash", xs, 0, bs, batched(noCalls, xs, bs))
  action spongeOf(xs: List[int]): bool = emit("sponge", xs, 0, 0, sponge(noCalls, xs))
  action row(xs: List[int]): bool = emit("row", xs, 0, 0, rowBig(noCalls, xs))
  /// rows of `cols` values each: the same as the flat list
  action matrix(xs: List[int], cols: int, bs: int): bool =
    emit("matrix", xs, cols, bs, if (BIG) rowBig(noCalls, xs) else batched(noCalls, xs, bs))
  action nodeOf(xs: List[int]): bool = emit("node", xs, 0, 0, node(noCalls, xs.foldl([], (l, x) => l.append([x]))))

  pure def vals(s: int, n: int): List[int] = range(0, n).foldl([], (l, j) => l.append(value(s, j)))
  /// changes of one value, an exchange and one more or less value give another absorption sequence
  pure def absorbed(xs: List[int]): Res = if (BIG) rowBig(noCalls, xs) else batched(noCalls, xs, 0)

  action one(s: int, n: int, m: int): bool =
    if (BIG) {
      if (m % 4 == 0) matrix(vals(s, n), 1, 0)
      else if (m % 4 == 1) matrix(vals(s, 3 * ceilDiv(n, 3)), 3, 0)
      else if (m % 16 == 2) nodeOf(range(0, 16).foldl([], (l, j) => l.append(if ((m / 16) % 3 == 0) 0 else (pack([mix(s, j), mix(s, j + 50), mix(s, j + 99), mix(s, j + 77)]) % Q))))
      else row(vals(s, n))
    } else {
      val bs = [0, 0, 1, 2, 3, 4, 5, 7, 8, 9, 12, 16, n + 1, ceilDiv(n + 1, 2), 31][m % 15]
      if (m % 7 == 3) spongeOf(vals(s, n))
      else if (m % 7 == 4 and n > 0) {
        val c = 1 + (m / 128) % 7
        matrix(vals(s, c * ceilDiv(n, c)), c, bs)
      } else hash(vals(s, n), bs)
    }
  action step = {
    nondet s = 0.to(2^60).oneOf()
    nondet m = 0.to(2^20).oneOf()
    nondet n = 0.to(90).oneOf()
    if (m % 41 == 0) one(s, 100 + n * 5, m) else one(s, n, m)
  }
  /// systematic: every length 0.., both ways
  action initSweep(k0: int): bool = all {
    last' = { op: "init", xs: [], cols: 0, bs: 0, calls: [], out: [] },
    k' = k0,
  }
  action stepSweep = {
    val n = k / 2
    if (BIG) { if (k % 2 == 0) row(vals(k, n)) else matrix(vals(k, n), 1, 0) }
    else if (k % 2 == 0) hash(vals(k, n), 0) else spongeOf(vals(k, n))
  }
  /// binding of the absorption: an altered input is absorbed as a different call sequence
  pure def same(a: Res, b: Res): bool = a.d.calls == b.d.calls and a.v == b.v
  val inv = if (last.op == "init" or last.xs.length() == 0 or last.xs.length() > 90) true else {
    val xs = last.xs
    val n = xs.length()
    val i = last.bs % n
    val ys = xs.replaceAt(i, (xs[i] + 1) % P)
    val zs = if (n > 1 and xs[0] != xs[n - 1]) xs.replaceAt(0, xs[n - 1]).replaceAt(n - 1, xs[0]) else ys
    not(same(absorbed(xs), absorbed(ys))) and not(same(absorbed(xs), absorbed(zs)))
  }
}
module lh_gl { import linear_hash(BG = false, QQ = 2^64 - 2^32 + 1, IX = 0).* }
module lh_bn128 { import linear_hash(BG = true, QQ = 21888242871839275222246405745257275088548364400416034343698204186575808495617, IX = 0).* }
module lh_bls12381 { import linear_hash(BG = true, QQ = 52435875175126190479447740508185965837690552500527637822603658699938581184513, IX = 1).* }
