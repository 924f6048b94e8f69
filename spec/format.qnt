// -*- mode: Bluespec; -*-
/// The R1CS and witness file formats: systems as values, and their encoding as bytes
module format {
  import gl.* from "./gl"
  type Lc = List[List[int]]
  type Gate = { name: List[int], params: List[int] }
  type Use = { id: int, signals: List[int] }
  type Sys = {
    f: int, version: int, nWires: int, pubOut: int, pubIn: int, prvIn: int, labels: int,
    cons: List[List[Lc]], map: List[int], custom: bool, gates: List[Gate], uses: List[Use],
  }

  // ---- primes: 0 = BN254, 1 = BLS12-381, 2 = Goldilocks
  pure val ORDERS = [21888242871839275222246405745257275088548364400416034343698204186575808495617,
                     52435875175126190479447740508185965837690552500527637822603658699938581184513, P]
  pure val SIZES = [32, 32, 8]
  pure def le(v: int, n: int): List[int] = range(0, n).foldl({ v: v, l: [] }, (s, _) => { v: s.v / 256, l: s.l.append(s.v % 256) }).l
  pure def cat(l: List[List[int]]): List[int] = l.foldl([], (a, b) => a.concat(b))

  // ---- encoding
  pure def lcBytes(lc: Lc, f: int): List[int] =
    lc.foldl(le(lc.length(), 4), (a, t) => a.concat(le(t[0], 4)).concat(le(t[1], SIZES[f])))
  pure def headerBytes(s: Sys): List[int] =
    cat([le(SIZES[s.f], 4), le(ORDERS[s.f], SIZES[s.f]), le(s.nWires, 4), le(s.pubOut, 4), le(s.pubIn, 4), le(s.prvIn, 4),
         le(s.labels, 8), le(s.cons.length(), 4)])
  pure def consBytes(s: Sys): List[int] =
    s.cons.foldl([], (a, c) => a.concat(lcBytes(c[0], s.f)).concat(lcBytes(c[1], s.f)).concat(lcBytes(c[2], s.f)))
  pure def mapBytes(s: Sys): List[int] = s.map.foldl([], (a, w) => a.concat(le(w, 8)))
  pure def gatesBytes(s: Sys): List[int] =
    s.gates.foldl(le(s.gates.length(), 4), (a, g) =>
      g.params.foldl(a.concat(g.name).append(0).concat(le(g.params.length(), 4)), (b, p) => b.concat(le(p, SIZES[s.f]))))
  pure def usesBytes(s: Sys): List[int] =
    s.uses.foldl(le(s.uses.length(), 4), (a, u) =>
      u.signals.foldl(a.concat(le(u.id, 4)).concat(le(u.signals.length(), 4)), (b, w) => b.concat(le(w, 8))))
  type Sec = { t: int, b: List[int], n: int }
  pure def sec(t: int, b: List[int]): Sec = { t: t, b: b, n: b.length() }
  pure def secs(s: Sys): List[Sec] =
    [sec(1, headerBytes(s)), sec(2, consBytes(s)), sec(3, mapBytes(s))]
      .concat(if (s.custom) [sec(4, gatesBytes(s)), sec(5, usesBytes(s))] else [])
  pure def file(magic: List[int], version: int, count: int, l: List[Sec]): List[int] =
    l.foldl(cat([magic, le(version, 4), le(count, 4)]), (a, x) => a.concat(le(x.t, 4)).concat(le(x.n, 8)).concat(x.b))
  pure val R1CS = [0x72, 0x31, 0x63, 0x73]
  pure val WTNS = [119, 116, 110, 115]

  // ---- data
  pure def value(f: int, s: int): int = {
    val q = ORDERS[f]
    val r = mix(s)
    if (r % 3 == 0) [0, 1, 2, q - 1, q - 2, 2^32, 2^63, (q - 1) / 2, 255, 256][(r / 8) % 10] % q
    else (r + 2^64 * mix(s + 1) + 2^128 * mix(s + 2) + 2^192 * mix(s + 3)) % q
  }
}
