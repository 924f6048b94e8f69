// -*- mode: Bluespec; -*-
/// C14. Digests (four 64-bit limbs, each below p) and number conversions, by positional notation.
/// Digests over a 256-bit field hold the limbs of v * 2^256 mod Q (the stored form of v).
module digest {
  type Ev = { op: str, f: str, v: int, l: List[int], q: int, out: int, outs: List[int], ok: bool }
  var last: Ev
  var k: int
  pure val P = 2^64 - 2^32 + 1
  pure val BN = 21888242871839275222246405745257275088548364400416034343698204186575808495617
  pure val BLS = 52435875175126190479447740508185965837690552500527637822603658699938581184513
  /// 2^-256 mod Q
  pure val IBN = inverse256(BN)
  pure val IBLS = inverse256(BLS)
  pure def halve(x: int, q: int): int = if (x % 2 == 0) x / 2 else (x + q) / 2
  pure def inverse256(q: int): int = range(0, 256).foldl(1, (x, i) => halve(x, q))
  pure def order(f: str): int = if (f == "bn128") BN else if (f == "bls12381") BLS else P
  pure def unstore(f: str, r: int): int = if (f == "bn128") (r * IBN) % BN else if (f == "bls12381") (r * IBLS) % BLS else r
  pure def store(f: str, v: int): int = (v * 2^256) % order(f)
  pure def limbs(v: int, n: int): List[int] = range(0, n).foldl([], (l, i) => l.append((v / 2^(64 * i)) % 2^64))
  pure def pos(l: List[int]): int = range(0, l.length()).foldl(0, (s, i) => s + l[i] * 2^(64 * i))
  pure def canonical(l: List[int]): bool = l.foldl(true, (ok, x) => ok and x < P)

  action emit(op: str, f: str, v: int, l: List[int], out: int, outs: List[int], ok: bool): bool = all {
    last' = { op: op, f: f, v: v, l: l, q: order(f), out: out, outs: outs, ok: ok },
    k' = k + 1,
  }
  action init = all { last' = { op: "init", f: "", v: 0, l: [], q: 0, out: 0, outs: [], ok: true }, k' = 0 }
  action initAt(n: int): bool = all { last' = { op: "init", f: "", v: 0, l: [], q: 0, out: 0, outs: [], ok: true }, k' = n }

  /// a field element as a digest: its stored limbs, if each is below p; text, back, and to the field again
  action scalar(f: str, v: int): bool =
    emit("scalar", f, v, [], v, limbs(store(f, v), 4), canonical(limbs(store(f, v), 4)))
  /// four elements as a digest, read as a stored number; out is the element it stands for when below the order
  action elements(f: str, l: List[int]): bool =
    emit("elements", f, pos(l), l, if (f == "gl") 0 else unstore(f, pos(l) % order(f)), [], f == "gl" or pos(l) < order(f))
  /// four elements as one number of the field
  action packed(f: str, l: List[int]): bool = emit("packed", f, 0, l, pos(l), [], pos(l) < order(f))
  /// four elements as a number mod the order, in stored form
  action mont(f: str, l: List[int]): bool =
    emit("mont", f, 0, l, 0, limbs(store(f, pos(l) % order(f)), 4), canonical(limbs(store(f, pos(l) % order(f)), 4)))
  action toBase(v: int): bool = emit("to_base", "gl", v, [], v % P, [], true)
  action big(f: str, v: int): bool = emit("big", f, v, [], v, [], true)
  action log2(v: int): bool =
    emit("log2", "gl", v, [], range(0, 32).foldl(0, (r, i) => if (v >= 2^i) i else r), [], true)
  action ks(n: int): bool = emit("ks", "gl", n, [], 0, range(0, n).foldl([], (l, i) =>
    l.append((if (i == 0) 1 else l[i - 1]) * 12275445934081160404 % P)), true)
  /// digests from text: a number, or a list of numbers
  action text(f: str, v: int): bool = emit("text", f, v, [], v, [], v < order(f) and (f == "gl" or canonical(limbs(store(f, v), 4))))
  action texts(f: str, l: List[int]): bool = emit("texts", f, 0, l, 0, l, l.length() == 4 and canonical(l))

  pure def mix(s: int, j: int): int = {
    val a = (s * 6364136223846793005 + j * 1442695040888963407 + 1013904223) % 2^64
    val b = (a * a / 2^41 + a * 2862933555777941757) % 2^64
    (b * b / 2^29 + b) % 2^64
  }
  pure val EDGE: List[int] = [0, 1, P - 1, P - 2, 2^32, 2^32 - 1, 2^63, P - 2^32, 0x30644e72e131a029, 0x73eda753299d7d48]
  pure def limb(s: int, j: int): int = {
    val m = mix(s, j)
    if (m % 3 == 0) EDGE[(m / 8) % EDGE.length()] else m % P
  }
  pure def four(s: int): List[int] =
    if (s % 7 == 0) [limb(s, 0), 0, 0, 0] else if (s % 7 == 1) [limb(s, 0), limb(s, 1), 0, 0]
    else if (s % 7 == 2) [0, 0, 0, limb(s, 3)] else if (s % 7 == 3) limbs(order(if (s % 2 == 0) "bn128" else "bls12381") + s % 5 - 2, 4).foldl([], (l, x) => l.append(x % P))
    else if (s % 7 == 4) [limb(s, 0), limb(s, 1), limb(s, 2), limb(s, 3) % 2^62] else [limb(s, 0), limb(s, 1), limb(s, 2), limb(s, 3)]
  pure def elem(f: str, s: int): int =
    if (s % 5 == 0) [0, 1, 2, order(f) - 1, order(f) - 2, 2^64 - 1, 2^64, P, 2^128, 2^192, 2^253 - 1, (order(f) - 1) / 2][(s / 64) % 12] % order(f)
    // a stored form with a limb that is no element
    else if (s % 5 == 1) unstore(f, pos(limbs(pos(four(s)), 4).replaceAt((s / 64) % 3, P + s % 2^31)) % order(f))
    else pos([mix(s, 0), mix(s, 1), mix(s, 2), mix(s, 3)]) % order(f)
  pure val F2 = ["bn128", "bls12381"]
  pure val F3 = ["gl", "bn128", "bls12381"]
  action one(a: int, s: int): bool =
    if (a % 11 == 0) scalar(F2[s % 2], elem(F2[s % 2], s / 2))
    else if (a % 11 == 1) elements(F3[s % 3], four(s / 3))
    else if (a % 11 == 2) packed(F2[s % 2], four(s / 2))
    else if (a % 11 == 3) mont(F2[s % 2], four(s / 2))
    else if (a % 11 == 4) toBase(if (s % 3 == 0) pos(four(s / 3)) else if (s % 3 == 1) mix(s, 0) else P - 1 + s % 4)
    else if (a % 11 == 5) big(F2[s % 2], elem(F2[s % 2], s / 2))
    else if (a % 11 == 6) log2(if (s % 2 == 0) 2^(s % 32) else 1 + mix(s, 0) % 2^(1 + s % 31))
    else if (a % 11 == 7) ks(1 + s % 40)
    else if (a % 11 == 8) { val f = F3[s % 3] text(f, if (s % 4 == 0) order(f) + s % 3 else if (s % 4 == 1) elem(f, s / 12) + order(f) else elem(f, s / 12) % order(f)) }
    else if (a % 11 == 9) texts(F3[s % 3], if (s % 5 == 0) four(s).slice(0, s % 4) else if (s % 5 == 1) four(s).append(s % P)
                               else if (s % 5 == 2) four(s).replaceAt(s % 4, P + s % 2^32) else four(s))
    else elements("gl", [limb(s, 0), if (s % 2 == 0) 0 else 1, if (s % 3 == 0) 0 else 1, if (s % 5 == 0) 0 else 1])
  action step = {
    nondet s = 0.to(2^60).oneOf()
    nondet a = 0.to(10).oneOf()
    one(a, s)
  }
  /// the multiplicative shifts keep the cosets of every power-of-two domain apart
  pure def pow(b: int, n: int): int = range(0, n).foldl(b, (x, i) => (x * x) % P)
  val inv = and {
    (store("bn128", IBN) == 1) and (store("bls12381", IBLS) == 1),
    if (last.op == "ks") last.outs.foldl(true, (ok, x) => ok and pow(x, 32) != 1) else true,
    if (last.op == "scalar") unstore(last.f, pos(last.outs)) == last.v else true,
  }
}
