// -*- mode: Bluespec; -*-
/// Hash structures over an opaque permutation: every digest is a term over permutation calls.
/// A value is a literal (>= 0) or output j of call c, written out(c, j) (< 0).  Two terms are equal
/// exactly when the digests are (collision freeness); which numbers the calls give is decided by
/// C06/C07, and the driver evaluates the terms with the real permutation.
///
/// BIG = false: Goldilocks, eight inputs and a capacity of four, digests of four.
/// BIG = true:  a 256-bit field of order Q, one to sixteen inputs, capacity one, digest = output IDX.
module hashes {
  const BIG: bool
  const Q: int
  const IDX: int

  type Call = { x: List[int], cap: List[int] }
  /// the calls made so far, in order; equal calls are shared
  type Dag = { calls: List[Call], memo: List[Call -> int] }  // memo: in BUCKETS parts, for speed only
  type Res = { d: Dag, v: List[int] }

  pure val P = 2^64 - 2^32 + 1
  pure val BUCKETS = 128
  pure val noCalls: Dag = { calls: [], memo: range(0, BUCKETS).foldl([], (l, i) => l.append(Map())) }
  pure def bucket(x: List[int]): int = {
    val n = x.foldl(0, (h, t) => h * 31 + t) % BUCKETS
    if (n < 0) n + BUCKETS else n
  }
  pure def out(c: int, j: int): int = -(32 * c + j + 1)
  pure val W = if (BIG) 1 else 4
  pure val ZERO: List[int] = if (BIG) [0] else [0, 0, 0, 0]

  /// makes a call; outs lists the outputs wanted
  pure def call(d: Dag, x: List[int], cap: List[int], outs: List[int]): Res = {
    val k = { x: x, cap: cap }
    val b = bucket(x)
    val m = d.memo[b]
    if (m.keys().contains(k)) { d: d, v: outs.foldl([], (l, j) => l.append(out(m.get(k), j))) }
    else {
      val c = d.calls.length()
      { d: { calls: d.calls.append(k), memo: d.memo.replaceAt(b, m.put(k, c)) }, v: outs.foldl([], (l, j) => l.append(out(c, j))) }
    }
  }
  pure def digestOuts: List[int] = if (BIG) [IDX] else [0, 1, 2, 3]

  pure def min(a: int, b: int): int = if (a < b) a else b
  pure def max(a: int, b: int): int = if (a > b) a else b
  pure def ceilDiv(a: int, b: int): int = (a + b - 1) / b
  pure def chunks(l: List[int], n: int): List[List[int]] =
    range(0, ceilDiv(l.length(), n)).foldl([], (r, i) => r.append(l.slice(i * n, min(l.length(), (i + 1) * n))))
  pure def pad(l: List[int], n: int): List[int] = range(l.length(), max(n, l.length())).foldl(l, (r, i) => r.append(0))
  pure def pack(l: List[int]): int = range(0, l.length()).foldl(0, (s, i) => s + l[i] * 2^(64 * i))

  // ---- Goldilocks: absorb zero-padded blocks of eight, chaining the capacity
  pure def sponge(d: Dag, xs: List[int]): Res =
    if (xs.length() <= 4) { d: d, v: pad(xs, 4) }
    else chunks(xs, 8).foldl({ d: d, v: ZERO }, (r, b) => call(r.d, pad(b, 8), r.v, [0, 1, 2, 3]))
  /// batches of bs (0: the larger of 8 and a quarter of the length, rounded up), then the list of digests
  pure def batched(d: Dag, xs: List[int], bs0: int): Res =
    if (xs.length() <= 4) { d: d, v: pad(xs, 4) }
    else {
      val bs = if (bs0 == 0) max(8, ceilDiv(xs.length(), 4)) else bs0
      val hs = chunks(xs, bs).foldl({ d: d, v: [] }, (r, b) => {
        val h = sponge(r.d, b)
        { d: h.d, v: r.v.concat(h.v) }
      })
      if (hs.v.length() <= 4) hs else sponge(hs.d, hs.v)
    }

  // ---- 256-bit: three values to a word, sixteen words to a call, chaining the digest
  pure def words(xs: List[int]): List[int] = chunks(xs, 3).foldl([], (l, c) => l.append(pack(c)))
  pure def chain(d: Dag, ws: List[int]): Res =
    chunks(ws, 16).foldl({ d: d, v: [0] }, (r, b) => call(r.d, b, r.v, [IDX]))
  /// none is zero, one word is itself
  pure def rowBig(d: Dag, xs: List[int]): Res = {
    val ws = words(xs)
    if (ws.length() == 0) { d: d, v: [0] } else if (ws.length() == 1) { d: d, v: ws } else chain(d, ws)
  }

  pure def leaf(d: Dag, xs: List[int]): Res = if (BIG) rowBig(d, xs) else batched(d, xs, 0)
  pure def node(d: Dag, kids: List[List[int]]): Res =
    call(d, kids.foldl([], (l, k) => l.concat(k)), ZERO, digestOuts)
  pure val ARITY = if (BIG) 16 else 2

  // ---- input values: boundary and pseudo-random field elements
  pure def mix(s: int, j: int): int = {
    val a = (s * 6364136223846793005 + j * 1442695040888963407 + 1013904223) % 2^64
    val b = (a * a / 2^41 + a * 2862933555777941757) % 2^64
    (b * b / 2^29 + b) % P
  }
  pure val EDGE: List[int] = [0, 1, 2, 2^32 - 1, 2^32, 2^63, P - 1, P - 2, P - 2^32, 7]
  pure def value(s: int, j: int): int = {
    val m = mix(s, j)
    if (m % 5 == 0) EDGE[(m / 32) % EDGE.length()] else m
  }
}
