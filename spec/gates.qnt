// -*- mode: Bluespec; -*-
/// C27. A table with some selected row, near one that its selectors admit.  The specification says from the functions of
/// the rows (rows.qnt) whether the table is admitted.
module gates {
  import gl.* from "./gl"
  import rows.* from "./rows"
  type Event = { op: str, nb: int, pubs: int, at: int, sels: List[str], lag: int, c: List[int], a: List[List[int]], ok: bool }
  var last: Event

  pure def val1(s: int): int = { val r = mix(s) if (r % 3 == 0) felt(r, 1) else [0, 1, 2, 3, P - 1, P - 2, 2^32, P - 2^32, 2^63, 7][r / 4 % 10] }
  pure def vals(n: int, s: int): List[int] = range(0, n).foldl([], (l, i) => l.append(val1(s + 3 * i)))
  pure def nz(x: int): int = if (x == 0) 1 else x
  /// the third cell of a gate with constants at o and cells at i
  pure def third(c: List[int], o: int, a: List[int], i: int): List[int] = {
    val x = (c[o + 3] * a[i] * a[i + 1] + c[o] * a[i] + c[o + 1] * a[i + 1] + c[o + 4]) % P
    a.replaceAt(i + 2, fmul(fneg(x), finv(c[o + 2])))
  }
  pure def put3(a: List[int], i: int, v: List[int]): List[int] = a.replaceAt(i, v[0]).replaceAt(i + 1, v[1]).replaceAt(i + 2, v[2])
  pure def solveA(k: str, c: List[int], a: List[int]): List[int] =
    if (k == "GATE") { val x = third(c, 0, a, 0) val y = third(c, 0, x, 3) val z = third(c, 6, y, 6) third(c, 6, z, 9) }
    else if (k == "CMULADD") {
      val x = e3scale(e3add(t3(a, 0), t3(c, 0)), c[9])
      val z = e3scale(e3add(t3(a, 6), t3(c, 6)), c[10])
      put3(a, 9, e3add(e3mul(x, e3add(t3(a, 3), t3(c, 3))), z))
    }
    else a
  pure def solveB(k: str, partial: bool, c: List[int], a: List[int], b: List[int]): List[int] =
    if (k == "POSEIDON12") hashNext(c, partial, a)
    else if (k == "FFT4") fftNext(c, a)
    else if (k == "EVPOL4") put3(b, 6, polNext(a, b))
    else b
  /// the public values are the first cells, row by row; a row marked with the k-th mark must hold the k-th dozen
  pure def lagOk(e: Event): bool = {
    val n = e.a.length()
    e.lag == 0 or range(12 * e.lag - 12, if (12 * e.lag < e.pubs) 12 * e.lag else e.pubs).foldl(true, (ok, i) =>
      { val pr = e.a[i / 12] val row = e.a[e.at] ok and pr[i % 12] == row[i % 12] })
  }
  pure def judge(e: Event): bool = {
    val n = e.a.length()
    rowOk({ sels: e.sels, c: e.c }, e.a[e.at], e.a[(e.at + 1) % n]) and lagOk(e)
  }
  pure def make(s: int): Event = {
    val nb = 2 + mix(s) % 3
    val n = 2^nb
    val pubs = [1, 5, 12, 13, 25, 0][mix(s + 1) % 6]
    val at = if (mix(s + 2) % 3 == 0) n - 1 else mix(s + 2) % n
    val k1 = ["", "GATE", "CMULADD", "", "GATE", ""][mix(s + 3) % 6]
    val k2 = ["POSEIDON12", "FFT4", "EVPOL4", "", "FFT4", ""][mix(s + 4) % 6]
    val partial = mix(s + 5) % 2 == 0
    val zs = [0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0]
    val c0 = if (k2 == "FFT4" and mix(s + 6) % 3 == 0 and k1 == "") vals(6, s + 10).concat([0, 0, 0, 0, 0, 0])
             else if (k1 == "CMULADD" and mix(s + 6) % 3 == 0) zs.replaceAt(9, 1).replaceAt(10, 1)
             else vals(12, s + 10)
    val c = c0.replaceAt(2, nz(c0[2])).replaceAt(8, nz(c0[8]))
    val a0 = range(0, n).foldl([], (l, i) => l.append(vals(12, s + 100 + 50 * i)))
    val a1 = a0.replaceAt(at, solveA(k1, c, a0[at]))
    val a2 = a1.replaceAt((at + 1) % n, solveB(k2, partial, c, a1[at], a1[(at + 1) % n]))
    val sels = [k1, k2, if (partial) "PARTIAL" else ""].select(x => x != "")
    val lag = if (mix(s + 7) % 4 > 0 or pubs == 0) 0 else 1 + mix(s + 8) % ((pubs + 11) / 12)
    // repeat the dozen in the marked row, mostly
    val a3 = if (lag == 0 or mix(s + 9) % 4 == 0) a2 else a2.replaceAt(at, { val pr = a2[lag - 1] val row = a2[at]
      range(0, 12).foldl([], (l, i) => l.append(if (12 * lag - 12 + i < pubs) pr[i] else row[i])) })
    { op: "row", nb: nb, pubs: pubs, at: at, sels: sels, lag: lag, c: c, a: a3, ok: true }
  }
  pure def spoil(e: Event, s: int): Event = {
    val k = mix(s) % 8
    val n = e.a.length()
    val j = mix(s + 1) % 12
    val r = if (k < 4) e.at else (e.at + 1) % n
    val row = e.a[r]
    val d = nz(val1(s + 2))
    if (k < 6) { ...e, a: e.a.replaceAt(r, row.replaceAt(j, if (mix(s + 3) % 4 == 0) fneg(row[j]) else fadd(row[j], d))) }
    else { ...e, c: e.c.replaceAt(j, fadd(e.c[j], d)) }
  }
  action init = last' = { op: "init", nb: 0, pubs: 0, at: 0, sels: [], lag: 0, c: [], a: [], ok: true }
  action step = {
    nondet s = 0.to(2^48).oneOf()
    val e = make(s)
    val f = if (mix(s + 40) % 3 == 0) e else spoil(e, mix(s + 41))
    last' = { ...f, op: if (f.sels.select(x => x != "PARTIAL").length() == 0) "free" else "row", ok: judge(f) }
  }
  /// rows with no selector are admitted
  val inv = last.op == "free" implies (last.ok or last.lag > 0)
}
