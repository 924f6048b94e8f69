// -*- mode: Bluespec; -*-
/// The function of every kind of row of the recursion circuit: which pairs of neighbouring rows the selectors admit
module rows {
  import gl.* from "./gl"
  import gl_perm.* from "./gl_perm"
  /// selectors that are one in the row, and its twelve fixed columns
  type Fixed = { sels: List[str], c: List[int] }
  pure def has(f: Fixed, s: str): bool = f.sels.select(x => x == s).length() > 0
  pure def t3(x: List[int], i: int): List[int] = [x[i], x[i + 1], x[i + 2]]
  pure def plonk(q: List[int], x: List[int]): bool =
    // [qm, ql, qr, qo, qc]
    (q[0] * x[0] * x[1] + q[1] * x[0] + q[2] * x[1] + q[3] * x[2] + q[4]) % P == 0
  /// four gates: the first two share the first half of the fixed columns, the others the second half
  pure def gateRow(c: List[int], a: List[int]): bool = {
    val lo = [c[3], c[0], c[1], c[2], c[4]]
    val hi = [c[9], c[6], c[7], c[8], c[10]]
    plonk(lo, t3(a, 0)) and plonk(lo, t3(a, 3)) and plonk(hi, t3(a, 6)) and plonk(hi, t3(a, 9))
  }
  /// a3 = (a0 + c0) c9 (a1 + c1) + (a2 + c2) c10 in the cubic extension; used with c9 = c10 = 1 and the rest zero
  pure def mulAddRow(c: List[int], a: List[int]): bool = {
    val x = e3scale(e3add(t3(a, 0), t3(c, 0)), c[9])
    val y = e3add(t3(a, 3), t3(c, 3))
    val z = e3scale(e3add(t3(a, 6), t3(c, 6)), c[10])
    e3add(e3mul(x, y), z) == t3(a, 9)
  }
  /// one round of the hash
  pure def hashNext(c: List[int], partial: bool, a: List[int]): List[int] = {
    val s = range(0, 12).foldl([], (l, i) => l.append(if (i == 0 or not(partial)) pow7(fadd(a[i], c[i])) else fadd(a[i], c[i])))
    range(0, 12).foldl([], (l, r) => {
      val row = MDS[r]
      l.append(range(0, 12).foldl(0, (x, j) => x + row[j] * s[j]) % P)
    })
  }
  /// a layer pair of a four-point transform with the products of roots and scale in c0..c5, or two two-point ones in c6..c8
  pure def fftNext(c: List[int], a: List[int]): List[int] = {
    val x0 = t3(a, 0)
    val x1 = t3(a, 3)
    val x2 = t3(a, 6)
    val x3 = t3(a, 9)
    val l0 = e3add(e3scale(x0, c[0]), e3scale(x1, c[1]))
    val l1 = e3sub(e3scale(x0, c[0]), e3scale(x1, c[1]))
    val r0 = e3add(e3scale(x2, c[2]), e3scale(x3, c[3]))
    val r1 = e3sub(e3scale(x2, c[4]), e3scale(x3, c[5]))
    val y0 = e3add(e3add(l0, r0), e3add(e3scale(x0, c[6]), e3scale(x1, c[7])))
    val y1 = e3add(e3add(l1, r1), e3sub(e3scale(x0, c[6]), e3scale(x1, c[7])))
    val y2 = e3add(e3sub(l0, r0), e3add(e3scale(x2, c[6]), e3scale(x3, c[8])))
    val y3 = e3add(e3sub(l1, r1), e3sub(e3scale(x2, c[6]), e3scale(x3, c[8])))
    y0.concat(y1).concat(y2).concat(y3)
  }
  /// four coefficients in this row; the fifth, the point and the value in the next
  pure def polNext(a: List[int], b: List[int]): List[int] = {
    val z = t3(b, 3)
    val l = [t3(a, 9), t3(a, 6), t3(a, 3), t3(a, 0)]
    l.foldl(t3(b, 0), (r, k) => e3add(e3mul(r, z), k))
  }
  pure def rowOk(f: Fixed, a: List[int], b: List[int]): bool = and {
    has(f, "GATE") implies gateRow(f.c, a),
    has(f, "CMULADD") implies mulAddRow(f.c, a),
    has(f, "POSEIDON12") implies hashNext(f.c, has(f, "PARTIAL"), a) == b,
    has(f, "FFT4") implies fftNext(f.c, a) == b,
    has(f, "EVPOL4") implies polNext(a, b) == t3(b, 6),
  }
}
