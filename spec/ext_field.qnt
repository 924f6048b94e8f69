// -*- mode: Bluespec; -*-
/// C02, C03. A register machine over an extension field of the Goldilocks field whose elements are
/// either base elements or full coefficient vectors, in any mix.  The value domain is the
/// quotient ring itself; `full` only predicts the form an element is printed in.
module ext_field {
  import gl.* from "./gl"
  const D: int
  type El = { c: List[int], full: bool }
  type Ev = { op: str, d: int, i: int, j: int, n: int, args: List[El], out: List[El] }
  var regs: List[El]
  var last: Ev
  var k: int

  pure def zeros: List[int] = if (D == 3) [0, 0, 0] else [0, 0, 0, 0, 0]
  pure def base(v: int): El = { c: zeros.replaceAt(0, v % P), full: false }
  pure def full(c: List[int]): El = { c: c, full: true }
  pure def xadd(a: List[int], b: List[int]): List[int] = if (D == 3) e3add(a, b) else e5add(a, b)
  pure def xsub(a: List[int], b: List[int]): List[int] = if (D == 3) e3sub(a, b) else e5sub(a, b)
  pure def xmul(a: List[int], b: List[int]): List[int] = if (D == 3) e3mul(a, b) else e5mul(a, b)
  pure def xneg(a: List[int]): List[int] = if (D == 3) e3neg(a) else e5neg(a)
  pure def xpow(a: List[int], e: int): List[int] = if (D == 3) e3pow(a, e) else e5pow(a, e)
  pure def xinv(a: List[int]): List[int] = if (D == 3) e3inv(a) else e5inv(a)
  pure def xone: List[int] = zeros.replaceAt(0, 1)
  pure def isz(a: List[int]): bool = a == zeros

  pure def fAdd(a: El, b: El): El = { c: xadd(a.c, b.c), full: a.full or b.full }
  pure def fSub(a: El, b: El): El = { c: xsub(a.c, b.c), full: a.full or b.full }
  pure def fMul(a: El, b: El): El = { c: xmul(a.c, b.c), full: a.full or b.full }
  pure def fNeg(a: El): El = { c: xneg(a.c), full: a.full }
  pure def fInv(a: El): El = { c: xinv(a.c), full: a.full }
  pure def fPow(a: El, e: int): El = { c: xpow(a.c, e), full: e > 0 and a.full }

  pure val EDGE: List[int] = [0, 1, 2, 3, 2^32 - 1, 2^32, 2^32 + 1, 2^63, (P - 1) / 2, P - 2, P - 1]
  pure val EXPS: List[int] = [0, 1, 2, 3, 7, 8, 31, 2^32 - 1, 2^32, P - 2, P - 1, 2^64 - 1]
  /// one coefficient: an edge value or a pseudo-random one
  pure def coef(s: int, j: int): int = {
    val r = mix(s * 31 + j)
    if (r % 3 == 0) EDGE[(r / 8) % EDGE.length()] else if (r % 3 == 1) 0 else felt(s, j)
  }
  pure def elem(s: int): El =
    if (mix(s) % 3 == 0) base(coef(s, 0))
    else full(range(0, D).foldl([], (l, j) => l.append(if (mix(s + 5) % 4 == 0) coef(s, j) else felt(s, j))))

  action set_(op: str, d: int, i: int, j: int, n: int, r: El): bool = all {
    regs' = regs.replaceAt(d, r),
    last' = { op: op, d: d, i: i, j: j, n: n, args: [], out: [r] },
    k' = k + 1,
  }
  action obs(op: str, i: int, n: int, args: List[El], out: List[El]): bool = all {
    regs' = regs,
    last' = { op: op, d: 0, i: i, j: 0, n: n, args: args, out: out },
    k' = k + 1,
  }
  action init = all {
    regs' = [base(0), base(1), full(zeros), full(xone)],
    last' = { op: "init", d: 0, i: 0, j: 0, n: 0, args: [], out: [] },
    k' = 0,
  }
  action load = {
    nondet d = 0.to(3).oneOf()
    nondet s = 0.to(2^48).oneOf()
    val e = elem(s)
    all {
      regs' = regs.replaceAt(d, e),
      last' = { op: "load", d: d, i: 0, j: 0, n: 0, args: [e], out: [e] },
      k' = k + 1,
    }
  }
  action arith = {
    nondet d = 0.to(3).oneOf()
    nondet i = 0.to(3).oneOf()
    nondet j = 0.to(3).oneOf()
    nondet w = 0.to(1).oneOf()
    nondet e = 0.to(2^64 - 1).oneOf()
    nondet x = 0.to(EXPS.length() - 1).oneOf()
    val a = regs[i]
    val b = regs[j]
    any {
      set_(if (w == 0) "add" else "add_ops", d, i, j, 0, fAdd(a, b)),
      set_(if (w == 0) "sub" else "sub_ops", d, i, j, 0, fSub(a, b)),
      set_(if (w == 0) "mul" else "mul_ops", d, i, j, 0, fMul(a, b)),
      set_(if (w == 0) "add_assign" else "add_assign_f", d, d, j, 0, fAdd(regs[d], b)),
      set_(if (w == 0) "sub_assign" else "sub_assign_f", d, d, j, 0, fSub(regs[d], b)),
      set_(if (w == 0) "mul_assign" else "mul_assign_f", d, d, j, 0, fMul(regs[d], b)),
      set_(if (w == 0) "neg" else "negate", d, if (w == 0) i else d, 0, 0, fNeg(if (w == 0) a else regs[d])),
      set_(if (w == 0) "double" else "square", d, d, 0, 0, if (w == 0) fAdd(regs[d], regs[d]) else fMul(regs[d], regs[d])),
      all { not(isz(a.c)), set_(if (w == 0) "inv" else "inverse", d, i, 0, 0, fInv(a)) },
      all { not(isz(b.c)), set_("div", d, i, j, 0, fMul(a, fInv(b))) },
      all { not(isz(b.c)), set_("div_assign", d, d, j, 0, fMul(regs[d], fInv(b))) },
      set_("exp", d, i, 0, if (w == 0) e else EXPS[x], fPow(a, if (w == 0) e else EXPS[x])),
      set_("mul_scalar", d, i, 0, e % P, { c: xmul(a.c, zeros.replaceAt(0, e % P)), full: a.full }),
    }
  }
  action more = {
    nondet i = 0.to(3).oneOf()
    nondet n = 1.to(12).oneOf()
    nondet s = 0.to(2^48).oneOf()
    nondet v = 0.to(2^31 - 1).oneOf()
    nondet b = 0.to(30).oneOf()
    val xs = range(0, n).foldl([], (l, q) => {
      val e = elem(s + 77 * q)
      l.append(if (isz(e.c)) base(1) else e)
    })
    any {
      obs("batch_inverse", i, n, xs, xs.foldl([], (l, e) => l.append(fInv(e)))),
      obs("small", i, v / 2^b, [], [base(v / 2^b)]),
      obs("constants", i, 0, [], []),
    }
  }
  action step = any { load, load, load, arith, arith, arith, arith, arith, arith, more }

  // ---- systematic: every pair of coefficient patterns through the binary operations
  pure def pat(n: int): El = {
    // base edge values, unit vectors scaled by edge values, all-ones patterns
    val m = EDGE.length()
    if (n < m) base(EDGE[n])
    else if (n < m + 3 * D) full(zeros.replaceAt((n - m) % D, [1, P - 1, 2^32][(n - m) / D]))
    else if (n == m + 3 * D) full(zeros)
    else full(range(0, D).foldl([], (l, j) => l.append(EDGE[(n * (j + 1) * 7 + j) % m])))
  }
  pure val NPAT = EDGE.length() + 3 * D + 12
  action initSweep(start: int): bool = all {
    regs' = [base(0), base(0), base(0), base(0)],
    last' = { op: "init", d: 0, i: 0, j: 0, n: 0, args: [], out: [] },
    k' = start,
  }
  action stepSweep = {
    val a = pat((k / NPAT) % NPAT)
    val b = pat(k % NPAT)
    val ib = if (isz(b.c)) b else fInv(b)
    all {
      regs' = [a, b, fMul(a, b), fSub(a, b)],
      last' = { op: "pair", d: 0, i: 0, j: 0, n: 0, args: [a, b],
        out: [fAdd(a, b), fSub(a, b), fMul(a, b), fNeg(a), fMul(a, a), fAdd(a, a)].concat(if (isz(b.c)) [] else [ib, fMul(a, ib)]) },
      k' = k + 1,
    }
  }
  /// every inverse the specification predicts is one, every register is canonical
  val inv = and {
    regs.foldl(true, (ok, e) => ok and e.c.length() == D and e.c.foldl(true, (o, x) => o and x >= 0 and x < P)),
    regs.foldl(true, (ok, e) => ok and (e.full or e.c == zeros.replaceAt(0, e.c[0]))),
    last.op == "pair" and last.out.length() == 8 implies xmul(last.out[6].c, last.args[1].c) == xone,
    last.op == "inv" implies xmul(last.out[0].c, xinv(last.out[0].c)) == xone,
  }
}
module f3 { import ext_field(D = 3).* }
module f5 { import ext_field(D = 5).* }
