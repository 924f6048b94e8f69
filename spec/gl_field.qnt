// -*- mode: Bluespec; -*-
/// C01. A register machine over the Goldilocks field: four registers, every public operation
/// of `fields::field_gl` as one action.  The registers hold the integers the elements stand for.
/// The driver performs each action on live `Fr` values and compares, after each one, all
/// registers (through every conversion), canonicity, and the equality/ordering/hash matrix.
module gl_field {
  import gl.* from "./gl"
  type Ev = { op: str, d: int, i: int, j: int, v: int, out: List[int], ok: bool }
  var regs: List[int]
  var last: Ev
  var k: int

  /// values where carries, borrows and reductions change their course
  pure val EDGE: List[int] = [0, 1, 2, 3, 7, 2^16, 2^31 - 1, 2^31, 2^32 - 2, 2^32 - 1, 2^32, 2^32 + 1, 2^33 - 1,
    2^33, 2^48, 2^62, 2^63 - 1, 2^63, 2^63 + 2^31, 2^64 - 2^33, 2^64 - 2^33 + 1, 2^64 - 2^32 - 1, 2^64 - 2^32, // = p - 1
    (P - 1) / 2, (P + 1) / 2, P - 2, P - 3, P - 2^16, P - 2^31, P - 2^32 + 1]
  /// representations that are not elements
  pure val OUT: List[int] = [P, P + 1, P + 2, 2^64 - 1, 2^64 - 2, 2^64 - 2^31, P + 2^31]
  pure val R128 = 2^128 % P
  pure val R128INV = finv(R128)
  /// EDGE, and the elements whose limb inside the implementation is a value of EDGE
  pure val VALS: List[int] = EDGE.concat(EDGE.foldl([], (l, e) => l.append(fmul(e, R128INV))))
  /// 0..2^64: field operations whose bit length matters (2^32 is where the adicity lies)
  pure val EXPS: List[int] = [0, 1, 2, 3, 4, 5, 31, 32, 33, 255, 2^31, 2^32 - 1, 2^32, P - 2, P - 1, P, 2^63, 2^64 - 1]

  pure def legendre(a: int): int = if (a == 0) 0 else if (fpow(a, (P - 1) / 2) == 1) 1 else P - 1
  pure def bits(v: int): int = range(0, 64).foldl(0, (n, b) => if (v >= 2^b) b + 1 else n)

  action write(op: str, d: int, i: int, j: int, v: int, r: int): bool = all {
    regs' = regs.replaceAt(d, r),
    last' = { op: op, d: d, i: i, j: j, v: v, out: [r], ok: true },
    k' = k + 1,
  }
  action obs(op: str, i: int, v: int, out: List[int], ok: bool): bool = all {
    regs' = regs,
    last' = { op: op, d: 0, i: i, j: 0, v: v, out: out, ok: ok },
    k' = k + 1,
  }
  // loading a representation: refused unless it is below p
  action load(d: int, v: int): bool =
    if (v < P) write("load", d, 0, 0, v, v) else obs("load_refused", d, v, [], false)
  // loading a limb as it is stored: v stands for v * 2^-128
  action load_raw(d: int, v: int): bool =
    if (v < P) write("load_raw", d, 0, 0, v, fmul(v, R128INV)) else obs("load_raw_refused", d, v, [], false)
  // decimal strings of any length are taken modulo p
  action load_str(d: int, v: int): bool = write("load_str", d, 0, 0, v, v % P)

  action init = all {
    regs' = [0, 1, P - 1, 2^32],
    last' = { op: "init", d: 0, i: 0, j: 0, v: 0, out: [], ok: true },
    k' = 0,
  }

  action arith = {
    nondet d = 0.to(3).oneOf()
    nondet i = 0.to(3).oneOf()
    nondet j = 0.to(3).oneOf()
    val a = regs[i]
    val b = regs[j]
    any {
      write("add", d, i, j, 0, fadd(a, b)),
      write("add_assign", d, d, j, 0, fadd(regs[d], b)),
      write("sub", d, i, j, 0, fsub(a, b)),
      write("sub_assign", d, d, j, 0, fsub(regs[d], b)),
      write("mul", d, i, j, 0, fmul(a, b)),
      write("mul_assign", d, d, j, 0, fmul(regs[d], b)),
      write("neg", d, i, 0, 0, fneg(a)),
      write("negate", d, d, 0, 0, fneg(regs[d])),
      write("double", d, d, 0, 0, fadd(regs[d], regs[d])),
      write("square", d, d, 0, 0, fmul(regs[d], regs[d])),
      write("frobenius", d, d, 0, 0, regs[d]),
      all { a != 0, write("inv", d, i, 0, 0, finv(a)) },
      all { b != 0, write("div", d, i, j, 0, fmul(a, finv(b))) },
      if (i == 0 and j == 0) write("one", d, 0, 0, 0, 1) else write("add", d, i, j, 0, fadd(a, b)),
      if (i == 0 and j == 0) write("zero", d, 0, 0, 0, 0) else write("mul", d, i, j, 0, fmul(a, b)),
    }
  }
  action power = {
    nondet d = 0.to(3).oneOf()
    nondet i = 0.to(3).oneOf()
    nondet e = 0.to(2^64 - 1).oneOf()
    nondet x = 0.to(EXPS.length() - 1).oneOf()
    any {
      write("exp", d, i, 0, e, fpow(regs[i], e)),
      write("exp", d, i, 0, EXPS[x], fpow(regs[i], EXPS[x])),
      write("pow", d, i, 0, e, fpow(regs[i], e)),
      // two-limb exponents, low limb first
      write("pow", d, i, 0, EXPS[x] * 2^64 + e, fpow(regs[i], EXPS[x] * 2^64 + e)),
      obs("legendre", i, 0, [legendre(regs[i])], true),
      // any of the two roots is right, so only the square is predicted
      if (legendre(regs[i]) == P - 1) obs("sqrt_none", i, 0, [], false) else obs("sqrt", i, 0, [regs[i]], true),
    }
  }
  action loads = {
    nondet d = 0.to(3).oneOf()
    nondet x = 0.to(VALS.length() - 1).oneOf()
    nondet y = 0.to(EDGE.length() - 1).oneOf()
    nondet z = 0.to(OUT.length() - 1).oneOf()
    nondet r = 0.to(2^64 - 1).oneOf()
    nondet s = 0.to(2^200).oneOf()
    any {
      load(d, VALS[x]),
      load(d, OUT[z]),
      load(d, r),
      load_raw(d, EDGE[y]),
      load_raw(d, OUT[z]),
      load_raw(d, r),
      load_str(d, s),
      load_str(d, EDGE[y]),
      load_str(d, OUT[z]),
    }
  }
  /// limb-level operations of the representation: plain 64-bit integers
  action reprs = {
    nondet r = 0.to(2^64 - 1).oneOf()
    nondet y = 0.to(EDGE.length() - 1).oneOf()
    nondet n = 0.to(63).oneOf()
    nondet i = 0.to(3).oneOf()
    val v = r / 2^n
    val e = EDGE[y]
    any {
      obs("num_bits", 0, v, [bits(v)], true),
      obs("num_bits", 0, e, [bits(e)], true),
      obs("shr", n, r, [r / 2^n], true),
      obs("shl", n, r, [(r * 2^n) % 2^64], true),
      obs("div2", 0, r, [r / 2], true),
      obs("parity", 0, r, [r % 2], true),
      obs("cmp_repr", 0, r, [e, if (r < e) 0 else if (r == e) 1 else 2], true),
      obs("into_u64", i, 0, [regs[i]], true),
      obs("bad_str", i, 0, [], false),
    }
  }
  action step = any { arith, arith, arith, power, loads, loads, reprs }

  // ---- systematic sweep: all pairs of VALS through every binary operation
  action initSweep(start: int): bool = all {
    regs' = [0, 0, 0, 0],
    last' = { op: "init", d: 0, i: 0, j: 0, v: 0, out: [], ok: true },
    k' = start,
  }
  action stepSweep = {
    val n = VALS.length()
    val a = VALS[(k / n) % n]
    val b = VALS[k % n]
    all {
      regs' = [a, b, fmul(a, b), fsub(a, b)],
      last' = { op: "pair", d: 0, i: a, j: b, v: 0, ok: true,
        out: [fadd(a, b), fsub(a, b), fmul(a, b), fmul(a, finv(b)), fneg(a), fmul(a, a), fadd(a, a), finv(b)] },
      k' = k + 1,
    }
  }

  /// elements stay canonical, and the field laws hold of what the specification computes
  val inv = and {
    0.to(3).forall(i => regs[i] >= 0 and regs[i] < P),
    last.op == "inv" implies (last.out[0] != 0),
    last.op == "pair" and last.j != 0 implies fmul(last.out[3], last.j) == last.i,
    last.op == "pair" implies fadd(last.out[1], last.j) == last.i,
  }
}
