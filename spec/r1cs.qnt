// -*- mode: Bluespec; -*-
/// C23. The R1CS and witness file formats as byte sequences.  A behaviour is a sequence of files, each written by
/// encoding a system (sections in any order, unknown sections between) or a witness, then read as written or
/// after one fault.  The specification says what is read or that the file is refused.
module r1cs {
  import gl.* from "./gl"
  import format.* from "./format"
  type Ev = { op: str, f: int, fault: str, bytes: List[int], ok: bool, sys: Sys, wit: List[int] }
  var last: Ev
  var k: int

  /// the i-th choice of an order of the sections
  pure def shuffle(l: List[Sec], s: int): List[Sec] =
    range(0, l.length()).foldl({ from: l, to_: [] }, (z, i) => {
      val p = mix(s + i) % z.from.length()
      { to_: z.to_.append(z.from[p]), from: z.from.slice(0, p).concat(z.from.slice(p + 1, z.from.length())) }
    }).to_

  // ---- what is read: terms sorted by wire, equal wires in file order
  pure def insert(lc: Lc, t: List[int]): Lc = {
    val before = lc.select(u => u[0] <= t[0])
    before.append(t).concat(lc.select(u => u[0] > t[0]))
  }
  pure def sorted(lc: Lc): Lc = lc.foldl([], (a, t) => insert(a, t))
  pure def decoded(s: Sys): Sys = { ...s, cons: s.cons.foldl([], (a, c) => a.append([sorted(c[0]), sorted(c[1]), sorted(c[2])])) }

  // ---- data
  pure def lc(f: int, n: int, s: int): Lc =
    range(0, [0, 1, 2, 3, 5][s % 5]).foldl([], (l, i) => l.append([mix(s + i) % n, value(f, s + 17 * i)]))
  pure val NAMES = [[67, 77, 117, 108], [80, 49], [], [70, 70, 84, 52], [95, 0x7e, 32, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74]]
  pure def system(f: int, s: int): Sys = {
    val po = s % 3
    val pi = (s / 4) % 3
    val n = 1 + po + pi + (s / 16) % 9
    val custom = mix(s + 5) % 2 == 0
    { f: f, version: 1, nWires: n, pubOut: po, pubIn: pi, prvIn: (s / 256) % (n - po - pi), labels: if (s % 2 == 0) n + 3 else 2^40 + mix(s) % 2^20,
      cons: range(0, mix(s + 9) % 5).foldl([], (l, i) => l.append([lc(f, n, mix(s + 3 * i)), lc(f, n, mix(s + 3 * i + 1)), lc(f, n, mix(s + 3 * i + 2))])),
      map: range(0, n).foldl([], (l, i) => l.append(if (i == 0) 0 else if (s % 7 == 0) 2^33 + i else i * 3 + s % 5)),
      custom: custom,
      gates: if (custom) range(0, mix(s + 6) % 4).foldl([], (l, i) => l.append({ name: NAMES[mix(s + i) % 5],
        params: range(0, mix(s + 20 + i) % 3).foldl([], (m, j) => m.append(value(f, s + 31 * j + i))) })) else [],
      uses: if (custom) range(0, mix(s + 7) % 4).foldl([], (l, i) => l.append({ id: mix(s + 40 + i) % 4,
        signals: range(0, mix(s + 50 + i) % 6).foldl([], (m, j) => m.append(if (j == 3) 2^32 + mix(s + j) % 2^32 else mix(s + i + j) % n)) })) else [] }
  }
  pure val emptySys: Sys = { f: 0, version: 1, nWires: 1, pubOut: 0, pubIn: 0, prvIn: 0, labels: 1, cons: [], map: [0], custom: false, gates: [], uses: [] }
  action emit(e: Ev): bool = all { last' = e, k' = k + 1 }
  action init = all { last' = { op: "init", f: 0, fault: "", bytes: [], ok: true, sys: emptySys, wit: [] }, k' = 0 }

  pure def onSec(l: List[Sec], t: int, g: Sec => Sec): List[Sec] = l.foldl([], (a, x) => a.append(if (x.t == t) g(x) else x))
  pure def resize(x: Sec, d: int): Sec = { ...x, n: if (x.n + d < 0) x.n + 1 else x.n + d }
  pure def grow(x: Sec, d: int): Sec = sec(x.t, x.b.concat(le(1, d)))
  pure def patch(b: List[int], p: int, x: List[int]): List[int] = cat([b.slice(0, p), x, b.slice(p + x.length(), b.length())])
  /// position of the first coefficient of the constraints, -1 when there is none
  pure def firstTerm(s: Sys): int =
    s.cons.foldl({ p: 0, r: -1 }, (z, c) => c.foldl(z, (y, x) =>
      if (y.r < 0 and x.length() > 0) { p: y.p, r: y.p + 8 } else { p: y.p + 4 + x.length() * (4 + SIZES[s.f]), r: y.r })).r
  action write(f: int, s: int): bool = {
    val y = system(f, s)
    val l = secs(y)
    // a section of an unknown kind is skipped
    val m = shuffle(if (mix(s + 60) % 4 == 0) l.append(sec(9, le(mix(s), 7))) else l, s)
    emit({ op: "r1cs", f: f, fault: "", bytes: file(R1CS, 1, m.length(), m), ok: true, sys: decoded(y), wit: [] })
  }
  action bad(f: int, kind: int, s: int): bool = {
    val y = system(f, s)
    val l = shuffle(secs(y), s)
    val n = l.length()
    val whole = file(R1CS, 1, n, l)
    val H = 4 + SIZES[f]
    val r = mix(s + 77)
    val e = { op: "r1cs", f: f, fault: "", bytes: [], ok: false, sys: y, wit: [] }
    if (kind == 0) emit({ ...e, fault: "cut", bytes: whole.slice(0, r % whole.length()) })
    else if (kind == 1) emit({ ...e, fault: "magic", bytes: patch(whole, r % 4, [(whole[r % 4] + 1 + (r / 8) % 255) % 256]) })
    else if (kind == 2) emit({ ...e, fault: "version", bytes: file(R1CS, if (r % 4 == 0) 0 else 2 + r % 2^30, n, l) })
    else if (kind == 3) emit({ ...e, fault: "prime", bytes: file(R1CS, 1, n, onSec(l, 1, x => sec(1, patch(x.b, 4 + r % SIZES[f], [(x.b[4 + r % SIZES[f]] + 1 + (r / 64) % 255) % 256])))) })
    else if (kind == 4) emit({ ...e, fault: "other_prime", bytes: file(R1CS, 1, n, onSec(l, 1, x => { val o = (f + 1 + r % 2) % 3
                                sec(1, headerBytes({ ...y, f: o })) })) })
    else if (kind == 5) emit({ ...e, fault: "header_size", bytes: file(R1CS, 1, n, onSec(l, 1, x => grow(x, 1 + r % 9))) })
    else if (kind == 6) emit({ ...e, fault: "header_size", bytes: file(R1CS, 1, n, onSec(l, 1, x => resize(x, if (r % 2 == 0) 1 + r % 16 else -(1 + r % 8)))) })
    else if (kind == 7) emit({ ...e, fault: "map_size", bytes: file(R1CS, 1, n, onSec(l, 3, x => grow(x, [1, 4, 8, 16][r % 4]))) })
    else if (kind == 8) emit({ ...e, fault: "map_count", bytes: file(R1CS, 1, n, onSec(l, 1, x => sec(1, patch(x.b, H, le(y.nWires + 1 + r % 3, 4))))) })
    else if (kind == 9) emit({ ...e, fault: "constraint_size", bytes: file(R1CS, 1, n, onSec(l, 2, x => grow(x, [1, 4, 12, 3][r % 4]))) })
    else if (kind == 10) emit({ ...e, fault: "constraint_count", bytes: file(R1CS, 1, n, onSec(l, 1, x => sec(1, patch(x.b, H + 24, le(
                                if (y.cons.length() > 0 and r % 2 == 0) y.cons.length() - 1 else y.cons.length() + 1, 4))))) })
    else if (kind == 11) emit({ ...e, fault: "map_zero", bytes: file(R1CS, 1, n, onSec(l, 3, x => sec(3, patch(x.b, r % 8, [1 + r % 255])))) })
    else if (kind == 12) emit({ ...e, fault: "missing", bytes: { val t = 1 + r % 3
                                val m = l.select(x => x.t != t) file(R1CS, 1, m.length(), m) } })
    else if (kind == 13) emit({ ...e, fault: "few_sections", bytes: { val m = l.select(x => x.t != 3).append(l.select(x => x.t == 3)[0]) file(R1CS, 1, n - 1, m) } })
    else if (kind == 14 and firstTerm(y) >= 0)
      emit({ ...e, fault: "coefficient", bytes: file(R1CS, 1, n, onSec(l, 2, x => sec(2, patch(x.b, firstTerm(y),
        le(if (r % 3 == 0) ORDERS[f] else if (r % 3 == 1) 256^SIZES[f] - 1 else ORDERS[f] + 1 + r % 2^20, SIZES[f]))))) })
    else if (kind == 15 and y.custom)
      emit({ ...e, fault: "gates_size", bytes: file(R1CS, 1, n, onSec(l, 4 + r % 2, x => grow(x, [1, 4, 8, 2][(r / 2) % 4]))) })
    else if (kind == 16 and y.gates.length() > 0)
      emit({ ...e, fault: "gates_count", bytes: file(R1CS, 1, n, onSec(l, 4, x => sec(4, patch(x.b, 0, le(if (r % 2 == 0) y.gates.length() - 1 else y.gates.length() + 1, 4))))) })
    else if (kind == 17 and y.uses.length() > 0)
      emit({ ...e, fault: "uses_count", bytes: file(R1CS, 1, n, onSec(l, 5, x => sec(5, patch(x.b, 0, le(if (r % 2 == 0) y.uses.length() - 1 else y.uses.length() + 1, 4))))) })
    else emit({ ...e, fault: "cut", bytes: whole.slice(0, whole.length() - 1 - r % 40) })
  }

  // ---- witness files: BN254 only
  pure def wtnsFile(version: int, size1: int, t1: int, fs: int, prime: int, n: int, t2: int, size2: int, w: List[int]): List[int] =
    w.foldl(cat([WTNS, le(version, 4), le(2, 4), le(t1, 4), le(size1, 8), le(fs, 4), le(prime, fs), le(n, 4), le(t2, 4), le(size2, 8)]),
            (a, x) => a.concat(le(x, 32)))
  pure def wits(s: int): List[int] = range(0, mix(s) % 9).foldl([], (l, i) => l.append(value(0, s + 11 * i)))
  pure def good(w: List[int]): List[int] = wtnsFile(2, 40, 1, 32, ORDERS[0], w.length(), 2, 32 * w.length(), w)
  action writeWitness(s: int): bool = emit({ op: "wtns", f: 0, fault: "", bytes: good(wits(s)), ok: true, sys: emptySys, wit: wits(s) })
  action badWitness(kind: int, s: int): bool = {
    val w = wits(s)
    val n = w.length()
    val r = mix(s + 78)
    val q = ORDERS[0]
    val b = good(w)
    val e = { op: "wtns", f: 0, fault: "", bytes: [], ok: false, sys: emptySys, wit: w }
    if (kind == 0) emit({ ...e, fault: "cut", bytes: b.slice(0, r % b.length()) })
    else if (kind == 1) emit({ ...e, fault: "magic", bytes: patch(b, r % 4, [(b[r % 4] + 1 + (r / 8) % 255) % 256]) })
    else if (kind == 2) emit({ ...e, fault: "version", bytes: wtnsFile(3 + r % 2^20, 40, 1, 32, q, n, 2, 32 * n, w) })
    else if (kind == 3) emit({ ...e, fault: "sections", bytes: patch(b, 8, le([0, 1, 3, 258][r % 4], 4)) })
    else if (kind == 4) emit({ ...e, fault: "kind1", bytes: wtnsFile(2, 40, 2 + r % 3, 32, q, n, 2, 32 * n, w) })
    else if (kind == 5) emit({ ...e, fault: "size1", bytes: wtnsFile(2, [39, 41, 16, 40 + 2^32][r % 4], 1, 32, q, n, 2, 32 * n, w) })
    else if (kind == 6) emit({ ...e, fault: "field_size", bytes: wtnsFile(2, if (r % 2 == 0) 40 else 16, 1, 8, P, n, 2, 32 * n, w) })
    else if (kind == 7) emit({ ...e, fault: "prime", bytes: wtnsFile(2, 40, 1, 32, if (r % 2 == 0) ORDERS[1] else q + 256^(r % 31), n, 2, 32 * n, w) })
    else if (kind == 8) emit({ ...e, fault: "kind2", bytes: wtnsFile(2, 40, 1, 32, q, n, [1, 3, 0][r % 3], 32 * n, w) })
    else if (kind == 9) emit({ ...e, fault: "size2", bytes: wtnsFile(2, 40, 1, 32, q, n, 2, 32 * n + [1, 32, 2^32, -1][r % 4] * (if (n == 0 and r % 4 == 3) -1 else 1), w) })
    else if (kind == 10) emit({ ...e, fault: "count", bytes: wtnsFile(2, 40, 1, 32, q, n + 1 + r % 2, 2, 32 * n, w) })
    else if (kind == 11 and n > 1) emit({ ...e, fault: "count", bytes: wtnsFile(2, 40, 1, 32, q, n - 1, 2, 32 * n, w) })
    else emit({ ...e, fault: "value", bytes: { val v = w.append(if (r % 3 == 0) q else if (r % 3 == 1) 2^256 - 1 else q + r % 2^40) good(v) } })
  }
  // ---- the JSON forms
  action json(f: int, s: int): bool = { val y = system(f, s)
    emit({ op: "json", f: f, fault: "", bytes: [], ok: true, sys: y, wit: [] }) }
  action jsonWitness(f: int, s: int): bool = emit({ op: "json_wtns", f: f, fault: "", bytes: [], ok: true, sys: emptySys,
    wit: range(0, mix(s) % 9).foldl([], (l, i) => l.append(value(f, s + 11 * i))) })
  action step = {
    nondet a = 0.to(11).oneOf()
    nondet s = 0.to(2^48).oneOf()
    nondet f = 0.to(2).oneOf()
    nondet kd = 0.to(17).oneOf()
    if (a < 4) write(f, s) else if (a < 8) bad(f, kd, s) else if (a == 8) writeWitness(s) else if (a == 9) badWitness(kd % 13, s)
    else if (a == 10) json(f, s) else jsonWitness(f, s)
  }
  // ---- long linear combinations, many constraints, many wires
  pure def longLc(f: int, n: int, len: int, s: int): Lc =
    range(0, len).foldl([], (l, i) => l.append([if (s % 3 == 0) (n - 1 - i % n) else mix(s + i) % n, if (i % 16 == 0) value(f, s + i) else 1 + mix(s + i) % 2^60]))
  pure def large(f: int, s: int): Sys = {
    val n = [300, 70, 1100, 17][s % 4]
    val y = system(f, s)
    { ...y, nWires: n, pubOut: s % 9, pubIn: (s / 16) % 7, prvIn: (s / 256) % (n - 16), custom: false, gates: [], uses: [],
      map: range(0, n).foldl([], (l, i) => l.append(i * 3)),
      cons: if (s % 2 == 0) [[longLc(f, n, 64 + mix(s + 1) % 5, s), longLc(f, n, 65 + mix(s + 2) % 200, s + 1), lc(f, n, s)],
                             [lc(f, n, s + 1), longLc(f, n, 129, s + 2), longLc(f, n, 16 + mix(s + 3) % 40, s + 3)]]
            else range(0, 150 + mix(s + 9) % 150).foldl([], (l, i) => l.append([lc(f, n, mix(s + 3 * i)), lc(f, n, mix(s + 3 * i + 1)), lc(f, n, mix(s + 3 * i + 2))])) }
  }
  action stepLarge = {
    nondet s = 0.to(2^48).oneOf()
    nondet f = 0.to(2).oneOf()
    val y = large(f, s)
    val l = shuffle(secs(y), s)
    if (k % 3 == 2) emit({ op: "json", f: f, fault: "", bytes: [], ok: true, sys: y, wit: [] })
    else emit({ op: "r1cs", f: f, fault: "", bytes: file(R1CS, 1, l.length(), l), ok: true, sys: decoded(y), wit: [] })
  }
  /// every length to which a file can be cut
  action initSweep(n: int): bool = all { last' = { op: "init", f: n % 3, fault: "", bytes: [], ok: true, sys: system(n % 3, 1000 + n), wit: wits(n) }, k' = 0 }
  action stepSweep = {
    val y = last.sys
    val b = file(R1CS, 1, secs(y).length(), secs(y))
    val g = good(last.wit)
    if (k % 2 == 0) emit({ ...last, op: "r1cs", fault: "cut", ok: false, bytes: b.slice(0, (k / 2) % b.length()) })
    else emit({ ...last, op: "wtns", fault: "cut", ok: false, bytes: g.slice(0, (k / 2) % g.length()) })
  }

  // ---- decoding the bytes by the format gives what was encoded (the encoding loses nothing)
  pure def num(b: List[int], p: int, n: int): int = range(0, n).foldl(0, (v, i) => v + b[p + i] * 256^i)
  pure def find(b: List[int], t: int): { at: int, n: int } =
    range(0, num(b, 8, 4)).foldl({ p: 12, r: { at: -1, n: 0 } }, (z, _) => {
      val len = num(b, z.p + 4, 8)
      { p: z.p + 12 + len, r: if (num(b, z.p, 4) == t) { at: z.p + 12, n: len } else z.r }
    }).r
  val inv = and {
    if (last.op == "r1cs" and last.ok) and {
      num(last.bytes, find(last.bytes, 1).at + 4, SIZES[last.f]) == ORDERS[last.f],
      find(last.bytes, 3).n == 8 * last.sys.nWires,
      range(0, last.sys.nWires).foldl(true, (z, i) => z and num(last.bytes, find(last.bytes, 3).at + 8 * i, 8) == last.sys.map[i]),
      last.sys.cons.foldl(true, (z, c) => z and c.foldl(true, (y, t) => y and range(0, t.length()).foldl(true, (x, i) => x and (i == 0 or t[i - 1][0] <= t[i][0])))),
    } else true,
    last.bytes.foldl(true, (z, x) => z and 0 <= x and x < 256),
  }
}
