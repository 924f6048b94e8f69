// -*- mode: Bluespec; -*-
/// C30. The PIL document, the STARK structure document and the numbers inside them: which
/// documents are well formed, what each one says, and what reading and writing must preserve.
module documents {
  import gl.* from "./gl"

  // ---- the format: every field of every object, its type and whether it must be there
  type Field = { obj: str, name: str, ty: str, must: bool }
  pure def f(obj: str, name: str, ty: str, must: bool): Field = { obj: obj, name: name, ty: ty, must: must }
  pure val FIELDS: List[Field] = [
    f("pil", "nCommitments", "nat", true), f("pil", "nQ", "nat", true), f("pil", "nIm", "nat", true), f("pil", "nConstants", "nat", true),
    f("pil", "publics", "list", true), f("pil", "references", "map", true), f("pil", "expressions", "list", true),
    f("pil", "polIdentities", "list", true), f("pil", "plookupIdentities", "list", true),
    f("pil", "permutationIdentities", "list", false), f("pil", "connectionIdentities", "list", false),
    f("public", "polType", "str", true), f("public", "polId", "nat", true), f("public", "idx", "nat", true),
    f("public", "id", "nat", true), f("public", "name", "str", true),
    f("ref", "polType", "str", false), f("ref", "type", "str", true), f("ref", "id", "nat", true), f("ref", "polDeg", "nat", true),
    f("ref", "isArray", "bool", true), f("ref", "elementType", "str", false), f("ref", "len", "nat", false),
    f("exp", "op", "str", true), f("exp", "deg", "nat", true), f("exp", "id", "nat", false), f("exp", "next", "bool", false),
    f("exp", "value", "str", false), f("exp", "values", "list", false), f("exp", "keep", "bool", false), f("exp", "keep2ns", "bool", false),
    f("exp", "idQ", "nat", false), f("exp", "const_", "int", false),
    f("identity", "e", "nat", true), f("identity", "fileName", "str", true), f("identity", "line", "nat", true),
    f("plookup", "f", "list", false), f("plookup", "t", "list", false), f("plookup", "selF", "nat", false), f("plookup", "selT", "nat", false),
    f("plookup", "fileName", "str", true), f("plookup", "line", "nat", true),
    f("permutation", "f", "list", false), f("permutation", "t", "list", false), f("permutation", "selF", "nat", false),
    f("permutation", "selT", "nat", false), f("permutation", "fileName", "str", true), f("permutation", "line", "nat", true),
    f("connection", "pols", "list", false), f("connection", "connections", "list", false), f("connection", "fileName", "str", true),
    f("connection", "line", "nat", true),
    f("struct", "nBits", "nat", true), f("struct", "nBitsExt", "nat", true), f("struct", "nQueries", "nat", true),
    f("struct", "verificationHashType", "str", true), f("struct", "steps", "list", true), f("step", "nBits", "nat", true)]

  /// what is wrong with (or merely unusual about) one field of one object
  pure val FAULTS: List[str] = ["absent", "null", "negative", "fraction", "huge", "text", "number", "truth", "list", "object", "twice", "extra",
    "cut", "trailing", "empty_doc"]
  /// does a document with that field so altered still denote something?
  pure def accepted(x: Field, fault: str): bool =
    if (fault == "absent" or fault == "null") not(x.must)
    else if (fault == "negative") x.ty == "int"
    else if (fault == "number") x.ty == "nat" or x.ty == "int"
    else if (fault == "text") x.ty == "str"
    else if (fault == "truth") x.ty == "bool"
    else if (fault == "list") x.ty == "list"
    else if (fault == "object") x.ty == "map"
    else fault == "extra"
  /// an absent mandatory field is refused, an absent or null optional one is absent
  pure val READS: Set[str] = Set("absent", "null")

  // ---- a document: objects as lists of values in the order of FIELDS; -1 stands for an absent number or flag,
  // -2 for an absent text or list
  type Exp = { op: int, deg: int, id: int, next: int, value: int, vals: List[int], hasVals: bool, keep: int, keep2ns: int, idQ: int, cst: int }
  type Lookup = { f: List[int], t: List[int], selF: int, selT: int, file: int, line: int }
  type Doc = {
    counts: List[int], publics: List[List[int]], refs: List[List[int]], exps: List[Exp], roots: List[int],
    ids: List[List[int]], lookups: List[Lookup], perms: List[Lookup], conns: List[Lookup], opt: int,
    bits: List[int], hash: int }
  type Ev = { op: str, doc: Doc, obj: str, name: str, what: str, at: int, style: int, ok: bool, gone: bool,
              neg: bool, hex: int, mag: int, zeros: int, out: int, may: bool }
  var last: Ev
  var k: int

  pure val NODOC: Doc = { counts: [], publics: [], refs: [], exps: [], roots: [], ids: [], lookups: [], perms: [], conns: [], opt: 0, bits: [], hash: 0 }
  pure val NOEV: Ev = { op: "init", doc: NODOC, obj: "", name: "", what: "", at: 0, style: 0, ok: true, gone: false, neg: false, hex: 0, mag: 0, zeros: 0, out: 0, may: false }
  pure val NUMS: List[int] = [0, 1, 2, 7, 255, 2^31, 2^32, 2^53, 2^53 + 1, 2^63 - 1, 2^63, 2^64 - 1]
  pure def nat(s: int): int = if (mix(s) % 2 == 0) mix(s + 1) % 50 else NUMS[mix(s + 1) % NUMS.length()]
  pure def maybe(s: int): int = if (mix(s + 3) % 3 == 0) -1 else nat(s)
  pure def flag(s: int): int = mix(s + 5) % 3 - 1
  pure def nats(s: int): List[int] =
    if (mix(s) % 5 == 0) [-2] else range(0, mix(s + 1) % 4).foldl([], (l, j) => l.append(nat(s + 11 * j)))
  /// trees of depth at most four: the children of a node come before it
  pure def exp(s: int, n: int): Exp = {
    val kids = mix(s + 2) % 3
    val has = n > 0 and mix(s + 4) % 4 != 0
    { op: mix(s) % 12, deg: mix(s + 1) % 4, id: maybe(s + 7), next: flag(s), value: if (mix(s + 8) % 2 == 0) -2 else mix(s + 9),
      vals: if (has) range(0, kids).foldl([], (l, j) => l.append(mix(s + 13 * j) % n)) else [],
      hasVals: has, keep: flag(s + 1), keep2ns: flag(s + 2), idQ: maybe(s + 17),
      cst: if (mix(s + 6) % 3 == 0) -1 else mix(s) % 2^40 } }
  pure def lookup(s: int): Lookup = { f: nats(s), t: nats(s + 101), selF: maybe(s + 1), selT: maybe(s + 2), file: mix(s + 3), line: nat(s + 4) }
  pure def some(s: int, m: int): int = mix(s) % (m + 1)
  /// least: how many of each part there are at least
  pure def document(s: int, least: int): Doc = {
    counts: [nat(s), nat(s + 1), nat(s + 2), nat(s + 3)],
    publics: range(0, least + some(s + 10, 3)).foldl([], (l, j) => l.append([mix(s + j) % 3, nat(s + 20 + j), nat(s + 30 + j), nat(s + 40 + j), mix(s + 50 + j)])),
    refs: range(0, least + some(s + 11, 4)).foldl([], (l, j) => l.append(
      [if (mix(s + j) % 3 == 0) -2 else mix(s + j), mix(s + 60 + j) % 4, nat(s + 70 + j), nat(s + 80 + j), mix(s + 90 + j) % 2,
       if (mix(s + 95 + j) % 2 == 0) -2 else mix(s + j), maybe(s + 97 + j)])),
    exps: range(0, 1 + some(s + 12, 5)).foldl([], (l, j) => l.append(exp(s + 1000 * j, j))),
    roots: range(0, least + some(s + 14, 4)).foldl([], (l, j) => l.append(mix(s + 3 * j) % (1 + some(s + 12, 5)))),
    ids: range(0, least + some(s + 15, 3)).foldl([], (l, j) => l.append([nat(s + 5 * j), mix(s + 6 * j), nat(s + 7 * j)])),
    lookups: range(0, least + some(s + 16, 2)).foldl([], (l, j) => l.append(lookup(s + 2000 + 100 * j))),
    perms: range(0, least + some(s + 17, 2)).foldl([], (l, j) => l.append(lookup(s + 3000 + 100 * j))),
    conns: range(0, least + some(s + 18, 2)).foldl([], (l, j) => l.append(lookup(s + 4000 + 100 * j))),
    // bit 0: no permutations, bit 1: no connections
    opt: mix(s + 19) % 4,
    bits: range(0, 3 + some(s + 20, 4)).foldl([], (l, j) => l.append(nat(s + 23 * j))),
    hash: mix(s + 21) % 4,
  }
  action read(s: int, style: int): bool = all {
    last' = { ...NOEV, op: "read", doc: document(s, 0), style: style },
    k' = k + 1,
  }
  action faulty(s: int, fi: int, fault: int, style: int): bool = {
    val x = FIELDS[fi]
    all {
      last' = { ...NOEV, op: "fault", doc: document(s, 1), obj: x.obj, name: x.name, what: FAULTS[fault], at: mix(s), style: style,
                ok: accepted(x, FAULTS[fault]), gone: READS.contains(FAULTS[fault]) },
      k' = k + 1,
    }
  }
  // ---- numbers: an optional minus sign, decimal or 0x digits, leading zeros; the value modulo p
  pure val BIG: List[int] = [0, 1, 9, 10, 15, 16, 2^32 - 1, 2^32, 2^63 - 1, 2^63, 2^64 - 2^32, P - 1, P, P + 1, 2 * P - 1, 2 * P, 2 * P + 1, 3 * P,
    2^64 - 1, 2^64, 2^96, 2^127 - 1, 2^127 - P, 5 * P + 7, 2^100 + 12345]
  pure val OVER: List[int] = [2^127, 2^127 + 1, 2^128 - 1, 2^128, 2^192 + 5, 2^254, 2^256 - 1]
  action number(s: int): bool = {
    val c = mix(s) % 8
    val mag = if (c < 3) BIG[mix(s + 1) % BIG.length()] else if (c == 3) OVER[mix(s + 1) % OVER.length()]
              else if (c < 6) mix(s + 1) % 2^62 * 2^(mix(s + 2) % 62) else mix(s + 1) % 2^40
    // 0: decimal, 1: lower-case digits, 2: upper-case digits
    val hex = if (mix(s + 3) % 2 == 0) 0 else 1 + mix(s + 4) % 2
    // hexadecimal numbers are written without a sign
    val neg = hex == 0 and mix(s + 5) % 2 == 0
    all {
      // larger numbers than a signed 128-bit word holds may be refused, but never misread
      last' = { ...NOEV, op: "number", neg: neg, hex: hex, mag: mag, zeros: if (mix(s + 6) % 3 == 0) mix(s + 7) % 5 else 0, style: mix(s + 8) % 8,
                out: if (neg) (P - mag % P) % P else mag % P, may: mag >= 2^127 },
      k' = k + 1,
    }
  }
  action init = all { last' = NOEV, k' = 0 }
  action step = {
    nondet s = 0.to(2^60).oneOf()
    nondet c = 0.to(9).oneOf()
    val st = mix(s + 77) % 64
    if (c < 3) read(s, st)
    else if (c < 7) faulty(s, mix(s + 1) % FIELDS.length(), mix(s + 2) % FAULTS.length(), st)
    else number(s)
  }
  /// every fault of every field in turn
  action initSweep(n: int): bool = all { last' = NOEV, k' = n }
  action stepSweep = faulty(mix(k), (k / FAULTS.length()) % FIELDS.length(), k % FAULTS.length(), mix(k + 9) % 64)
  val inv = and {
    last.out >= 0 and last.out < P,
    last.op != "number" or (if (last.neg) (last.out + last.mag) % P == 0 else (last.out - last.mag) % P == 0),
    last.op != "fault" or not(last.ok and last.gone and FIELDS.foldl(false, (b, x) => b or (x.obj == last.obj and x.name == last.name and x.must))),
  }
}
