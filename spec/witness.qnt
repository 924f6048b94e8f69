// -*- mode: Bluespec; -*-
/// C24. A circuit program as a machine: initialised, given one field element at a time under the hash of a signal's
/// name and a position, then asked for the elements of its witness.  A behaviour loads circuits and calculates
/// witnesses with them, several times with each; the specification owns the hash, the order of the elements of
/// nested arrays, the witness, its file, and which inputs are refused.
module witness {
  import gl.* from "./gl"
  import format.* from "./format"
  /// a JSON value as tokens: "[", "]", or an element written as text, number or boolean
  type Tok = { k: str, v: int }
  type Signal = { name: List[int], hash: List[int], base: int, len: int }
  /// `sizes`: the program can be asked how many elements a signal has (0 for a name that is no signal of it)
  type Circuit = { f: int, version: int, sizes: bool, signals: List[Signal], wit: List[int], equal: List[List[int]] }
  type Input = { name: List[int], toks: List[Tok] }
  type Event = { op: str, fault: str, circ: Circuit, inputs: List[Input], wit: List[int], file: List[int] }
  var circ: Circuit
  var last: Event

  pure val NOC: Circuit = { f: 0, version: 2, sizes: true, signals: [], wit: [], equal: [] }
  pure val NOE: Event = { op: "init", fault: "", circ: NOC, inputs: [], wit: [], file: [] }

  // ---- 64-bit FNV-1a
  pure def xor8(a: int, b: int): int =
    range(0, 8).foldl({ a: a, b: b, p: 1, r: 0 }, (s, _) =>
      { a: s.a / 2, b: s.b / 2, p: 2 * s.p, r: if (s.a % 2 == s.b % 2) s.r else s.r + s.p }).r
  pure def fnv(name: List[int]): int =
    name.foldl(0xcbf29ce484222325, (h, c) => ((h - h % 256 + xor8(h % 256, c)) * 0x100000001b3) % 2^64)

  // ---- the machine
  type State = { wit: List[int], set_: int, error: int }
  pure def total(c: Circuit): int = c.signals.foldl(0, (n, s) => n + s.len)
  pure def give(c: Circuit, s: State, hash: int, pos: int, v: int): State = {
    val m = c.signals.select(x => x.hash[0] * 2^32 + x.hash[1] == hash)
    if (s.error > 0) s
    else if (m.length() == 0) { if (c.sizes) s else { ...s, error: 1 } }
    else if (pos >= m[0].len) { if (c.sizes and m[0].len == 0) s else { ...s, error: 2 } }
    else {
      val w = s.wit.replaceAt(m[0].base + pos, v)
      { wit: w, set_: s.set_ + 1,
        error: if (s.set_ + 1 == total(c) and c.equal.select(e => w[e[0]] != w[e[1]]).length() > 0) 4 else 0 }
    }
  }
  /// the elements of a value, whatever their nesting, in the order they are written
  pure def elements(t: List[Tok]): List[int] = t.select(x => x.k != "[" and x.k != "]").foldl([], (l, x) => l.append(x.v))
  pure def run_(c: Circuit, inputs: List[Input]): State =
    inputs.foldl({ wit: c.wit, set_: 0, error: 0 }, (s, i) => {
      val e = elements(i.toks)
      range(0, e.length()).foldl(s, (z, p) => give(c, z, fnv(i.name), p, e[p]))
    })
  pure def wfile(c: Circuit, w: List[int]): List[int] = {
    val n = SIZES[c.f]
    w.foldl(cat([WTNS, le(if (c.version == 0) 1 else c.version, 4), le(2, 4), le(1, 4), le(8 + n, 8), le(n, 4), le(ORDERS[c.f], n),
                 le(w.length(), 4), le(2, 4), le(n * w.length(), 8)]), (a, x) => a.concat(le(x, n)))
  }

  // ---- data
  pure val LETTERS = [97, 98, 105, 110, 95, 48, 57, 90, 36, 46, 91, 0xc3]
  pure def wname(s: int, i: int): List[int] =
    range(0, 1 + mix(s + i) % 9).foldl([97 + i % 26], (l, j) => {
      val c = LETTERS[mix(s + 10 * i + j) % 12]
      if (c == 0xc3) l.concat([0xc3, 0xa9]) else l.append(c)
    })
  pure def circuit(s: int): Circuit = {
    val f = s % 3
    val sg = range(0, 1 + mix(s + 1) % 4).foldl({ b: 1, l: [] }, (z, i) => {
      val n = wname(s, i)
      val len = if (mix(s + 60 + i) % 3 == 0) 1 else mix(s + 70 + i) % 7
      val gap = mix(s + 80 + i) % 3
      { b: z.b + gap + len, l: z.l.append({ name: n, hash: [fnv(n) / 2^32, fnv(n) % 2^32], base: z.b + gap, len: len }) }
    })
    val n = sg.b + mix(s + 2) % 3
    // pairs of cells whose values an assertion compares
    val cells = sg.l.foldl([], (l, x) => range(0, x.len).foldl(l, (m, i) => m.append(x.base + i)))
    val version = [2, 2, 2, 0, 1][mix(s + 3) % 5]
    { f: f, version: version, sizes: version > 0 and mix(s + 9) % 4 > 0, signals: sg.l,
      wit: range(0, n).foldl([], (l, i) => l.append(if (i == 0) 1 else value(f, s + 90 + 7 * i))),
      equal: if (cells.length() < 2 or mix(s + 4) % 2 == 0) [] else [[cells[mix(s + 5) % cells.length()], cells[mix(s + 6) % cells.length()]]] }
  }
  pure def tok(v: int, s: int): Tok =
    { k: if (v >= 0 and v < 2 and s % 4 == 0) "bool" else if (s % 2 == 0) "text" else "number", v: v }
  pure def openT: Tok = { k: "[", v: 0 }
  pure def closeT: Tok = { k: "]", v: 0 }
  /// a value holding these elements: bare, in one array, or nested at random
  pure def nested(e: List[int], s: int): List[Tok] =
    if (e.length() == 1 and s % 2 == 0) [tok(e[0], mix(s))]
    else {
      val z = range(0, e.length()).foldl({ t: [openT], d: 1 }, (z, i) => {
        val r = mix(s + 3 * i) % 8
        val x = tok(e[i], mix(s + 3 * i + 1))
        if (s % 4 == 1 or r > 3) { t: z.t.append(x), d: z.d }
        else if (r == 0) { t: z.t.concat([openT, x]), d: z.d + 1 }
        else if (r == 1 and z.d > 1) { t: z.t.concat([closeT, x]), d: z.d - 1 }
        else if (r == 2) { t: z.t.concat([openT, closeT, x]), d: z.d }
        else { t: z.t.concat([openT, openT, x, closeT]), d: z.d + 1 }
      })
      range(0, z.d).foldl(z.t, (t, _) => t.append(closeT))
    }
  pure def elems(c: Circuit, n: int, s: int): List[int] = range(0, n).foldl([], (l, i) => l.append(value(c.f, s + 13 * i)))
  pure def fill(c: Circuit, s: int): List[Input] =
    range(0, c.signals.length()).foldl([], (l, i) =>
      l.append({ name: c.signals[i].name, toks: nested(elems(c, c.signals[i].len, mix(s + i)), mix(s + 31 * i)) }))
  /// makes the asserted cells equal
  pure def agree(c: Circuit, i: List[Input]): List[Input] =
    if (c.equal.length() == 0) i
    else {
      val v = run_({ ...c, equal: [] }, i).wit
      range(0, i.length()).foldl([], (l, j) => {
        val g = c.signals[j]
        l.append({ ...i[j], toks: i[j].toks.foldl({ p: 0, t: [] }, (z, x) =>
          if (x.k == "[" or x.k == "]") { ...z, t: z.t.append(x) }
          else { p: z.p + 1, t: z.t.append(if (g.base + z.p == c.equal[0][1]) tok(v[c.equal[0][0]], v[c.equal[0][0]] + z.p) else x) }).t })
      })
    }

  action init = all { circ' = NOC, last' = NOE }
  action make(s: int): bool = {
    val c = circuit(mix(s))
    all { circ' = c, last' = { ...NOE, op: "circuit", circ: c } }
  }
  action calc(op: str, i: List[Input]): bool = {
    val r = run_(circ, i)
    val x = ["", "unknown", "position", "", "assertion"][r.error]
    all { circ' = circ, last' = { ...NOE, op: if (x == "") op else "refuse", fault: x, circ: circ, inputs: i,
                                 wit: if (x == "") r.wit else [], file: if (x == "") wfile(circ, r.wit) else [] } }
  }
  action good(s: int): bool = calc("calculate", agree(circ, fill(circ, mix(s))))
  /// inputs as they come: assertions may fail
  action any_(s: int): bool = calc("calculate", fill(circ, mix(s)))
  /// a name that is no signal of the circuit, before, between or after the others
  action unknown(s: int): bool = {
    val g = agree(circ, fill(circ, mix(s)))
    val x = { name: wname(s, 25), toks: nested(elems(circ, 1 + s % 3, s), s) }
    val n = mix(s + 5) % (g.length() + 1)
    calc("calculate", g.slice(0, n).append(x).concat(g.slice(n, g.length())))
  }
  /// more elements than the signal has
  action long(s: int): bool = {
    val g = agree(circ, fill(circ, mix(s)))
    val j = s % g.length()
    val c = circ.signals[j]
    calc("calculate", g.replaceAt(j, { name: c.name, toks: nested(elems(circ, c.len + 1, s), mix(s)) }))
  }
  /// an element that does not fit the words of the field, or a negative one
  action wide(s: int): bool = {
    val g = fill(circ, mix(s))
    val b = 256^SIZES[circ.f]
    val v = [b, b + 5, 2^32 * b, 0 - 1, 0 - b, b * b][s % 6]
    val js = range(0, g.length()).select(j => circ.signals[j].len > 0)
    if (js.length() == 0) make(s)
    else {
      val j = js[mix(s) % js.length()]
      val e = elements(g[j].toks)
      all { circ' = circ, last' = { ...NOE, op: "refuse", fault: "wide", circ: circ,
        inputs: g.replaceAt(j, { name: g[j].name, toks: [openT].concat(e.replaceAt(mix(s + 2) % e.length(), v).foldl([], (l, x) => l.append(tok(x, s)))).append(closeT) }) } }
    }
  }
  action wstep = {
    nondet a = 0.to(11).oneOf()
    nondet s = 0.to(2^48).oneOf()
    if (circ.signals.length() == 0 or a < 3) make(s)
    else if (a < 7) good(s) else if (a == 7) any_(s) else if (a == 8) unknown(s) else if (a == 9) long(s) else if (a == 10) wide(s) else good(s)
  }
  val winv = and {
    // positions of different signals do not overlap, and names have different hashes
    range(0, circ.signals.length()).foldl(true, (ok, i) => ok and range(0, i).foldl(true, (q, j) => {
      val a = circ.signals[i]
      val b = circ.signals[j]
      q and a.hash != b.hash and (a.base >= b.base + b.len or b.base >= a.base + a.len)
    })),
    last.op != "calculate" or last.file.length() == last.wit.length() * SIZES[circ.f] + 44 + SIZES[circ.f],
  }
}
