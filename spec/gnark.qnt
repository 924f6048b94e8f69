// -*- mode: Bluespec; -*-
/// C28. The JSON documents of the Groth16 recursion over BLS12-381: proofs, verification keys and public inputs.
/// A document is a list of named values, a value is a sequence of tokens.  The specification owns the curve (both
/// groups, membership in the subgroups of prime order included), the order of coordinates, which documents are
/// decoded and to which values, and the document that is written back.
module gnark {
  import gl.* from "./gl"
  import format.* from "./format"
  /// "[", "]", "text" (an integer in quotes), "number", "null", "raw" (other text in quotes)
  type GTok = { k: str, v: int, raw: str }
  type Field = { name: str, toks: List[GTok] }
  type Point = { ok: bool, c: List[int] }
  type Event = { op: str, kind: str, fields: List[Field], back: List[Field], two: bool, bytes: List[int], coords: List[int], flag: bool }
  var last: Event
  pure val NOE: Event = { op: "init", kind: "", fields: [], back: [], two: false, bytes: [], coords: [], flag: false }

  // ---- fields
  pure val Q = 0x1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaaab
  pure val R = 0x73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001
  pure def md(a: int, m: int): int = { val x = a % m if (x < 0) x + m else x }
  pure def pow384(b: int, e: int, m: int): int =
    range(0, 384).foldl({ r: 1, b: b % m, e: e }, (s, _) =>
      if (s.e == 0) s
      else { r: if (s.e % 2 == 1) (s.r * s.b) % m else s.r, b: (s.b * s.b) % m, e: s.e / 2 }).r
  /// elements of the quadratic extension by the root of -1 as pairs; [a] stands for an element of the base field
  pure def xadd(a: List[int], b: List[int]): List[int] = range(0, a.length()).foldl([], (l, i) => l.append((a[i] + b[i]) % Q))
  pure def xsub(a: List[int], b: List[int]): List[int] = range(0, a.length()).foldl([], (l, i) => l.append((a[i] + Q - b[i]) % Q))
  pure def xmul(a: List[int], b: List[int]): List[int] =
    if (a.length() == 1) [a[0] * b[0] % Q]
    else [(a[0] * b[0] + (Q - a[1]) * b[1]) % Q, (a[0] * b[1] + a[1] * b[0]) % Q]
  pure def xzero(a: List[int]): bool = a.foldl(true, (z, v) => z and v == 0)
  pure def xinv(a: List[int]): List[int] =
    if (a.length() == 1) [pow384(a[0], Q - 2, Q)]
    else { val n = pow384((a[0] * a[0] + a[1] * a[1]) % Q, Q - 2, Q) [a[0] * n % Q, (Q - a[1]) * n % Q] }

  // ---- the curves y^2 = x^3 + 4 and y^2 = x^3 + 4(1 + u); a point is the list of the coordinates of x, then of y
  pure def px(c: List[int]): List[int] = c.slice(0, c.length() / 2)
  pure def py(c: List[int]): List[int] = c.slice(c.length() / 2, c.length())
  pure def onCurve(c: List[int]): bool = {
    val x = px(c)
    val y = py(c)
    xmul(y, y) == xadd(xmul(x, xmul(x, x)), if (x.length() == 1) [4] else [4, 4])
  }
  /// Jacobian coordinates (x : y : z) stand for (x / z^2, y / z^3)
  type Jac = { x: List[int], y: List[int], z: List[int] }
  pure def dbl(p: Jac): Jac = {
    val a = xmul(p.x, p.x)
    val b = xmul(p.y, p.y)
    val c = xmul(b, b)
    val d0 = xsub(xsub(xmul(xadd(p.x, b), xadd(p.x, b)), a), c)
    val d = xadd(d0, d0)
    val e = xadd(xadd(a, a), a)
    val x = xsub(xmul(e, e), xadd(d, d))
    val c4 = xadd(xadd(c, c), xadd(c, c))
    val yz = xmul(p.y, p.z)
    { x: x, y: xsub(xmul(e, xsub(d, x)), xadd(c4, c4)), z: xadd(yz, yz) }
  }
  pure def addj(p: Jac, q: Jac): Jac =
    if (xzero(p.z)) q else if (xzero(q.z)) p
    else {
      val z1 = xmul(p.z, p.z)
      val z2 = xmul(q.z, q.z)
      val u1 = xmul(p.x, z2)
      val u2 = xmul(q.x, z1)
      val s1 = xmul(p.y, xmul(z2, q.z))
      val s2 = xmul(q.y, xmul(z1, p.z))
      val h = xsub(u2, u1)
      val r = xsub(s2, s1)
      if (xzero(h)) { if (xzero(r)) dbl(p) else { ...p, z: xsub(p.z, p.z) } }
      else {
        val hh = xmul(h, h)
        val hhh = xmul(h, hh)
        val v = xmul(u1, hh)
        val x = xsub(xsub(xmul(r, r), hhh), xadd(v, v))
        { x: x, y: xsub(xmul(r, xsub(v, x)), xmul(s1, hhh)), z: xmul(h, xmul(p.z, q.z)) }
      }
    }
  /// the point is annihilated by the prime order of the subgroup
  pure def inSubgroup(c: List[int]): bool = {
    val x = px(c)
    val one = if (x.length() == 1) [1] else [1, 0]
    val p = { x: x, y: py(c), z: one }
    val e = range(0, 255).foldl({ r: R, l: [] }, (s, _) => { r: s.r / 2, l: [s.r % 2].concat(s.l) }).l
    xzero(e.foldl({ ...p, z: xsub(one, one) }, (a, b) => { val d = dbl(a) if (b == 1) addj(d, p) else d }).z)
  }

  /// points with their membership (checked by `probe`): multiples of the generators; points of the curves outside
  /// the subgroups, points of order 3 and 2713 among them
  pure val POOL1 = [
    { ok: true, c: [3685416753713387016781088315183077757961620795782546409894578378688607592378376318836054947676345821548104185464507, 1339506544944476473020471379941921221584933875938349620426543736416511423956333506472724655353366534992391756441569] },
    { ok: true, c: [838589206289216005799424730305866328161735431124665289961769162861615689790485775997575391185127590486775437397838, 3450209970729243429733164009999191867485184320918914219895632678707687208996709678363578245114137957452475385814312] },
    { ok: true, c: [1527649530533633684281386512094328299672026648504329745640827351945739272160755686119065091946435084697047221031460, 487897572011753812113448064805964756454529228648704488481988876974355015977479905373670519228592356747638779818193] },
    { ok: true, c: [3685416753713387016781088315183077757961620795782546409894578378688607592378376318836054947676345821548104185464507, 2662903010277190920397318445793982934971948944000658264905514399707520226534504357969962973775649129045502516118218] },
    { ok: true, c: [2754658918674488315620787855859142583846009875564399743050191087353147853863501692787128563162611702712708717834489, 237057734201650246314863493889540838578657649865759565560144475663086471725259892210201170491764140490653598200596] },
    { ok: true, c: [1338324083169542437983737448207461195404643679730801144405488181928491618159409216626500687938623154951126238787744, 400568079232375847426202859267866934657512518452042324442108952896666037509499886052052326540613363285270071187827] },
    { ok: true, c: [2153714402351607704919276751252789242590844701983591880598277096047310138262347122913673129493456182912801765335680, 926164191317992286538329910714950978662174157280393192589932258746224904210339156036685772837124405583456007485977] },
    { ok: true, c: [168431221940156263369198945099119112065383364941209613311926657538884949875891714285656020122373311951554478575760, 2028677732539919012259952505853790146003735495809244037263793600913777356164695930565318801950459143232209822592684] },
    { ok: false, c: [0, 2] },
    { ok: false, c: [0, 4002409555221667393417789825735904156556882819939007885332058136124031650490837864442687629129015664037894272559785] },
    { ok: false, c: [4, 1630892974828014537729259858097113969650871260980656934049590190201941782487224876496582135785777461178964897591404] },
    { ok: false, c: [5, 2037214210573583170464691611659423517269065329685174421529737234252314188159418646987978679703439991468731867518477] },
    { ok: false, c: [2779655371275187554123407334704777245364363702447057529417738873010418671681678628521028777419588625726943667688843, 61616505670215284559646645771005548500090545675179237254967031075011645552931693910080035404252480256110724252326] },
    { ok: false, c: [2521397583925754747087713965665683062613016554781657504614487309530042465331260801224357798449569808576447056660257, 1312585827933621853082154017912462086744530479858633115319517200326632057179631906063225823891436144071160926858065] },
    { ok: false, c: [770781039799969794104087793175497249831077603162719508826519329120537642372565638775587387608405512016026593316955, 1144370980373693265965734926835647372577288753992764533419948858934577160065562362381804799725241813120845796666982] },
  ]
  pure val POOL2 = [
    { ok: true, c: [352701069587466618187139116011060144890029952792775240219908644239793785735715026873347600343865175952761926303160, 3059144344244213709971259814753781636986470325476647558659373206291635324768958432433509563104347017837885763365758, 1985150602287291935568054521177171638300868978215655730859378665066344726373823718423869104263333984641494340347905, 927553665492332455747201965776037880757740193453592970025027978793976877002675564980949289727957565575433344219582] },
    { ok: true, c: [3419974069068927546093595533691935972093267703063689549934039433172037728172434967174817854768758291501458544631891, 1586560233067062236092888871453626466803933380746149805590083683748120990227823365075019078675272292060187343402359, 678774053046495337979740195232911687527971909891867263302465188023833943429943242788645503130663197220262587963545, 2374407843478705782611042739236452317510200146460567463070514850492917978226342495167066333366894448569891658583283] },
    { ok: true, c: [2795155019138475430256695697248607867022196082692926850257941893956680503583886174445899854256891620515274933186478, 1418901263980595683832511076652430035654903023556505873032297534993731256453342997202098832403658787934376638965468, 1713408536894110516522969272885192173669900392782465197506312048399987681703463801235485042423756235640603447122066, 1376945178829045108008380835987620979304438294788415956605678509674588356753313865659068546846109894276784773457993] },
    { ok: true, c: [352701069587466618187139116011060144890029952792775240219908644239793785735715026873347600343865175952761926303160, 3059144344244213709971259814753781636986470325476647558659373206291635324768958432433509563104347017837885763365758, 2017258952934375457849735304558732518256013841723352154472679471057686924117014146018818524865681679396399932211882, 3074855889729334937670587859959866275799142626485414915307030157330054773488162299461738339401058098462460928340205] },
    { ok: true, c: [552474431916340171412890623881888865047397156041505896438090821596270812260850720202098027991501514034852218173668, 3902717786633003158505391442355411906156833904268368322563109850965892849570203591798683830682949596595410823322285, 3659257615730864347864908637283297424318897928456921719367150263390402797463835659286050190352041326633490406871603, 2103716075882206805352785347499425030481873824152954641113339142496977164061249588301581728225458714634024900209226] },
    { ok: true, c: [1012209278857480881567348631633264394755584642603111768646692907072390846868470907056658062073359955421051312498967, 1966860232875159764317712847623689609697229900731049518409878662344162214100017770492552711081590489079660497387199, 2188537679904457583608070199569359020032278431688928281721446362956304076997855417611149322019444166482055511862687, 99837984161837584398938803236034536819609549447706319040937610740930413641831405009627153387717865186086224606751] },
    { ok: true, c: [1628325924186547315806934370414819849991028282440145723880718664217424432709418614887075686844900884510077358289644, 462857512801383197383633554169178224273929796783512430612036800027073864347174856582433456148823794610357017325026, 2906277497083890383820327790267567112287768495082859204428101975195099243364993306179443770241360680290403842543351, 3085052918283479075946758584171897398487152361494327765279593162868078682716121721725460769021936574830338279282620] },
    { ok: true, c: [3975032286671200795653202322459596956312174336292019198301724021700440700594053493368576670380373569451609365793736, 994964685940465075001274990192576687014183976287968783286231033126492093562914691481803046034792263147056866829875, 1838886703252044446015124481093979693102672698638710340747660960846792685386488754028284473386587574478117635792139, 3514930990145968675953601901900174325308147036824506248315221852674019920548947461165849428099557039517221180845960] },
    { ok: false, c: [2, 0, 188995492400578496451910581292546059920654572609832469388872107051048741028892423057992033888655218419282460458611, 434381874456081807472298918693162486998243066160460423017297172308631992219110538691921044767658182807847155297615] },
    { ok: false, c: [3, 1, 2582976289427526833235338461690704431376586987791692657131159234993912303454846939540155920321400571624476600250655, 3652255520221484819932545922195740526043771103817482949169075422595624900588762864853303428021977933803089961934931] },
    { ok: false, c: [5, 2, 3122830152349011604176688986285857951403351475033794642572191478728285319730299824515460941000484977167433880527971, 3719410511870336225524944229548901852109312544533007166207967778528641886482393812556074193107881762858872167820808] },
    { ok: false, c: [382300318055387296639921164963644507418964034329523119420149402322270386143194908303717000248753894853781209356520, 2446247913592377757068820471161808688716040199534862776448748357873091866565356041479925434350102611334833291061918, 711174554749166248246475470982613801298975230652670222979679454229556533276222138305348047655385726168975352368104, 2817421532727275827531126718168945453096115290670565486167562760368887244859714739925427184468615948348650828784258] },
    { ok: false, c: [320141202955976298961103404352550698911830633192363738496409483932785008889907890194944487209625521006444761318171, 3529571606225681159729779719255860618231917383493327676959556952127572469490472243899802468909157136755555540928523, 2600708600395450913530968415761671539043227695687792465475794349547168745442464799402408912829902952710837523603014, 1220001342896799299445471683358743814471709871690716667013701570101467421949799891659119777323302839097029108831933] },
    { ok: false, c: [1349003097578724499273312709415254922418587894835902960349097068165251099741205982092747459368433519061487054717861, 2892566517179227865141896842001266836032181287309722999511831252817879521114965235990488940593969340327388403829081, 3780850162982512331820075594393330166375261176519536801355448086030103083747725307216845683423476804069142197685805, 3768240500627393982169927083761950537305851298790900198619915602401259171179079510451363355969665643743062911077807] },
  ]

  /// points of the curve in the pool have their membership known, up to the sign of y
  pure def member(c: List[int]): bool = {
    val pool = if (c.length() == 2) POOL1 else POOL2
    val m = pool.select(e => px(e.c) == px(c))
    if (m.length() > 0) m[0].ok else inSubgroup(c)
  }
  /// x, y, z as written to the decoded point: [] is the point at infinity
  pure def point(x: List[int], y: List[int], z: List[int]): Point =
    if (xzero(z)) { ok: true, c: [] }
    else {
      val i = xinv(z)
      val i2 = xmul(i, i)
      val c = xmul(x, i2).concat(xmul(y, xmul(i2, i)))
      { ok: onCurve(c) and member(c), c: c }
    }

  // ---- decoding
  type Dec = { ok: bool, back: List[GTok] }
  pure val NO: Dec = { ok: false, back: [] }
  pure def tk(k: str, v: int): GTok = { k: k, v: v, raw: "" }
  pure def kinds(t: List[GTok]): List[str] = t.foldl([], (l, x) => l.append(x.k))
  pure def nums(t: List[GTok], m: int): List[int] = t.select(x => x.k == "text").foldl([], (l, x) => l.append(md(x.v, m)))
  pure def texts(l: List[int]): List[GTok] = l.foldl([], (t, v) => t.append(tk("text", v)))
  pure def arr(t: List[GTok]): List[GTok] = [tk("[", 0)].concat(t).append(tk("]", 0))
  pure val K1 = ["[", "text", "text", "text", "]"]
  pure val KF = ["[", "text", "text", "]"]
  pure val K2 = ["["].concat(KF).concat(KF).concat(KF).append("]")
  pure val K6 = K2
  pure val KT = ["["].concat(K6).concat(K6).append("]")
  pure def w1(c: List[int]): List[GTok] = if (c == []) arr(texts([0, 1, 0])) else arr(texts(c.append(1)))
  pure def w2(c: List[int]): List[GTok] = {
    val d = if (c == []) [0, 0, 1, 0, 0, 0] else c.concat([1, 0])
    arr(arr(texts(d.slice(0, 2))).concat(arr(texts(d.slice(2, 4)))).concat(arr(texts(d.slice(4, 6)))))
  }
  pure def g1(t: List[GTok]): Dec =
    if (kinds(t) != K1) NO
    else {
      val n = nums(t, Q)
      val p = point([n[0]], [n[1]], [n[2]])
      if (p.ok) { ok: true, back: w1(p.c) } else NO
    }
  pure def g2(t: List[GTok]): Dec =
    if (kinds(t) != K2) NO
    else {
      val n = nums(t, Q)
      val p = point(n.slice(0, 2), n.slice(2, 4), n.slice(4, 6))
      if (p.ok) { ok: true, back: w2(p.c) } else NO
    }
  pure def reduced(t: List[GTok], m: int): List[GTok] = t.foldl([], (l, x) => l.append(if (x.k == "text") tk("text", md(x.v, m)) else x))
  pure def gt(t: List[GTok]): Dec = if (kinds(t) == KT) { ok: true, back: reduced(t, Q) } else NO
  pure def ic(t: List[GTok]): Dec = {
    val n = t.length()
    if (n < 2 or (n - 2) % 5 != 0 or t[0].k != "[" or t[n - 1].k != "]") NO
    else {
      val d = range(0, (n - 2) / 5).foldl({ ok: true, back: [] }, (s, i) => {
        val p = g1(t.slice(1 + 5 * i, 6 + 5 * i))
        if (s.ok and p.ok) { ok: true, back: s.back.concat(p.back) } else NO
      })
      if (d.ok) { ok: true, back: arr(d.back) } else NO
    }
  }
  pure def list(t: List[GTok]): Dec = {
    val n = t.length()
    if (n < 2 or t[0].k != "[" or t[n - 1].k != "]" or t.slice(1, n - 1).select(x => x.k != "text") != []) NO
    else { ok: true, back: reduced(t, R) }
  }
  pure def count(t: List[GTok]): Dec = if (kinds(t) == ["number"] and t[0].v >= 0 and t[0].v < 2^64) { ok: true, back: t } else NO
  pure def word(t: List[GTok]): Dec = if (kinds(t) == ["raw"] or kinds(t) == ["text"]) { ok: true, back: t } else NO
  pure def names(kind: str): List[str] =
    if (kind == "proof") ["pi_a", "pi_b", "pi_c", "protocol", "curve"]
    else if (kind == "key") ["protocol", "nPublic", "vk_alpha_1", "vk_beta_2", "vk_gamma_2", "vk_delta_2", "vk_alphabeta_12", "IC"]
    else [""]
  pure def valueOf(n: str, t: List[GTok]): Dec =
    if (Set("pi_a", "pi_c", "vk_alpha_1").contains(n)) g1(t)
    else if (Set("pi_b", "vk_beta_2", "vk_gamma_2", "vk_delta_2").contains(n)) g2(t)
    else if (n == "vk_alphabeta_12") gt(t) else if (n == "IC") ic(t) else if (n == "") list(t)
    else if (n == "nPublic") count(t) else word(t)
  /// every field once, in any order; fields of other names are skipped
  pure def decode(kind: str, f: List[Field]): { ok: bool, back: List[Field] } =
    names(kind).foldl({ ok: true, back: [] }, (s, n) => {
      val m = f.select(x => x.name == n)
      if (not(s.ok) or m.length() != 1) { ok: false, back: [] }
      else {
        val d = valueOf(n, m[0].toks)
        if (d.ok) { ok: true, back: s.back.append({ name: n, toks: d.back }) } else { ok: false, back: [] }
      }
    })

  // ---- data
  pure def rnd(s: int, m: int): int = (mix(s) * 2^320 + mix(s + 1) * 2^256 + mix(s + 2) * 2^192 + mix(s + 3) * 2^128 + mix(s + 4) * 2^64 + mix(s + 5)) % m
  pure def num(s: int, m: int): int = {
    val r = rnd(s, m)
    [r, r, r, 0, 1, m - 1, 2^64, 2^64 - 1, 2^256 % m, r / 2^130][mix(s + 7) % 10]
  }
  /// a point: mostly of the subgroup, with its y negated at random, in Jacobian coordinates at random
  pure def pt(two: bool, s: int, good: bool): List[GTok] = {
    val pool = if (two) POOL2 else POOL1
    val cand = pool.select(e => e.ok == good)
    val c = cand[mix(s) % cand.length()].c
    val x = px(c)
    val y = if (mix(s + 1) % 2 == 0) py(c) else xsub(xsub(x, x), py(c))
    val j = mix(s + 2) % 6
    if (good and j == 0) { if (two) w2([]) else w1([]) }
    else if (j < 4) { if (two) w2(x.concat(y)) else w1(x.concat(y)) }
    else {
      val z = if (two) [num(s + 10, Q), 1 + num(s + 30, Q - 1)] else [1 + num(s + 10, Q - 1)]
      val z2 = xmul(z, z)
      val a = xmul(x, z2).concat(xmul(y, xmul(z2, z))).concat(z)
      if (two) arr(arr(texts(a.slice(0, 2))).concat(arr(texts(a.slice(2, 4)))).concat(arr(texts(a.slice(4, 6))))) else arr(texts(a))
    }
  }
  pure def value_(n: str, s: int): List[GTok] =
    if (Set("pi_a", "pi_c", "vk_alpha_1").contains(n)) pt(false, s, true)
    else if (Set("pi_b", "vk_beta_2", "vk_gamma_2", "vk_delta_2").contains(n)) pt(true, s, true)
    else if (n == "vk_alphabeta_12") {
      def six(k) = arr(range(0, 3).foldl([], (l, i) => l.concat(arr(texts([num(s + 20 * i + 100 * k, Q), num(s + 20 * i + 100 * k + 10, Q)])))))
      arr(six(0).concat(six(1)))
    }
    else if (n == "IC") arr(range(0, mix(s + 1) % 5).foldl([], (l, i) => l.concat(pt(false, mix(s + i), true))))
    else if (n == "") arr(texts(range(0, mix(s + 1) % 9).foldl([], (l, i) => l.append(num(s + 11 * i, R)))))
    else if (n == "nPublic") [tk("number", [0, 1, 8, 2^64 - 1, mix(s)][mix(s + 1) % 5])]
    else [{ k: "raw", v: 0, raw: if (n == "protocol") ["groth16", "groth16", "", "plonk"][s % 4] else ["bls12381", "bn128", ""][s % 3] }]
  pure def doc(kind: str, s: int): List[Field] = {
    val l = names(kind).foldl({ i: 0, l: [] }, (z, n) => { i: z.i + 1, l: z.l.append({ name: n, toks: value_(n, mix(s + z.i)) }) }).l
    val extra = if (kind == "inputs" or s % 3 > 0) [] else [{ name: if (kind == "key") "curve" else "note", toks: arr(texts([num(s, Q)])) }]
    // rotated, reversed
    val k = mix(s + 50) % l.length()
    val m = l.slice(k, l.length()).concat(extra).concat(l.slice(0, k))
    if (mix(s + 51) % 2 == 0) m else m.foldl([], (z, x) => [x].concat(z))
  }
  pure val RAWS = ["", "12x", "0x1f", " 5", "5 ", "1.5", "--1", "1e3", "one", "-", "+", "0b1", "NaN"]
  pure def subst(t: List[GTok], i: int, x: List[GTok]): List[GTok] = t.slice(0, i).concat(x).concat(t.slice(i + 1, t.length()))
  /// one change to the tokens of a value, which stay balanced
  pure def change(n: str, t: List[GTok], s: int): List[GTok] = {
    val leaves = range(0, t.length()).select(i => t[i].k != "[" and t[i].k != "]")
    val inner = range(1, t.length()).select(i => t[i].k == "[")
    val a = mix(s) % 15
    if (a == 0 and t.length() > 1) [tk("text", 5)]
    else if (a == 1) [tk("null", 0)]
    else if (a == 2 and Set("pi_a", "pi_c", "vk_alpha_1").contains(n)) pt(false, s, false)
    else if (a == 3 and Set("pi_b", "vk_beta_2", "vk_gamma_2", "vk_delta_2").contains(n)) pt(true, s, false)
    else if (Set(2, 3).contains(a) and n == "IC") subst(t, t.length() - 1, pt(false, s, false).append(tk("]", 0)))
    else if (a == 4 and inner.length() > 0) {
      // without the brackets of an inner sequence of leaves
      val i = inner[mix(s + 1) % inner.length()]
      val j = range(i, t.length()).select(k => t[k].k == "]")[0]
      val inn = t.slice(i + 1, j)
      t.slice(0, i).concat(inn.select(x => x.k != "[")).concat(t.slice(j + 1, t.length()))
    }
    else if (leaves.length() == 0) [tk("[", 0)].concat(t).append(tk("]", 0))
    else {
      val i = leaves[mix(s + 1) % leaves.length()]
      val x = t[i]
      subst(t, i,
        if (a == 5) []
        else if (a == 6) [x, x]
        else if (a == 7) [{ k: "raw", v: 0, raw: RAWS[mix(s + 2) % 13] }]
        else if (a == 8) [{ ...x, k: "number" }]
        else if (a == 9) [{ ...x, k: "null" }]
        else if (a == 10) [{ ...x, v: x.v + 1 }]
        else if (a == 11) [{ ...x, v: 0 }]
        else if (a == 12) [{ ...x, v: x.v + [Q, R][s % 2] }]
        else if (a == 13) [{ ...x, v: 0 - x.v }]
        else [tk("[", 0), x, tk("]", 0)])
    }
  }

  action init = last' = NOE
  action load(kind: str, f: List[Field]): bool = {
    val d = decode(kind, f)
    last' = { ...NOE, op: if (d.ok) "decode" else "refuse", kind: kind, fields: f, back: d.back }
  }
  action some(kind: str, s: int): bool = load(kind, doc(kind, mix(s)))
  action damaged(kind: str, s: int): bool = {
    val f = doc(kind, mix(s))
    val i = mix(s + 1) % f.length()
    val a = mix(s + 2) % 12
    if (kind != "inputs" and a == 0) load(kind, f.slice(0, i).concat(f.slice(i + 1, f.length())))
    else if (kind != "inputs" and a == 1) load(kind, f.append(f[i]))
    else load(kind, f.replaceAt(i, { ...f[i], toks: change(f[i].name, f[i].toks, mix(s + 3)) }))
  }
  /// coordinates in Montgomery form, as circom's files have them
  pure def mont(v: int, m: int, n: int): List[int] = le(v * 256^n % m, n)
  action reader(s: int): bool = {
    val two = s % 2 == 0
    val pool = if (two) POOL2 else POOL1
    val ps = range(0, 1 + mix(s) % 3).foldl([], (l, i) => {
      val c = pool[mix(s + 10 * i) % pool.length()].c
      val z = mix(s + 10 * i + 1) % 6
      l.append(if (z == 0) c.foldl([], (q, _) => q.append(0)) else if (z == 1) c.replaceAt(0, (c[0] + 1) % Q) else c)
    })
    val flat = cat(ps)
    val check = mix(s + 40) % 2 == 0
    val ok = ps.foldl(true, (o, c) => o and (xzero(c) or (onCurve(c) and member(c))))
    last' = { ...NOE, op: "points", two: two, bytes: flat.foldl([], (l, v) => l.concat(mont(v, Q, 48))), coords: flat,
              flag: check, kind: if (check and not(ok)) "refuse" else "ok" }
  }
  action scalars(s: int): bool = {
    // the element written, read as it is, as Montgomery form, and as Montgomery form twice
    val m = [Q, R][s % 2]
    val n = [48, 32][s % 2]
    val v = num(s, m)
    val i = pow384(256^n % m, m - 2, m)
    last' = { ...NOE, op: "scalar", two: s % 2 == 0, bytes: le(v, n), coords: [v, v * i % m, v * i % m * i % m] }
  }
  action probe(s: int): bool = {
    val two = s % 2 == 0
    val pool = if (two) POOL2 else POOL1
    val e = pool[mix(s) % pool.length()]
    last' = { ...NOE, op: "probe", coords: e.c, two: two, flag: onCurve(e.c) and inSubgroup(e.c) == e.ok }
  }
  action gstep = {
    nondet a = 0.to(15).oneOf()
    nondet s = 0.to(2^48).oneOf()
    if (a < 2) some("proof", s) else if (a < 4) some("key", s) else if (a == 4) some("inputs", s)
    else if (a < 9) damaged("proof", s) else if (a < 12) damaged("key", s) else if (a == 12) damaged("inputs", s)
    else if (a == 13) reader(s) else if (a == 14) scalars(s) else if (mix(s) % 4 == 0) probe(s) else damaged("proof", s)
  }
  val ginv = and {
    last.op == "probe" implies last.flag,
    // what is written is read as itself
    last.op == "decode" implies decode(last.kind, last.back) == { ok: true, back: last.back },
  }
}
