----------------------------- MODULE Transcript -----------------------------
(* C12, C13 in the small: every conversation of DEPTH operations with a Fiat-Shamir transcript.        *)
(* A value is a literal (> 0) or output j of permutation call c, written -(32c + j + 1), as in          *)
(* ../hashes.qnt.  Every complete conversation is printed and replayed on the real transcripts.         *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, Json, TLC

CONSTANTS BIG,      \* TRUE: 256-bit words (sixteen to a call, capacity one); FALSE: Goldilocks (eight, four)
          DEPTH,
          SIZES,    \* how many values a "put" may bring
          QUERIES   \* <<number of positions, bits of each>> a "queries" may ask for

VARIABLES s, hist

RATE == IF BIG THEN 16 ELSE 8
OUTN == IF BIG THEN 17 ELSE 12
USED == IF BIG THEN 253 ELSE 63
Ref(c, j) == -(32 * c + j + 1)
CallOf(r) == (-r - 1) \div 32
Zeros(n) == [i \in 1..n |-> 0]

(* ------------------------------------------------------------------ the sponge *)
Permute(t) ==
  LET outs == [j \in 1..OUTN |-> Ref(t.ncalls, j - 1)] IN
  [t EXCEPT !.calls = Append(@, [x |-> t.pending \o Zeros(RATE - Len(t.pending)), cap |-> t.cap]),
            !.ncalls = @ + 1, !.pending = <<>>, !.cap = SubSeq(outs, 1, IF BIG THEN 1 ELSE 4),
            !.words = outs, !.parts = <<>>]
Absorb(t, x) ==
  LET a == [t EXCEPT !.words = <<>>, !.parts = <<>>, !.pending = Append(@, x)]
  IN IF Len(a.pending) = RATE THEN Permute(a) ELSE a
Ready(t) == IF t.words = <<>> THEN Permute(t) ELSE t
Word(t0) == LET t == Ready(t0)
            IN [t EXCEPT !.words = Tail(@), !.got = Append(@, [r |-> t.words[1], m |-> 3])]
Part(t0) ==
  LET t == IF t0.parts /= <<>> THEN t0
           ELSE LET w == Ready(t0)
                IN [w EXCEPT !.words = Tail(@), !.parts = [m \in 1..3 |-> [r |-> w.words[1], m |-> m - 1]]]
  IN [t EXCEPT !.parts = Tail(@), !.got = Append(@, t.parts[1])]
One(t) == IF BIG THEN Part(t) ELSE Word(t)

Many(t, n) == FoldLeft(LAMBDA a, i: Word(a), t, [i \in 1..n |-> i])

(* ------------------------------------------------------------------ conversations *)
Start(t) == [t EXCEPT !.calls = <<>>, !.got = <<>>]
Say(op, items, n, bits, pos, t) ==
  /\ s' = t
  /\ hist' = Append(hist, [op |-> op, items |-> items, n |-> n, bits |-> bits,
                           calls |-> t.calls, out |-> t.got, pos |-> pos])

Put(n) ==
  LET xs == [i \in 1..n |-> s.fresh + i]
      t == FoldLeft(Absorb, Start(s), xs)
  IN Say("put", [i \in 1..n |-> <<xs[i]>>], 0, 0, <<>>, [t EXCEPT !.fresh = @ + n])
(* one item of four values, or one 256-bit digest *)
PutDigest ==
  LET n == IF BIG THEN 1 ELSE 4
      xs == [i \in 1..n |-> s.fresh + i]
      t == FoldLeft(Absorb, Start(s), xs)
  IN Say("put", <<IF BIG THEN Append(xs, 1) ELSE xs>>, 0, 0, <<>>, [t EXCEPT !.fresh = @ + n])
Challenge == Say("field", <<>>, 0, 0, <<>>, One(One(One(Start(s)))))
Single == Say("single", <<>>, 0, 0, <<>>, One(Start(s)))
Positions(n, bits) ==
  Say("queries", <<>>, n, bits,
      [i \in 1..n |-> [j \in 1..bits |->
          LET b == (i - 1) * bits + j - 1 IN 512 * (b \div USED) + (b % USED)]],
      Many(Start(s), (n * bits + USED - 1) \div USED))

Init == /\ s = [pending |-> <<>>, cap |-> Zeros(IF BIG THEN 1 ELSE 4), words |-> <<>>, parts |-> <<>>,
                ncalls |-> 0, calls |-> <<>>, got |-> <<>>, fresh |-> 0]
        /\ hist = <<>>
Next == /\ Len(hist) < DEPTH
        /\ \/ \E n \in SIZES: Put(n)
           \/ PutDigest
           \/ Challenge
           \/ Single
           \/ \E q \in QUERIES: Positions(q[1], q[2])
Spec == Init /\ [][Next]_<<s, hist>>

(* ------------------------------------------------------------------ what a transcript is for *)
AllCalls == FoldLeft(LAMBDA l, e: l \o e.calls, <<>>, hist)
(* the literals that call c (from 0) depends on *)
RECURSIVE Reach(_)
Reach(c) == LET k == AllCalls[c + 1]
                xs == Range(k.x) \cup Range(k.cap)
            IN {x \in xs: x > 0} \cup UNION {Reach(d): d \in {CallOf(x): x \in {y \in xs: y < 0}}}
(* Checked for the newest event; older ones were newest before. *)
Newest == hist[Len(hist)]
(* every challenge and position depends on every value absorbed before it *)
Bound == hist = <<>> \/ \A c \in {CallOf(o.r): o \in Range(Newest.out)}: Reach(c) = 1..s.fresh
(* nothing drawn is drawn again: whole words are disjoint from words read in parts *)
Drawn == FoldLeft(LAMBDA l, e: l \o e.out, <<>>, hist)
Once == /\ Cardinality(Range(Drawn)) = Len(Drawn)
        /\ \A d \in {e \in Range(Drawn): e.m = 3}: \A m \in 0..2: [r |-> d.r, m |-> m] \notin Range(Drawn)
(* nothing absorbed is forgotten: it is in a call the capacity depends on, or pending *)
Kept == LET held == IF s.ncalls = 0 THEN {} ELSE Reach(s.ncalls - 1)
        IN held \cup Range(s.pending) = 1..s.fresh
Fits == Len(s.pending) < RATE /\ (s.words /= <<>> => s.pending = <<>>)
(* positions use every bit of the words drawn at most once and stay inside the bits that are used *)
Disjoint == (hist /= <<>> /\ Newest.op = "queries") =>
   LET ps == FoldLeft(LAMBDA l, p: l \o p, <<>>, Newest.pos)
   IN /\ Cardinality(Range(ps)) = Len(ps)
      /\ \A p \in Range(ps): p \div 512 < Len(Newest.out) /\ (p % 512) < USED
Inv == Bound /\ Once /\ Kept /\ Fits /\ Disjoint
WideGl == 1..18
WideBig == {1, 2, 3, 8, 13, 14, 15, 16, 17, 18, 31, 32, 33}
QSmall == {<<1, 1>>, <<4, 16>>, <<22, 3>>}
QWide == {<<1, 1>>, <<4, 16>>, <<22, 3>>, <<128, 24>>, <<23, 11>>}
(* the behaviours to replay *)
Emit == Len(hist) = DEPTH => PrintT(ToJson(hist))
=============================================================================
