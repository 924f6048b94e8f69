------------------------------- MODULE Plonk -------------------------------
(* C25 in the small: every system of at most DEPTH constraints a*b = c whose sides are linear          *)
(* combinations of at most TERMS wires with the coefficients COEFS, and every assignment of its wires  *)
(* by the values VALS.  Integers here are so small that equality is equality modulo the field order.   *)
(* A conversion to three-wire gates is given too, and shown equivalent; the implementation's may        *)
(* differ, but must hold for exactly the same assignments.  Every system is printed for replay.        *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, Json, TLC

CONSTANTS NW,       \* wires, with wire 0 the constant 1
          COEFS, VALS, TERMS, DEPTH,
          SORTED    \* TRUE: terms in the order of their wires only
VARIABLES cons

Wires == 0..(NW - 1)
Terms == {<<w, k>>: w \in Wires, k \in COEFS}
Combination(l) == \A i, j \in 1..Len(l): i < j => IF SORTED THEN l[i][1] < l[j][1] ELSE l[i][1] /= l[j][1]
Lcs == {l \in UNION {[1..n -> Terms]: n \in 0..TERMS}: Combination(l)}

(* ------------------------------------------------------------------ meaning *)
Eval(l, w) == FoldLeft(LAMBDA s, t: s + t[2] * w[t[1] + 1], 0, l)
Holds(c, w) == Eval(c.a, w) * Eval(c.b, w) = Eval(c.c, w)
Assignments == {<<1>> \o w: w \in [1..(NW - 1) -> VALS]}

(* ------------------------------------------------------------------ a conversion *)
(* a combination becomes <<wire, coefficient, constant>>: terms are added two at a time into new wires *)
Konst(l) == FoldLeft(LAMBDA s, t: IF t[1] = 0 THEN s + t[2] ELSE s, 0, l)
Vars(l) == SelectSeq(l, LAMBDA t: t[1] /= 0)
Reduce(l, o) ==
  LET v == Vars(l)
      z == FoldLeft(LAMBDA r, t:
             IF r.t = <<>> THEN [r EXCEPT !.t = t]
             ELSE [t |-> <<r.o.n, 1>>,
                   o |-> [g |-> Append(r.o.g, <<r.t[1], t[1], r.o.n, 0, -r.t[2], -t[2], 1, 0>>),
                          add |-> Append(r.o.add, <<r.t[1], t[1], r.t[2], t[2]>>), n |-> r.o.n + 1]],
             [t |-> <<>>, o |-> o], v)
  IN [t |-> IF z.t = <<>> THEN <<0, 0>> ELSE z.t, k |-> Konst(l), o |-> z.o]
Convert(c, o) ==
  LET a == Reduce(c.a, o)  b == Reduce(c.b, a.o)  d == Reduce(c.c, b.o)
  IN [d.o EXCEPT !.g = Append(@, <<a.t[1], b.t[1], d.t[1], a.t[2] * b.t[2], a.t[2] * b.k, a.k * b.t[2],
                                    -d.t[2], (a.k * b.k) - d.k>>)]
Gates(cs) == FoldLeft(LAMBDA o, c: Convert(c, o), [g |-> <<>>, add |-> <<>>, n |-> NW], cs)
Extend(add, w) == FoldLeft(LAMBDA z, x: Append(z, x[3] * z[x[1] + 1] + x[4] * z[x[2] + 1]), w, add)
GateOk(g, w) == g[4] * w[g[1] + 1] * w[g[2] + 1] + g[5] * w[g[1] + 1] + g[6] * w[g[2] + 1] + g[7] * w[g[3] + 1] + g[8] = 0

M1_0_2 == {-1, 0, 2}
M1_1 == {-1, 1}
M1_0_1 == {-1, 0, 1}
M1_0_1_2 == {-1, 0, 1, 2}
(* ------------------------------------------------------------------ systems *)
Init == cons = <<>>
Next == /\ Len(cons) < DEPTH
        /\ \E a \in Lcs, b \in Lcs, c \in Lcs: cons' = Append(cons, [a |-> a, b |-> b, c |-> c])
Spec == Init /\ [][Next]_cons

Equivalent == LET o == Gates(cons) IN \A w \in Assignments:
  (\A i \in 1..Len(cons): Holds(cons[i], w)) <=> (LET v == Extend(o.add, w) IN \A i \in 1..Len(o.g): GateOk(o.g[i], v))
(* each added wire is the output of a gate with a coefficient that is not zero: it has one value only *)
Determined == LET o == Gates(cons) IN \A i \in 1..Len(o.add): \E j \in 1..Len(o.g):
  o.g[j][3] = NW + i - 1 /\ o.g[j][7] = 1 /\ o.g[j][4] = 0 /\ o.g[j][1] < NW + i - 1 /\ o.g[j][2] < NW + i - 1
Inv == Equivalent /\ Determined
Ordered == SetToSeq(Assignments)
Emit == Len(cons) = DEPTH => PrintT(ToJson(<<[op |-> "convert",
  circ |-> [pubOut |-> 1, pubIn |-> 0, w |-> Ordered[1], cons |-> cons, gates |-> <<>>, uses |-> <<>>],
  alts |-> [i \in 1..Len(Ordered) |-> [w |-> Ordered[i], ok |-> [j \in 1..Len(cons) |-> Holds(cons[j], Ordered[i])]]]]>>))
=============================================================================
