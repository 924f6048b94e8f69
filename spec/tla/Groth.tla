------------------------------- MODULE Groth -------------------------------
(* C36 in the small: every history of SETUPS set-ups and PROOFS proofs over the circuits CIRCUITS and the    *)
(* assignments listed for each, in every order in which it can happen; then every combination of key, proof, *)
(* public inputs and one element of another proof is checked.  A proof is accepted by the key it was made    *)
(* with, for its public inputs, if the assignment satisfies the circuit and it is whole; by nothing else.    *)
(* Every history is printed for replay.                                                                      *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, Json, TLC
CONSTANTS SETUPS, PROOFS, CIRCUITS
VARIABLES made,     \* of each key: the circuit
          shown,    \* of each proof: key, assignment
          h         \* the events
vars == <<made, shown, h>>

Con(a, b, c) == [a |-> a, b |-> b, c |-> c]
(* a product whose result is public: the public inputs do not tell the assignment *)
Product == [pubOut |-> 1, pubIn |-> 0,
            ws |-> <<<<1, 12, 3, 4>>, <<1, 12, 2, 6>>, <<1, 10, 2, 5>>, <<1, 11, 3, 4>>>>,
            cons |-> <<Con(<<<<2, 1>>>>, <<<<3, 1>>>>, <<<<1, 1>>>>)>>]
(* two public inputs and an output; one constraint is linear, one has an empty side *)
Sum == [pubOut |-> 1, pubIn |-> 2,
        ws |-> <<<<1, 9, 4, 5, 0>>, <<1, 9, 5, 4, 0>>, <<1, 9, 4, 5, 1>>, <<1, 8, 4, 5, 0>>>>,
        cons |-> <<Con(<<<<2, 1>>, <<3, 1>>>>, <<<<0, 1>>>>, <<<<1, 1>>>>), Con(<<>>, <<<<1, 1>>>>, <<<<4, 1>>>>)>>]
(* nothing public *)
Closed == [pubOut |-> 0, pubIn |-> 0,
           ws |-> <<<<1, 2, 4>>, <<1, 3, 9>>, <<1, 3, 8>>>>,
           cons |-> <<Con(<<<<1, 1>>>>, <<<<1, 1>>>>, <<<<2, 1>>>>)>>]
Two == <<Product, Sum>>
Three == <<Product, Sum, Closed>>

Eval(l, w) == FoldLeft(LAMBDA s, t: s + t[2] * w[t[1] + 1], 0, l)
Satisfied(c, w) == \A i \in 1..Len(c.cons): Eval(c.cons[i].a, w) * Eval(c.cons[i].b, w) = Eval(c.cons[i].c, w)
Pubs(c, w) == SubSeq(w, 2, 1 + c.pubOut + c.pubIn)
Circ(k) == CIRCUITS[made[k]]
Wit(p) == Circ(shown[p][1]).ws[shown[p][2]]
Shown(p) == Pubs(Circ(shown[p][1]), Wit(p))
Accept(k, p, v, part) == part = 0 /\ k = shown[p][1] /\ v = Shown(p) /\ Satisfied(Circ(k), Wit(p))

None == [op |-> "none", key |-> 0, proof |-> 0, other |-> 0, part |-> 0, pubs |-> <<>>, wit |-> <<>>, hex |-> FALSE,
         direct |-> FALSE, ok |-> TRUE, circ |-> [pubOut |-> 0, pubIn |-> 0, ws |-> <<<<1>>>>, cons |-> <<>>]]
Init == made = <<>> /\ shown = <<>> /\ h = <<>>
Setup(c) == /\ Len(made) < SETUPS
            /\ made' = Append(made, c) /\ UNCHANGED shown
            /\ h' = Append(h, [None EXCEPT !.op = "setup", !.key = Len(made), !.circ = CIRCUITS[c],
                                           !.hex = (Len(made) % 2 = 0), !.direct = ((c + Len(made)) % 2 = 0)])
Prove(k, i) == /\ Len(shown) < PROOFS
               /\ shown' = Append(shown, <<k, i>>) /\ UNCHANGED made
               /\ h' = Append(h, [None EXCEPT !.op = "prove", !.key = k - 1, !.proof = Len(shown), !.circ = Circ(k),
                                              !.wit = Circ(k).ws[i], !.pubs = Pubs(Circ(k), Circ(k).ws[i]), !.hex = (i % 2 = 0)])
Next == \/ \E c \in 1..Len(CIRCUITS): Setup(c)
        \/ \E k \in 1..Len(made): \E i \in 1..Len(Circ(k).ws): Prove(k, i)
Spec == Init /\ [][Next]_vars
Done == Len(made) = SETUPS /\ Len(shown) = PROOFS

(* public inputs that are tried: those of every proof, one changed, one missing, one too many, two exchanged *)
Tried(p) == LET v == Shown(p) IN
  {Shown(q): q \in 1..Len(shown)} \union {Append(v, 0)}
  \union {[v EXCEPT ![i] = @ + 1]: i \in 1..Len(v)} \union {SubSeq(v, 1, i): i \in 0..(Len(v) - 1)}
  \union {[v EXCEPT ![i] = v[1], ![1] = v[i]]: i \in 1..Len(v)}
Checks == SetToSeq(UNION {UNION {UNION {{[None EXCEPT !.op = "verify", !.key = k - 1, !.proof = p - 1, !.other = q - 1, !.part = t,
                                                      !.pubs = v, !.ok = Accept(k, p, v, t), !.hex = (t % 2 = 0)]:
                                            v \in IF t > 0 THEN {Shown(p)} ELSE Tried(p)}:
                                         t \in IF q = p THEN {0} ELSE 1..3}: q \in 1..Len(shown)}:
                           <<k, p>> \in (1..Len(made)) \X (1..Len(shown))})
(* a proof is accepted by one key at most, and for one list of public inputs *)
Sound == \A p \in 1..Len(shown): \A k, l \in 1..Len(made): \A v, w \in Tried(p):
           Accept(k, p, v, 0) /\ Accept(l, p, w, 0) => k = l /\ v = w
Complete == \A p \in 1..Len(shown): Satisfied(Circ(shown[p][1]), Wit(p)) => Accept(shown[p][1], p, Shown(p), 0)
Inv == Sound /\ Complete
Emit == Done => PrintT(ToJson(h \o Checks))
=============================================================================
