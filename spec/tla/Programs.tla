------------------------------ MODULE Programs ------------------------------
(* C16, C17 in the small: every program of one relation over two to four columns of four rows, and       *)
(* EVERY trace of it with the values VALS: an inclusion, a permutation (with and without selectors,       *)
(* single and in pairs), a connection, a polynomial identity.  The verdict of a proof must be the         *)
(* meaning of the relation on the trace.  Every (program, trace) is printed, with its verdict, for        *)
(* proving and verifying with the real code.                                                               *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, Json, TLC

CONSTANTS KINDS,    \* which relations
          VALS,     \* values of cells
          COLS,     \* the two columns
          ALTERED,  \* whether accepted proofs are altered, in every way below
          SELS,     \* selector columns
          WIRINGS,  \* ways to connect the eight cells of two columns
          LEFT, RIGHT, OUT,  \* leaves of identities  left * right = out
          PRINTED      \* "sat": only satisfying traces are printed; "all"
VARIABLES phase, prog, trace

N == 4
Row == 1..N
Nxt(i) == (i % N) + 1

(* ------------------------------------------------------------------ meaning *)
(* an inclusion's unselected row on the left is fine; an unselected row of the table is (0, ..., 0, 1) *)
Sel(s, i) == s = <<>> \/ s[i] = 1
TRow(t, s, i) == IF Sel(s, i) THEN [j \in 1..Len(t) |-> t[j][i]] \o <<0>> ELSE [j \in 1..Len(t) |-> 0] \o <<1>>
Included(f, t, sF, sT) ==
  \A i \in Row: Sel(sF, i) => \E k \in Row: TRow(t, sT, k) = [j \in 1..Len(f) |-> f[j][i]] \o <<0>>
Count(R(_), r) == Cardinality({k \in Row: R(k) = r})
Permuted(f, t, sF, sT) ==
  LET F(i) == TRow(f, sF, i)  T(i) == TRow(t, sT, i)
  IN \A i \in Row: Count(F, F(i)) = Count(T, F(i))
(* cells 1..4 are the first column, 5..8 the second; a wiring sends each cell to another: equal along every cycle *)
Connected(a, b, w) == LET v == [c \in 1..8 |-> IF c <= 4 THEN a[c] ELSE b[c - 4]] IN \A c \in 1..8: v[c] = v[w[c]]
(* leaves: "a", "b" in the row, "A", "B" in the next row, "1" the first-row column, "2" the number two *)
At(x, a, b, i) == CASE x = "a" -> a[i] [] x = "b" -> b[i] [] x = "A" -> a[Nxt(i)] [] x = "B" -> b[Nxt(i)]
                    [] x = "1" -> (IF i = 1 THEN 1 ELSE 0) [] x = "2" -> 2
Identity(e, a, b) == \A i \in Row: At(e[1], a, b, i) * At(e[2], a, b, i) = At(e[3], a, b, i)

Sat(p, t) ==
  CASE p.kind = "incl" -> Included(<<t.a>>, <<t.b>>, <<>>, <<>>)
    [] p.kind = "inclF" -> Included(<<t.a>>, <<t.b>>, t.s, <<>>)
    [] p.kind = "inclT" -> Included(<<t.a>>, <<t.b>>, <<>>, t.u)
    [] p.kind = "inclFT" -> Included(<<t.a>>, <<t.b>>, t.s, t.u)
    [] p.kind = "inclPair" -> Included(<<t.a, t.b>>, <<t.b, t.a>>, <<>>, <<>>)
    [] p.kind = "perm" -> Permuted(<<t.a>>, <<t.b>>, <<>>, <<>>)
    [] p.kind = "permFT" -> Permuted(<<t.a>>, <<t.b>>, t.s, t.u)
    [] p.kind = "permPair" -> Permuted(<<t.a, t.b>>, <<t.b, t.a>>, <<>>, <<>>)
    [] p.kind = "conn" -> Connected(t.a, t.b, p.w)
    [] p.kind = "id" -> Identity(p.e, t.a, t.b)
    [] p.kind = "two" -> Included(<<t.a>>, <<t.b>>, <<>>, <<>>) /\ Permuted(<<t.a>>, <<t.b>>, <<>>, <<>>)

(* ------------------------------------------------------------------ programs and traces *)
None == [kind |-> "", w |-> <<>>, e |-> <<>>]
Programs == {[None EXCEPT !.kind = k]: k \in KINDS \ {"conn", "id"}}
   \cup (IF "conn" \in KINDS THEN {[None EXCEPT !.kind = "conn", !.w = w]: w \in WIRINGS} ELSE {})
   \cup (IF "id" \in KINDS THEN {[None EXCEPT !.kind = "id", !.e = <<x, y, z>>]: x \in LEFT, y \in RIGHT, z \in OUT} ELSE {})
HasF(p) == p.kind \in {"inclF", "inclFT", "permFT"}
HasT(p) == p.kind \in {"inclT", "inclFT", "permFT"}
Zero == [i \in Row |-> 0]
Init == phase = "" /\ prog = None /\ trace = <<>>
Next == \/ /\ phase = "" /\ phase' = "program" /\ prog' \in Programs /\ UNCHANGED trace
        \/ /\ phase = "program" /\ phase' = "trace" /\ UNCHANGED prog
           /\ \E a \in COLS, b \in COLS, s \in (IF HasF(prog) THEN SELS ELSE {Zero}), u \in (IF HasT(prog) THEN SELS ELSE {Zero}):
                trace' = [a |-> a, b |-> b, s |-> s, u |-> u]
Spec == Init /\ [][Next]_<<phase, prog, trace>>

(* ------------------------------------------------------------------ what relations mean, in other words *)
Values(c) == {c[i]: i \in Row}
Bag(c) == [x \in VALS |-> Cardinality({i \in Row: c[i] = x})]
Perms4 == {p \in [Row -> Row]: \A i, j \in Row: i /= j => p[i] /= p[j]}
Sane == phase = "trace" =>
  LET t == trace  k == prog.kind IN
  /\ k = "incl" => (Sat(prog, t) <=> Values(t.a) \subseteq Values(t.b))
  /\ k = "perm" => (Sat(prog, t) <=> \E p \in Perms4: \A i \in Row: t.a[i] = t.b[p[i]])
  /\ k = "perm" => (Sat(prog, t) => Included(<<t.a>>, <<t.b>>, <<>>, <<>>))
  /\ k = "permFT" => (Sat(prog, t) => Cardinality({i \in Row: t.s[i] = 1}) = Cardinality({i \in Row: t.u[i] = 1}))
  /\ k = "inclFT" => ((\A i \in Row: t.u[i] = 0) => (Sat(prog, t) <=> \A i \in Row: t.s[i] = 0))
  /\ k = "permPair" => (Sat(prog, t) => Bag(t.a) = Bag(t.b))

(* ------------------------------------------------------------------ as the code reads it *)

Leaf(op, v, nx) == <<[op |-> op, a |-> 0, b |-> 0, v |-> v, nx |-> nx]>>
Shift(e, n) == [i \in 1..Len(e) |-> [e[i] EXCEPT !.a = @ + n, !.b = @ + n]]
Bin(op, x, y) == x \o Shift(y, Len(x)) \o <<[op |-> op, a |-> Len(x) - 1, b |-> Len(x) + Len(y) - 1, v |-> 0, nx |-> FALSE]>>
Term(x) == CASE x = "a" -> Leaf("cm", 0, FALSE) [] x = "b" -> Leaf("cm", 1, FALSE) [] x = "A" -> Leaf("cm", 0, TRUE)
             [] x = "B" -> Leaf("cm", 1, TRUE) [] x = "1" -> Leaf("const", 0, FALSE) [] x = "2" -> Leaf("number", 2, FALSE)
(* expressions 0: c0 (1 - c0); 1..4: the columns; 5, 6: the connection's columns, or 5: the identity *)
Base == <<Bin("mul", Leaf("const", 0, FALSE), Bin("sub", Leaf("number", 1, FALSE), Leaf("const", 0, FALSE))),
          Leaf("cm", 0, FALSE), Leaf("cm", 1, FALSE), Leaf("cm", 2, FALSE), Leaf("cm", 3, FALSE)>>
Exprs(p) == IF p.kind = "conn" THEN Base \o <<Leaf("const", 2, FALSE), Leaf("const", 3, FALSE)>>
            ELSE IF p.kind = "id" THEN Base \o <<Bin("sub", Bin("mul", Term(p.e[1]), Term(p.e[2])), Term(p.e[3]))>>
            ELSE Base
(* the labels of the eight cells: powers of the root of order four, and their multiples by the coset's generator *)
Big(x) == "#bigint" :> x
LABELS == <<Big("1"), Big("281474976710656"), Big("18446744069414584320"), Big("18446462594437873665"),
            Big("12275445934081160404"), Big("15698977013907152186"), Big("6171298135333423917"), Big("2747767055507432135")>>
Consts(p) == <<<<1, 0, 0, 0>>, <<0, 0, 0, 1>>>>
  \o (IF p.kind = "conn" THEN <<[i \in 1..4 |-> LABELS[p.w[i]]], [i \in 1..4 |-> LABELS[p.w[4 + i]]]>> ELSE <<>>)
Incl(f, t, sF, sT) == [f |-> f, t |-> t, selF |-> sF, selT |-> sT]
P(p, t) == [nb |-> 2, consts |-> Consts(p), cms |-> <<t.a, t.b, t.s, t.u>>, exprs |-> Exprs(p),
  ids |-> IF p.kind = "id" THEN <<0, 5>> ELSE <<0>>,
  lookups |-> CASE p.kind \in {"incl", "two"} -> <<Incl(<<1>>, <<2>>, -1, -1)>> [] p.kind = "inclF" -> <<Incl(<<1>>, <<2>>, 3, -1)>>
                [] p.kind = "inclT" -> <<Incl(<<1>>, <<2>>, -1, 4)>> [] p.kind = "inclFT" -> <<Incl(<<1>>, <<2>>, 3, 4)>>
                [] p.kind = "inclPair" -> <<Incl(<<1, 2>>, <<2, 1>>, -1, -1)>> [] OTHER -> <<>>,
  perms |-> CASE p.kind \in {"perm", "two"} -> <<Incl(<<1>>, <<2>>, -1, -1)>> [] p.kind = "permFT" -> <<Incl(<<1>>, <<2>>, 3, 4)>>
              [] p.kind = "permPair" -> <<Incl(<<1, 2>>, <<2, 1>>, -1, -1)>> [] OTHER -> <<>>,
  conns |-> IF p.kind = "conn" THEN <<[pols |-> <<1, 2>>, conns |-> <<5, 6>>]>> ELSE <<>>,
  publics |-> <<>>]
(* proof parameters vary with the trace *)
Weight(t) == FoldLeft(LAMBDA n, i: n + (i * t.a[i]) + (3 * i * t.b[i]) + t.s[i] + (2 * t.u[i]), 0, <<1, 2, 3, 4>>)
Steps(n) == CASE n = 0 -> <<3>> [] n = 1 -> <<4, 2>> [] n = 2 -> <<4, 3, 1>> [] n = 3 -> <<3, 1>> [] n = 4 -> <<4>>
Opening == <<"publics", "root1", "draw", "draw", "root2", "draw", "draw", "root3", "draw", "root4", "draw", "evals", "draw", "draw">>
Talk(st) == Opening \o FoldLeft(LAMBDA l, i: IF i = 1 THEN l ELSE l \o <<"draw", "layer">>, <<>>, [i \in 1..Len(st) |-> i])
            \o <<"draw", "last", "positions">>
(* every single alteration of a small proof; numbers beyond what there is wrap around.  Of c the low three    *)
(* digits choose an element and the next a sibling in a path; the shift itself is c                           *)
Change(w, a, b, c) == [what |-> w, a |-> a, b |-> b, c |-> 48000 + c]
Alterations == SetToSeq(
   {Change(w, 0, b, 1): w \in {"root1", "root2", "root3", "root4", "const_root"}, b \in 0..3}
   \cup {Change("root_swap", a, b, 1): a \in 0..3, b \in 0..3}
   \cup {Change("layer", a, b, 1): a \in 0..1, b \in 0..3} \cup {Change("layer_swap", 0, 1, 1)}
   \cup {Change("eval", a, b, 1): a \in 0..23, b \in 0..2}
   \cup {Change("eval_swap", a, a + 1 + b, 1): a \in 0..15, b \in 0..2}
   \cup {Change("eval_drop", a, 0, 1): a \in {0, 1, 7}}
   \cup {Change("row", 8 * a, b, c): a \in 0..4, b \in 0..2, c \in 0..11}
   \cup {Change("row_swap", a, b, (1000 * c) + d): a \in 0..4, b \in 0..1, c \in 0..3, d \in 0..3}
   \cup {Change("path", 8 * a, b, (1000 * c) + d): a \in 0..4, b \in 0..2, c \in 0..3, d \in 0..3}
   \cup {Change("fold_row", a, b, c): a \in 0..1, b \in 0..2, c \in 0..11}
   \cup {Change("fold_path", a, b, (1000 * c) + d): a \in 0..1, b \in 0..2, c \in 0..3, d \in 0..1}
   \cup {Change("last", a, b, 1): a \in 0..15, b \in 0..2}
   \cup {Change("last_swap", a, b, 1): a \in 0..3, b \in 0..3}
   \cup {Change("last_drop", 0, 0, 1), Change("last_double", 0, 0, 1)}
   \cup {Change("query_drop", a, 0, 1): a \in 0..2} \cup {Change("query_swap", a, 0, c): a \in 0..2, c \in 1..2}
   \cup {Change("last_degree", a, b, 1): a \in 0..8, b \in 0..2}
   \cup {Change("last_one", a, b, 1): a \in 0..3, b \in 0..2}
   \cup {Change("eval_pair", 0, 0, c): c \in 0..2})
Event(p, t) ==
  LET n == Weight(t)  st == Steps(n % 5)  ok == Sat(p, t)
  IN [w |-> [p |-> P(p, t)],
      last |-> [kind |-> p.kind, trace |-> t, op |-> IF ok THEN "prove" ELSE "prove_broken", sat |-> ok, broken |-> IF ok THEN <<>> ELSE <<p.kind>>,
                cfg |-> [tall |-> 0, nbExt |-> st[1], steps |-> st, q |-> 1 + (n % 3), hash |-> 0, names |-> n % 6],
                alters |-> IF ALTERED /\ ok THEN Alterations ELSE <<>>, pubs |-> <<>>, talk |-> Talk(st), circuits |-> <<>>]]
Emit == (phase = "trace" /\ (PRINTED = "all" \/ Sat(prog, trace))) => PrintT(ToJson(<<Event(prog, trace)>>))

(* ------------------------------------------------------------------ configurations *)
Bits == {0, 1}
Trits == {0, 1, 2}
BitCols == [Row -> Bits]
TritCols == [Row -> Trits]
SomeCols == {<<0, 1, 1, 0>>, <<1, 1, 1, 0>>}
OneSel == {<<1, 0, 1, 0>>}
Different == {"incl", "inclFT", "perm", "permFT", "conn", "two", "id"}
AllSels == [Row -> Bits]
FewSels == {<<0, 0, 0, 0>>, <<1, 0, 1, 0>>, <<0, 1, 1, 1>>, <<0, 0, 0, 1>>}
Plain == {"incl", "inclPair", "perm", "permPair", "conn", "two"}
Unwired == Plain \ {"conn"}
Wired == {"conn"}
Ids == {"id"}
Selected == {"inclF", "inclT", "inclFT", "permFT"}
Loop(l) == [c \in 1..8 |-> IF c \in Range(l) THEN LET i == CHOOSE i \in 1..Len(l): l[i] = c IN l[(i % Len(l)) + 1] ELSE c]
FewWirings == {Loop(<<>>), Loop(<<1, 5>>), Loop(<<4, 5>>), Loop(<<2, 7, 3>>), Loop(<<8, 1, 6, 4>>), Loop(<<1, 2, 3, 4, 5, 6, 7, 8>>)}
OneWiring == {Loop(<<4, 8>>)}
AllWirings == FewWirings \cup {Loop(<<x, y>>): x \in 1..8, y \in 1..8} \cup {Loop(<<x, y, z>>): x \in 1..8, y \in 1..8, z \in 1..8}
Leaves == {"a", "b", "A", "B", "1", "2"}
OneLeft == {"a"}
OneRight == {"2", "b"}
OneOut == {"a", "b"}
FewLeft == {"a", "A", "1"}
FewRight == {"b", "1", "2"}
FewOut == {"B", "a"}
=============================================================================
