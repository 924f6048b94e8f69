------------------------------ MODULE Merkle ------------------------------
(* C10, C11 in the small: every tree of the shapes below, every opening of it and every single        *)
(* alteration of every opening.  Digests are terms over permutation calls (../hashes.qnt): literals    *)
(* are >= 0, output j of call c is -(32c + j + 1); equal terms are equal digests.                      *)
(* Every behaviour - a tree, then one opening or one altered opening - is printed for replay.         *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, Json, TLC

CONSTANTS BIG,      \* TRUE: sixteen children, digests of one word; FALSE: two children, digests of four
          IDX,      \* the output that is the digest (256-bit)
          HEIGHTS, WIDTHS, KINDS, LIE
VARIABLES tree, hist, phase

ARITY == IF BIG THEN 16 ELSE 2
RATE == IF BIG THEN 16 ELSE 8
ZERO == IF BIG THEN <<0>> ELSE <<0, 0, 0, 0>>
Ref(c, j) == -(32 * c + j + 1)
OUTS == IF BIG THEN <<IDX>> ELSE <<0, 1, 2, 3>>
CeilDiv(a, b) == (a + b - 1) \div b
Lower(a, b) == IF a < b THEN a ELSE b
Higher(a, b) == IF a > b THEN a ELSE b
Pad(l, n) == l \o [i \in 1..Higher(0, n - Len(l)) |-> 0]
Chunks(l, n) == [i \in 1..CeilDiv(Len(l), n) |-> SubSeq(l, (i - 1) * n + 1, Lower(Len(l), i * n))]
Flat(ls) == FoldLeft(LAMBDA a, b: a \o b, <<>>, ls)

(* ------------------------------------------------------------------ calls; equal calls are shared *)
Call(d, x, cap) ==
  LET k == [x |-> x, cap |-> cap]
      at == {i \in 1..Len(d): d[i] = k}
      c == IF at = {} THEN Len(d) ELSE (CHOOSE i \in at: TRUE) - 1
  IN [d |-> IF at = {} THEN Append(d, k) ELSE d, v |-> [j \in 1..Len(OUTS) |-> Ref(c, OUTS[j])]]

(* Goldilocks rows: blocks of eight chained through the capacity; long rows in batches first *)
Sponge(d, xs) ==
  IF Len(xs) <= 4 THEN [d |-> d, v |-> Pad(xs, 4)]
  ELSE FoldLeft(LAMBDA r, b: Call(r.d, Pad(b, 8), r.v), [d |-> d, v |-> ZERO], Chunks(xs, 8))
Batched(d, xs) ==
  IF Len(xs) <= 4 THEN [d |-> d, v |-> Pad(xs, 4)]
  ELSE LET hs == FoldLeft(LAMBDA r, b: LET h == Sponge(r.d, b) IN [d |-> h.d, v |-> r.v \o h.v],
                          [d |-> d, v |-> <<>>], Chunks(xs, Higher(8, CeilDiv(Len(xs), 4))))
       IN IF Len(hs.v) <= 4 THEN hs ELSE Sponge(hs.d, hs.v)
(* 256-bit rows: three values to a word - here only the first of three is not zero, so the word is that value *)
Words(xs) == [i \in 1..CeilDiv(Len(xs), 3) |-> xs[3 * i - 2]]
Chain(d, ws) ==
  IF Len(ws) = 1 THEN [d |-> d, v |-> ws]
  ELSE FoldLeft(LAMBDA r, b: Call(r.d, b, r.v), [d |-> d, v |-> <<0>>], Chunks(ws, 16))
Leaf(d, xs) == IF BIG THEN Chain(d, Words(xs)) ELSE Batched(d, xs)
Node(d, kids) == Call(d, Flat(kids), ZERO)

(* ------------------------------------------------------------------ trees *)
Padded(l) == l \o [i \in 1..(CeilDiv(Len(l), ARITY) * ARITY - Len(l)) |-> ZERO]
RECURSIVE Up(_, _, _)
Up(d, levels, cur) ==
  IF Len(cur) <= 1 THEN [d |-> d, levels |-> Append(levels, cur)]
  ELSE LET p == Padded(cur)
           n == FoldLeft(LAMBDA r, i: LET c == Node(r.d, SubSeq(p, (i - 1) * ARITY + 1, i * ARITY))
                                      IN [d |-> c.d, v |-> Append(r.v, c.v)],
                         [d |-> d, v |-> <<>>], [i \in 1..(Len(p) \div ARITY) |-> i])
       IN Up(n.d, Append(levels, p), n.v)
Build(pats, rowOf) ==
  LET ls == FoldLeft(LAMBDA r, p: LET c == Leaf(r.d, p) IN [d |-> c.d, v |-> Append(r.v, c.v)],
                     [d |-> <<>>, v |-> <<>>], pats)
      t == Up(ls.d, <<>>, [i \in 1..Len(rowOf) |-> ls.v[rowOf[i] + 1]])
  IN [pats |-> pats, rowOf |-> rowOf, d |-> t.d, levels |-> t.levels]
H(t) == Len(t.rowOf)
Row(t, i) == t.pats[t.rowOf[i + 1] + 1]
Root(t) == t.levels[Len(t.levels)][1]
Depth(t) == Len(t.levels) - 1
RECURSIVE Pow(_, _)
Pow(a, n) == IF n = 0 THEN 1 ELSE a * Pow(a, n - 1)
(* per level: the sibling, or the whole group of sixteen *)
Path(t, i) == [l \in 1..Depth(t) |->
   LET j == i \div Pow(ARITY, l - 1)
   IN IF BIG THEN [e \in 1..16 |-> t.levels[l][j - (j % 16) + e][1]]
      ELSE t.levels[l][IF j % 2 = 0 THEN j + 2 ELSE j]]
Climb(d, row, i, p) ==
  FoldLeft(LAMBDA r, l:
     LET e == (i \div Pow(ARITY, l - 1)) % ARITY
     IN IF BIG THEN Call(r.d, [p[l] EXCEPT ![e + 1] = r.v[1]], ZERO)
        ELSE Call(r.d, IF e = 0 THEN r.v \o p[l] ELSE p[l] \o r.v, ZERO),
     Leaf(d, row), [l \in 1..Len(p) |-> l])

(* ------------------------------------------------------------------ behaviours *)
Cell(i, j) == IF BIG /\ j % 3 /= 1 THEN 0 ELSE 1 + 64 * i + j
(* kind 0: all rows differ; 1: rows repeat; 2: the last row is zero *)
Rows(h, w, k) ==
  LET m == IF k = 1 THEN Lower(h, 2) ELSE h
  IN [pats |-> [i \in 1..m |-> [j \in 1..w |-> IF k = 2 /\ i = h THEN 0 ELSE Cell(i - 1, j)]],
      rowOf |-> [i \in 1..h |-> (i - 1) % m]]
none == [op |-> "", h |-> 0, w |-> 0, pats |-> <<>>, rowOf |-> <<>>, nodes |-> <<>>, calls |-> <<>>,
         i |-> 0, row |-> <<>>, path |-> <<>>, root |-> <<>>, ok |-> TRUE, kind |-> 0, workers |-> 0]
Init == /\ tree = [pats |-> <<>>, rowOf |-> <<>>, d |-> <<>>, levels |-> <<>>]
        /\ hist = <<>>
        /\ phase = "empty"
Make == \E h \in HEIGHTS, w \in WIDTHS, k \in KINDS:
  /\ phase = "empty" /\ phase' = "built"
  /\ LET r == Rows(h, w, k) IN tree' = Build(r.pats, r.rowOf)
  /\ hist' = <<[none EXCEPT !.op = "build", !.h = h, !.w = w, !.pats = tree'.pats, !.rowOf = tree'.rowOf,
       !.workers = 1 + ((h + w) % 4), !.calls = tree'.d, !.root = Root(tree'),
       !.nodes = LET n == Flat(tree'.levels) IN [x \in 1..Len(n) |-> IF n[x][1] < 0 THEN <<n[x][1]>> ELSE n[x]]]>>
Say(e) == phase' = "done" /\ UNCHANGED tree /\ hist' = Append(hist, e)
Open(i) == Say([none EXCEPT !.op = "open", !.i = i, !.row = Row(tree, i), !.path = Path(tree, i), !.root = Root(tree)])
Refuse == Say([none EXCEPT !.op = "open", !.i = H(tree), !.ok = FALSE])
Check(kind, i, row, p, root) ==
  LET c == Climb(tree.d, row, i, p)
  IN Say([none EXCEPT !.op = "check", !.kind = kind, !.i = i, !.row = row, !.path = p, !.root = root,
            !.ok = c.v = root, !.calls = SubSeq(c.d, Len(tree.d) + 1, Len(c.d))])
Cells(row) == {j \in 1..Len(row): BIG => j % 3 = 1}
Swap(l, a, b) == [l EXCEPT ![a] = l[b], ![b] = l[a]]
Alter(i) ==
  LET row == Row(tree, i)  p == Path(tree, i)  r == Root(tree) IN
  \/ Check(0, i, row, p, r)
  \/ \E j \in Cells(row): Check(1, i, [row EXCEPT ![j] = LIE], p, r)
  \/ \E l \in 1..Len(p): \E e \in 1..Len(p[l]): Check(2, i, row, [p EXCEPT ![l][e] = LIE], r)
  \/ \E o \in 0..(H(tree) - 1): o /= i /\ (Check(3, o, row, p, r) \/ Check(5, i, row, Path(tree, o), r)
                                           \/ Check(6, i, Row(tree, o), p, r))
  \/ \E e \in 1..Len(r): Check(4, i, row, p, [r EXCEPT ![e] = LIE])
  \/ \E a, b \in Cells(row): a < b /\ Check(7, i, Swap(row, a, b), p, r)
  \/ p /= <<>> /\ (Check(8, i, row, Tail(p), r) \/ Check(8, i, row, Front(p), r))
  \/ \E a, b \in 1..Len(p): a < b /\ Check(9, i, row, Swap(p, a, b), r)
  \/ \E l \in 1..Len(p): \E a, b \in 1..Len(p[l]): a < b /\ Check(10, i, row, [p EXCEPT ![l] = Swap(@, a, b)], r)
Next == \/ Make
        \/ phase = "built" /\ (Refuse \/ \E i \in 0..(H(tree) - 1): Open(i) \/ Alter(i))
Spec == Init /\ [][Next]_<<tree, hist, phase>>

(* ------------------------------------------------------------------ what a tree is for *)
E == hist[Len(hist)]
(* every opening verifies *)
Complete == (phase = "done" /\ E.op = "open" /\ E.ok) => Climb(tree.d, E.row, E.i, E.path).v = E.root
(* under the tree's root, and a path of its depth, only the row committed at an index verifies there *)
Binding == (phase = "done" /\ E.op = "check" /\ E.ok /\ Len(E.path) = Depth(tree))
             => E.root = Root(tree) /\ E.i < H(tree) /\ E.row = Row(tree, E.i)
(* and without alteration it does *)
Honest == (phase = "done" /\ E.op = "check" /\ E.kind = 0) => E.ok
(* nodes: every level is padded to whole groups and has a parent for each group *)
Shape == phase = "built" => \A l \in 1..Depth(tree):
   Len(tree.levels[l]) % ARITY = 0 /\ (Len(tree.levels[l]) \div ARITY) <= Len(tree.levels[l + 1])
Inv == Complete /\ Binding /\ Honest /\ Shape
Emit == phase = "done" => PrintT(ToJson(hist))
=============================================================================
