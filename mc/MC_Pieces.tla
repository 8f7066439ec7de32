------------------------------ MODULE MC_Pieces ------------------------------
(***************************************************************************)
(* S03 on the specification: the ways to cut work into pieces.  Workers    *)
(* take pieces that they may change in any order; every element is changed *)
(* exactly once in the end, and no worker reads what another one changes.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, GfwxInt, GfwxPieces

CONSTANTS MaxLen, MaxSize, MaxList, MaxEdge

VARIABLES kind, len, step, sizes, geo, go   \* go: TRUE in the second state, so that the work is spread over TLC's workers
vars == <<kind, len, step, sizes, geo, go>>
NoGeo == <<0, 0, 0, 0, 0>>
Chosen ==
    \/ kind = "over" /\ len \in 0..MaxLen /\ step \in 1..(MaxLen + 1) /\ sizes = <<>> /\ geo = NoGeo
    \/ kind = "var" /\ len \in 0..MaxSize /\ step = 0 /\ geo = NoGeo
       /\ sizes \in UNION {[1..m -> 0..MaxSize] : m \in 0..MaxList}
    \/ kind = "block" /\ len = 0 /\ step = 0 /\ sizes = <<>>
       /\ geo \in (1..MaxEdge) \X (1..MaxEdge) \X (1..2) \X (0..2) \X (0..2)   \* w, h, channels, log of step, log of edge / step
Init == go = FALSE /\ Chosen
Next == ~go /\ go' = TRUE /\ UNCHANGED <<kind, len, step, sizes, geo>>
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Elems(p) == {i \in p[1]..(p[2] - 1) : TRUE}
Over == Overlapping(len, step)
Double == DoubleOverlapping(len, step)
Odd == {i \in 0..(len - 1) : Mod(i \div step, 2) = 1}
\* every second stretch is handed out once, completely
OverCover == go /\ kind = "over" =>
    /\ UNION {Elems(Over[j][2]) : j \in 1..Len(Over)} = Odd
    /\ \A j, k \in 1..Len(Over) : j < k => Over[j][2][2] <= Over[k][2][1]
    /\ \A j \in 1..Len(Over) : ~IsNothing(Over[j][2])
\* its neighbours are the stretches next to it, or nothing at the end, and are never handed out themselves
OverNeighbours == go /\ kind = "over" => \A j \in 1..Len(Over) :
    LET p == Over[j]
    IN /\ p[1][2] = p[2][1] /\ ~IsNothing(p[1])
       /\ (IsNothing(p[3]) <=> p[2][2] = len) /\ (~IsNothing(p[3]) => p[3][1] = p[2][2])
       /\ (Elems(p[1]) \cup Elems(p[3])) \cap Odd = {}
DoubleSame == go /\ kind = "over" => \A j \in 1..Len(Double) :
    LET p == Double[j]
    IN /\ Len(Double) = Len(Over) /\ <<p[2], p[3], p[4]>> = Over[j]
       /\ p[1] = (IF j = 1 THEN Nothing ELSE Over[j - 1][1])
       /\ p[5] = (IF j = Len(Over) THEN Nothing ELSE Over[j + 1][3])
\* sizes that cover the length are handed out completely, each but the last in full
V == Variable(len, sizes)
RECURSIVE Sum(_, _)
Sum(q, k) == IF k = 0 THEN 0 ELSE q[k] + Sum(q, k - 1)
VarCover == go /\ kind = "var" =>
    /\ UNION {Elems(V[j]) : j \in 1..Len(V)} = 0..(MinI(len, Sum(sizes, Len(sizes))) - 1)
    /\ \A j \in 1..Len(V) : V[j][1] = Sum(sizes, j - 1) /\ V[j][2] = MinI(len, Sum(sizes, j)) /\ V[j][1] < len
    /\ (Len(V) < Len(sizes) => Sum(sizes, Len(V)) >= len)
\* blocks of a level
S == P2(geo[4])
B == Blocks(geo[1], geo[2], geo[3], S * P2(geo[5]))
Pixels == (0..(geo[1] - 1)) \X (0..(geo[2] - 1)) \X (0..(geo[3] - 1))
BlocksCover == go /\ kind = "block" =>
    \A p \in Pixels : Cardinality({k \in 1..Len(B) : B[k].ch = p[3] /\ Inside(B[k], p[1], p[2])}) = 1
BlocksOrder == go /\ kind = "block" => \A k \in 1..(Len(B) - 1) :
    \/ B[k].ch < B[k + 1].ch
    \/ B[k].ch = B[k + 1].ch /\ B[k].y0 < B[k + 1].y0
    \/ B[k].ch = B[k + 1].ch /\ B[k].y0 = B[k + 1].y0 /\ B[k].x0 < B[k + 1].x0
\* no block may read what another block of its channel may write
BlocksApart == go /\ kind = "block" => \A p \in Pixels : \A j, k \in 1..Len(B) :
    j # k /\ B[j].ch = B[k].ch /\ MayWrite(B[j], S, p[1], p[2]) => ~MayWrite(B[k], S, p[1], p[2])
BlocksSafe == go /\ kind = "block" => \A p \in Pixels : \A j, k \in 1..Len(B) :
    j # k /\ B[j].ch = B[k].ch /\ MayWrite(B[j], S, p[1], p[2]) /\ ~Inside(B[k], p[1], p[2]) /\ ~(p[1] = B[k].x0 /\ p[2] = B[k].y0)
    => ~MayRead(B[k], S, p[1], p[2]) \/ (p[1] = B[j].x0 /\ p[2] = B[j].y0)
=============================================================================
