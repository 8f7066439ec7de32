---------------------------- MODULE MC_Footprint ----------------------------
(***************************************************************************)
(* S02 and S01 on the specification: what one coefficient depends on.      *)
(* One state is one cell of one block geometry, or one position of one     *)
(* lifting pass.                                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, GfwxInt, GfwxBits, GfwxGolomb, GfwxBlock, GfwxWavelet

CONSTANTS MaxEdge, MaxStep, MaxLine

StepsTo(m) == {P2(k) : k \in {j \in 0..10 : P2(j) <= m}}
VARIABLES kind, w, h, s, x, y, go   \* go: TRUE in the second state, so that the work is spread over TLC's workers
vars == <<kind, w, h, s, x, y, go>>

Chosen ==
    \/ /\ kind = "cell"
       /\ \E ww \in 1..MaxEdge, hh \in 1..MaxEdge, ss \in StepsTo(MaxStep) :
             /\ w = ww /\ h = hh /\ s = ss
             /\ \E k \in 1..Len(Cells(ww, hh, ss)) : x = Cells(ww, hh, ss)[k][1] /\ y = Cells(ww, hh, ss)[k][2]
    \/ /\ kind = "pass"
       /\ w \in 2..MaxLine /\ h = 1 /\ s \in {t \in StepsTo(MaxLine) : t < w}
       /\ x \in 0..(w - 1) /\ y \in {0, 1}   \* y: 0 predict, 1 update
Init == go = FALSE /\ Chosen
Next == ~go /\ go' = TRUE /\ UNCHANGED <<kind, w, h, s, x, y>>
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Geom == [o |-> 0, w |-> w, x0 |-> 0, y0 |-> 0, x1 |-> w, y1 |-> h, s |-> s]
Rank(c) == LET C == Cells(w, h, s) IN IF \E k \in 1..Len(C) : C[k] = c THEN CHOOSE k \in 1..Len(C) : C[k] = c ELSE 0
Coarser(c) == Mod(c[1], 2 * s) = 0 /\ Mod(c[2], 2 * s) = 0

\* the context looks at cells of the block that are known when the cell is coded, and at no other
ContextKnown == go /\ kind = "cell" =>
    \A c \in ContextCells(Geom, x, y) :
        /\ c[1] \in 0..(w - 1) /\ c[2] \in 0..(h - 1)
        /\ Coarser(c) \/ (Rank(c) > 0 /\ Rank(c) < Rank(<<x, y>>))

\* ContextCells is the exact footprint of Context
Base(v) == [i \in 1..(w * h) |-> v]
ContextExact == go /\ kind = "cell" =>
    \A i \in 1..(w * h) :
        LET c == <<Mod(i - 1, w), (i - 1) \div w>>
            b == Base(3)
        IN (c \in ContextCells(Geom, x, y)) <=> (Context([b EXCEPT ![i] = 900], Geom, x, y) # Context(b, Geom, x, y))

\* the cells of a level are all cells at this step that are on no coarser grid, each once
CellsExact == go /\ kind = "cell" =>
    LET C == Cells(w, h, s)
    IN /\ \A j, k \in 1..Len(C) : C[j] = C[k] => j = k
       /\ {C[k] : k \in 1..Len(C)}
          = {c \in (0..(w - 1)) \X (0..(h - 1)) : Mod(c[1], s) = 0 /\ Mod(c[2], s) = 0 /\ ~Coarser(c)}

\* a lifting pass reads only positions that it does not change, so its order does not matter
Phase == IF y = 0 THEN "p" ELSE "u"
Line(k, v) == [i \in 0..(w - 1) |-> IF i = k THEN v ELSE 10 * i]
Reads(f, k) == LET V0(j) == Line(-1, 0)[j]
                   V1(j) == Line(k, 5000)[j]
                   V2(j) == Line(k, -5000)[j]
               IN \/ Term(f, V0, w, s, x, Phase) # Term(f, V1, w, s, x, Phase)
                  \/ Term(f, V0, w, s, x, Phase) # Term(f, V2, w, s, x, Phase)
PassIndependent == (go /\ kind = "pass" /\ Touched(x, s, Phase)) =>
    \A k \in 0..(w - 1) : \A f \in {Linear, Cubic} :
        Reads(f, k) => ~Touched(k, s, Phase) /\ Mod(k, s) = 0 /\ AbsI(k - x) <= 3 * s
\* every position of the grid but the first is lifted by exactly one of the two phases of exactly one step
EachOnce == go /\ kind = "pass" /\ Mod(x, s) = 0 =>
    /\ Touched(x, s, "p") => ~Touched(x, s, "u")
    /\ x > 0 => Touched(x, s, "p") \/ Touched(x, s, "u")
=============================================================================
