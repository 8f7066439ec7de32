------------------------------ MODULE TraceIter ------------------------------
(***************************************************************************)
(* S03.  A store of n cells 0..n-1, each holding its own number, is cut    *)
(* into pieces.  Every piece that is handed out for writing is written     *)
(* once: the store remembers which cells.                                  *)
(***************************************************************************)
EXTENDS TraceBase, GfwxInt, GfwxPieces, FiniteSets, SequencesExt

VARIABLES i, st

Init == i = 1 /\ st = [kind |-> "none"]

\* what shall be handed out, as pieces
Plan(e) ==
    CASE e.kind = "overlapping" -> Overlapping(e.n, e.step)
      [] e.kind = "double" -> DoubleOverlapping(e.n, e.step)
      [] e.kind = "variable" -> [k \in 1..Len(Variable(e.n, e.sizes)) |-> <<Variable(e.n, e.sizes)[k]>>]

Cut(e) ==
    /\ e.ev = "cut"
    /\ st' = [kind |-> e.kind, plan |-> TLCEval(Plan(e)), at |-> 0, cells |-> [k \in 1..e.n |-> k - 1],
              mid |-> IF e.kind = "double" THEN 3 ELSE IF e.kind = "overlapping" THEN 2 ELSE 0]

\* one item: the contents of its parts; the part for writing is written with 100000 + number
Item(e) ==
    /\ e.ev = "item" /\ st.kind # "none"
    /\ LET p == st.plan[st.at + 1]
           marked == IF st.mid = 0 THEN st.cells
                     ELSE [k \in 1..Len(st.cells) |->
                             IF k > p[st.mid][1] /\ k <= p[st.mid][2] THEN st.cells[k] + 100000 ELSE st.cells[k]]
       IN /\ Holds(/\ Same(st.at < Len(st.plan), TRUE, "an item")
                   /\ Same(e.parts, [k \in 1..Len(p) |-> Content(p[k], LAMBDA x : st.cells[x + 1])], "parts"))
          /\ st' = [st EXCEPT !.at = @ + 1, !.cells = marked]

\* no more items; what the store holds then
Finish(e) ==
    /\ e.ev = "end" /\ st.kind # "none"
    /\ Holds(/\ Same(st.at, Len(st.plan), "number of items")
             /\ SameSeq(e.cells, st.cells, "cells"))
    /\ st' = [kind |-> "none"]

\* all blocks of an image, and for one of them what it may access
ImageCut(e) ==
    /\ e.ev = "blocks"
    /\ Holds(SameSeq(e.blocks, Blocks(e.w, e.h, e.channels, e.edge), "blocks"))
    /\ st' = [kind |-> "image", w |-> e.w, h |-> e.h, blocks |-> e.blocks]
\* get, set: may the cell (in rows) be read and written; seen: what was read there, where it was
Access(e) ==
    /\ e.ev = "access" /\ st.kind = "image"
    /\ Holds(LET b == st.blocks[e.k]
                 X(j) == Mod(j - 1, st.w)
                 Y(j) == (j - 1) \div st.w
             IN /\ SameSeq(e.get, [j \in 1..(st.w * st.h) |-> MayRead(b, e.step, X(j), Y(j))], "readable")
                /\ SameSeq(e.set, [j \in 1..(st.w * st.h) |-> MayWrite(b, e.step, X(j), Y(j))], "writable")
                /\ SameSeq(e.seen, [j \in 1..(st.w * st.h) |->
                       IF MayRead(b, e.step, X(j), Y(j)) THEN b.ch * st.w * st.h + j - 1 ELSE -1], "cells"))
    /\ UNCHANGED st

\* a loop over items, in parallel or not: every item is processed exactly once
\* items: numbers, each is mapped to 3 * number + 1
Loop(e) ==
    /\ e.ev = "loop"
    /\ Holds(LET want == [k \in 1..e.n |-> 3 * (k - 1) + 1]
             IN /\ Same(Len(e.out), e.n, "number of results")
                /\ SameSeq(SortSeq(e.out, LAMBDA a, b : a < b), want, "results"))
    /\ UNCHANGED st

Next == i <= Len(Log) /\ i' = i + 1
        /\ LET e == Log[i] IN Cut(e) \/ Item(e) \/ Finish(e) \/ ImageCut(e) \/ Access(e) \/ Loop(e)
Spec == Init /\ [][Next]_<<i, st>>
=============================================================================
