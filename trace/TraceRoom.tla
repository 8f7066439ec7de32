------------------------------ MODULE TraceRoom ------------------------------
(***************************************************************************)
(* C07.  One image is compressed into buffers of different sizes and       *)
(* contents.  What the levels' blocks need is known from an attempt with   *)
(* more than enough room.                                                  *)
(*   e.front: bytes in front of the payload (header and program), levels:  *)
(* for every level the sizes of its blocks, sum: what was written.         *)
(***************************************************************************)
EXTENDS TraceBase, GfwxInt, SequencesExt

VARIABLES i, st

Init == i = 1 /\ st = [known |-> FALSE]

Total(levels) == FoldLeft(LAMBDA a, l : a + 4 * Len(l) + FoldLeft(LAMBDA b, x : b + x, 0, l), 0, levels)

(* Room: what is left behind the table of a level is divided evenly among  *)
(* its blocks, in whole bytes; every share must hold its block; then the   *)
(* blocks are moved together.  <<fits, used>>                              *)
Level(acc, sizes) ==
    LET n == Len(sizes)
        free == acc[3] - acc[2] - 4 * n
        share == free \div n
        sum == FoldLeft(LAMBDA b, x : b + x, 0, sizes)
    IN IF ~acc[1] THEN acc
       ELSE IF free < n \/ \E k \in 1..n : sizes[k] > share THEN <<FALSE, acc[2], acc[3]>>
       ELSE <<TRUE, acc[2] + 4 * n + sum, acc[3]>>
Fits(front, levels, cap) ==
    IF cap < front THEN FALSE ELSE FoldLeft(Level, <<TRUE, 0, cap - front>>, levels)[1]

\* entry: which entry point; each has its own results
Known(e) ==
    /\ e.ev = "known"
    /\ Holds(/\ Same(e.res, <<"ok", e.front + Total(e.levels)>>, "result")
             /\ Same(e.behind, TRUE, "bytes behind the result"))
    /\ st' = [known |-> TRUE, front |-> e.front, levels |-> e.levels, sum |-> e.sum,
              total |-> e.front + Total(e.levels), okfrom |-> -1, failupto |-> -1]

Attempt(e) ==
    /\ st.known
    /\ Holds(Same(e.behind, TRUE, "bytes behind the buffer"))
    /\ IF Holds(e.res[1] = "ok")
       THEN /\ Holds(/\ Same(e.res[2], st.total, "length")
                     /\ Same(e.sum, st.sum, "bytes")
                     /\ Same(e.cap > st.failupto, TRUE, <<"a buffer of", st.failupto, "bytes was too small">>))
            /\ st' = [st EXCEPT !.okfrom = IF @ < 0 \/ e.cap < @ THEN e.cap ELSE @]
       ELSE /\ Holds(/\ Same(e.res \in {<<"err", "overflow">>, <<"err", "io">>}, TRUE, <<"result", e.res>>)
                     /\ Same(Fits(st.front, st.levels, e.cap), FALSE, <<"every block fits into", e.cap>>)
                     /\ Same(st.okfrom < 0 \/ e.cap < st.okfrom, TRUE, <<"a buffer was large enough with", st.okfrom>>))
            /\ st' = [st EXCEPT !.failupto = IF e.cap > @ THEN e.cap ELSE @]

Try(e) == e.ev = "try" /\ Attempt(e)

\* len samples or coefficients and as many chroma flags where the image has need and n: what is missing is an error
\* whatever the room, what is too much is not looked at
Lens(e) ==
    /\ e.ev = "lens" /\ st.known
    /\ IF e.len < e.need \/ e.flags < e.n
       THEN /\ Holds(/\ Same(e.behind, TRUE, "bytes behind the buffer")
                     /\ Same(e.res[1], "err", "result"))
            /\ UNCHANGED st
       ELSE Attempt(e)

Next == i <= Len(Log) /\ i' = i + 1 /\ LET e == Log[i] IN Known(e) \/ Try(e) \/ Lens(e)
Spec == Init /\ [][Next]_<<i, st>>
=============================================================================
