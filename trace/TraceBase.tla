------------------------------ MODULE TraceBase ------------------------------
(***************************************************************************)
(* Trace validation: the events recorded from the real code are taken one  *)
(* after the other; an event is taken only if the specification explains   *)
(* it in the present state.  The search gets stuck at the first event that *)
(* no action explains, and Accepted fails.                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, IOUtils, Json

Log == ndJsonDeserialize(IOEnv.TRACE)

\* all of the trace was taken
Accepted == TLCGet("stats").diameter = Len(Log) + 1

\* p as an expression: as part of an action TLC would expand LET definitions at every
\* reference and branch at every disjunction
Holds(p) == p = TRUE

Has(e, f) == f \in DOMAIN e
Explaining == "EXPLAIN" \in DOMAIN IOEnv

(* What the event shows is what the specification expects.  With EXPLAIN   *)
(* set a difference is printed.                                            *)
FirstDiff(x, y) ==
    LET D == {k \in DOMAIN x \cap DOMAIN y : x[k] # y[k]}
    IN IF D = {} THEN <<"lengths", Len(x), Len(y)>>
       ELSE LET k == CHOOSE k \in D : \A j \in D : k <= j IN <<"at", k, "shown", x[k], "expected", y[k]>>
Same(shown, expected, what) ==
    IF shown = expected THEN TRUE
    ELSE Explaining /\ PrintT(<<"DIFF", what, "shown", shown, "expected", expected>>) /\ FALSE
SameSeq(shown, expected, what) ==
    IF shown = expected THEN TRUE
    ELSE Explaining /\ PrintT(<<"DIFF", what, FirstDiff(shown, expected), "shown", shown, "expected", expected>>) /\ FALSE
=============================================================================
