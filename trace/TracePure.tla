------------------------------ MODULE TracePure ------------------------------
(***************************************************************************)
(* S01.  The codec as a service without memory: what a request returns     *)
(* depends on the request only.  known maps the requests that have been    *)
(* answered to their answers.  Calls overlap in time; an answer is logged  *)
(* when the call returns, calls carry a number and a caller that has a     *)
(* call open does not open another one.                                    *)
(***************************************************************************)
EXTENDS TraceBase, GfwxInt

VARIABLES i, known, open

Init == i = 1 /\ known = <<>> /\ open = {}

\* who: the caller; req: what is asked
Call(e) ==
    /\ e.ev = "call"
    /\ \A c \in open : c[1] # e.who
    /\ open' = open \cup {<<e.who, e.req>>}
    /\ UNCHANGED known

Return(e) ==
    /\ e.ev = "return"
    /\ \E c \in open : c[1] = e.who /\ c[2] = e.req
    /\ open' = {c \in open : c[1] # e.who}
    /\ Holds(e.res[1] # "panic")
    /\ IF e.req \in DOMAIN known
       THEN Holds(Same(<<e.res, e.sum>>, known[e.req], <<e.req, e.how>>)) /\ UNCHANGED known
       ELSE known' = (e.req :> <<e.res, e.sum>>) @@ known

Next == i <= Len(Log) /\ i' = i + 1 /\ LET e == Log[i] IN Call(e) \/ Return(e)
Spec == Init /\ [][Next]_<<i, known, open>>
=============================================================================
