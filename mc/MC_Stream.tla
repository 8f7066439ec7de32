------------------------------ MODULE MC_Stream ------------------------------
(***************************************************************************)
(* A library that moves items of several bytes by asking again for what is *)
(* left of the present item, against a caller's sink or source that takes  *)
(* or gives what it likes, is interrupted, ends or fails at any point.     *)
(* got: what arrived on the other side.                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, GfwxStream

CONSTANTS Items,      \* sizes of the items, one of several layouts
          Patience    \* interruptions in a row

\* a header, words, a byte
SmallItems == {<<4, 4, 2, 3, 1>>, <<4, 4, 4>>, <<1>>}
LargeItems == {<<4, 4, 4, 4, 2, 2, 3, 1, 1, 1, 1, 1, 4>>, <<4, 4, 4, 4, 4, 4>>, <<1>>, <<2, 1>>}

VARIABLES layout, s, item, off, res, got, tired, faults

vars == <<layout, s, item, off, res, got, tired, faults>>

RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE Head(q) + Sum(SubSeq(q, 2, Len(q)))

Init == /\ layout \in Items
        /\ s = Fresh([k \in 1..Sum(layout) |-> k])
        /\ item = 1 /\ off = 0 /\ res = "" /\ got = <<>> /\ tired = 0 /\ faults = 0

Rest == layout[item] - off

\* one call and its answer
Call(ans, n) ==
    /\ res = "" /\ item <= Len(layout)
    /\ IsAnswer(Rest, ans, n)
    /\ ans = "again" => tired < Patience
    /\ s' = After(s, ans, n)
    /\ got' = got \o SubSeq(s.todo, Len(got) + 1, Len(got) + n)
    /\ tired' = IF ans = "again" THEN tired + 1 ELSE 0
    /\ faults' = IF ans \in {"none", "fail"} THEN faults + 1 ELSE faults
    /\ IF ans \in {"none", "fail"} THEN res' = "err" /\ UNCHANGED <<item, off>>
       ELSE /\ res' = res
            /\ IF off + n = layout[item] THEN item' = item + 1 /\ off' = 0 ELSE item' = item /\ off' = off + n
    /\ UNCHANGED layout

Finish == res = "" /\ item > Len(layout) /\ res' = "ok" /\ UNCHANGED <<layout, s, item, off, got, tired, faults>>

Next == Finish \/ \E ans \in {"some", "again", "none", "fail"} : \E n \in 0..4 : Call(ans, n)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* the library only asks for what the specification allows
Allowed == res = "" /\ item <= Len(layout) => MayAsk(s, Rest)
\* what arrived are the first bytes
Prefix == got = SubSeq(s.todo, 1, Len(got)) /\ Len(got) = s.at
\* an error exactly if something failed, success only with everything
Outcome == /\ res # "" => MayEnd(s, res = "ok")
           /\ res = "ok" => got = s.todo /\ faults = 0
           /\ res = "err" => faults = 1
\* one fault is the last thing that happens
NothingAfter == [][res # "" => UNCHANGED <<s, got>>]_vars
Ends == <>(res # "")
=============================================================================
