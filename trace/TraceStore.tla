----------------------------- MODULE TraceStore -----------------------------
(***************************************************************************)
(* C01.  The abstract view of lossless compression: a file is a store cell *)
(* for one image.  Save puts an image into it, Load must return it.        *)
(***************************************************************************)
EXTENDS TraceBase, GfwxInt, GfwxHeader, GfwxColor

VARIABLES i, store

Empty == [full |-> FALSE]

Init == i = 1 /\ store = Empty

\* what the property promises something about
Lossless(p, prog) ==
    /\ p.quality = 1024
    /\ p.cs = 1 \/ \A k \in 1..Len(prog) : ~prog[k].chroma
    /\ Reversible(prog)

Save(e) ==
    /\ e.ev = "save"
    /\ Lossless(e.p, e.prog)
    /\ e.res[1] = "ok"
    /\ store' = [full |-> TRUE, img |-> e.img]

Load(e) ==
    /\ e.ev = "load"
    /\ store.full
    /\ e.res = <<"ok", 0>>
    /\ e.img = store.img
    /\ store' = Empty

Next == i <= Len(Log) /\ i' = i + 1 /\ LET e == Log[i] IN Save(e) \/ Load(e)
Spec == Init /\ [][Next]_<<i, store>>
=============================================================================
