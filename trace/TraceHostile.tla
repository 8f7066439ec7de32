----------------------------- MODULE TraceHostile -----------------------------
(***************************************************************************)
(* C08.  A decoder service.  It is idle, takes a request with arbitrary    *)
(* bytes, is busy, and comes back to idle with success or an error.  What  *)
(* lies around the buffer it was given stays as it was, and a request with *)
(* a buffer or a flag list that is too small for the header is refused.  A *)
(* request that never comes back, or ends the process, leaves the          *)
(* recorder's marker behind instead of an answer.                          *)
(* For headers and color programs the answer is that of the format.        *)
(***************************************************************************)
EXTENDS TraceBase, GfwxInt, GfwxHeader, GfwxColor, GfwxFrame

VARIABLES i, st

Init == i = 1 /\ st = [busy |-> FALSE]

Request(e) ==
    /\ e.ev = "request" /\ ~st.busy
    /\ st' = [busy |-> TRUE, req |-> e]

Back == st' = [busy |-> FALSE]
Returned(res) == Same(res[1] \in {"ok", "err"}, TRUE, <<"result", res>>)

HeaderAnswer(e) ==
    /\ e.ev = "header" /\ st.busy
    /\ Holds(LET d == DecodeHeader(st.req.bytes)
             IN Returned(e.res) /\ Same(e.res[1] = "ok", d.ok, "accepted"))
    /\ Back

ProgramAnswer(e) ==
    /\ e.ev = "program" /\ st.busy
    /\ Holds(/\ Returned(e.res)
             /\ IF st.req.exact
                THEN LET d == DecodeProgram(st.req.bytes, 0, Len(st.req.bytes), st.req.n)
                     IN Same(e.res[1] = "ok", d.ok, "accepted")
                ELSE TRUE)
    /\ Back

(* Samples that the header asks for at downsampling d *)
Wanted(p, d) == Down(p.w, d) * Down(p.h, d) * NChan(p)
\* req.room: length of the buffer, req.flags: length of the list of chroma flags (-1: none is passed)
\* in test mode nothing is written and nothing is needed
TooSmall(q) == ~q.test /\ (q.room < Wanted(q.p, q.d) \/ (q.flags >= 0 /\ q.flags < NChan(q.p)))

\* intact: nothing outside the buffer was written
DataAnswer(e) ==
    /\ e.ev = "data" /\ st.busy
    /\ Holds(/\ Returned(e.res)
             /\ Same(e.intact, TRUE, "memory around the buffer")
             /\ IF TooSmall(st.req) THEN Same(e.res[1], "err", "the buffer is too small") ELSE TRUE)
    /\ Back

Next == i <= Len(Log) /\ i' = i + 1
        /\ LET e == Log[i] IN Request(e) \/ HeaderAnswer(e) \/ ProgramAnswer(e) \/ DataAnswer(e)
Spec == Init /\ [][Next]_<<i, st>>
=============================================================================
