----------------------------- MODULE TraceDecode -----------------------------
(***************************************************************************)
(* C03, S02.  Decoding payloads, stage by stage.  The specification    *)
(* decodes the bytes itself.                                               *)
(***************************************************************************)
EXTENDS TraceBase, GfwxInt, GfwxHeader, GfwxColor, GfwxFrame, GfwxSession

VARIABLES i, st

Init == i = 1 /\ st = [phase |-> "idle"]

\* coefs: what the one who made the stream put into it, if that was this specification
Stream(e) ==
    /\ e.ev = "stream"
    /\ LET r == TLCEval(DecodeFrame(e.p, e.chroma, e.bytes, 0, Len(e.bytes), 0, FALSE))
       IN /\ Holds(IF Has(e, "coefs") THEN SameSeq(r.coefs, e.coefs, "the specification decodes what it encoded") ELSE TRUE)
          /\ st' = [phase |-> "stream", p |-> e.p, chroma |-> e.chroma, coefs |-> r.coefs, res |-> r.res, lost |-> r.lost]

Result(res) == IF st.res[1] = "ok" THEN Same(res, <<"ok", 0>>, "result")
               ELSE IF st.res[1] = "underflow" THEN Same(res, <<"err", "underflow">>, "result")
               ELSE Same(res[1], "ok", "result") /\ Same(res[2] > 0, TRUE, "point of interest")

\* buffers and lists of flags may be longer than needed: what is behind the image stays as it was
Surplus(e) == IF Has(e, "surplus") THEN Same(e.surplus, TRUE, "what lies behind the image") ELSE TRUE

Coefs(e) ==
    /\ e.ev = "coefs" /\ st.phase = "stream"
    /\ Holds(/\ Result(e.res) /\ Surplus(e)
             \* what a damaged block holds is nobody's business, but all other blocks of its level are decoded
             /\ IF st.lost = {} THEN SameSeq(e.coefs, st.coefs, "coefficients")
                ELSE SameSeq([j \in 1..Len(e.coefs) |-> IF j \in st.lost THEN 0 ELSE e.coefs[j]],
                             [j \in 1..Len(st.coefs) |-> IF j \in st.lost THEN 0 ELSE st.coefs[j]], "coefficients"))
    /\ UNCHANGED st

Aux(e) ==
    /\ e.ev = "aux" /\ st.phase = "stream"
    /\ Holds(Result(e.res) /\ Surplus(e) /\ SameSeq(e.aux, AuxOf(st.p, st.chroma, st.coefs, 0), "planes"))
    /\ st' = [st EXCEPT !.coefs = e.aux, !.phase = "planes"]

\* prog: the program that was put in front of the payload; its flags are those of the stream
Image(e) ==
    /\ e.ev = "image" /\ st.phase = "planes"
    /\ Holds(Result(e.res) /\ Surplus(e) /\ SameSeq(e.img, ImageOf(st.p, e.prog, st.coefs, 0), "samples"))
    /\ UNCHANGED st

Next == i <= Len(Log) /\ i' = i + 1
        /\ LET e == Log[i] IN Stream(e) \/ Coefs(e) \/ Aux(e) \/ Image(e)
Spec == Init /\ [][Next]_<<i, st>>
=============================================================================
