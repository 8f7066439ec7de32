---------------------------- MODULE TraceStream ----------------------------
(***************************************************************************)
(* F01.  A header, a color program, a sequence of codes or a block is      *)
(* written to sinks and read from sources that answer as they like.        *)
(***************************************************************************)
EXTENDS TraceBase, GfwxInt, GfwxBits, GfwxGolomb, GfwxHeader, GfwxColor, GfwxBlock, GfwxStream, SequencesExt

VARIABLES i, st

Init == i = 1 /\ st = [kind |-> "nothing"]

\* what goes through the stream, and what the reader makes of it
Thing(e) ==
    /\ e.ev = "thing"
    /\ st' = TLCEval(
        CASE e.kind = "header" ->
                LET b == EncodeHeader(e.h) IN [kind |-> e.kind, todo |-> b, value |-> DecodeHeader(b).h, flags |-> <<>>]
          [] e.kind = "program" ->
                [kind |-> e.kind, todo |-> EncodeProgram(e.prog), value |-> e.prog, flags |-> ChromaFlags(e.prog, e.n)]
          [] e.kind = "codes" ->
                [kind |-> e.kind, todo |-> PackBytes(OpsPieces(e.ops)),
                 value |-> [k \in 1..Len(e.ops) |-> IF e.ops[k][1] = "f" THEN <<0, 0>> ELSE e.ops[k][2]], flags |-> <<>>]
          [] e.kind = "block" ->
                LET g == TLCEval(BlockAt(e.v, e.k))
                    b == TLCEval(EncBlock(e.img, g, e.v.enc, e.q, e.dc, e.ch))
                IN [kind |-> e.kind, todo |-> b, flags |-> <<>>,
                    value |-> DecBlock(e.start, g, e.v.enc, e.q, e.dc, e.ch, TLCEval(Source(b, 0, Len(b))))[1]])

\* calls: in order, with the bytes put or the number asked for, and the answers
Stuck == [fault |-> TRUE, at |-> -1, todo |-> <<>>]
Through(dir, calls) ==
    LET step(s, c) ==
            IF s = Stuck THEN s
            ELSE IF (IF dir = "sink" THEN MayPut(s, c.b) ELSE MayAsk(s, c.n)) /\ IsAnswer(c.n, c.a, c.m)
                 THEN After(s, c.a, c.m)
                 ELSE IF Same(c, [at |-> s.at, left |-> Left(s), fault |-> s.fault], "call") THEN Stuck ELSE Stuck
    IN FoldLeft(step, Fresh(st.todo), calls)

Run(e) ==
    /\ e.ev = "run" /\ st.kind # "nothing"
    /\ Holds(LET s == Through(e.dir, e.calls)
             IN /\ s # Stuck
                /\ e.res \in {"ok", "err"}
                /\ IF MayEnd(s, e.res = "ok") THEN TRUE ELSE Same(e.res, <<s.fault, Left(s)>>, "outcome")
                /\ IF e.res = "ok" /\ e.dir = "source" THEN Same(e.value, st.value, "value") ELSE TRUE
                /\ IF e.res = "ok" THEN SameSeq(e.flags, st.flags, "flags") ELSE TRUE)
    /\ UNCHANGED st

Next == i <= Len(Log) /\ i' = i + 1 /\ LET e == Log[i] IN Thing(e) \/ Run(e)
Spec == Init /\ [][Next]_<<i, st>>
=============================================================================
