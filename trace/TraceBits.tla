----------------------------- MODULE TraceBits -----------------------------
(***************************************************************************)
(* E01.  One bit stream: a writer puts numbers into a sink of limited      *)
(* room, a reader takes numbers out of bytes.  An operation is             *)
(* <<kind, value, parameter>> with values as 32 bit numbers; kinds "u", "i", "s": Golomb codes with that *)
(* parameter, "b": a raw field of that width, "z": zeros up to that limit  *)
(* (reading only), "f": flush to the word boundary.                        *)
(***************************************************************************)
EXTENDS TraceBase, GfwxInt, GfwxBits, GfwxGolomb, SequencesExt

VARIABLES i, st

Init == i = 1 /\ st = [ops |-> <<>>, bytes |-> <<>>]

\* Write: res is <<"ok">> or <<"err", k>> with k the number of the operation that failed.
\* sink: what the room holds afterwards, it was filled with fill before; room -1: unlimited
Write(e) ==
    /\ e.ev = "write"
    /\ LET a == FoldLeft(OpStep, << <<>>, 0, <<>> >>, e.ops)
           full == PackBytes(a[1])
           \* words are written as soon as they are complete
           words == [k \in 1..Len(e.ops) |-> a[3][k] \div 32]
           bad == {k \in 1..Len(e.ops) : 4 * words[k] > e.room}
           good == SubSeq(full, 1, 4 * words[Len(e.ops)])
       IN IF e.room < 0 \/ bad = {}
          THEN /\ Same(e.res, <<"ok">>, "result")
               /\ IF e.room < 0 THEN SameSeq(e.sink, good, "sink")
                  ELSE SameSeq(e.sink, good \o [k \in 1..(e.room - Len(good)) |-> e.fill], "sink")
               /\ st' = [ops |-> e.ops, bytes |-> full]
          ELSE /\ Same(e.res, <<"err", CHOOSE k \in bad : \A j \in bad : k <= j>>, "result")
               /\ SameSeq(SubSeq(e.sink, 1, 4 * (e.room \div 4)), SubSeq(full, 1, 4 * (e.room \div 4)), "sink")
               /\ UNCHANGED st

Wide(r) == <<U32OfInt(r[1]), r[2]>>

\* Reading: <<position, values, failed>>
ReadOp(src, acc, op) ==
    IF acc[3] THEN acc
    ELSE IF op[1] = "f" THEN <<32 * CeilDiv(acc[1], 32), Append(acc[2], <<0, 0>>), FALSE>>
    ELSE LET r == CASE op[1] \in {"u", "i", "s"} -> DecW(op[1], src, acc[1], op[3])
                    [] op[1] = "b" -> Wide(GetBits(src, acc[1], op[3]))
                    [] OTHER -> Wide(GetZeros(src, acc[1], op[3]))
         IN IF r[2] < 0 THEN <<acc[1], acc[2], TRUE>> ELSE <<r[2], Append(acc[2], r[1]), FALSE>>

ReadOps(ops, bytes) ==
    LET src == Source(bytes, 0, Len(bytes))
        step(acc, op) == ReadOp(src, acc, op)
    IN FoldLeft(step, <<0, <<>>, FALSE>>, ops)

\* ReadBack: what was written comes back; words: words the reader took from the source
ReadBack(e) ==
    /\ e.ev = "readback"
    /\ SameSeq(e.values, [k \in 1..Len(st.ops) |-> IF st.ops[k][1] = "f" THEN <<0, 0>> ELSE st.ops[k][2]], "values")
    /\ Same(e.failed, FALSE, "failed")
    /\ Same(e.words, Len(st.bytes) \div 4, "words")
    /\ UNCHANGED st

\* Read: any operations on any bytes
Read(e) ==
    /\ e.ev = "read"
    /\ Holds(LET r == ReadOps(e.ops, e.bytes)
       IN /\ SameSeq([k \in 1..Len(e.values) |-> IF k <= Len(r[2]) /\ r[2][k] = Meaningless THEN Meaningless ELSE e.values[k]], r[2], "values")
          /\ Same(e.failed, r[3], "failed")
          /\ IF r[3] THEN TRUE ELSE Same(e.words, CeilDiv(r[1], 32), "words"))
    /\ UNCHANGED st

Next == i <= Len(Log) /\ i' = i + 1 /\ LET e == Log[i] IN Write(e) \/ ReadBack(e) \/ Read(e)
Spec == Init /\ [][Next]_<<i, st>>
=============================================================================
