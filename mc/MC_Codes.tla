------------------------------ MODULE MC_Codes ------------------------------
(***************************************************************************)
(* E01 on the specification.  A writer appends items - numbers in any of   *)
(* the three codes and raw bit fields - to a stream and closes it; a       *)
(* reader that knows the kinds of the items then reads them one by one     *)
(* from a stream of which an environment may have cut off whole words or   *)
(* which continues with other data.                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, GfwxInt, GfwxBits, GfwxGolomb

CONSTANTS Pots, Numbers, Widths, MaxItems

Items == ({"u"} \X Pots \X Numbers)
         \cup ({"i", "s"} \X Pots \X (Numbers \cup {-n : n \in Numbers}))
         \cup UNION {{<<"raw", w, v>> : v \in {0, 1, P2(w) - 1, P2(w) \div 3} \cap (0..(P2(w) - 1))} : w \in Widths}

PiecesOf(it) == IF it[1] = "raw" THEN << <<it[3], it[2]>> >> ELSE Code(it[1], it[3], it[2])

VARIABLES phase,   \* "write", "read", "end"
          items,   \* what was written
          pieces,  \* the pieces emitted
          bytes,   \* the closed stream, possibly cut or continued
          cut,     \* number of words cut off
          pos,     \* reader position, -1 after a failed read
          got      \* what was read
vars == <<phase, items, pieces, bytes, cut, pos, got>>

Init == phase = "write" /\ items = <<>> /\ pieces = <<>> /\ bytes = <<>> /\ cut = 0 /\ pos = 0 /\ got = <<>>

Write(it) ==
    /\ phase = "write" /\ Len(items) < MaxItems
    /\ items' = Append(items, it)
    /\ pieces' = pieces \o PiecesOf(it)
    /\ UNCHANGED <<phase, bytes, cut, pos, got>>

\* the environment: cut off k words, or append junk
Close(k, junk) ==
    /\ phase = "write" /\ items # <<>>
    /\ LET b == PackBytes(pieces)
       IN /\ 4 * k <= Len(b)
          /\ bytes' = IF k > 0 THEN SubSeq(b, 1, Len(b) - 4 * k) ELSE b \o junk
    /\ cut' = k
    /\ phase' = "read"
    /\ UNCHANGED <<items, pieces, pos, got>>

Read ==
    /\ phase = "read" /\ Len(got) < Len(items) /\ pos >= 0
    /\ LET it == items[Len(got) + 1]
           src == Source(bytes, 0, Len(bytes))
           r == IF it[1] = "raw" THEN GetBits(src, pos, it[2]) ELSE Dec(it[1], src, pos, it[2])
       IN got' = (IF r[2] < 0 THEN got ELSE Append(got, r[1])) /\ pos' = r[2]
    /\ UNCHANGED <<phase, items, pieces, bytes, cut>>

Next == (\E it \in Items : Write(it))
        \/ (\E k \in 0..1 : \E junk \in {<<>>, <<255, 255, 255, 255>>, <<0, 0, 0, 0, 1, 2, 3, 4>>} :
                (k > 0 => junk = <<>>) /\ Close(k, junk))
        \/ Read
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Written(n) == PieceBits(Flat([k \in 1..n |-> PiecesOf(items[k])]))

\* what was read is what was written, never anything else
RightValues == \A k \in 1..Len(got) : got[k] = items[k][3]
\* and exactly its bits were consumed
RightPosition == pos >= 0 => pos = Written(Len(got))
\* a read fails exactly if its last bit was cut off
FailsWhenDry == (phase = "read" /\ pos < 0) => Written(Len(got) + 1) > 8 * Len(bytes)
\* pieces are well formed and the stream is whole words, as short as possible
WellFormed == /\ \A k \in 1..Len(pieces) : pieces[k][2] \in 1..30 /\ pieces[k][1] \in 0..(P2(pieces[k][2]) - 1)
              /\ LET b == PackBytes(pieces) IN Len(b) = 4 * CeilDiv(PieceBits(pieces), 32)
=============================================================================
