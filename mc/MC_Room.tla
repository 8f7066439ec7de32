------------------------------- MODULE MC_Room -------------------------------
(***************************************************************************)
(* C07 on the specification: how a payload is laid into a buffer.  For     *)
(* each level the room behind the block table is divided evenly; a worker  *)
(* per block writes the words of its block into its share, in any order;   *)
(* then the shares are moved together, byte by byte.  A byte of memory     *)
(* holds <<level, block, number of the byte in the block>>, <<level,       *)
(* "table", ...>> or junk.                                                 *)
(*                                                                         *)
(* Scaled down: words have WB bytes.                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, GfwxInt, SequencesExt

CONSTANTS WB, MaxCap, Shapes   \* Shapes: sequences of sequences of block lengths in words

VARIABLES cap, levels, mem, used, level, phase, written, moved, byte, tail
vars == <<cap, levels, mem, used, level, phase, written, moved, byte, tail>>

Junk == <<0, 0, 0>>
Init == /\ cap \in 0..MaxCap /\ levels \in Shapes
        /\ mem = [i \in 0..(cap - 1) |-> Junk]
        /\ used = 0 /\ level = 1 /\ phase = "table"
        /\ written = <<>> /\ moved = 0 /\ byte = 0 /\ tail = 0

N == Len(levels[level])
Table == N * WB
Free == cap - used - Table
Share == Free \div N
Base == used + Table
LenOf(b) == levels[level][b] * WB

Divide == /\ phase = "table"
          /\ IF Free < 0 \/ Share = 0 THEN phase' = "overflow" /\ UNCHANGED written
             ELSE phase' = "blocks" /\ written' = [b \in 1..N |-> 0]
          /\ UNCHANGED <<cap, levels, mem, used, level, moved, byte, tail>>

\* a worker writes the next word of its block, or finds no room for it
Work(b) ==
    /\ phase = "blocks" /\ written[b] < LenOf(b)
    /\ IF written[b] + WB > Share
       THEN phase' = "overflow" /\ UNCHANGED <<mem, written>>
       ELSE /\ mem' = [i \in DOMAIN mem |->
                 LET r == i - (Base + (b - 1) * Share + written[b])
                 IN IF r \in 0..(WB - 1) THEN <<level, b, written[b] + r>> ELSE mem[i]]
            /\ written' = [written EXCEPT ![b] = @ + WB]
            /\ UNCHANGED phase
    /\ UNCHANGED <<cap, levels, used, level, moved, byte, tail>>

Collect == /\ phase = "blocks" /\ \A b \in 1..N : written[b] = LenOf(b)
           /\ phase' = "move" /\ moved' = 0 /\ byte' = 0 /\ tail' = 0
           /\ UNCHANGED <<cap, levels, mem, used, level, written>>

\* move one byte of block moved + 1; when it is done enter its length in the table
Move ==
    /\ phase = "move" /\ moved < N
    /\ LET b == moved + 1
           from == Base + (b - 1) * Share + byte
           to == Base + tail + byte
       IN IF byte < LenOf(b)
          THEN mem' = [mem EXCEPT ![to] = mem[from]] /\ byte' = byte + 1 /\ UNCHANGED <<moved, tail>>
          ELSE /\ mem' = [i \in DOMAIN mem |->
                    LET r == i - (used + (b - 1) * WB)
                    IN IF r \in 0..(WB - 1) THEN <<level, -b, levels[level][b]>> ELSE mem[i]]
               /\ moved' = b /\ byte' = 0 /\ tail' = tail + LenOf(b)
    /\ UNCHANGED <<cap, levels, used, level, phase, written>>

NextLevel ==
    /\ phase = "move" /\ moved = N
    /\ used' = Base + tail
    /\ IF level = Len(levels) THEN phase' = "done" /\ UNCHANGED level ELSE phase' = "table" /\ level' = level + 1
    /\ UNCHANGED <<cap, levels, mem, written, moved, byte, tail>>

Next == Divide \/ (phase = "blocks" /\ \E b \in 1..N : Work(b)) \/ Collect \/ Move \/ NextLevel
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
\* the payload an unlimited buffer gets
Payload == Flat([l \in 1..Len(levels) |->
    Flat([b \in 1..Len(levels[l]) |-> [i \in 1..WB |-> <<l, -b, levels[l][b]>>]])
    \o Flat([b \in 1..Len(levels[l]) |-> [i \in 1..(levels[l][b] * WB) |-> <<l, b, i - 1>>]])])

\* the definition of GfwxFrame!Fits, for words of WB bytes
RECURSIVE FitsFrom(_, _, _)
FitsFrom(l, u, c) ==
    IF l > Len(levels) THEN TRUE
    ELSE LET n == Len(levels[l])
             free == c - u - WB * n
         IN /\ free >= n
            /\ \A b \in 1..n : levels[l][b] * WB <= free \div n
            /\ FitsFrom(l + 1, u + WB * n + WB * FoldLeft(LAMBDA a, x : a + x, 0, levels[l]), c)
Fits(c) == FitsFrom(1, 0, c)

TypeOK == DOMAIN mem = 0..(cap - 1)
\* success gives the payload and nothing behind it that was not junk or an unmoved share
Exact == phase = "done" => /\ used = Len(Payload)
                           /\ \A i \in 1..Len(Payload) : mem[i - 1] = Payload[i]
\* it succeeds exactly when the room suffices as the property says, whatever the order of the workers
Predicted == (phase = "done" => Fits(cap)) /\ (phase = "overflow" => ~Fits(cap))
MoreIsEnough == Fits(cap) => Fits(cap + 1)
\* moving never destroys what is still to be moved
SourceIntact == phase = "move" /\ moved < N =>
    \A b \in (moved + 1)..N : \A i \in (IF b = moved + 1 THEN byte ELSE 0)..(LenOf(b) - 1) :
        mem[Base + (b - 1) * Share + i] = <<level, b, i>>
\* earlier levels are never touched again
Kept == LET P == Payload IN \A i \in 1..MinI(used, Len(P)) : mem[i - 1] = P[i]
Finishes == <>(phase \in {"done", "overflow"})

Seqs(n, m) == UNION {[1..k -> 0..m] : k \in 1..n}
SmallShapes == {<<a, b>> : a \in Seqs(1, 2), b \in Seqs(3, 2)}
MoreShapes == {<<a, b, c>> : a \in Seqs(1, 1), b \in Seqs(2, 2), c \in Seqs(4, 2)}
=============================================================================
