----------------------------- MODULE GfwxPieces -----------------------------
(***************************************************************************)
(* How work is cut into pieces that may be processed in parallel.  A piece *)
(* is an interval of indices <<from, to>> (from 0, to excluded).           *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE SequencesExt
LOCAL INSTANCE TLC
LOCAL INSTANCE GfwxInt

Nothing == <<0, 0>>
IsNothing(p) == p[1] >= p[2]
Content(p, V(_)) == [k \in 1..(p[2] - p[1]) |-> V(p[1] + k - 1)]

\* the k-th stretch of length step of n elements (k from 0), possibly cut off or nothing
Stretch(n, step, k) ==
    IF k < 0 \/ k * step >= n THEN Nothing ELSE <<k * step, MinI((k + 1) * step, n)>>

(* Stretches with their neighbours: every second one is handed out for     *)
(* writing, the others only serve as neighbours                            *)
Pairs(n, step) == (CeilDiv(n, step)) \div 2
Overlapping(n, step) ==
    [j \in 1..Pairs(n, step) |->
        LET k == 2 * j - 1
        IN <<Stretch(n, step, k - 1), Stretch(n, step, k), Stretch(n, step, k + 1)>>]
DoubleOverlapping(n, step) ==
    [j \in 1..Pairs(n, step) |->
        LET k == 2 * j - 1
        IN <<Stretch(n, step, k - 3), Stretch(n, step, k - 1), Stretch(n, step, k),
             Stretch(n, step, k + 1), Stretch(n, step, k + 3)>>]

(* Consecutive pieces of the given sizes, as long as anything is left      *)
Variable(n, sizes) ==
    LET step(acc, z) == IF acc[2] >= n THEN acc
                        ELSE <<Append(acc[1], <<acc[2], MinI(acc[2] + z, n)>>), acc[2] + z>>
    IN FoldLeft(step, << <<>>, 0>>, sizes)[1]

(* Blocks of an image of several channels, in the order of the format      *)
Blocks(w, h, channels, edge) ==
    LET nx == CeilDiv(w, edge)
        ny == CeilDiv(h, edge)
    IN [k \in 1..(nx * ny * channels) |->
          LET x0 == Mod(k - 1, nx) * edge
              y0 == Mod((k - 1) \div nx, ny) * edge
          IN [x0 |-> x0, x1 |-> MinI(x0 + edge, w), y0 |-> y0, y1 |-> MinI(y0 + edge, h),
              ch |-> (k - 1) \div (nx * ny)]]

(* A block may write the cells of its level inside itself, and read these  *)
(* and all cells that do not belong to the level                           *)
OfLevel(b, s, x, y) ==
    \/ x = b.x0 /\ y = b.y0
    \/ Mod(x, s) = 0 /\ Mod(y, s) = 0 /\ (BitSet(x, s) \/ BitSet(y, s))
Inside(b, x, y) == x >= b.x0 /\ x < b.x1 /\ y >= b.y0 /\ y < b.y1
MayRead(b, s, x, y) == Inside(b, x, y) \/ ~OfLevel(b, s, x, y)
MayWrite(b, s, x, y) == Inside(b, x, y) /\ OfLevel(b, s, x, y)
=============================================================================
