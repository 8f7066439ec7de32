------------------------------ MODULE GfwxBits ------------------------------
(***************************************************************************)
(* The bit stream: pieces <<value, width>> are written most significant    *)
(* bit first into 32 bit words, words are stored little endian, and the    *)
(* last word is filled up with zero bits.                                  *)
(*                                                                         *)
(* A reader position is the number of bits consumed so far.                *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE SequencesExt
LOCAL INSTANCE GfwxInt

(* Writing ************************************************************)
\* wide pieces are cut so that the packing below stays inside 31 bits
SplitPiece(p) == IF p[2] <= 20 THEN <<p>>
                 ELSE LET lo == p[2] \div 2
                      IN << <<p[1] \div P2(lo), p[2] - lo>>, <<Mod(p[1], P2(lo)), lo>> >>

PackBit(st, p) ==
    LET n == st[2] + p[2]
        a == st[1] * P2(p[2]) + p[1]
    IN IF n < 8 THEN <<a, n, st[3]>>
       ELSE IF n < 16 THEN <<Mod(a, P2(n - 8)), n - 8, Append(st[3], a \div P2(n - 8))>>
       ELSE IF n < 24 THEN <<Mod(a, P2(n - 16)), n - 16,
                             st[3] \o <<a \div P2(n - 8), Mod(a \div P2(n - 16), 256)>> >>
       ELSE <<Mod(a, P2(n - 24)), n - 24,
              st[3] \o <<a \div P2(n - 8), Mod(a \div P2(n - 16), 256), Mod(a \div P2(n - 24), 256)>> >>

\* the bytes in the order in which their bits were written
BigEndianBytes(pieces) ==
    LET flat == Flat([i \in 1..Len(pieces) |-> SplitPiece(pieces[i])])
        st == FoldLeft(PackBit, <<0, 0, <<>> >>, flat)
        bs == IF st[2] = 0 THEN st[3] ELSE Append(st[3], st[1] * P2(8 - st[2]))
        pad == Mod(4 - Mod(Len(bs), 4), 4)
    IN bs \o [i \in 1..pad |-> 0]

SwapWords(bs) == [i \in 1..Len(bs) |-> bs[4 * ((i - 1) \div 4) + 4 - Mod(i - 1, 4)]]

\* what a writer leaves behind after put_bits of all pieces and a flush
PackBytes(pieces) == SwapWords(BigEndianBytes(pieces))

PieceBits(pieces) == FoldLeft(LAMBDA n, p : n + p[2], 0, pieces)

(* Reading ************************************************************)
(* A bit source is [b |-> bytes, o |-> offset of its first byte, n |->     *)
(* number of its bytes]: bytes of an incomplete last word do not count.    *)
Source(bytes, off, n) == [b |-> bytes, o |-> off, n |-> n, bits |-> 32 * (n \div 4)]

ByteAt(src, j) == \* j-th byte in bit order, 0 behind the end
    LET k == 4 * (j \div 4) + 3 - Mod(j, 4)
    IN IF 8 * j < src.bits THEN src.b[src.o + k + 1] ELSE 0

\* n <= 17 bits at position p, zero filled behind the end
Peek(src, p, n) ==
    LET j == p \div 8
        v == ByteAt(src, j) * 65536 + ByteAt(src, j + 1) * 256 + ByteAt(src, j + 2)
    IN Mod(v \div P2(24 - Mod(p, 8) - n), P2(n))

Failed == <<0, -1>>

\* results of reads are <<value, new position>>, position -1 when the source ran dry
GetBits(src, p, n) ==
    IF p < 0 \/ p + n > src.bits THEN Failed
    ELSE IF n = 0 THEN <<0, p>>
    ELSE IF n <= 16 THEN <<Peek(src, p, n), p + n>>
    ELSE <<Peek(src, p, 16) * P2(n - 16) + Peek(src, p + 16, n - 16), p + n>>

\* number of leading zeros of a 12 bit number
LZ12(v) == IF v >= 2048 THEN 0 ELSE IF v >= 1024 THEN 1 ELSE IF v >= 512 THEN 2
           ELSE IF v >= 256 THEN 3 ELSE IF v >= 128 THEN 4 ELSE IF v >= 64 THEN 5
           ELSE IF v >= 32 THEN 6 ELSE IF v >= 16 THEN 7 ELSE IF v >= 8 THEN 8
           ELSE IF v >= 4 THEN 9 ELSE IF v >= 2 THEN 10 ELSE IF v >= 1 THEN 11 ELSE 12

\* zeros up to a terminating one (consumed), at most m <= 12 of them
GetZeros(src, p, m) ==
    IF p < 0 THEN Failed
    ELSE LET z == MinI(LZ12(Peek(src, p, 12)), m)
             q == IF z = m THEN p + m ELSE p + z + 1
         IN IF q > src.bits THEN Failed ELSE <<z, q>>
=============================================================================
