----------------------------- MODULE GfwxGolomb -----------------------------
(***************************************************************************)
(* Limited length power-of-two Golomb-Rice codes: unsigned, interleaved    *)
(* (zig-zag) and sign-magnitude.                                           *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE SequencesExt
LOCAL INSTANCE GfwxInt
LOCAL INSTANCE GfwxBits

EscPot(pot) == IF pot < 20 THEN pot + 4 ELSE 24

RECURSIVE UCode(_, _)
UCode(x, pot) ==
    LET y == x \div P2(pot)
    IN IF y >= 12
       THEN << <<0, 12>> >> \o UCode(x - 12 * P2(pot), EscPot(pot))
       ELSE IF pot <= 18 THEN << <<P2(pot) + Mod(x, P2(pot)), y + 1 + pot>> >>
       ELSE << <<1, y + 1>>, <<Mod(x, P2(pot)), pot>> >>

ICode(x, pot) == UCode(IF x <= 0 THEN -2 * x ELSE 2 * x - 1, pot)

SCode(x, pot) ==
    IF x = 0 THEN UCode(0, pot)
    ELSE Append(UCode(AbsI(x), pot), <<IF x > 0 THEN 1 ELSE 0, 1>>)

RECURSIVE UDec(_, _, _)
UDec(src, p, pot) ==
    LET z == GetZeros(src, p, 12)
        k == MinI(pot, 24)
    IN IF z[2] < 0 THEN Failed
       ELSE IF z[1] = 12 /\ pot < 108
       THEN LET r == UDec(src, z[2], MinI(pot + 4, 108))
            IN IF r[2] < 0 THEN Failed ELSE <<12 * P2(k) + r[1], r[2]>>
       ELSE IF k = 0 THEN z
       ELSE LET r == GetBits(src, z[2], k)
            IN IF r[2] < 0 THEN Failed ELSE <<z[1] * P2(k) + r[1], r[2]>>

IDec(src, p, pot) ==
    LET r == UDec(src, p, pot)
    IN IF r[2] < 0 THEN Failed
       ELSE IF Mod(r[1], 2) = 1 THEN <<(r[1] + 1) \div 2, r[2]>> ELSE <<-(r[1] \div 2), r[2]>>

SDec(src, p, pot) ==
    LET r == UDec(src, p, pot)
    IN IF r[2] < 0 \/ r[1] = 0 THEN r
       ELSE LET b == GetBits(src, r[2], 1)
            IN IF b[2] < 0 THEN Failed ELSE <<IF b[1] = 1 THEN r[1] ELSE -r[1], b[2]>>

(* The same codes for all 32 bit numbers, as pairs of 16 bit halves        *)
RECURSIVE UCodeW(_, _)
UCodeW(v, pot) ==
    LET esc == U32OfInt(12 * P2(pot))
    IN IF U32Less(v, esc) THEN UCode(U32Int(v), pot)
       ELSE << <<0, 12>> >> \o UCodeW(U32Sub(v, esc), EscPot(pot))

\* escapes add up modulo 2^32
RECURSIVE UDecW(_, _, _)
UDecW(src, p, pot) ==
    LET z == GetZeros(src, p, 12)
        k == MinI(pot, 24)
        fail == <<<<0, 0>>, -1>>
    IN IF z[2] < 0 THEN fail
       ELSE IF z[1] = 12 /\ pot < 108
       THEN LET r == UDecW(src, z[2], MinI(pot + 4, 108))
            IN IF r[2] < 0 THEN fail ELSE <<U32Add(U32OfInt(12 * P2(k)), r[1]), r[2]>>
       ELSE LET r == GetBits(src, z[2], k)
            IN IF r[2] < 0 THEN fail ELSE <<U32Add(U32OfInt(z[1] * P2(k)), U32OfInt(r[1])), r[2]>>

\* interleaved numbers |x| < 2^30, signed numbers |x| < 2^31; streams that hold more mean nothing
Meaningless == <<-1, -1>>
Beyond(v) == v[1] >= 32768
IDecW(src, p, pot) ==
    LET r == UDecW(src, p, pot)
        v == U32Int(r[1])
    IN IF r[2] < 0 THEN r
       ELSE IF Beyond(r[1]) \/ v >= 2147483646 THEN <<Meaningless, r[2]>>
       ELSE <<U32OfI32(IF Mod(v, 2) = 1 THEN (v \div 2) + 1 ELSE -(v \div 2)), r[2]>>
SDecW(src, p, pot) ==
    LET r == UDecW(src, p, pot)
        b == GetBits(src, r[2], 1)
    IN IF r[2] < 0 \/ r[1] = <<0, 0>> THEN r
       ELSE IF b[2] < 0 THEN <<<<0, 0>>, -1>>
       ELSE IF Beyond(r[1]) THEN <<Meaningless, b[2]>>
       ELSE <<U32OfI32(IF b[1] = 1 THEN U32Int(r[1]) ELSE -U32Int(r[1])), b[2]>>

CodeW(kind, v, pot) == CASE kind = "u" -> UCodeW(v, pot) [] kind = "i" -> ICode(I32(v), pot) [] kind = "s" -> SCode(I32(v), pot)
DecW(kind, src, p, pot) == CASE kind = "u" -> UDecW(src, p, pot) [] kind = "i" -> IDecW(src, p, pot) [] kind = "s" -> SDecW(src, p, pot)

FlushPiece(n) == <<0, Mod(32 - Mod(n, 32), 32)>>

\* the pieces of operations on a bit writer, <<kind, value, parameter>>: codes, "b" raw fields, "f" flushes,
\* which depend on the bits so far
OpStep(acc, op) == \* acc: <<pieces, bits, bits after each operation>>
    LET ps == CASE op[1] \in {"u", "i", "s"} -> CodeW(op[1], op[2], op[3])
                [] op[1] = "b" -> << <<U32Int(op[2]), op[3]>> >>
                [] OTHER -> << FlushPiece(acc[2]) >>
        n == acc[2] + PieceBits(ps)
    IN <<acc[1] \o ps, n, Append(acc[3], n)>>
OpsPieces(ops) == FoldLeft(OpStep, << <<>>, 0, <<>> >>, ops)[1]

Code(kind, x, pot) == CASE kind = "u" -> UCode(x, pot) [] kind = "i" -> ICode(x, pot) [] kind = "s" -> SCode(x, pot)
Dec(kind, src, p, pot) == CASE kind = "u" -> UDec(src, p, pot) [] kind = "i" -> IDec(src, p, pot) [] kind = "s" -> SDec(src, p, pot)
=============================================================================
