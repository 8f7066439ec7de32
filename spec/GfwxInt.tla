------------------------------ MODULE GfwxInt ------------------------------
(***************************************************************************)
(* Fixed width integer arithmetic of the codec, written so that every      *)
(* intermediate value stays inside TLC's 32 bit integers.                  *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE SequencesExt
LOCAL INSTANCE TLC

Pow2T == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768,
           65536, 131072, 262144, 524288, 1048576, 2097152, 4194304, 8388608, 16777216,
           33554432, 67108864, 134217728, 268435456, 536870912, 1073741824>>
P2(k) == Pow2T[k + 1]

MaxInt == 2147483647

\* (TLC cannot print errors about expressions that contain a percent sign)
Mod(a, b) == a % b

\* the concatenation of a sequence of sequences
Flat(seqs) == FoldLeft(LAMBDA a, b : a \o b, <<>>, TLCEval(seqs))

AbsI(x) == IF x < 0 THEN -x ELSE x
MinI(a, b) == IF a < b THEN a ELSE b
MaxI(a, b) == IF a > b THEN a ELSE b
CeilDiv(a, b) == (a + b - 1) \div b

\* division that rounds towards zero, b > 0
TDiv(a, b) == IF a >= 0 THEN a \div b ELSE -((-a) \div b)

\* two's complement 16 bit wrap around
Wrap16(x) == IF x >= -32768 /\ x <= 32767 THEN x ELSE Mod(x + 32768, 65536) - 32768

Clamp8(x) == IF x < 0 THEN 0 ELSE IF x > 255 THEN 255 ELSE x

\* is the bit of weight s (a power of two) set in x >= 0
BitSet(x, s) == Mod(x \div s, 2) = 1

\* an unsigned 32 bit number is a pair <<high 16 bits, low 16 bits>>
U32(hi, lo) == <<hi, lo>>
U32OfInt(x) == <<x \div 65536, Mod(x, 65536)>>
IsU32(p) == p[1] \in 0..65535 /\ p[2] \in 0..65535
U32Le(p) == <<Mod(p[2], 256), p[2] \div 256, Mod(p[1], 256), p[1] \div 256>>
U32Int(p) == p[1] * 65536 + p[2]            \* of a number below 2^31
U32Add(p, q) == \* modulo 2^32
    LET l == p[2] + q[2] IN <<Mod(p[1] + q[1] + (l \div 65536), 65536), Mod(l, 65536)>>
U32Sub(p, q) == \* p >= q
    IF p[2] >= q[2] THEN <<p[1] - q[1], p[2] - q[2]>> ELSE <<p[1] - q[1] - 1, p[2] + 65536 - q[2]>>
\* the signed number with the same bits
I32(p) == IF p[1] >= 32768 THEN (p[1] - 65536) * 65536 + p[2] ELSE U32Int(p)
U32OfI32(x) == IF x >= 0 THEN U32OfInt(x) ELSE <<65536 + (x \div 65536), Mod(x, 65536)>>
U32Less(p, q) == p[1] < q[1] \/ (p[1] = q[1] /\ p[2] < q[2])

(* Natural numbers as little endian sequences of 8 base-65536 digits, for  *)
(* 64 bit size computations: only multiplication and comparison with 2^64. *)
BigOfU32(p) == <<p[2], p[1], 0, 0, 0, 0, 0, 0>>
\* multiply by a 16 bit digit d, partial products stay below 2^32 by halving d
BigMulDigit(b, d) ==
    LET mul(x, y) == \* x, y < 2^16 -> <<hi16, lo16>>
            LET y1 == y \div 256
                y0 == Mod(y, 256)
                t0 == x * y0
                t1 == x * y1
                m == Mod(t1, 256) * 256 + Mod(t0, 65536)
                lo == Mod(m, 65536)
                hi == (t1 \div 256) + (t0 \div 65536) + (m \div 65536)
            IN <<hi, lo>>
        step[k \in 0..8] ==
            IF k = 0 THEN [carry |-> 0, out |-> <<>>]
            ELSE LET p == step[k - 1]
                     m == mul(b[k], d)
                     s == m[2] + p.carry
                 IN [carry |-> m[1] + (s \div 65536), out |-> Append(p.out, Mod(s, 65536))]
    IN step[8].out
BigFits64(b) == b[5] = 0 /\ b[6] = 0 /\ b[7] = 0 /\ b[8] = 0
BigAddShift(a, b) == \* a + b * 65536
    LET sh == <<0>> \o SubSeq(b, 1, 7)
        step[k \in 0..8] ==
            IF k = 0 THEN [carry |-> 0, out |-> <<>>]
            ELSE LET s == a[k] + sh[k] + step[k - 1].carry
                 IN [carry |-> s \div 65536, out |-> Append(step[k - 1].out, Mod(s, 65536))]
    IN step[8].out
BigMulU32(b, p) == BigAddShift(BigMulDigit(b, p[2]), BigMulDigit(b, p[1]))
=============================================================================
