------------------------------ MODULE MC_Quant ------------------------------
(***************************************************************************)
(* W02 on the specification: the quantizer of one coefficient, for every   *)
(* quality and stretch of values, and the quality that a level gets.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, GfwxInt, GfwxWavelet, GfwxHeader

CONSTANTS Limit,   \* values from -Limit to Limit
          Dense    \* every quality, or a selection
VARIABLES q, boost, from
vars == <<q, boost, from>>

Qualities == IF Dense THEN 1..1024
             ELSE {1, 2, 3, 5, 7, 16, 31, 64, 99, 100, 127, 128, 255, 256, 333, 511, 512, 513, 767, 1000, 1022, 1023, 1024}
Init == q \in Qualities /\ boost \in {1, 8} /\ from = -Limit
Next == from + 512 <= Limit /\ from' = from + 512 /\ UNCHANGED <<q, boost>>
Spec == Init /\ [][Next]_vars

\* one cell alone is quantized as it is in its channel
ASSUME \A W \in {1, 2, 3, 5, 8, 9, 17}, H \in {1, 2, 4, 7, 9, 18}, m \in {1024, 8192}, k \in {1, 3, 100, 700, 1024}, lo \in {0, 150} :
          LET img == [i \in 1..(W * H) |-> 37 * i - 900]
              a == Quantize(img, W, H, k, lo, m)
              b == Dequantize(a, W, H, k, lo, m)
          IN \A i \in 1..(W * H) :
                LET x == Mod(i - 1, W)
                    y == (i - 1) \div W
                IN /\ a[i] = CellQuant(img[i], x, y, W, H, k, lo, m, Quant1)
                   /\ b[i] = CellQuant(a[i], x, y, W, H, k, lo, m, Dequant1)

MaxQual == QualityMax * boost
Values == from..MinI(from + 511, Limit)
Sign(v) == IF v > 0 THEN 1 ELSE IF v < 0 THEN -1 ELSE 0
A(v) == Quant1(v, q, MaxQual)
B(v) == Dequant1(A(v), q, MaxQual)
\* within one quantization step (MaxQual / q) of the original
Bounded == \A v \in Values : AbsI(B(v) - v) * q <= MaxQual + q
\* half a step away from zero, never on the other side of it
Signs == \A v \in Values : Sign(A(v)) \in {0, Sign(v)} /\ Sign(B(v)) = Sign(A(v))
Zero == A(0) = 0 /\ B(0) = 0 /\ A(-from) = -A(from)
Monotone == \A v \in Values : v < Limit => A(v) <= A(v + 1) /\ B(v) <= B(v + 1)
\* dequantized values quantize to themselves again: recompression at the same quality is stable
Stable == 2 * q <= MaxQual => \A v \in Values : A(B(v)) = A(v)
\* full quality does nothing
Lossless == q = MaxQual => \A v \in Values : A(v) = v /\ B(v) = v
\* a better quality is never coarser
Refines == q < MaxQual => \A v \in Values : AbsI(A(v)) <= AbsI(Quant1(v, q + 1, MaxQual))

(* Levels: the quality doubles from level to level up to the maximum *)
Levels == \A e \in 0..12 :
    /\ QualityAt(q, MaxQual, P2(e)) = (IF e = 0 THEN q ELSE MinI(MaxQual, q * P2(e)))
    /\ QualityAt(q, MaxQual, P2(e)) <= MaxQual
\* downsampling by d and asking for quality q * 2^d is what the full image has at those levels
Reduced == \A d \in 0..6 : \A e \in 0..6 :
    QualityAt(MinI(q * P2(d), MaxQual), MaxQual, P2(e)) = QualityAt(q, MaxQual, P2(d + e))
=============================================================================
