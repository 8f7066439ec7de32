----------------------------- MODULE GfwxWavelet -----------------------------
(***************************************************************************)
(* Lifting and quantization of one channel: img is a function 1..W*H ->    *)
(* Int in row order.                                                       *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE SequencesExt
LOCAL INSTANCE TLC
LOCAL INSTANCE GfwxInt

Linear == 0
Cubic == 1

Median(a, b, c) == IF a <= b THEN IF b <= c THEN b ELSE IF a <= c THEN c ELSE a
                   ELSE IF a <= c THEN a ELSE IF b <= c THEN c ELSE b
RoundFraction16(n) == IF n < 0 THEN -((8 - n) \div 16) ELSE (n + 8) \div 16
CubicPoint(c0, c1, c2, c3) == Median(RoundFraction16(9 * (c1 + c2) - c0 - c3), c1, c2)

(* One lifting pass along a line of length n, for position x of that line. *)
(* V(_) reads the line.  phase "p": predict odd multiples of s from their  *)
(* even neighbours; phase "u": update even multiples (but 0) from the odd. *)
LinTerm(V(_), n, s, x, phase) ==
    LET a == V(x - s)
        b == IF x + s < n THEN V(x + s) ELSE a
    IN IF phase = "p" THEN -TDiv(a + b, 2) ELSE TDiv(a + b, 4)

CubTerm(V(_), n, s, x, phase) ==
    LET c1 == V(x - s)
        c2 == IF x + s < n THEN V(x + s) ELSE c1
        c0 == IF x - 3 * s >= 0 THEN V(x - 3 * s) ELSE c1
        c3 == IF x + 3 * s < n THEN V(x + 3 * s) ELSE c2
        c == CubicPoint(c0, c1, c2, c3)
    IN IF phase = "p" THEN -c ELSE TDiv(c, 2)

Term(f, V(_), n, s, x, phase) == IF f = Linear THEN LinTerm(V, n, s, x, phase) ELSE CubTerm(V, n, s, x, phase)

\* is x touched by the phase at step s
Touched(x, s, phase) == IF phase = "p" THEN Mod(x, 2 * s) = s ELSE Mod(x, 2 * s) = 0 /\ x > 0

(* A pass over the whole channel; dir "h" along rows (rows that are        *)
(* multiples of s), dir "v" along columns; sign 1 forward, -1 backward     *)
RawPass(img, W, H, f, s, dir, phase, sign) ==
    IF (dir = "h" /\ s >= W) \/ (dir = "v" /\ s >= H) THEN img
    ELSE TLCEval([i \in 1..(W * H) |->
        LET y == (i - 1) \div W
            x == Mod(i - 1, W)
        IN IF dir = "h"
           THEN IF Mod(y, s) = 0 /\ Touched(x, s, phase)
                THEN LET V(k) == img[y * W + k + 1] IN img[i] + sign * Term(f, V, W, s, x, phase)
                ELSE img[i]
           ELSE IF Mod(x, s) = 0 /\ Touched(y, s, phase)
                THEN LET V(k) == img[k * W + x + 1] IN img[i] + sign * Term(f, V, H, s, y, phase)
                ELSE img[i]])

Pass(img, W, H, f, s, dir, phase, sign) ==
    LET r == RawPass(img, W, H, f, s, dir, phase, sign)
    IN TLCEval([i \in 1..(W * H) |-> Wrap16(r[i])])

(* One level of the transform and its inverse *)
LiftStep(img, W, H, f, s) ==
    Pass(Pass(Pass(Pass(img, W, H, f, s, "h", "p", 1), W, H, f, s, "h", "u", 1),
              W, H, f, s, "v", "p", 1), W, H, f, s, "v", "u", 1)
UnliftStep(img, W, H, f, s) ==
    Pass(Pass(Pass(Pass(img, W, H, f, s, "v", "u", -1), W, H, f, s, "v", "p", -1),
              W, H, f, s, "h", "u", -1), W, H, f, s, "h", "p", -1)

\* the same, pass by pass: <<TRUE, result>> as long as no value leaves 16 bits
Inside16(img) == \A k \in 1..Len(img) : img[k] >= -32767 /\ img[k] <= 32767
SafePass(acc, W, H, f, s, dir, phase, sign) ==
    IF ~acc[1] THEN acc
    ELSE LET n == RawPass(acc[2], W, H, f, s, dir, phase, sign) IN <<Inside16(n), n>>
SafeLiftStep(acc, W, H, f, s) ==
    SafePass(SafePass(SafePass(SafePass(acc, W, H, f, s, "h", "p", 1), W, H, f, s, "h", "u", 1),
                      W, H, f, s, "v", "p", 1), W, H, f, s, "v", "u", 1)
SafeUnliftStep(acc, W, H, f, s) ==
    SafePass(SafePass(SafePass(SafePass(acc, W, H, f, s, "v", "u", -1), W, H, f, s, "v", "p", -1),
                      W, H, f, s, "h", "u", -1), W, H, f, s, "h", "p", -1)

RECURSIVE StepsBelow(_, _)
StepsBelow(s, n) == IF s < n THEN <<s>> \o StepsBelow(2 * s, n) ELSE <<>>
LiftSteps(W, H) == StepsBelow(1, MaxI(W, H))

Lift(img, W, H, f) == FoldLeft(LAMBDA im, s : LiftStep(im, W, H, f, s), img, LiftSteps(W, H))
Unlift(img, W, H, f) == FoldRight(LAMBDA s, im : UnliftStep(im, W, H, f, s), LiftSteps(W, H), img)

SafeLift(img, W, H, f) ==
    FoldLeft(LAMBDA a, s : SafeLiftStep(a, W, H, f, s), <<Inside16(img), img>>, LiftSteps(W, H))
SafeUnlift(img, W, H, f) ==
    FoldRight(LAMBDA s, a : SafeUnliftStep(a, W, H, f, s), LiftSteps(W, H), <<Inside16(img), img>>)

-----------------------------------------------------------------------------
(* Quantization.  The level of a cell is the largest power of two dividing *)
(* both coordinates; the cell at the origin belongs to no level.           *)
RECURSIVE LevelFrom(_, _, _)
LevelFrom(x, y, s) == IF BitSet(x, s) \/ BitSet(y, s) THEN s ELSE LevelFrom(x, y, 2 * s)

\* quality at level s: doubles per level up to maxq; maxq: not quantized
RECURSIVE QualityAt(_, _, _)
QualityAt(q, maxq, s) == IF s = 1 THEN q ELSE QualityAt(MinI(maxq, 2 * q), maxq, s \div 2)

Quant1(v, q, maxq) == TDiv(v * q, maxq)
Dequant1(v, q, maxq) ==
    Wrap16(IF v < 0 THEN -((maxq \div 2 - v * maxq) \div q)
           ELSE IF v > 0 THEN (v * maxq + maxq \div 2) \div q ELSE 0)

MapQuant(img, W, H, quality, minq, maxq, Op(_, _, _)) ==
    LET M == MinI(W, H)
        S == StepsBelow(1, M)
        Q == [k \in 1..Len(S) |-> MaxI(MaxI(1, minq), QualityAt(quality, maxq, S[k]))]
        QOf == TLCEval(Q)
        lev(x, y) == LET RECURSIVE L(_)
                         L(k) == IF k > Len(S) THEN 0
                                 ELSE IF BitSet(x, S[k]) \/ BitSet(y, S[k]) THEN k ELSE L(k + 1)
                     IN L(1)
        active(k) == k > 0 /\ \A j \in 1..k : QOf[j] < maxq
        Act == TLCEval([k \in 0..Len(S) |-> active(k)])
    IN TLCEval([i \in 1..(W * H) |->
          LET k == lev(Mod(i - 1, W), (i - 1) \div W)
          IN IF Act[k] THEN Op(img[i], QOf[k], maxq) ELSE img[i]])

\* the same for one cell alone
CellQuant(v, x, y, W, H, quality, minq, maxq, Op(_, _, _)) ==
    LET s == IF x = 0 /\ y = 0 THEN 0 ELSE LevelFrom(x, y, 1)
        at(k) == MaxI(MaxI(1, minq), QualityAt(quality, maxq, k))
    IN IF s = 0 \/ s >= MinI(W, H) THEN v
       ELSE IF at(1) >= maxq \/ at(s) >= maxq THEN v
       ELSE Op(v, at(s), maxq)

Quantize(img, W, H, quality, minq, maxq) == MapQuant(img, W, H, quality, minq, maxq, Quant1)
Dequantize(img, W, H, quality, minq, maxq) == MapQuant(img, W, H, quality, minq, maxq, Dequant1)
=============================================================================
