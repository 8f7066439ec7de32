----------------------------- MODULE MC_Wavelet -----------------------------
(***************************************************************************)
(* W01 on the specification.  A channel is lifted pass by pass and then    *)
(* unlifted pass by pass; every position of a pass may be processed at any *)
(* time (in place), as the real code does row by row and column by column  *)
(* in parallel.  Behaviours start from arbitrary channels, so the inverse  *)
(* is checked from arbitrary coefficients as well.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, GfwxInt, GfwxWavelet

CONSTANTS Sizes, Values, Extremes

VARIABLES W, H, f, orig, img, k, up
vars == <<W, H, f, orig, img, k, up>>

\* the passes of the forward transform in order
RECURSIVE PassesFrom(_)
PassesFrom(T) == IF T = <<>> THEN <<>>
                 ELSE << <<T[1], "h", "p">>, <<T[1], "h", "u">>, <<T[1], "v", "p">>, <<T[1], "v", "u">> >> \o PassesFrom(Tail(T))
Passes == PassesFrom(LiftSteps(W, H))

Init == /\ \E z \in Sizes : W = z[1] /\ H = z[2]
        /\ f \in {Linear, Cubic}
        /\ orig \in [1..(W * H) -> Values] \cup (IF W * H <= 8 THEN [1..(W * H) -> Extremes] ELSE {})
        /\ img = orig /\ k = 0 /\ up \in BOOLEAN   \* up: unlift first, then lift

Forward(p, im) == Pass(im, W, H, f, p[1], p[2], p[3], 1)
Backward(p, im) == Pass(im, W, H, f, p[1], p[2], p[3], -1)
N == Len(Passes)
Next == /\ k < 2 * N
        /\ k' = k + 1
        /\ img' = IF up
                  THEN IF k < N THEN Backward(Passes[N - k], img) ELSE Forward(Passes[k - N + 1], img)
                  ELSE IF k < N THEN Forward(Passes[k + 1], img) ELSE Backward(Passes[2 * N - k], img)
        /\ UNCHANGED <<W, H, f, orig, up>>
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Restored == k = 2 * N => img = orig
\* the whole transforms are these sequences of passes
Whole == k = N => img = IF up THEN Unlift(orig, W, H, f) ELSE Lift(orig, W, H, f)
\* the first coefficient stays put, and a flat channel is zero everywhere else
DcKept == img[1] = orig[1]
Flatness == ~up /\ k = N /\ (\A i \in 1..(W * H) : orig[i] = orig[1]) => \A i \in 2..(W * H) : img[i] = 0
\* samples of boosted 8 bit channels (at most 2040 after any color transform) never come near 16 bits
InRange == ~up /\ (\A i \in 1..(W * H) : AbsI(orig[i]) <= 2040) => \A i \in 1..(W * H) : AbsI(img[i]) <= 16383

SmallSizes == {<<1, 1>>, <<2, 1>>, <<1, 2>>, <<5, 1>>, <<1, 5>>, <<2, 2>>, <<3, 2>>, <<2, 3>>}
MoreSizes == SmallSizes \cup {<<7, 1>>, <<1, 8>>, <<9, 1>>, <<3, 3>>, <<4, 2>>}
SmallValues == {-5, 0, 3, 8}
MoreValues == {-7, 0, 2, 9}
Big == {-2040, 2040}
=============================================================================
