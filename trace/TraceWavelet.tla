----------------------------- MODULE TraceWavelet -----------------------------
(***************************************************************************)
(* W01, W02.  A workbench with one channel on it.  lift, unlift, quantize  *)
(* and dequantize replace the channel by what the format defines.  undone: *)
(* the channels that were on it, so that an inverse transform that follows *)
(* its forward transform must bring back exactly the channel before.       *)
(***************************************************************************)
EXTENDS TraceBase, GfwxInt, GfwxHeader, GfwxColor, GfwxWavelet, GfwxFrame, SequencesExt

VARIABLES i, st

Init == i = 1 /\ st = [phase |-> "idle"]

Put(e) ==
    /\ e.ev = "put"
    /\ st' = [phase |-> "raw", w |-> e.w, h |-> e.h, f |-> e.f, img |-> e.img, before |-> e.img]

(* The format is defined where no value leaves 16 bits *)
LiftDefined(img) == SafeLift(img, st.w, st.h, st.f)
UnliftDefined(img) == SafeUnlift(img, st.w, st.h, st.f)

LiftEv(e) ==
    /\ e.ev = "lift" /\ st.phase = "raw"
    /\ Holds(e.res[1] = "ok" /\ LET d == TLCEval(LiftDefined(st.img))
             IN IF d[1] THEN SameSeq(e.img, d[2], "lifted") ELSE TRUE)
    /\ st' = [st EXCEPT !.phase = "lifted", !.img = e.img]

\* the inverse transform of what was lifted: also where the sums overflow
Back(e) ==
    /\ e.ev = "unlift" /\ st.phase = "lifted"
    /\ Holds(e.res[1] = "ok" /\ SameSeq(e.img, st.before, "restored"))
    /\ st' = [st EXCEPT !.phase = "raw", !.img = e.img]

\* the inverse transform of anything
Unlift1(e) ==
    /\ e.ev = "unlift" /\ st.phase = "raw"
    /\ Holds(e.res[1] = "ok" /\ LET d == TLCEval(UnliftDefined(st.img))
             IN IF d[1] THEN SameSeq(e.img, d[2], "unlifted") ELSE TRUE)
    /\ st' = [st EXCEPT !.img = e.img, !.before = e.img]

Quant(e) ==
    /\ e.ev = "quantize" /\ st.phase = "raw"
    /\ Holds(e.res[1] = "ok" /\ SameSeq(e.img, Quantize(st.img, st.w, st.h, e.q, e.lo, e.hi), "quantized"))
    /\ st' = [st EXCEPT !.phase = "quantized", !.before = st.img, !.img = e.img]

(* The error is at most one quantization step: hi/q of the level.  Where   *)
(* nothing was quantized nothing changes.                                  *)
Near(a, b, q, hi) == AbsI(a - b) * q <= hi
LevelQ(q, lo, hi, s) == MaxI(MaxI(1, lo), QualityAt(q, hi, s))
StepOf(x, y, m) == \* the level of a cell, 0 when it belongs to none below m
    LET RECURSIVE L(_)
        L(s) == IF s >= m THEN 0 ELSE IF BitSet(x, s) \/ BitSet(y, s) THEN s ELSE L(2 * s)
    IN L(1)
Bounded(img, e) ==
    LET m == MinI(st.w, st.h)
    IN \A k \in 1..Len(img) :
          LET s == StepOf(Mod(k - 1, st.w), (k - 1) \div st.w, m)
          IN IF s = 0 THEN img[k] = st.before[k]
             ELSE LET q == LevelQ(e.q, e.lo, e.hi, s)
                  IN IF q >= e.hi THEN img[k] = st.before[k] ELSE Near(img[k], st.before[k], q, e.hi)
Sign(v) == IF v < 0 THEN -1 ELSE IF v > 0 THEN 1 ELSE 0
Dequant(e) ==
    /\ e.ev = "dequantize" /\ st.phase \in {"quantized", "raw"}
    /\ Holds(/\ e.res[1] = "ok"
             /\ SameSeq(e.img, Dequantize(st.img, st.w, st.h, e.q, e.lo, e.hi), "dequantized")
             /\ IF st.phase = "quantized"
                THEN /\ Same(Bounded(e.img, e), TRUE, "error of at most one step")
                     /\ Same(\A k \in 1..Len(e.img) : Sign(e.img[k]) = Sign(st.img[k]), TRUE, "signs and zeros")
                ELSE TRUE)
    /\ st' = [st EXCEPT !.phase = "raw", !.img = e.img]

\* channels too large to be shown: cells <<x, y, before, after>>, all others were and have to stay zero
SparseEv(e) ==
    /\ e.ev = "sparse"
    /\ Holds(/\ e.res[1] = "ok"
             /\ Same(e.others, 0, "cells that became something")
             /\ \A k \in 1..Len(e.cells) :
                   LET c == e.cells[k]
                       want == IF e.what = "quantized"
                               THEN CellQuant(c[3], c[1], c[2], e.w, e.h, e.q, e.lo, e.hi, Quant1)
                               ELSE CellQuant(c[3], c[1], c[2], e.w, e.h, e.q, e.lo, e.hi, Dequant1)
                   IN Same(c[4], want, <<e.what, "cell", c[1], c[2]>>))
    /\ UNCHANGED st

(* All channels of an image, each with its own quality: what compression   *)
(* leaves in the buffer and what decompression makes of coefficients       *)
Channels(e) ==
    /\ e.ev = "channels"
    /\ st' = [phase |-> "channels", p |-> e.p, chroma |-> e.chroma, aux |-> e.aux]
Forward(e) ==
    /\ e.ev = "forward" /\ st.phase = "channels"
    /\ Holds(SameSeq(e.aux, QuantizeAll(st.p, st.chroma, LiftAll(st.p, st.aux)), "coefficients"))
    /\ st' = [st EXCEPT !.phase = "coefs", !.aux = e.aux]
Backward(e) ==
    /\ e.ev = "backward" /\ st.phase = "coefs"
    /\ Holds(e.res = <<"ok", 0>>
             /\ SameSeq(e.aux, UnliftAll(st.p, DequantizeAll(st.p, st.chroma, st.aux, 0), 0), "planes"))
    /\ st' = [st EXCEPT !.phase = "idle"]

Next == i <= Len(Log) /\ i' = i + 1
        /\ LET e == Log[i] IN \/ Put(e) \/ LiftEv(e) \/ Back(e) \/ Unlift1(e) \/ Quant(e) \/ Dequant(e)
                              \/ SparseEv(e) \/ Channels(e) \/ Forward(e) \/ Backward(e)
Spec == Init /\ [][Next]_<<i, st>>
=============================================================================
