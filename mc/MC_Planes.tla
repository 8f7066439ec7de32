------------------------------ MODULE MC_Planes ------------------------------
(***************************************************************************)
(* T03 on the specification: splitting and merging with skipped channels.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, GfwxInt, GfwxBits, GfwxGolomb, GfwxColor
CONSTANTS MaxCh, MaxPixels, Behind
VARIABLES ch, px, skip, boost, rest, go   \* go: TRUE in the second state, so that the work is spread over TLC's workers
vars == <<ch, px, skip, boost, rest, go>>
Chosen == /\ ch \in 1..MaxCh /\ px \in 0..MaxPixels /\ skip \in SUBSET (0..MaxCh)
        /\ boost \in {1, 8} /\ rest \in 0..Behind
Init == go = FALSE /\ Chosen
Next == ~go /\ go' = TRUE /\ UNCHANGED <<ch, px, skip, boost, rest>>
Spec == Init /\ [][Next]_vars
Img == [i \in 1..(ch * px) |-> Mod(i * 37, 256)]
NKept == Cardinality({c \in 0..(ch - 1) : c \notin skip})
Old == [i \in 1..(NKept * px + rest) |-> -1]
Planes == ToPlanar(Img, ch, boost, skip, Old)
\* every sample that is kept is somewhere, in order of channels; the rest is as before
Placed == go => \A k \in 1..Len(Old) : IF k > NKept * px THEN Planes[k] = -1
    ELSE LET c == CHOOSE c \in 0..(ch - 1) : c \notin skip /\ Cardinality({d \in 0..(c - 1) : d \notin skip}) = (k - 1) \div px
         IN Planes[k] = boost * Img[Mod(k - 1, px) * ch + c + 1]
\* merging is the inverse and leaves skipped channels and incomplete pixels alone
Dirty == [i \in 1..(ch * px + MinI(rest, ch - 1)) |-> 7]
Merged == ToInterleaved(Planes, ch, boost, skip, Dirty)
Inverse == go /\ Len(Planes) >= NKept * px => \A k \in 1..Len(Dirty) :
    Merged[k] = IF k <= ch * px /\ Mod(k - 1, ch) \notin skip THEN Img[k] ELSE 7
\* planar and interleaved transforms agree, and every layer is a group of its own
Agree == go /\ skip = {} =>
    TransformPlanar(<<>>, [k \in 1..(ch * px) |-> IF px = 0 THEN 0 ELSE Planes[k] \div boost], 1, ch, px, boost)
    = TransformInterleaved(<<>>, Img, 1, ch, px, boost)
Clamped == go => \A v \in -20..(20 + rest) : \A b \in {1, 8} : ToSample(256 * v * b, b) \in {0, 255} \/ v = 0
=============================================================================
