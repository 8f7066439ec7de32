------------------------------ MODULE MC_Color ------------------------------
(***************************************************************************)
(* T01, T02 on the specification.  An author builds a color program        *)
(* transform by transform; it is written, possibly cut short, and read     *)
(* back; it is applied to an image transform by transform and undone in    *)
(* the opposite order.                                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, GfwxInt, GfwxBits, GfwxGolomb, GfwxColor

CONSTANTS NCh, MaxTransforms, MaxFactors, Factors, Denoms, Samples,
          Start   \* programs that authors start from

VARIABLES phase, prog, img, planes, k
vars == <<phase, prog, img, planes, k>>

Channels == 0..(NCh - 1)
FactorLists == UNION {[1..n -> Channels \X Factors] : n \in 0..MaxFactors}

Init == phase = "author" /\ prog \in Start /\ img = <<>> /\ planes = <<>> /\ k = 0

Author == /\ phase = "author" /\ Len(prog) < MaxTransforms
          /\ \E d \in Channels, fs \in FactorLists, dn \in Denoms, ch \in BOOLEAN :
                prog' = Append(prog, Tr(d, fs, dn, ch))
          /\ UNCHANGED <<phase, img, planes, k>>

Raw(c, i) == img[Planar(c, 1, i - 1)] * 8
Image == /\ phase = "author" /\ prog # <<>> /\ Reversible(prog)
         /\ img' \in [1..NCh -> Samples]
         /\ planes' = [c \in Channels |-> <<>>] /\ k' = 0 /\ phase' = "apply" /\ UNCHANGED prog
Apply == /\ phase = "apply" /\ k < Len(prog)
         /\ planes' = ApplyTransform(planes, prog[k + 1], 1, Raw)
         /\ k' = k + 1 /\ UNCHANGED <<phase, prog, img>>
\* planes that no transform wrote are copied
Copy == /\ phase = "apply" /\ k = Len(prog)
        /\ planes' = [c \in Channels |-> IF planes[c] = <<>> THEN <<Raw(c, 1)>> ELSE planes[c]]
        /\ phase' = "undo" /\ UNCHANGED <<prog, img, k>>
Undo == /\ phase = "undo" /\ k > 0
        /\ planes' = UndoTransform(planes, prog[k], 1)
        /\ k' = k - 1 /\ UNCHANGED <<phase, prog, img>>
Next == Author \/ Image \/ Apply \/ Copy \/ Undo
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Bytes == EncodeProgram(prog)
D(n) == DecodeProgram(Bytes, 0, n, NCh)
Authoring == phase = "author"
RoundTrip == Authoring => D(Len(Bytes)) = [ok |-> TRUE, prog |-> prog, bytes |-> Len(Bytes)] /\ Mod(Len(Bytes), 4) = 0
\* behind the program follows other data: it is not looked at
SelfDelimiting == Authoring => DecodeProgram(Bytes \o <<255, 255, 255, 255>>, 0, Len(Bytes) + 4, NCh).bytes = Len(Bytes)
\* a program that is cut off is refused
CutRefused == Authoring => \A n \in 0..((Len(Bytes) \div 4) - 1) : ~D(4 * n).ok
\* and so is one that mentions channels the image does not have
ChannelsChecked == Authoring /\ (\E i \in 1..Len(prog) : prog[i].dest = NCh - 1) =>
    ~DecodeProgram(Bytes, 0, Len(Bytes), NCh - 1).ok
\* both sides agree about the chroma flags
Flags == Authoring => ChromaFlags(D(Len(Bytes)).prog, NCh) = ChromaFlags(prog, NCh)
\* undoing a reversible program restores every channel
Undone == phase = "undo" /\ k = 0 => \A c \in Channels : planes[c] = <<Raw(c, 1)>>
\* step by step is the same as the definition of the whole transform
Whole == phase = "undo" /\ k = Len(prog) =>
    /\ [c \in 1..NCh |-> planes[c - 1][1]] = Transform(prog, NCh, 1, Raw)
    /\ TransformInterleaved(prog, img, 1, NCh, 1, 8) = Transform(prog, NCh, 1, Raw)
    /\ DetransformPlanar(prog, Transform(prog, NCh, 1, Raw), 1, NCh, 1, 8) = [c \in 1..NCh |-> img[c]]

Scratch == {<<>>}
Presets == {Preset(n) : n \in {"yuv444_to_yuv444", "rgb_to_yuv", "bgr_to_a710", "rgb_to_a710"}}
SmallFactors == {-2, 1, 3}
MoreFactors == {-100, -1, 1, 2}
=============================================================================
