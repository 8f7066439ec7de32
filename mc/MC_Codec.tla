------------------------------ MODULE MC_Codec ------------------------------
(***************************************************************************)
(* C01, C02, C03 on the specification: an image goes through the stages of *)
(* the codec and back.                                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, GfwxInt, GfwxBits, GfwxGolomb, GfwxBlock, GfwxWavelet, GfwxHeader, GfwxColor, GfwxFrame, GfwxSession

CONSTANTS Params,   \* parameter records, each with a color program
          Samples

VARIABLES par, img, stage, aux, sent, bytes, back, out
vars == <<par, img, stage, aux, sent, bytes, back, out>>

C == par.c
Size == C.w * C.h
Chroma == ChromaFlags(par.prog, NChan(C))

Init == /\ par \in Params
        /\ img \in [1..(par.c.w * par.c.h * NChan(par.c)) -> Samples]
        /\ stage = "color" /\ aux = <<>> /\ sent = <<>> /\ bytes = <<>> /\ back = <<>> /\ out = <<>>

Step(from, to) == stage = from /\ stage' = to
Color == /\ Step("color", "lift")
         /\ aux' = TransformInterleaved(par.prog, img, C.layers, C.channels, Size, Boost(C.quality))
         /\ UNCHANGED <<par, img, sent, bytes, back, out>>
DoLift == /\ Step("lift", "quantize") /\ aux' = LiftAll(C, aux) /\ UNCHANGED <<par, img, sent, bytes, back, out>>
DoQuantize == /\ Step("quantize", "encode") /\ aux' = QuantizeAll(C, Chroma, aux) /\ UNCHANGED <<par, img, sent, bytes, back, out>>
\* one level at a time, coarsest first
Encode == /\ stage = "encode"
          /\ LET S == StepsDownTo(TopStep(C.w, C.h), 1)
                 k == Len(sent) + 1
             IN IF k > Len(S)
                THEN stage' = "send" /\ UNCHANGED sent
                ELSE sent' = Append(sent, LevelBlocks(C, Chroma, aux, S[k], S[1])) /\ UNCHANGED stage
          /\ UNCHANGED <<par, img, aux, bytes, back, out>>
\* an encoder may leave unused words behind its blocks
Send(pad) == /\ Step("send", "decode")
             /\ bytes' = FrameBytes([j \in 1..Len(sent) |-> [b \in 1..Len(sent[j]) |->
                             sent[j][b] \o [i \in 1..(4 * pad) |-> 255]]])
             /\ UNCHANGED <<par, img, aux, sent, back, out>>
Decode == /\ Step("decode", "dequantize")
          /\ back' = DecodeFrame(C, Chroma, bytes, 0, Len(bytes), 0, FALSE)
          /\ UNCHANGED <<par, img, aux, sent, bytes, out>>
DoDequantize == /\ Step("dequantize", "unlift") /\ back' = [back EXCEPT !.coefs = DequantizeAll(C, Chroma, @, 0)]
                /\ UNCHANGED <<par, img, aux, sent, bytes, out>>
DoUnlift == /\ Step("unlift", "uncolor") /\ back' = [back EXCEPT !.coefs = UnliftAll(C, @, 0)]
            /\ UNCHANGED <<par, img, aux, sent, bytes, out>>
Uncolor == /\ Step("uncolor", "done")
           /\ out' = DetransformInterleaved(par.prog, back.coefs, C.layers, C.channels, Size, Boost(C.quality))
           /\ UNCHANGED <<par, img, aux, sent, bytes, back>>
Next == Color \/ DoLift \/ DoQuantize \/ Encode \/ (\E pad \in 0..1 : Send(pad)) \/ Decode
        \/ DoDequantize \/ DoUnlift \/ Uncolor
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Lossless == C.quality = 1024 /\ (C.cs = 1 \/ \A k \in 1..NChan(C) : ~Chroma[k])
RoundTrip == stage = "done" /\ Lossless => out = img
\* whatever the quality, the entropy coded part is exact and complete
Exact == stage = "dequantize" => back = [coefs |-> aux, res |-> <<"ok", 0>>, lost |-> {}]
\* the file is what the definition of the format says, word aligned
Format == stage = "send" => /\ sent = EncodeLevels(C, Chroma, aux)
                            /\ Mod(Len(FrameBytes(sent)), 4) = 0
                            /\ Fits(sent, 100000)
\* an image of one value decodes to that value at any quality, when boost and quality allow for it
Flat1 == stage = "done" /\ par.prog = <<>> /\ (\A i \in 1..Len(img) : img[i] = img[1]) => out = img
InSamples == stage = "done" => \A i \in 1..Len(out) : out[i] \in 0..255

P(w, h, layers, channels, bs, f, enc, q, cs) ==
    [w |-> w, h |-> h, layers |-> layers, channels |-> channels, quality |-> q, cs |-> cs, bs |-> bs, filter |-> f, encoder |-> enc]
With(c, prog) == [c |-> c, prog |-> prog]
SmallParams ==
    {With(P(z[1], z[2], 1, 1, bs, f, e, q, 1), <<>>) : z \in {<<1, 1>>, <<3, 1>>, <<2, 2>>}, bs \in {1, 2}, f \in {0, 1},
                                                   e \in {0, 1, 2}, q \in {1024, 90}}
    \cup {With(P(1, 1, 1, 3, 2, 0, e, q, cs), Preset("rgb_to_yuv")) : e \in {0, 1, 2}, q \in {1024, 500}, cs \in {1, 3}}
SmallSamples == {0, 7, 128, 255}
MoreParams == SmallParams
    \cup {With(P(3, 2, 1, 1, bs, f, e, q, 1), <<>>) : bs \in {1, 2}, f \in {0, 1}, e \in {0, 1, 2}, q \in {1024, 1}}
    \cup {With(P(1, 2, 1, 3, 2, 0, e, 1024, cs), Preset("bgr_to_a710")) : e \in {0, 1, 2}, cs \in {1, 3}}
    \cup {With(P(1, 2, 2, 1, 2, 1, e, 1024, 1), <<Tr(0, << <<1, -3>> >>, 2, FALSE)>>) : e \in {0, 1, 2}}
=============================================================================
