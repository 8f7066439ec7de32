---------------------------- MODULE TraceFormat ----------------------------
(***************************************************************************)
(* C02.  Compression, stage by stage: the specification computes every     *)
(* stage from its own state and the event must show the same.              *)
(***************************************************************************)
EXTENDS TraceBase, GfwxInt, GfwxHeader, GfwxColor, GfwxWavelet, GfwxFrame

VARIABLES i, st

Init == i = 1 /\ st = [phase |-> "idle"]

Size(p) == p.w * p.h

FileHeader(p) ==
    [version |-> p.version, width |-> U32OfInt(p.w), height |-> U32OfInt(p.h), layers |-> p.layers,
     channels |-> p.channels, bit_depth |-> p.depth, is_signed |-> FALSE, quality |-> p.quality,
     chroma_scale |-> p.cs, block_size |-> p.bs, filter |-> p.filter, quantization |-> 0,
     encoder |-> p.encoder, intent |-> p.intent, metadata_size |-> p.meta]

Image(e) ==
    /\ e.ev = "image"
    /\ ValidBuild(FileHeader(e.p))
    /\ st' = [phase |-> "image", p |-> e.p, prog |-> e.prog, img |-> e.img]

Planes(e) ==
    /\ e.ev = "planes" /\ st.phase = "image"
    /\ e.res[1] = "ok"
    /\ Holds(SameSeq(e.aux,
             TransformInterleaved(st.prog, st.img, st.p.layers, st.p.channels, Size(st.p), Boost(st.p.quality)), "planes"))
    /\ st' = [phase |-> "planes", p |-> st.p, prog |-> st.prog, aux |-> e.aux,
              chroma |-> ChromaFlags(st.prog, NChan(st.p))]

Coefs(e) ==
    /\ e.ev = "coefs" /\ st.phase = "planes"
    /\ Holds(/\ Same(e.surplus, TRUE, "what lies behind the image")
             /\ SameSeq(e.coefs, QuantizeAll(st.p, st.chroma, LiftAll(st.p, st.aux)), "coefs"))
    /\ st' = [phase |-> "coefs", p |-> st.p, prog |-> st.prog, coefs |-> e.coefs, chroma |-> st.chroma]

Payload(e) ==
    /\ e.ev = "payload" /\ st.phase = "coefs"
    /\ Holds(LET b == FrameBytes(EncodeLevels(st.p, st.chroma, st.coefs))
             IN /\ SameSeq(e.bytes, b, "payload")
                /\ Same(e.res, <<"ok", Len(b)>>, "result"))
    /\ st' = [phase |-> "payload", p |-> st.p, prog |-> st.prog, payload |-> e.bytes]

File(e) ==
    /\ e.ev = "file" /\ st.phase = "payload"
    /\ Holds(LET b == EncodeHeader(FileHeader(st.p)) \o EncodeProgram(st.prog) \o st.payload
             IN Same(e.res, <<"ok", Len(b)>>, "result") /\ SameSeq(e.bytes, b, "file"))
    /\ st' = [phase |-> "idle"]

Next == i <= Len(Log) /\ i' = i + 1
        /\ LET e == Log[i] IN Image(e) \/ Planes(e) \/ Coefs(e) \/ Payload(e) \/ File(e)
Spec == Init /\ [][Next]_<<i, st>>
=============================================================================
