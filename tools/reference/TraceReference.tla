--------------------------- MODULE TraceReference ---------------------------
(***************************************************************************)
(* The specification against the C++ implementation of the format, which   *)
(* the repository keeps in reference_app: an oracle that shares no code    *)
(* with the Rust one.  One event: an image, its parameters and program,    *)
(* the bytes the C++ encoder made of it and the images its decoder made of *)
(* these bytes.                                                            *)
(***************************************************************************)
EXTENDS TraceBase, GfwxInt, GfwxHeader, GfwxColor, GfwxWavelet, GfwxFrame, GfwxSession

VARIABLE i

Init == i = 1

FileHeader(p) ==
    [version |-> <<0, 1>>, width |-> U32OfInt(p.w), height |-> U32OfInt(p.h), layers |-> p.layers,
     channels |-> p.channels, bit_depth |-> 8, is_signed |-> FALSE, quality |-> p.quality,
     chroma_scale |-> p.cs, block_size |-> p.bs, filter |-> p.filter, quantization |-> 0,
     encoder |-> p.encoder, intent |-> 0, metadata_size |-> <<0, 0>>]

Coefs(e, chroma) ==
    QuantizeAll(e.p, chroma, LiftAll(e.p, TLCEval(
        TransformInterleaved(e.prog, e.img, e.p.layers, e.p.channels, e.p.w * e.p.h, Boost(e.p.quality)))))

Whole(e) ==
    LET chroma == TLCEval(ChromaFlags(e.prog, NChan(e.p)))
        coefs == TLCEval(Coefs(e, chroma))
        front == EncodeHeader(FileHeader(e.p)) \o EncodeProgram(e.prog)
        payload == TLCEval(FrameBytes(EncodeLevels(e.p, chroma, coefs)))
        lay == TLCEval(LayoutOf(e.p, payload))
        own == TLCEval(Owners(e.p))
        pixels(cs, d) == ImageOf(e.p, e.prog, TLCEval(AuxOf(e.p, chroma, cs, d)), d)
        decoded(d) == TLCEval(DecodeFrame(e.p, chroma, payload, 0, Len(payload), d, FALSE))
    IN /\ SameSeq(e.bytes, front \o payload, "bytes")
       /\ \A k \in 1..Len(e.images) :
            LET x == e.images[k]
            IN /\ Same(x.res, 0, "result")
               /\ Same(decoded(x.d).res, <<"ok", 0>>, "specified result")
               /\ SameSeq(x.img, pixels(decoded(x.d).coefs, x.d), <<"image at", x.d>>)
       /\ \A k \in 1..Len(e.cuts) :
            LET x == e.cuts[k]
                n == x.cut - Len(front)
                \* where the C++ code has nothing but the start of a table it asks for what it asked for before
                open == Open(e.p, lay, n, x.d)
                poi == Poi(e.p, lay, n, x.d)
                known == TLCEval(Known(e.p, coefs, own, Done(e.p, lay, n, x.d), x.d))
            IN IF n < 0 THEN TRUE
               ELSE /\ Same(x.test, x.res, "test and decoding")
                    /\ Same(x.res = 0, poi[2] = 0, "complete")
                    /\ IF poi[2] = 0 THEN TRUE
                       ELSE IF n > lay[open].pos + lay[open].table
                       THEN Same(<<x.res - Len(front), x.res - Len(front)>>, poi, "point of interest")
                       ELSE IF open = 1 THEN Same(x.res, x.cut + 1024, "guess")
                       ELSE Same(x.res - Len(front), LevelEnd(lay, open - 1) + 4 * lay[open - 1].table, "point before the table")
                    /\ SameSeq(x.img, pixels(known, x.d), <<"prefix", x.cut, "at", x.d>>)

Next == i <= Len(Log) /\ i' = i + 1 /\ Holds(Whole(Log[i]))
Spec == Init /\ [][Next]_i
=============================================================================
