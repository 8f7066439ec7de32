------------------------------ MODULE MC_Header ------------------------------
(***************************************************************************)
(* H01 and H02 on the specification: headers at the limits of every field  *)
(* are built, written, damaged by an environment, cut, and read.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, GfwxInt, GfwxHeader

CONSTANTS Full   \* combine all limits, or at most two fields away from a common header

VARIABLES phase, h, bytes, hit
vars == <<phase, h, bytes, hit>>

Fields == [ version |-> {<<0, 0>>, <<0, 1>>, <<65535, 65535>>, <<0, 258>>},
            width |-> {<<0, 0>>, <<0, 1>>, <<0, 640>>, <<16383, 65535>>, <<16384, 0>>, <<65535, 65535>>, <<258, 772>>},
            height |-> {<<0, 0>>, <<0, 1>>, <<0, 481>>, <<16383, 65535>>, <<16384, 0>>, <<32768, 1>>, <<1, 515>>},
            layers |-> {0, 1, 2, 258, 65535},
            channels |-> {0, 1, 3, 772, 65535},
            bit_depth |-> {8}, is_signed |-> {FALSE},
            quality |-> {0, 1, 2, 333, 512, 1023, 1024, 1025},
            chroma_scale |-> {0, 1, 2, 8, 128, 255},
            block_size |-> {0, 1, 2, 7, 29, 30, 31},
            filter |-> {0, 1}, quantization |-> {0}, encoder |-> {0, 1, 2},
            intent |-> {0, 7, 8, 10, 11, 12},
            metadata_size |-> {<<0, 0>>, <<0, 4>>, <<0, 2>>, <<1, 65532>>, <<65535, 65532>>, <<0, 65535>>} ]
Common == [ version |-> <<0, 1>>, width |-> <<0, 640>>, height |-> <<0, 481>>, layers |-> 1, channels |-> 3,
            bit_depth |-> 8, is_signed |-> FALSE, quality |-> 1024, chroma_scale |-> 8, block_size |-> 7,
            filter |-> 0, quantization |-> 0, encoder |-> 2, intent |-> 7, metadata_size |-> <<0, 0>> ]
Names == DOMAIN Fields

Init == /\ phase = "build" /\ bytes = <<>> /\ hit = 0
        /\ \/ \E a, b \in Names : \E va \in Fields[a], vb \in Fields[b] : h = [Common EXCEPT ![a] = va, ![b] = vb]
           \/ /\ Full
              /\ \E a, b, c \in Names : \E va \in Fields[a], vb \in Fields[b], vc \in Fields[c] :
                    h = [Common EXCEPT ![a] = va, ![b] = vb, ![c] = vc]
Write == /\ phase = "build" /\ ValidBuild(h)
         /\ bytes' = EncodeHeader(h) /\ phase' = "written" /\ UNCHANGED <<h, hit>>
\* the environment overwrites one byte of the file
Damage(k, v) == /\ phase = "written" /\ bytes[k] # v
                /\ bytes' = [bytes EXCEPT ![k] = v] /\ hit' = k /\ phase' = "damaged" /\ UNCHANGED h
\* or cuts it
Cut(n) == /\ phase = "written" /\ bytes' = SubSeq(bytes, 1, n) /\ phase' = "cut" /\ UNCHANGED <<h, hit>>
\* or appends the rest of a file
Extend == /\ phase = "written" /\ bytes' = bytes \o <<1, 2, 3>> /\ phase' = "extended" /\ UNCHANGED <<h, hit>>
Near == \E a, b \in Names : (Full \/ a = b) /\ h = [Common EXCEPT ![a] = h[a], ![b] = h[b]]
Next == Write \/ Extend \/ (Near /\ (\E n \in 0..31 : Cut(n)))
        \/ (Near /\ \E k \in 1..32 : \E v \in {0, 1, 127, 128, 255} : Damage(k, v))
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
D == DecodeHeader(bytes)
\* whatever is built is written in 32 bytes and read back
RoundTrip == phase \in {"written", "extended"} => (phase = "written" => Len(bytes) = 32) /\ D = [ok |-> TRUE, h |-> h]
\* whatever is read is a header that could have been built (the bit depth aside) and is written as the same bytes
Canonical == phase = "damaged" /\ D.ok =>
    /\ ValidBuild(D.h)
    /\ D.h # h
    /\ EncodeHeader(D.h) = bytes
\* a refusal has its reason in the damage
Reasons == phase = "damaged" /\ ~D.ok =>
    IF hit <= 4 THEN D.why = "magic" ELSE D.why = "value"
CutRefused == phase = "cut" => ~D.ok /\ (IF Len(bytes) >= 4 THEN D.why = "short" ELSE D.why = "short")
\* what is not built cannot be read: invalid headers would not survive writing
Needed == phase = "build" /\ ~ValidBuild(h) /\ h.layers >= 1 /\ h.channels >= 1 /\ h.quality >= 1 /\ h.chroma_scale >= 1 /\ h.block_size >= 2 =>
    LET d == DecodeHeader(EncodeHeader(h)) IN ~d.ok \/ d.h # h
\* derived quantities: the reduced size shrinks to one sample, the chroma quality stays between 1 and the quality
Derived == phase = "written" =>
    /\ ChannelSize(h, 0) = Digits4(BigMulU32(BigOfU32(h.width), h.height))
    /\ ChannelSize(h, 30) = <<1, 0, 0, 0>>
    /\ ChromaQuality(h.quality, h.chroma_scale) \in 1..h.quality
    /\ (h.chroma_scale = 1 => ChromaQuality(h.quality, 1) = h.quality)
=============================================================================
