----------------------------- MODULE GfwxHeader -----------------------------
(***************************************************************************)
(* The 32 byte file header.  32 bit fields are pairs <<high, low>>.        *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE GfwxInt

Magic == <<71, 70, 87, 88>>  \* "GFWX"
Intents == {0, 7, 8, 10, 11, 12}
Encoders == {0, 1, 2}
Filters == {0, 1}
Quantizations == {0}

QualityMax == 1024
BlockMax == 30

Dim30(p) == U32Less(U32OfInt(0), p) /\ p[1] < 16384  \* 0 < p < 2^30

\* width * height * layers * channels < 2^64
SizeOk(h) ==
    BigFits64(BigMulDigit(BigMulDigit(BigMulU32(BigOfU32(h.width), h.height), h.layers), h.channels))

(* What a builder must accept: exactly what the file format can represent  *)
(* and the library can handle.                                             *)
ValidBuild(h) ==
    /\ Dim30(h.width)
    /\ Dim30(h.height)
    /\ h.layers \in 1..65535
    /\ h.channels \in 1..65535
    /\ h.quality \in 1..1024
    /\ h.chroma_scale \in 1..255
    /\ h.block_size \in 2..BlockMax
    /\ Mod(h.metadata_size[2], 4) = 0
    /\ SizeOk(h)

U16Le(v) == <<Mod(v, 256), v \div 256>>

\* metadata sizes are stored in words
EncodeHeader(h) ==
    LET t == (h.block_size - 2) + 32 * (h.chroma_scale - 1) + 8192 * (h.quality - 1)
             + 8388608 * (IF h.is_signed THEN 1 ELSE 0)
        m == h.metadata_size
        m4 == <<m[1] \div 4, Mod(m[1], 4) * 16384 + (m[2] \div 4)>>
    IN Magic \o U32Le(h.version) \o U32Le(h.width) \o U32Le(h.height)
       \o U16Le(h.channels - 1) \o U16Le(h.layers - 1)
       \o <<Mod(t, 256), Mod(t \div 256, 256), t \div 65536, h.bit_depth - 1,
            h.intent, h.encoder, h.quantization, h.filter>> \o U32Le(m4)

\* the fields that 32 bytes say, whatever they are
RawFields(b) ==
    LET u32(k) == <<b[k + 2] + 256 * b[k + 3], b[k] + 256 * b[k + 1]>>
        t == b[21] + 256 * b[22] + 65536 * b[23]
        mw == u32(29)
    IN [ version |-> u32(5), width |-> u32(9), height |-> u32(13),
         channels |-> b[17] + 256 * b[18] + 1, layers |-> b[19] + 256 * b[20] + 1,
         block_size |-> Mod(t, 32) + 2, chroma_scale |-> Mod(t \div 32, 256) + 1,
         quality |-> Mod(t \div 8192, 1024) + 1, is_signed |-> t \div 8388608 = 1,
         bit_depth |-> b[24] + 1, intent |-> b[25], encoder |-> b[26],
         quantization |-> b[27], filter |-> b[28],
         metadata_words |-> mw ]

ValidRaw(f) ==
    /\ f.channels <= 65535 /\ f.layers <= 65535
    /\ f.chroma_scale <= 255
    /\ f.block_size <= BlockMax
    /\ ~f.is_signed /\ f.bit_depth <= 8
    /\ f.intent \in Intents /\ f.encoder \in Encoders
    /\ f.quantization \in Quantizations /\ f.filter \in Filters
    /\ f.metadata_words[1] < 16384
    /\ Dim30(f.width) /\ Dim30(f.height)
    /\ SizeOk(f)

MetaBytes(w) == <<(4 * w[1] + (w[2] \div 16384)) , Mod(w[2], 16384) * 4>>

HeaderOf(f) ==
    [ version |-> f.version, width |-> f.width, height |-> f.height, layers |-> f.layers,
      channels |-> f.channels, bit_depth |-> f.bit_depth, is_signed |-> f.is_signed,
      quality |-> f.quality, chroma_scale |-> f.chroma_scale, block_size |-> f.block_size,
      filter |-> f.filter, quantization |-> f.quantization, encoder |-> f.encoder,
      intent |-> f.intent, metadata_size |-> MetaBytes(f.metadata_words) ]

(* decoding: [ok |-> TRUE, h |-> header] or [ok |-> FALSE, why |-> ...]    *)
DecodeHeader(b) ==
    IF Len(b) >= 4 /\ SubSeq(b, 1, 4) # Magic THEN [ok |-> FALSE, why |-> "magic"]
    ELSE IF Len(b) < 32 THEN [ok |-> FALSE, why |-> "short"]
    ELSE LET f == RawFields(b)
         IN IF ValidRaw(f) THEN [ok |-> TRUE, h |-> HeaderOf(f)] ELSE [ok |-> FALSE, why |-> "value"]

-----------------------------------------------------------------------------
(* Derived quantities, for dimensions that fit TLC's integers *)
Boost(quality) == IF quality = QualityMax THEN 1 ELSE 8
ChromaQuality(quality, cs) == MaxI(1, (quality + cs \div 2) \div cs)
Down(n, d) == CeilDiv(n, P2(d))

\* for any 30 bit dimension <<high, low>> and d: a pair again
DownPair(p, d) ==
    LET n == p[1] * 65536 + p[2]
    IN U32OfInt(IF d >= 30 THEN 1 ELSE (n \div P2(d)) + (IF Mod(n, P2(d)) = 0 THEN 0 ELSE 1))

\* sizes as four 16 bit digits, least significant first
Digits4(b) == SubSeq(b, 1, 4)
ChannelSize(h, d) == Digits4(BigMulU32(BigOfU32(DownPair(h.width, d)), DownPair(h.height, d)))
ImageSize(h, d) ==
    Digits4(BigMulDigit(BigMulDigit(BigMulU32(BigOfU32(DownPair(h.width, d)), DownPair(h.height, d)),
                                    h.layers), h.channels))
=============================================================================
