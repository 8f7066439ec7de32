---------------------------- MODULE TraceHeader ----------------------------
(***************************************************************************)
(* H01, H02.  A holder of one header: build or read accepts a header,      *)
(* write puts it into a sink, read takes one out of a source, derive asks  *)
(* for the quantities that follow from it.                                 *)
(***************************************************************************)
EXTENDS TraceBase, GfwxInt, GfwxHeader

VARIABLES i, cur

None == [none |-> TRUE]
Init == i = 1 /\ cur = None

Built(v) ==
    [version |-> <<0, 1>>, width |-> v.width, height |-> v.height, layers |-> v.layers,
     channels |-> v.channels, bit_depth |-> 8, is_signed |-> FALSE, quality |-> v.quality,
     chroma_scale |-> v.chroma_scale, block_size |-> v.block_size, filter |-> v.filter,
     quantization |-> 0, encoder |-> v.encoder, intent |-> v.intent,
     metadata_size |-> v.metadata_size]

\* a builder accepts exactly the representable values
Build(e) ==
    /\ e.ev = "build"
    /\ IF ValidBuild(e.v)
       THEN /\ Same(e.res, <<"ok">>, "build") /\ Same(e.h, Built(e.v), "header")
            /\ cur' = Built(e.v)
       ELSE /\ Same(e.res, <<"err", "value">>, "build")
            /\ UNCHANGED cur

\* exactly 32 bytes, or an error when they do not fit
Write(e) ==
    /\ e.ev = "write" /\ cur # None
    /\ IF e.room >= 32
       THEN Same(e.res, <<"ok">>, "write")
            /\ SameSeq(e.sink, EncodeHeader(cur) \o [k \in 1..(e.room - 32) |-> e.fill], "bytes")
       ELSE Same(e.res, <<"err", "io">>, "write")
    /\ UNCHANGED cur

\* exactly 32 bytes are consumed; same: equal to the header that was there before
Read(e) ==
    /\ e.ev = "read"
    /\ LET d == DecodeHeader(e.bytes)
       IN IF d.ok
          THEN /\ Same(e.res, <<"ok">>, "read") /\ Same(e.h, d.h, "header") /\ Same(e.used, 32, "used")
               /\ Same(e.same, cur = d.h, "equality")
               /\ cur' = d.h
          ELSE /\ CASE d.why = "magic" -> \* a reader may also find out first that the source ends too early
                       IF Len(e.bytes) < 32 THEN e.res \in {<<"err", "magic">>, <<"err", "io">>}
                       ELSE Same(e.res, <<"err", "magic">>, "read")
                    [] d.why = "value" -> Same(e.res, <<"err", "value">>, "read")
                    [] OTHER -> e.res \in {<<"err", "io">>, <<"err", "value">>}
               /\ UNCHANGED cur

Derive(e) ==
    /\ e.ev = "derive" /\ cur # None
    /\ Same(e.q,
         [dw |-> DownPair(cur.width, e.d), dh |-> DownPair(cur.height, e.d),
          channel |-> ChannelSize(cur, 0), image |-> ImageSize(cur, 0),
          dchannel |-> ChannelSize(cur, e.d), dimage |-> ImageSize(cur, e.d),
          buffer |-> ImageSize(cur, e.d),
          boost |-> Boost(cur.quality), cq |-> ChromaQuality(cur.quality, cur.chroma_scale)], "derived")
    /\ UNCHANGED cur

\* the limits the library names are those it has
Limits(e) ==
    /\ e.ev = "limits"
    /\ Same(e.quality_max, QualityMax, "best quality")
    /\ Same(e.block_max, BlockMax, "largest block")
    /\ Same(e.block_default \in 2..BlockMax, TRUE, "default block")
    /\ UNCHANGED cur

Next == i <= Len(Log) /\ i' = i + 1
        /\ LET e == Log[i] IN Limits(e) \/ Build(e) \/ Write(e) \/ Read(e) \/ Derive(e)
Spec == Init /\ [][Next]_<<i, cur>>
=============================================================================
