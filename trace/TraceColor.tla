------------------------------ MODULE TraceColor ------------------------------
(***************************************************************************)
(* T01, T02, T03.  A workbench with a color program and an image on it.    *)
(***************************************************************************)
EXTENDS TraceBase, GfwxInt, GfwxHeader, GfwxColor

VARIABLES i, st

Init == i = 1 /\ st = [phase |-> "idle"]

(* T01: a program is written and read **************************************)
Preset1(e) ==
    /\ e.ev = "preset"
    /\ Holds(Same(e.prog, Preset(e.name), e.name))
    /\ UNCHANGED st

Program(e) ==
    /\ e.ev = "program"
    /\ Holds(Same(e.changes, [k \in 1..Len(e.changes) |-> Changes(e.prog, k - 1)], "changed channels"))
    /\ st' = [phase |-> "program", prog |-> e.prog, n |-> e.n]

\* room < 0: a sink that takes everything
Write(e) ==
    /\ e.ev = "write" /\ st.phase \in {"program", "written"}
    /\ LET b == TLCEval(EncodeProgram(st.prog))
       IN /\ Holds(IF e.room < 0 \/ e.room >= Len(b)
                   THEN /\ Same(e.res, <<"ok">>, "write") /\ SameSeq(e.bytes, b, "bytes")
                        /\ SameSeq(e.flags, ChromaFlags(st.prog, st.n), "flags")
                   ELSE Same(e.res, <<"err", "io">>, "write"))
          /\ st' = [phase |-> "written", prog |-> st.prog, n |-> st.n, bytes |-> b]

\* n: channels that the reader knows
Read(e) ==
    /\ e.ev = "read"
    /\ Holds(LET d == DecodeProgram(e.bytes, 0, Len(e.bytes), e.n)
             IN IF d.ok
                THEN /\ Same(e.res, <<"ok">>, "read") /\ Same(e.prog, d.prog, "program")
                     /\ Same(e.used, d.bytes, "bytes consumed")
                     /\ SameSeq(e.flags, ChromaFlags(d.prog, e.n), "flags")
                ELSE Same(e.res[1], "err", "read"))
    /\ UNCHANGED st

\* reading what was just written, with anything behind it: the same program and no byte more
ReadBack(e) ==
    /\ e.ev = "readback" /\ st.phase = "written"
    /\ Holds(/\ SameSeq(SubSeq(e.bytes, 1, Len(st.bytes)), st.bytes, "source")
             /\ Same(e.res, <<"ok">>, "read") /\ Same(e.prog, st.prog, "program")
             /\ Same(e.equal, TRUE, "equality") /\ Same(e.used, Len(st.bytes), "bytes consumed")
             /\ SameSeq(e.flags, ChromaFlags(st.prog, e.n), "flags"))
    /\ UNCHANGED st

(* T02: an image is transformed and restored *******************************)
\* img: interleaved samples of all layers
Image(e) ==
    /\ e.ev = "image"
    /\ st' = [phase |-> "image", layers |-> e.layers, ch |-> e.ch, size |-> e.size, boost |-> Boost(e.quality),
              prog |-> e.prog, img |-> e.img, planar |-> e.planar]

N(s) == s.layers * s.ch

\* behind: nothing behind the planes was changed
Forward(e) ==
    /\ e.ev = "forward" /\ st.phase = "image"
    /\ Holds(/\ Same(e.res, <<"ok">>, "result") /\ Same(e.behind, TRUE, "behind")
             /\ SameSeq(e.aux,
                   IF st.planar THEN TransformPlanar(st.prog, st.img, st.layers, st.ch, st.size, st.boost)
                   ELSE TransformInterleaved(st.prog, st.img, st.layers, st.ch, st.size, st.boost), "planes"))
    /\ st' = [st EXCEPT !.phase = "planes"] @@ [aux |-> e.aux]

\* exact: nothing happened in between, so the image has to come back
Backward(e) ==
    /\ e.ev = "backward" /\ st.phase = "planes"
    /\ Holds(/\ Same(e.res, <<"ok">>, "result") /\ Same(e.behind, TRUE, "behind")
             /\ SameSeq(e.img,
                   IF st.planar THEN DetransformPlanar(st.prog, st.aux, st.layers, st.ch, st.size, st.boost)
                   ELSE DetransformInterleaved(st.prog, st.aux, st.layers, st.ch, st.size, st.boost), "samples")
             /\ IF Reversible(st.prog) THEN SameSeq(e.img, st.img, "restored") ELSE TRUE)
    /\ UNCHANGED st

\* planes of any origin and any size
Planes(e) ==
    /\ e.ev = "planes"
    /\ st' = [phase |-> "any", layers |-> e.layers, ch |-> e.ch, size |-> e.size, boost |-> Boost(e.quality),
              prog |-> e.prog, aux |-> e.aux, planar |-> e.planar]
Undo(e) ==
    /\ e.ev = "undo" /\ st.phase = "any"
    /\ Holds(/\ Same(e.res, <<"ok">>, "result") /\ Same(e.behind, TRUE, "behind")
             /\ SameSeq(e.img,
                   IF st.planar THEN DetransformPlanar(st.prog, st.aux, st.layers, st.ch, st.size, st.boost)
                   ELSE DetransformInterleaved(st.prog, st.aux, st.layers, st.ch, st.size, st.boost), "samples"))
    /\ UNCHANGED st

(* T03: conversions ********************************************************)
SetOf(s) == {s[k] : k \in 1..Len(s)}
Split(e) ==
    /\ e.ev = "split"
    /\ Holds(/\ Same(e.res, <<"ok">>, "result")
             /\ SameSeq(e.out, ToPlanar(e.img, e.ch, e.boost, SetOf(e.skip), e.old), "planes"))
    /\ st' = [phase |-> "split", img |-> e.img, ch |-> e.ch, boost |-> e.boost, skip |-> e.skip, planes |-> e.out]
Merge(e) ==
    /\ e.ev = "merge"
    /\ Holds(/\ Same(e.res, <<"ok">>, "result")
             /\ SameSeq(e.out, ToInterleaved(e.planes, e.ch, e.boost, SetOf(e.skip), e.old), "samples"))
    /\ UNCHANGED st
\* merging what was split over the image itself changes nothing
Round(e) ==
    /\ e.ev = "round" /\ st.phase = "split"
    /\ Holds(/\ Same(e.res, <<"ok">>, "result") /\ SameSeq(e.planes, st.planes, "source")
             /\ LET out == ToInterleaved(st.planes, st.ch, st.boost, SetOf(st.skip), e.old)
                IN SameSeq(e.out, out, "samples")
             /\ LET m == (Len(st.img) \div st.ch) * st.ch
                IN \A k \in 1..m : IF Mod(k - 1, st.ch) \in SetOf(st.skip) THEN e.out[k] = e.old[k] ELSE e.out[k] = st.img[k])
    /\ UNCHANGED st

Next == i <= Len(Log) /\ i' = i + 1
        /\ LET e == Log[i] IN \/ Preset1(e) \/ Program(e) \/ Write(e) \/ Read(e) \/ ReadBack(e)
                              \/ Image(e) \/ Forward(e) \/ Backward(e) \/ Planes(e) \/ Undo(e)
                              \/ Split(e) \/ Merge(e) \/ Round(e)
Spec == Init /\ [][Next]_<<i, st>>
=============================================================================
