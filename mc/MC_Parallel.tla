----------------------------- MODULE MC_Parallel -----------------------------
(***************************************************************************)
(* S02 and S01 on the specification: the blocks of one level are coded and *)
(* decoded by independent workers that share the image, interleaved at the *)
(* granularity of one coefficient.  Whatever the schedule, encoders emit   *)
(* the streams and decoders restore the coefficients of the sequential     *)
(* definition; levels are separated by a barrier.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, GfwxInt, GfwxBits, GfwxGolomb, GfwxBlock, GfwxWavelet, GfwxHeader, GfwxFrame

CONSTANTS Pictures   \* records [c, coefs]: parameters and coefficients

Chroma(c) == [k \in 1..NChan(c) |-> k > 1]
Levels(c) == StepsDownTo(TopStep(c.w, c.h), 1)
Geoms(c, s) == TLCEval([k \in 1..BlockCount(c, s) |-> BlockGeom(c, s, c.w, c.h, k - 1)])
IsDc(c, g) == g.s = Levels(c)[1] /\ g.x0 = 0 /\ g.y0 = 0

VARIABLES pic,      \* the picture
          level,    \* index of the current level, behind the last one: done
          ework,    \* encoders of the level: [k, st, out] next cell, coder state, pieces
          dwork,    \* decoders of the level: [k, st, pos]
          dimg,     \* the image under reconstruction
          streams,  \* the streams of the current level (the encoders wrote them)
          phase     \* "enc" or "dec" of the level
vars == <<pic, level, ework, dwork, dimg, streams, phase>>

C == pic.c
S == Levels(C)[level]
N == BlockCount(C, S)
Geo(b) == BlockGeom(C, S, C.w, C.h, b - 1)
Scan(b) == Cells(Geo(b).x1 - Geo(b).x0, Geo(b).y1 - Geo(b).y0, S)
IsCh(b) == Chroma(C)[Geo(b).ch + 1]
Q(b) == ChannelQuality(C, IsCh(b))
EStart(p, s) == [b \in 1..BlockCount(p.c, s) |->
    LET g == BlockGeom(p.c, s, p.c.w, p.c.h, b - 1)
        ch == Chroma(p.c)[g.ch + 1]
    IN [k |-> 1, st |-> EncInit(p.c.encoder, ChannelQuality(p.c, ch), s),
        out |-> IF IsDc(p.c, g) THEN SCode(At(p.coefs, g, 0, 0), 4) ELSE <<>>]]

Init ==
    /\ pic \in Pictures
    /\ level = 1 /\ phase = "enc"
    /\ ework = EStart(pic, Levels(pic.c)[1])
    /\ dwork = <<>> /\ streams = <<>>
    /\ dimg = [i \in 1..Len(pic.coefs) |-> 0]

EncodeCell(b) ==
    /\ phase = "enc" /\ ework[b].k <= Len(Scan(b))
    /\ LET c == Scan(b)[ework[b].k]
           r == EncCell(pic.coefs, Geo(b), C.encoder, Q(b), IsCh(b), ework[b].st, c[1], c[2])
       IN ework' = [ework EXCEPT ![b] = [k |-> @.k + 1, st |-> r[1], out |-> @.out \o r[2]]]
    /\ UNCHANGED <<pic, level, dwork, dimg, streams, phase>>

\* all encoders of the level are done: their streams become visible
EncBarrier ==
    /\ phase = "enc" /\ \A b \in 1..N : ework[b].k > Len(Scan(b))
    /\ streams' = [b \in 1..N |-> PackBytes(ework[b].out \o EncFlush(ework[b].st))]
    /\ dwork' = [b \in 1..N |-> [k |-> 0, st |-> DecInit(C.encoder, Q(b), S), pos |-> 0]]
    /\ ework' = <<>> /\ phase' = "dec"
    /\ UNCHANGED <<pic, level, dimg>>

DecodeCell(b) ==
    /\ phase = "dec" /\ dwork[b].k <= Len(Scan(b)) /\ dwork[b].pos >= 0
    /\ LET g == Geo(b)
           src == Source(streams[b], 0, Len(streams[b]))
           w == dwork[b]
       IN IF w.k = 0
          THEN IF IsDc(C, g)
               THEN LET d == SDec(src, 0, 4)
                    IN dimg' = [dimg EXCEPT ![Idx(g, 0, 0)] = Wrap16(d[1])]
                       /\ dwork' = [dwork EXCEPT ![b] = [w EXCEPT !.k = 1, !.pos = d[2]]]
               ELSE dwork' = [dwork EXCEPT ![b].k = 1] /\ UNCHANGED dimg
          ELSE LET c == Scan(b)[w.k]
                   r == DecCell(dimg, g, C.encoder, Q(b), IsCh(b), w.st, src, w.pos, c[1], c[2])
               IN dimg' = [dimg EXCEPT ![Idx(g, c[1], c[2])] = r[2]]
                  /\ dwork' = [dwork EXCEPT ![b] = [k |-> w.k + 1, st |-> r[1], pos |-> r[3]]]
    /\ UNCHANGED <<pic, level, ework, streams, phase>>

DecBarrier ==
    /\ phase = "dec" /\ \A b \in 1..N : dwork[b].k > Len(Scan(b))
    /\ IF level = Len(Levels(C))
       THEN phase' = "done" /\ UNCHANGED <<level, ework>>
       ELSE phase' = "enc" /\ level' = level + 1 /\ ework' = EStart(pic, Levels(C)[level + 1])
    /\ dwork' = <<>> /\ streams' = <<>>
    /\ UNCHANGED <<pic, dimg>>

Next == (\E b \in 1..N : phase = "enc" /\ EncodeCell(b)) \/ EncBarrier
        \/ (\E b \in 1..N : phase = "dec" /\ DecodeCell(b)) \/ DecBarrier
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
\* the streams are those of the sequential definition
SameStreams == phase = "dec" /\ (\A b \in 1..N : dwork[b].k = 0) =>
    streams = LevelBlocks(C, Chroma(C), pic.coefs, S, Levels(C)[1])
NeverDry == phase = "dec" => \A b \in 1..N : dwork[b].pos >= 0
\* every coefficient of the reconstruction is right or still untouched
OnlyRight == \A i \in 1..Len(dimg) : dimg[i] = pic.coefs[i] \/ dimg[i] = 0
AllRight == phase = "done" => dimg = pic.coefs
\* two workers never touch the same coefficient in one level, and none reads what another writes
NoRaces == phase = "dec" /\ (\A b \in 1..N : dwork[b].k = 0) =>
    LET writes(b) == {Idx(Geo(b), Scan(b)[k][1], Scan(b)[k][2]) : k \in 1..Len(Scan(b))}
                     \cup (IF IsDc(C, Geo(b)) THEN {Idx(Geo(b), 0, 0)} ELSE {})
        reads(b) == UNION {{Idx(Geo(b), c[1], c[2]) : c \in ContextCells(Geo(b), Scan(b)[k][1], Scan(b)[k][2])} : k \in 1..Len(Scan(b))}
    IN \A a, b \in 1..N : a # b => writes(a) \cap (writes(b) \cup reads(b)) = {}
Finishes == <>(phase = "done")

P(w, h, layers, channels, bs, enc, q) ==
    [w |-> w, h |-> h, layers |-> layers, channels |-> channels, quality |-> q, cs |-> 2, bs |-> bs, filter |-> 0, encoder |-> enc]
Noise(n, a) == [i \in 1..n |-> LET v == Mod(i * i * 7 + i * a + a, 23) IN IF v > 14 THEN 0 ELSE IF Mod(v, 2) = 0 THEN v ELSE -3 * v]
\* block sizes below 2 do not occur in files; they give small blocks in a small model
Small == {[c |-> P(4, 2, 1, 1, 1, e, q), coefs |-> Noise(8, a)] : e \in {0, 1, 2}, q \in {40, 1024}, a \in {3, 5}}
         \cup {[c |-> P(2, 2, 1, 2, 2, e, 1024), coefs |-> Noise(8, 4)] : e \in {0, 1, 2}}
Larger == Small
          \cup {[c |-> P(4, 4, 1, 1, 1, e, q), coefs |-> Noise(16, a)] : e \in {0, 1, 2}, q \in {40, 1024}, a \in {3, 5}}
          \cup {[c |-> P(3, 2, 2, 1, 1, e, q), coefs |-> Noise(12, 6)] : e \in {0, 1, 2}, q \in {40, 1024}}
          \cup {[c |-> P(9, 5, 1, 1, 2, e, 100), coefs |-> Noise(45, 6)] : e \in {2}}
=============================================================================
