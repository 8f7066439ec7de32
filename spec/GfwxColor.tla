------------------------------ MODULE GfwxColor ------------------------------
(***************************************************************************)
(* Color transform programs.  A program is a sequence of transforms        *)
(*   [dest |-> c, factors |-> << <<src, factor>>, ... >>, denom |-> d,      *)
(*    chroma |-> BOOLEAN]                                                  *)
(* with channel numbers from 0.  Images: interleaved per layer or planar.  *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE SequencesExt
LOCAL INSTANCE TLC
LOCAL INSTANCE GfwxInt
LOCAL INSTANCE GfwxBits
LOCAL INSTANCE GfwxGolomb

(* Serialization ********************************************************)
TransformPieces(t) ==
    SCode(t.dest, 2)
    \o Flat([i \in 1..Len(t.factors) |-> SCode(t.factors[i][1], 2) \o SCode(t.factors[i][2], 2)])
    \o SCode(-1, 2) \o SCode(t.denom, 2) \o SCode(IF t.chroma THEN 1 ELSE 0, 2)

ProgramPieces(prog) ==
    Flat([i \in 1..Len(prog) |-> TransformPieces(prog[i])]) \o SCode(-1, 2)

EncodeProgram(prog) == PackBytes(ProgramPieces(prog))

\* every channel is transformed at most once and never a source of itself
Reversible(prog) ==
    /\ \A i, j \in 1..Len(prog) : prog[i].dest = prog[j].dest => i = j
    /\ \A i \in 1..Len(prog) : \A k \in 1..Len(prog[i].factors) : prog[i].factors[k][1] # prog[i].dest

\* the last transform of a channel decides
ChromaFlags(prog, n) ==
    [c \in 1..n |->
        LET I == {i \in 1..Len(prog) : prog[i].dest = c - 1}
        IN IF I = {} THEN FALSE ELSE prog[CHOOSE i \in I : \A j \in I : j <= i].chroma]

(* decoding from a source: [ok, prog, bytes] where bytes is the number of  *)
(* bytes of whole words consumed; n: number of channels                    *)
\* numbers of 32 bits
SDecI(src, p, pot) ==
    LET r == SDecW(src, p, pot)
    IN IF r[2] < 0 \/ r[1] = Meaningless THEN Failed ELSE <<I32(r[1]), r[2]>>
RECURSIVE DecFactors(_, _, _, _), DecTransforms(_, _, _, _)
DecFactors(src, p, n, acc) ==
    LET c == SDecI(src, p, 2)
    IN IF c[2] < 0 \/ c[1] >= n THEN <<FALSE, acc, p>>
       ELSE IF c[1] < 0 THEN <<TRUE, acc, c[2]>>
       ELSE LET f == SDecI(src, c[2], 2)
            IN IF f[2] < 0 THEN <<FALSE, acc, p>> ELSE DecFactors(src, f[2], n, Append(acc, <<c[1], f[1]>>))
DecTransforms(src, p, n, acc) ==
    LET c == SDecI(src, p, 2)
    IN IF c[2] < 0 \/ c[1] >= n THEN [ok |-> FALSE, prog |-> acc, bytes |-> 0]
       ELSE IF c[1] < 0 THEN [ok |-> TRUE, prog |-> acc, bytes |-> 4 * CeilDiv(c[2], 32)]
       ELSE LET fs == DecFactors(src, c[2], n, <<>>)
                dn == IF fs[1] THEN SDecI(src, fs[3], 2) ELSE Failed
                ch == SDecI(src, dn[2], 2)
            IN IF ~fs[1] \/ dn[2] < 0 \/ dn[1] <= 0 \/ dn[1] > 32767 \/ ch[2] < 0
               THEN [ok |-> FALSE, prog |-> acc, bytes |-> 0]
               ELSE DecTransforms(src, ch[2], n,
                        Append(acc, [dest |-> c[1], factors |-> fs[2], denom |-> dn[1], chroma |-> ch[1] # 0]))
DecodeProgram(bytes, off, len, n) == DecTransforms(Source(bytes, off, len), 0, n, <<>>)

(* Sample order *********************************************************)
\* 1-based index of sample i (from 0) of channel c in an interleaved image of layers with ch channels
Inter(c, ch, size, i) == (c \div ch) * size * ch + Mod(c, ch) + i * ch + 1
Planar(c, size, i) == c * size + i + 1

(* The transform ********************************************************)
\* 2, 4 and 8 divide by an arithmetic shift
Div(v, d) == IF d \in {2, 4, 8} THEN v \div d ELSE IF d = 1 THEN v ELSE TDiv(v, d)
MulW(a, b) == Wrap16(Wrap16(a) * Wrap16(b))

(* planes: function 0..n-1 -> plane, or <<>> for a plane not yet written   *)
(* Raw(c): the boosted input plane of channel c                            *)
TermPlane(factors, denom, start, size, P(_, _)) ==
    TLCEval([i \in 1..size |->
        Div(FoldLeft(LAMBDA a, f : Wrap16(a + MulW(P(f[1], i), f[2])), start[i], factors), denom)])

ApplyTransform(planes, t, size, Raw(_, _)) ==
    LET P(c, i) == IF planes[c] = <<>> THEN Raw(c, i) ELSE planes[c][i]
        start == IF planes[t.dest] = <<>> THEN [i \in 1..size |-> 0] ELSE planes[t.dest]
        term == TermPlane(t.factors, t.denom, start, size, P)
    IN [planes EXCEPT ![t.dest] = TLCEval([i \in 1..size |-> Wrap16(term[i] + Raw(t.dest, i))])]

\* aux: planar, all channels
Transform(prog, n, size, Raw(_, _)) ==
    LET p0 == [c \in 0..(n - 1) |-> <<>>]
        p1 == FoldLeft(LAMBDA p, t : ApplyTransform(p, t, size, Raw), p0, prog)
    IN TLCEval(Flat([k \in 1..n |->
           IF p1[k - 1] = <<>> THEN [i \in 1..size |-> Raw(k - 1, i)] ELSE p1[k - 1]]))

TransformInterleaved(prog, img, layers, ch, size, boost) ==
    Transform(prog, layers * ch, size, LAMBDA c, i : img[Inter(c, ch, size, i - 1)] * boost)
TransformPlanar(prog, img, layers, ch, size, boost) ==
    Transform(prog, layers * ch, size, LAMBDA c, i : img[Planar(c, size, i - 1)] * boost)

UndoTransform(planes, t, size) ==
    LET term == TermPlane(t.factors, t.denom, [i \in 1..size |-> 0], size, LAMBDA c, i : planes[c][i])
    IN [planes EXCEPT ![t.dest] = TLCEval([i \in 1..size |-> Wrap16(planes[t.dest][i] - term[i])])]

\* the planes of all channels, still boosted
Detransform(prog, aux, n, size) ==
    LET p0 == [c \in 0..(n - 1) |-> TLCEval([i \in 1..size |-> aux[c * size + i]])]
    IN FoldRight(LAMBDA t, p : UndoTransform(p, t, size), prog, TLCEval(p0))

ToSample(v, boost) == Clamp8(TDiv(v, boost))

DetransformInterleaved(prog, aux, layers, ch, size, boost) ==
    LET p == Detransform(prog, aux, layers * ch, size)
    IN TLCEval([k \in 1..(layers * ch * size) |->
          LET lay == (k - 1) \div (size * ch)
              r == Mod(k - 1, size * ch)
          IN ToSample(p[lay * ch + Mod(r, ch)][(r \div ch) + 1], boost)])
DetransformPlanar(prog, aux, layers, ch, size, boost) ==
    LET p == Detransform(prog, aux, layers * ch, size)
    IN TLCEval([k \in 1..(layers * ch * size) |-> ToSample(p[(k - 1) \div size][Mod(k - 1, size) + 1], boost)])

(* The programs that come with the library ******************************)
Tr(dest, factors, denom, chroma) == [dest |-> dest, factors |-> factors, denom |-> denom, chroma |-> chroma]
Preset(name) ==
    CASE name = "yuv444_to_yuv444" -> <<Tr(1, <<>>, 1, TRUE), Tr(2, <<>>, 1, TRUE)>>
      \* R -= G; B -= G; G += (R + B) / 4
      [] name = "rgb_to_yuv" -> <<Tr(0, << <<1, -1>> >>, 1, TRUE), Tr(2, << <<1, -1>> >>, 1, TRUE),
                                  Tr(1, << <<0, 1>>, <<2, 1>> >>, 4, FALSE)>>
      \* R -= G; B -= (2 G + R) / 2; G += (2 B + 3 R) / 8
      [] name = "bgr_to_a710" -> <<Tr(2, << <<1, -1>> >>, 1, TRUE), Tr(0, << <<1, -2>>, <<2, -1>> >>, 2, TRUE),
                                   Tr(1, << <<0, 2>>, <<2, 3>> >>, 8, FALSE)>>
      [] name = "rgb_to_a710" -> <<Tr(0, << <<1, -1>> >>, 1, TRUE), Tr(2, << <<1, -2>>, <<0, -1>> >>, 2, TRUE),
                                   Tr(1, << <<2, 2>>, <<0, 3>> >>, 8, FALSE)>>

\* does the program change the values of this channel
Changes(prog, c) == \E i \in 1..Len(prog) : prog[i].dest = c /\ (prog[i].denom > 1 \/ prog[i].factors # <<>>)

(* Interleaved <-> planar with skipped channels ***************************)
Kept(ch, skip) == SelectSeq([c \in 1..ch |-> c - 1], LAMBDA c : c \notin skip)
\* planes of the channels that are kept, boosted; what lies behind stays as it was
ToPlanar(img, ch, boost, skip, old) ==
    LET size == Len(img) \div ch
        K == Kept(ch, skip)
    IN [k \in 1..Len(old) |->
          IF k <= Len(K) * size
          THEN Wrap16(img[Inter(K[((k - 1) \div size) + 1], ch, size, Mod(k - 1, size))] * boost)
          ELSE old[k]]
ToInterleaved(planes, ch, boost, skip, old) ==
    LET size == Len(old) \div ch
        K == Kept(ch, skip)
    IN [k \in 1..Len(old) |->
          LET c == Mod(k - 1, ch)
              i == (k - 1) \div ch
              pos == CHOOSE j \in 1..(Len(K) + 1) : j = Len(K) + 1 \/ K[j] = c
          IN IF c \in skip \/ i >= size THEN old[k]
             ELSE ToSample(planes[((CHOOSE j \in 1..Len(K) : K[j] = c) - 1) * size + i + 1], boost)]
=============================================================================
