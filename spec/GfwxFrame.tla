------------------------------ MODULE GfwxFrame ------------------------------
(***************************************************************************)
(* The level and block structure of a compressed image.                    *)
(* A parameter record c describes an image:                                *)
(*   [w, h, layers, channels, quality, cs, bs, filter, encoder]            *)
(* coefs is planar, one channel behind the other.                          *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE SequencesExt
LOCAL INSTANCE TLC
LOCAL INSTANCE GfwxInt
LOCAL INSTANCE GfwxBits
LOCAL INSTANCE GfwxGolomb
LOCAL INSTANCE GfwxBlock
LOCAL INSTANCE GfwxWavelet
LOCAL INSTANCE GfwxHeader

RECURSIVE TopStepFrom(_, _)
TopStepFrom(s, n) == IF 2 * s < n THEN TopStepFrom(2 * s, n) ELSE s
TopStep(w, h) == TopStepFrom(1, MaxI(w, h))
RECURSIVE StepsDownTo(_, _)
StepsDownTo(s, m) == IF s < m THEN <<>> ELSE <<s>> \o StepsDownTo(s \div 2, m)

NChan(c) == c.layers * c.channels
\* block edge of a level, cut off at the image so that it stays small
BlockEdge(c, s, w, h) ==
    LET m == 2 * MaxI(w, h)
        RECURSIVE Dbl(_, _)
        Dbl(v, k) == IF k = 0 \/ v >= m THEN v ELSE Dbl(2 * v, k - 1)
    IN Dbl(s, c.bs)
BlocksX(c, s) == CeilDiv(c.w, BlockEdge(c, s, c.w, c.h))
BlocksY(c, s) == CeilDiv(c.h, BlockEdge(c, s, c.w, c.h))
BlockCount(c, s) == BlocksX(c, s) * BlocksY(c, s) * NChan(c)

(* Geometry of block k (from 0) at step s of an image of size w x h (the   *)
(* full or the downsampled one): channel, then rows, then columns          *)
BlockGeom(c, s, w, h, k) ==
    LET e == BlockEdge(c, s, w, h)
        nx == CeilDiv(w, e)
        ny == CeilDiv(h, e)
        x0 == Mod(k, nx) * e
        y0 == Mod(k \div nx, ny) * e
        ch == k \div (nx * ny)
    IN [o |-> ch * w * h, w |-> w, x0 |-> x0, y0 |-> y0,
        x1 |-> MinI(x0 + e, w), y1 |-> MinI(y0 + e, h), s |-> s, ch |-> ch]

ChannelQuality(c, isch) == IF isch THEN ChromaQuality(c.quality, c.cs) ELSE c.quality

(* Encoding *************************************************************)
\* blocks of one level: sequence of byte sequences
LevelBlocks(c, chroma, coefs, s, top) ==
    [k \in 1..BlockCount(c, s) |->
        LET g == BlockGeom(c, s, c.w, c.h, k - 1)
            isch == chroma[g.ch + 1]
        IN EncBlock(coefs, g, c.encoder, ChannelQuality(c, isch),
                    s = top /\ g.x0 = 0 /\ g.y0 = 0, isch)]

LevelBytes(blocks) ==
    Flat([k \in 1..Len(blocks) |-> U32Le(U32OfInt(Len(blocks[k]) \div 4))])
    \o Flat(blocks)

\* the levels, coarsest first
EncodeLevels(c, chroma, coefs) ==
    LET S == StepsDownTo(TopStep(c.w, c.h), 1)
    IN TLCEval([j \in 1..Len(S) |-> TLCEval(LevelBlocks(c, chroma, coefs, S[j], S[1]))])

FrameBytes(levels) == Flat([j \in 1..Len(levels) |-> LevelBytes(levels[j])])

(* Room: dividing the space that is left behind a level's table evenly     *)
(* among its blocks must leave at least a byte, and room for each block    *)
RECURSIVE FitsFrom(_, _, _, _)
FitsFrom(levels, j, used, cap) ==
    IF j > Len(levels) THEN TRUE
    ELSE LET n == Len(levels[j])
             free == cap - used - 4 * n
             share == free \div n
             total == FoldLeft(LAMBDA a, b : a + Len(b), 0, levels[j])
         IN /\ free >= n
            /\ \A k \in 1..n : Len(levels[j][k]) <= share
            /\ FitsFrom(levels, j + 1, used + 4 * n + total, cap)
Fits(levels, cap) == FitsFrom(levels, 1, 0, cap)

(* Decoding *************************************************************)
U32At(bytes, k) == <<bytes[k + 3] + 256 * bytes[k + 4], bytes[k + 1] + 256 * bytes[k + 2]>>

(* Decoding bytes[off+1 .. off+len], an honest prefix of a frame: result   *)
(*   [coefs, res, lost]; res is <<"ok", 0>>, <<"poi", n>> or <<"underflow">> *)
(* lost: the coefficients of damaged blocks, which may hold anything       *)
OwnCells(g, dc) ==
    LET cs == Cells(g.x1 - g.x0, g.y1 - g.y0, g.s)
    IN {Idx(g, cs[k][1], cs[k][2]) : k \in 1..Len(cs)}
       \cup (IF dc /\ g.x0 = 0 /\ g.y0 = 0 THEN {Idx(g, 0, 0)} ELSE {})
\* q * 2^d as far as the Turbo coder can tell: nothing from 2048 on makes a difference to it
FullQ(q, d) == MinI(q * P2(MinI(d, 11)), 2048)

DecodeFrame(c, chroma, bytes, off, len, d, test) ==
    LET wd == Down(c.w, d)
        hd == Down(c.h, d)
        S == StepsDownTo(TopStep(c.w, c.h), P2(d))
        init == [coefs |-> TLCEval([i \in 1..(wd * hd * NChan(c)) |-> 0]),
                 pos |-> 0, res |-> <<"ok", 0>>, poi |-> len + 1024, stop |-> FALSE, lost |-> {}]
        level(st, s) ==
            LET n == BlockCount(c, s)
                table == 4 * n
                left == len - st.pos
            IN IF st.stop THEN st
               ELSE IF left < 0 THEN [st EXCEPT !.stop = TRUE, !.res = <<"underflow">>]
               ELSE IF left <= table
               THEN [st EXCEPT !.stop = TRUE, !.res = <<"poi", MaxI(st.poi, st.pos + table + 4)>>]
               ELSE LET sizes == TLCEval([k \in 1..n |->
                                    LET u == U32At(bytes, off + st.pos + 4 * (k - 1))
                                    IN IF u[1] >= 1024 THEN 268435456 ELSE 4 * (u[1] * 65536 + u[2])])
                        starts == TLCEval(LET F[k \in 0..n] == IF k = 0 THEN 0 ELSE F[k - 1] + sizes[k]
                                          IN [k \in 0..n |-> F[k]])
                        sum == starts[n]
                        body == left - table
                        sd == s \div P2(d)
                        poi == st.pos + table + sum + (IF sd > 1 THEN 4 * table ELSE 0)
                        block(acc, k) ==
                            \* (nor are empty blocks at the very end of the data, which no encoder makes of coefficients)
                            IF starts[k] > body \/ starts[k - 1] >= body THEN acc
                            ELSE LET g == BlockGeom(c, sd, wd, hd, k - 1)
                                     isch == chroma[g.ch + 1]
                                     q == ChannelQuality(c, isch)
                                     r == DecBlock(acc[1], g, c.encoder,
                                                   IF c.encoder = Turbo THEN FullQ(q, d) ELSE q,
                                                   s = S[1] /\ g.x0 = 0 /\ g.y0 = 0, isch,
                                                   Source(bytes, off + st.pos + table + starts[k - 1], sizes[k]))
                                 IN <<r[1], IF r[2] < 0 THEN acc[2] \cup OwnCells(g, s = S[1]) ELSE acc[2]>>
                        \* a damaged block does not keep the others of its level from being decoded
                        dec == IF test THEN <<st.coefs, {}>>
                               ELSE FoldLeft(block, <<st.coefs, {}>>, [k \in 1..n |-> k])
                    IN IF dec[2] # {} THEN [st EXCEPT !.stop = TRUE, !.res = <<"underflow">>, !.coefs = dec[1], !.lost = dec[2]]
                       ELSE [coefs |-> dec[1], pos |-> st.pos + table + sum, poi |-> poi, stop |-> FALSE, lost |-> {},
                             res |-> IF sum <= body THEN <<"ok", 0>> ELSE <<"poi", poi>>]
        fin == FoldLeft(level, init, S)
    IN [coefs |-> fin.coefs, res |-> fin.res, lost |-> fin.lost]

(* Coefficients <-> samples of the channels *******************************)
MaxQ(c) == QualityMax * Boost(c.quality)

Channel(aux, size, k) == TLCEval([i \in 1..size |-> aux[(k - 1) * size + i]])
PerChannel(aux, n, size, F(_, _)) == Flat([k \in 1..n |-> TLCEval(F(Channel(aux, size, k), k))])

LiftAll(c, aux) == PerChannel(aux, NChan(c), c.w * c.h, LAMBDA p, k : Lift(p, c.w, c.h, c.filter))
QuantizeAll(c, chroma, aux) ==
    PerChannel(aux, NChan(c), c.w * c.h,
        LAMBDA p, k : Quantize(p, c.w, c.h, ChannelQuality(c, chroma[k]), 0, MaxQ(c)))
DequantizeAll(c, chroma, aux, d) ==
    PerChannel(aux, NChan(c), Down(c.w, d) * Down(c.h, d),
        LAMBDA p, k : Dequantize(p, Down(c.w, d), Down(c.h, d), ChannelQuality(c, chroma[k]) * P2(d), 0, MaxQ(c)))
UnliftAll(c, aux, d) ==
    PerChannel(aux, NChan(c), Down(c.w, d) * Down(c.h, d),
        LAMBDA p, k : Unlift(p, Down(c.w, d), Down(c.h, d), c.filter))
=============================================================================
