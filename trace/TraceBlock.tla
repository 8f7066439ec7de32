----------------------------- MODULE TraceBlock -----------------------------
(***************************************************************************)
(* E02, S02.  A level of an image and its blocks: blocks are encoded and   *)
(* decoded one by one, or all of them in some interleaving.                *)
(* Level: v = [w, h, n, edge, s, enc]: size, number of channels, edge of a *)
(* block, step, encoder.                                                   *)
(***************************************************************************)
EXTENDS TraceBase, GfwxInt, GfwxBits, GfwxBlock, SequencesExt

VARIABLES i, st

Init == i = 1 /\ st = [img |-> <<>>, v |-> <<>>]

Geom(v, k) == BlockAt(v, k)
Count(v) == CeilDiv(v.w, v.edge) * CeilDiv(v.h, v.edge) * v.n

Level(e) ==
    /\ e.ev = "level"
    /\ st' = [img |-> e.img, v |-> e.v]

\* the cells a block owns at its level, as indices of the image
Own(g, dc) ==
    LET cs == Cells(g.x1 - g.x0, g.y1 - g.y0, g.s)
    IN {Idx(g, cs[k][1], cs[k][2]) : k \in 1..Len(cs)} \cup (IF dc THEN {Idx(g, 0, 0)} ELSE {})

Enc(e) ==
    /\ e.ev = "enc"
    /\ Same(e.res, <<"ok">>, "result")
    /\ SameSeq(e.bytes, EncBlock(st.img, TLCEval(Geom(st.v, e.k)), st.v.enc, e.q, e.dc, e.ch), "bytes")
    /\ UNCHANGED st

\* honest: the bytes are the encoding of this block of the level's image, and the start
\* image has the same coarser coefficients
Dec(e) ==
    /\ e.ev = "dec"
    /\ Holds(
       LET g == TLCEval(Geom(st.v, e.k))
           src == TLCEval(Source(e.bytes, 0, Len(e.bytes)))
           r == TLCEval(DecBlock(e.start, g, st.v.enc, e.q, e.dc, e.ch, src))
           own == TLCEval(Own(g, e.dc))
           restored == [j \in 1..Len(e.start) |-> IF j \in own THEN st.img[j] ELSE e.start[j]]
       IN IF r[2] < 0
          THEN /\ Same(e.res, <<"err">>, "result")
               /\ ~e.honest
               /\ \A j \in 1..Len(e.start) : IF j \in own THEN TRUE ELSE Same(e.img[j], e.start[j], <<"foreign cell", j>>)
          ELSE /\ Same(e.res, <<"ok">>, "result")
               /\ SameSeq(e.img, r[1], "decoded")
               /\ Same(e.words, CeilDiv(r[2], 32), "words")
               /\ IF e.honest THEN SameSeq(e.img, restored, "restored") /\ Same(e.words, Len(e.bytes) \div 4, "all bits") ELSE TRUE)
    /\ UNCHANGED st

\* levels of millions of columns or rows: only the cells that are not zero are listed, as <<cell, value>>
Vast(e) ==
    /\ e.ev = "vast"
    /\ st' = [img |-> e.cells, v |-> e.v]

Sparse(cells) == LET at == {cells[k][1] : k \in 1..Len(cells)}
                 IN [j \in at |-> cells[CHOOSE k \in 1..Len(cells) : cells[k][1] = j][2]]
Full(cells, n) == LET m == TLCEval(Sparse(cells)) IN [j \in 1..n |-> IF j - 1 \in DOMAIN m THEN m[j - 1] ELSE 0]

VastEnc(e) ==
    /\ e.ev = "vastenc"
    /\ Same(e.res, <<"ok">>, "result")
    /\ SameSeq(e.bytes, EncBlock(Full(st.img, st.v.w * st.v.h * st.v.n), TLCEval(Geom(st.v, e.k)), st.v.enc, e.q, e.dc, e.ch), "bytes")
    /\ UNCHANGED st

\* the decoder starts with the cells of other levels and blocks only
VastDec(e) ==
    /\ e.ev = "vastdec"
    /\ Same(e.res, <<"ok">>, "result")
    /\ Holds(
       LET g == TLCEval(Geom(st.v, e.k))
           own == TLCEval(Own(g, e.dc))
           src == TLCEval(Source(e.bytes, 0, Len(e.bytes)))
           r == DecBlock(Full(e.start, st.v.w * st.v.h * st.v.n), g, st.v.enc, e.q, e.dc, e.ch, src)
           want == TLCEval(Sparse(st.img))
           got == TLCEval(Sparse(e.cells))
           before == TLCEval(Sparse(e.start))
           val(m, j) == IF j \in DOMAIN m THEN m[j] ELSE 0
       IN /\ r[2] >= 0
          /\ Same(e.words, CeilDiv(r[2], 32), "words")
          /\ \A j \in own : Same(val(got, j - 1), val(want, j - 1), <<"cell", j - 1>>) /\ r[1][j] = val(want, j - 1)
          /\ \A j \in DOMAIN got \cup DOMAIN before :
                IF j + 1 \in own THEN TRUE ELSE Same(val(got, j), val(before, j), <<"foreign cell", j>>))
    /\ UNCHANGED st

\* all blocks of the level: per block quality, dc and chroma in e.q, e.dc, e.ch; the order does not matter
EncAll(e) ==
    /\ e.ev = "encall"
    /\ Len(e.blocks) = Count(st.v)
    /\ Holds(\A k \in 1..Len(e.blocks) :
          SameSeq(e.blocks[k],
              EncBlock(st.img, TLCEval(Geom(st.v, k - 1)), st.v.enc, e.q[k], e.dc[k], e.ch[k]), <<"block", k - 1>>))
    /\ UNCHANGED st

\* a missing block is an empty sequence with present FALSE
DecAll(e) ==
    /\ e.ev = "decall"
    /\ Holds(
       LET one(k, start) ==
               TLCEval(DecBlock(start, TLCEval(Geom(st.v, k - 1)), st.v.enc, e.q[k], e.dc[k], e.ch[k],
                                TLCEval(Source(e.blocks[k], 0, Len(e.blocks[k])))))
           \* every block alone, from the start image
           alone == TLCEval([k \in 1..Len(e.blocks) |->
                       IF e.present[k] THEN one(k, e.start) ELSE <<e.start, 0>>])
           own == TLCEval([k \in 1..Len(e.blocks) |-> Own(Geom(st.v, k - 1), e.dc[k])])
           owner == TLCEval([j \in 1..Len(e.start) |->
                       LET O == {k \in 1..Len(e.blocks) : j \in own[k]}
                       IN IF O = {} THEN 0 ELSE CHOOSE k \in O : TRUE])
           cells == TLCEval(\A j \in 1..Len(e.start) :
                LET k == owner[j]
                IN IF k = 0 THEN Same(e.img[j], e.start[j], <<"nobody's", j>>)
                   ELSE IF alone[k][2] < 0 THEN TRUE
                   ELSE Same(e.img[j], alone[k][1][j], <<"cell", j, "of block", k - 1>>))
       IN /\ \A k \in 1..Len(e.blocks) :
                Same(e.res[k], IF alone[k][2] < 0 THEN "err" ELSE "ok", <<"result", k - 1>>)
          /\ cells)
    /\ UNCHANGED st

Next == i <= Len(Log) /\ i' = i + 1
        /\ LET e == Log[i] IN Level(e) \/ Vast(e) \/ VastEnc(e) \/ VastDec(e) \/ Enc(e) \/ Dec(e) \/ EncAll(e) \/ DecAll(e)
Spec == Init /\ [][Next]_<<i, st>>
=============================================================================
