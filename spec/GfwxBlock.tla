------------------------------ MODULE GfwxBlock ------------------------------
(***************************************************************************)
(* The adaptive coder of one block at one level.  A block geometry is      *)
(*   g = [o, w, x0, y0, x1, y1, s]                                         *)
(* o: index of the channel's first coefficient minus one, w: row length,   *)
(* [x0,x1) x [y0,y1): the block, s: step of the level.                     *)
(*                                                                         *)
(* The coder state is <<run, rc, c0, c1>>: length of the open run, run     *)
(* coder parameter (0: no run coding) and the two context moments.         *)
(* EncCell and DecCell are the transitions for one coefficient.            *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE SequencesExt
LOCAL INSTANCE GfwxInt
LOCAL INSTANCE GfwxBits
LOCAL INSTANCE GfwxGolomb

Turbo == 0
Fast == 1
Contextual == 2

(* Cells of the level in scan order, relative to the block *)
Cells(sx, sy, s) ==
    LET row(y) == IF BitSet(y, s)
                  THEN [i \in 1..CeilDiv(sx, s) |-> <<(i - 1) * s, y>>]
                  ELSE [i \in 1..((CeilDiv(sx, s)) \div 2) |-> <<(2 * i - 1) * s, y>>]
    IN Flat([j \in 1..CeilDiv(sy, s) |-> row((j - 1) * s)])

At(img, g, x, y) == img[g.o + (g.y0 + y) * g.w + g.x0 + x + 1]
Idx(g, x, y) == g.o + (g.y0 + y) * g.w + g.x0 + x + 1

\* coordinate of the coarser cell that a cell at coordinate x looks up to
Ancestor(x, s, size) ==
    LET p == (IF BitSet(x, 2 * s) THEN x - 2 * s ELSE x) + (IF BitSet(x, s) THEN s ELSE 0)
    IN IF p >= size THEN p - 2 * s ELSE p

(* The set of cells (relative) the context of cell (x, y) is computed from *)
ContextCells(g, x, y) ==
    LET s == g.s
        sx == g.x1 - g.x0
        sy == g.y1 - g.y0
        px == Ancestor(x, s, sx)
        py == Ancestor(y, s, sy)
        xs == IF BitSet(x, s) THEN x ELSE x + s
        c1 == BitSet(y, s) /\ xs < sx
        n1 == y >= 2 * s /\ x >= 2 * s
        n3 == n1 /\ y >= 4 * s /\ x >= 4 * s
    IN {<<px, py>>}
       \cup (IF c1 THEN {<<xs, y - s>>} ELSE {})
       \cup (IF c1 /\ BitSet(x, s) THEN {<<x - s, y>>} ELSE {})
       \cup (IF n1 THEN {<<x, y - 2 * s>>, <<x - 2 * s, y>>, <<x - 2 * s, y - 2 * s>>} ELSE {})
       \cup (IF n1 /\ x + 2 * s < sx THEN {<<x + 2 * s, y - 2 * s>>} ELSE {})
       \cup (IF n3 THEN {<<x, y - 4 * s>>, <<x - 4 * s, y>>, <<x - 4 * s, y - 4 * s>>} ELSE {})
       \cup (IF n3 /\ x + 4 * s < sx THEN {<<x + 4 * s, y - 4 * s>>} ELSE {})

Sq4096(a) == IF a > 4096 THEN 16777216 ELSE a * a

\* floor(((16 * s2) mod 2^32 + cnt div 2) / cnt), s2 < 2^29
Moment2(s2, cnt) ==
    LET m == Mod(s2, 268435456)
    IN 16 * (m \div cnt) + (16 * Mod(m, cnt) + cnt \div 2) \div cnt

Context(img, g, x, y) ==
    LET s == g.s
        sx == g.x1 - g.x0
        sy == g.y1 - g.y0
        A(xx, yy) == AbsI(img[g.o + (g.y0 + yy) * g.w + g.x0 + xx + 1])
        xo == BitSet(x, s)
        px == Ancestor(x, s, sx)
        py == Ancestor(y, s, sy)
        xs == IF xo THEN x ELSE x + s
        c1 == BitSet(y, s) /\ xs < sx
        c2 == c1 /\ xo
        n1 == y >= 2 * s /\ x >= 2 * s
        n2 == n1 /\ x + 2 * s < sx
        n3 == n1 /\ y >= 4 * s /\ x >= 4 * s
        n4 == n3 /\ x + 4 * s < sx
        a == A(px, py)
        u == IF c1 THEN A(xs, y - s) ELSE 0
        l == IF c2 THEN A(x - s, y) ELSE 0
        p1 == IF n1 THEN A(x, y - 2 * s) ELSE 0
        p2 == IF n1 THEN A(x - 2 * s, y) ELSE 0
        p3 == IF n1 THEN A(x - 2 * s, y - 2 * s) ELSE 0
        p4 == IF n2 THEN A(x + 2 * s, y - 2 * s) ELSE 0
        q1 == IF n3 THEN A(x, y - 4 * s) ELSE 0
        q2 == IF n3 THEN A(x - 4 * s, y) ELSE 0
        q3 == IF n3 THEN A(x - 4 * s, y - 4 * s) ELSE 0
        q4 == IF n4 THEN A(x + 4 * s, y - 4 * s) ELSE 0
        cnt == 2 + (IF c1 THEN 2 ELSE 0) + (IF c2 THEN 2 ELSE 0) + (IF n1 THEN 10 ELSE 0)
                 + (IF n2 THEN 2 ELSE 0) + (IF n3 THEN 5 ELSE 0) + (IF n4 THEN 1 ELSE 0)
        sum == 2 * (a + u + l + p3 + p4 + q1 + q2) + 4 * (p1 + p2) + q3 + q4
        sum2 == 2 * (Sq4096(a) + Sq4096(u) + Sq4096(l) + Sq4096(p3) + Sq4096(p4) + Sq4096(q1) + Sq4096(q2))
                + 4 * (Sq4096(p1) + Sq4096(p2)) + Sq4096(q3) + Sq4096(q4)
    IN <<(16 * sum + cnt \div 2) \div cnt, Moment2(sum2, cnt)>>

(* c*c mod 2^32, cut off at 2^31 - 1: every threshold is smaller *)
SumSq(c) ==
    IF c <= 46340 THEN c * c
    ELSE LET a == c \div 65536
             b == Mod(c, 65536)
             b1 == b \div 256
             b0 == Mod(b, 256)
             t == 512 * b1 * b0 + b0 * b0
             hi == Mod(b1 * b1 + (t \div 65536) + 2 * a * b, 65536)
         IN IF hi >= 32768 THEN MaxInt ELSE hi * 65536 + Mod(t, 65536)

(* 2*c*c mod 2^32, cut off likewise *)
SumSq2(c) ==
    LET a == c \div 65536
        b == Mod(c, 65536)
        b1 == b \div 256
        b0 == Mod(b, 256)
        t == 512 * b1 * b0 + b0 * b0
        hi == Mod(b1 * b1 + (t \div 65536) + 2 * a * b, 65536)
        lo == Mod(t, 65536)
        h2 == Mod(2 * hi + (IF lo >= 32768 THEN 1 ELSE 0), 65536)
    IN IF h2 >= 32768 THEN MaxInt ELSE h2 * 65536 + Mod(2 * lo, 65536)

(* Code selection: <<kind, pot>> *)
Select(c0, c1, ch) ==
    LET ss == SumSq(c0)
    IN IF ss < 2 * c1 + (IF ch THEN 250 ELSE 100) THEN <<"i", 0>>
       ELSE IF ss < 2 * c1 + 950 THEN <<"i", 1>>
       ELSE IF ss < 3 * c1 + 3000 THEN IF ss < 5 * c1 + 400 THEN <<"s", 1>> ELSE <<"i", 2>>
       ELSE IF ss < 3 * c1 + 12000 THEN IF ss < 5 * c1 + 3000 THEN <<"s", 2>> ELSE <<"i", 3>>
       ELSE IF ss < 4 * c1 + 44000 THEN IF ss < 6 * c1 + 12000 THEN <<"s", 3>> ELSE <<"i", 4>>
       ELSE <<"s", 4>>

RunCoderCtx(c0, c1, q) ==
    IF q = 1024 THEN IF c0 < 2 THEN 1 ELSE 0
    ELSE IF c0 < 4 /\ c1 < 2 THEN 4
    ELSE IF c0 < 8 /\ c1 < 4 THEN 3
    ELSE LET d == SumSq2(c0)
         IN IF d < 3 * c1 + 48 THEN 2 ELSE IF d < 5 * c1 + 32 THEN 1 ELSE 0

RunCoderFast(c0) == IF c0 < 1 THEN 4 ELSE IF c0 < 2 THEN 3 ELSE IF c0 < 4 THEN 2 ELSE IF c0 < 8 THEN 1 ELSE 0

\* floor((15 c + 7) / 16)
Decay(c) == c + ((7 - c) \div 16)

InitRC(enc, q, s) == IF enc = Turbo /\ (q = 0 \/ (s < 2048 /\ q * s < 2048)) THEN 1 ELSE 0

\* moments and run coder after coding the value v (before the sign shift is undone)
AfterFast(st, v) ==
    LET t == AbsI(v)
        c0 == Decay(st[3]) + t
        c1 == Decay(st[4]) + Sq4096(t)
    IN <<IF (v = 0) = (st[2] = 0) THEN RunCoderFast(c0) ELSE st[2], c0, c1>>
AfterCtx(st, c, v, q) ==
    <<IF (v = 0) = (st[2] = 0) THEN RunCoderCtx(c[1], c[2], q) ELSE st[2], 0, 0>>

-----------------------------------------------------------------------------
(* Encoder *)
EncInit(enc, q, s) == <<0, InitRC(enc, q, s), 0, 0>>

\* <<new state, emitted pieces>>
EncCell(img, g, enc, q, ch, st, x, y) ==
    LET v == At(img, g, x, y)
        rc == st[2]
    IN IF rc # 0 /\ v = 0
       THEN <<<<st[1] + 1, rc, st[3], st[4]>>, <<>> >>
       ELSE LET vs == IF rc # 0 /\ v < 0 THEN v + 1 ELSE v
                pre == IF rc # 0 THEN UCode(st[1], rc) ELSE <<>>
            IN IF enc = Turbo
               THEN <<<<0, rc, 0, 0>>, pre \o ICode(vs, 1)>>
               ELSE LET c == IF enc = Contextual THEN Context(img, g, x, y) ELSE <<st[3], st[4]>>
                        k == Select(c[1], c[2], ch)
                        a == IF enc = Fast THEN AfterFast(st, vs) ELSE AfterCtx(st, c, vs, q)
                    IN <<<<0, a[1], a[2], a[3]>>, pre \o Code(k[1], vs, k[2])>>

EncFlush(st) == IF st[1] # 0 THEN UCode(st[1], st[2]) ELSE <<>>

EncBlockPieces(img, g, enc, q, dc, ch) ==
    LET first == IF dc /\ g.x1 > g.x0 /\ g.y1 > g.y0 THEN SCode(At(img, g, 0, 0), 4) ELSE <<>>
        step(acc, c) ==
            LET r == EncCell(img, g, enc, q, ch, acc[1], c[1], c[2])
            IN <<r[1], IF r[2] = <<>> THEN acc[2] ELSE acc[2] \o r[2]>>
        st == FoldLeft(step, <<EncInit(enc, q, g.s), first>>, Cells(g.x1 - g.x0, g.y1 - g.y0, g.s))
    IN st[2] \o EncFlush(st[1])

EncBlock(img, g, enc, q, dc, ch) == PackBytes(EncBlockPieces(img, g, enc, q, dc, ch))

-----------------------------------------------------------------------------
(* Decoder: run is -1 when no run is open *)
DecInit(enc, q, s) == <<-1, InitRC(enc, q, s), 0, 0>>

\* <<new state, decoded value, new position>>; position -1 on a dry source
DecCell(img, g, enc, q, ch, st, src, p, x, y) ==
    LET opened == st[2] # 0 /\ st[1] = -1
        r == IF opened THEN UDec(src, p, st[2]) ELSE <<st[1], p>>
        run == r[1]
    IN IF r[2] < 0 THEN <<st, 0, -1>>
       ELSE IF run > 0
       THEN <<<<run - 1, st[2], st[3], st[4]>>, 0, r[2]>>
       ELSE LET fix(v) == IF run = 0 /\ v <= 0 THEN v - 1 ELSE v
            IN IF enc = Turbo
               THEN LET d == IDec(src, r[2], 1)
                    IN <<<<-1, st[2], 0, 0>>, Wrap16(fix(d[1])), d[2]>>
               ELSE LET c == IF enc = Contextual THEN Context(img, g, x, y) ELSE <<st[3], st[4]>>
                        k == Select(c[1], c[2], ch)
                        d == Dec(k[1], src, r[2], k[2])
                        a == IF enc = Fast THEN AfterFast(st, d[1]) ELSE AfterCtx(st, c, d[1], q)
                    IN <<<<-1, a[1], a[2], a[3]>>, Wrap16(fix(d[1])), d[2]>>

\* <<image, position, state>>
DecBlockFrom(img, g, enc, q, dc, ch, src, p0) ==
    LET d0 == IF dc /\ g.x1 > g.x0 /\ g.y1 > g.y0 THEN SDec(src, p0, 4) ELSE <<0, p0>>
        i0 == IF dc /\ g.x1 > g.x0 /\ g.y1 > g.y0 /\ d0[2] >= 0
              THEN [img EXCEPT ![Idx(g, 0, 0)] = Wrap16(d0[1])] ELSE img
        step(acc, c) ==
            IF acc[2] < 0 THEN acc
            ELSE LET r == DecCell(acc[1], g, enc, q, ch, acc[3], src, acc[2], c[1], c[2])
                 IN IF r[3] < 0 THEN <<acc[1], -1, acc[3]>>
                    ELSE <<IF acc[1][Idx(g, c[1], c[2])] = r[2] THEN acc[1]
                           ELSE [acc[1] EXCEPT ![Idx(g, c[1], c[2])] = r[2]], r[3], r[1]>>
    IN FoldLeft(step, <<i0, d0[2], DecInit(enc, q, g.s)>>, Cells(g.x1 - g.x0, g.y1 - g.y0, g.s))

DecBlock(img, g, enc, q, dc, ch, src) == DecBlockFrom(img, g, enc, q, dc, ch, src, 0)

\* block k, from 0, of a level v = [w, h, n, edge, s, enc] of a planar image: channel after channel, row after row
BlockAt(v, k) ==
    LET nx == CeilDiv(v.w, v.edge)
        ny == CeilDiv(v.h, v.edge)
        x0 == Mod(k, nx) * v.edge
        y0 == Mod(k \div nx, ny) * v.edge
        c == k \div (nx * ny)
    IN [o |-> c * v.w * v.h, w |-> v.w, x0 |-> x0, y0 |-> y0,
        x1 |-> MinI(x0 + v.edge, v.w), y1 |-> MinI(y0 + v.edge, v.h), s |-> v.s, ch |-> c]
=============================================================================
