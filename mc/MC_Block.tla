------------------------------ MODULE MC_Block ------------------------------
(***************************************************************************)
(* E02 on the specification.  An environment chooses the coefficients of   *)
(* one block while the encoder codes them one by one; then a decoder that  *)
(* holds nothing but the coarser coefficients decodes the stream.  The     *)
(* image is a row longer and wider than the block, filled with marks that  *)
(* must survive.                                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, GfwxInt, GfwxBits, GfwxGolomb, GfwxBlock

CONSTANTS Shapes,    \* <<width, height, step>> of the block
          Values,    \* values of coefficients of the level
          Coarse,    \* values of the coarser ones (all the same)
          Encoders, Qualities

\* sets for the configurations, which know neither tuples nor negative numbers
SmallShapes == {<<2, 2, 1>>, <<1, 4, 1>>, <<4, 3, 2>>}
MoreShapes == {<<2, 2, 1>>, <<3, 2, 1>>, <<2, 3, 1>>, <<1, 8, 1>>, <<6, 1, 1>>, <<4, 3, 2>>, <<7, 5, 4>>}
LargeShapes == {<<6, 6, 1>>, <<9, 5, 1>>, <<5, 7, 1>>, <<12, 11, 2>>, <<17, 3, 1>>, <<2, 16, 1>>}
SmallValues == {-30, -1, 0, 1, 4}
SmallCoarse == {-9, 0}
WideValues == {-32767, -5000, -300, -41, -12, -3, -1, 0, 1, 2, 7, 30, 100, 2000, 32767}
SparseValues == {-32000, -2, -1, 0, 1, 3, 9}

VARIABLES phase, par, img, todo, est, pieces, hist, dimg, dst, bytes, pos
vars == <<phase, par, img, todo, est, pieces, hist, dimg, dst, bytes, pos>>

Mark == 7777
G(p) == [o |-> 0, w |-> p.w + 2, x0 |-> 1, y0 |-> 1, x1 |-> p.w + 1, y1 |-> p.h + 1, s |-> p.s]
InBlock(p, i) == LET x == Mod(i - 1, p.w + 2) y == (i - 1) \div (p.w + 2)
                 IN x >= 1 /\ x <= p.w /\ y >= 1 /\ y <= p.h
Rel(p, i) == <<Mod(i - 1, p.w + 2) - 1, ((i - 1) \div (p.w + 2)) - 1>>
Aligned(p, i, s) == InBlock(p, i) /\ Mod(Rel(p, i)[1], s) = 0 /\ Mod(Rel(p, i)[2], s) = 0
Picture(p, v) == [i \in 1..((p.w + 2) * (p.h + 2)) |-> IF Aligned(p, i, 2 * p.s) THEN v ELSE Mark]
CellsOf(p) == Cells(p.w, p.h, p.s)

Init ==
    /\ phase = "encode"
    /\ \E sh \in Shapes, e \in Encoders, q \in Qualities, ch \in BOOLEAN, dc \in BOOLEAN, v \in Coarse :
         /\ par = [w |-> sh[1], h |-> sh[2], s |-> sh[3], enc |-> e, q |-> q, ch |-> ch, dc |-> dc, v |-> v]
         /\ img = Picture(par, v)
    /\ todo = CellsOf(par)
    /\ est = EncInit(par.enc, par.q, par.s)
    /\ pieces = IF par.dc THEN SCode(par.v, 4) ELSE <<>>
    /\ hist = <<>>
    /\ dimg = <<>> /\ dst = <<>> /\ bytes = <<>> /\ pos = 0

Encode(v) ==
    /\ phase = "encode" /\ todo # <<>>
    /\ LET c == todo[1]
           g == G(par)
           im == [img EXCEPT ![Idx(g, c[1], c[2])] = v]
           r == EncCell(im, g, par.enc, par.q, par.ch, est, c[1], c[2])
       IN img' = im /\ est' = r[1] /\ pieces' = pieces \o r[2]
    /\ hist' = Append(hist, <<est[2], est[3], est[4]>>)
    /\ todo' = Tail(todo)
    /\ UNCHANGED <<phase, par, dimg, dst, bytes, pos>>

Flush ==
    /\ phase = "encode" /\ todo = <<>>
    /\ pieces' = pieces \o EncFlush(est)
    /\ bytes' = PackBytes(pieces')
    /\ phase' = "decode" /\ todo' = CellsOf(par)
    /\ dst' = DecInit(par.enc, par.q, par.s)
    \* the first coefficient travels in the block itself, the others came with coarser levels
    /\ LET p0 == Picture(par, par.v)
           g == G(par)
           d == SDec(Source(bytes', 0, Len(bytes')), 0, 4)
       IN IF par.dc THEN dimg' = [p0 EXCEPT ![Idx(g, 0, 0)] = Wrap16(d[1])] /\ pos' = d[2]
          ELSE dimg' = p0 /\ pos' = 0
    /\ UNCHANGED <<par, img, est, hist>>

Decode ==
    /\ phase = "decode" /\ todo # <<>> /\ pos >= 0
    /\ LET c == todo[1]
           g == G(par)
           r == DecCell(dimg, g, par.enc, par.q, par.ch, dst, Source(bytes, 0, Len(bytes)), pos, c[1], c[2])
       IN dst' = r[1] /\ dimg' = [dimg EXCEPT ![Idx(g, c[1], c[2])] = r[2]] /\ pos' = r[3]
    /\ todo' = Tail(todo)
    /\ UNCHANGED <<phase, par, img, est, pieces, hist, bytes>>

Next == (\E v \in Values : Encode(v)) \/ Flush \/ Decode
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
NDone == Len(CellsOf(par)) - Len(todo)
\* adaptive state before every coefficient: the decoder's is the encoder's
Lockstep == phase = "decode" /\ todo # <<>> /\ pos >= 0 => <<dst[2], dst[3], dst[4]>> = hist[NDone + 1]
NeverDry == pos >= 0
\* what is decoded so far is right and nothing else changed
Faithful == phase = "decode" =>
    \A i \in 1..Len(dimg) :
        dimg[i] = (IF \E k \in (NDone + 1)..Len(CellsOf(par)) : Idx(G(par), CellsOf(par)[k][1], CellsOf(par)[k][2]) = i
                   THEN Mark ELSE img[i])
AllBits == phase = "decode" /\ todo = <<>> => pos = PieceBits(pieces)
\* the recursive definition of the format is this machine
Same == phase = "decode" /\ todo = <<>> =>
    /\ EncBlock(img, G(par), par.enc, par.q, par.dc, par.ch) = bytes
    /\ DecBlock(Picture(par, par.v), G(par), par.enc, par.q, par.dc, par.ch, Source(bytes, 0, Len(bytes)))[1] = img
=============================================================================
