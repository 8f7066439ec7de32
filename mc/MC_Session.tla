----------------------------- MODULE MC_Session -----------------------------
(***************************************************************************)
(* C04, C05, C06 on the specification.  A server holds a file; a reader    *)
(* decodes what it has at some downsampling and then fetches more: up to   *)
(* the point of interest, or any other amount.  The file may come from an  *)
(* encoder that leaves unused words in its blocks.                         *)
(*                                                                         *)
(* What DecodeFrame (the decoding procedure) finds must be what GfwxSession *)
(* says from the layout of the file alone.                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, GfwxInt, GfwxBits, GfwxBlock, GfwxHeader, GfwxColor, GfwxWavelet, GfwxFrame, GfwxSession

CONSTANTS Pictures,  \* records [c, coefs, pad]
          MaxD, Jump \* the reader may fetch in units of Jump bytes as well

VARIABLES pic, file, d, n, view, asked
vars == <<pic, file, d, n, view, asked>>

ChromaOf(c) == [k \in 1..NChan(c) |-> k > 1]
\* what another encoder might do: k unused words at the end of every block
Padded(levels, k) == [j \in 1..Len(levels) |-> [b \in 1..Len(levels[j]) |-> levels[j][b] \o [i \in 1..(4 * k) |-> 165]]]
FileOf(p) ==
    LET bytes == FrameBytes(Padded(EncodeLevels(p.c, ChromaOf(p.c), p.coefs), p.pad))
    IN [bytes |-> TLCEval(bytes), lay |-> TLCEval(LayoutOf(p.c, bytes)), own |-> TLCEval(Owners(p.c))]

C == pic.c
Ch == ChromaOf(C)
Decoded(m) == DecodeFrame(C, Ch, file.bytes, 0, m, d, FALSE)
Nothing == [coefs |-> <<>>, res |-> <<"none">>]

Init == /\ pic \in Pictures /\ file = FileOf(pic)
        /\ d \in 0..MaxD /\ n = 0 /\ view = Nothing /\ asked = -1

Decode == /\ view = Nothing
          /\ view' = Decoded(n) /\ asked' = Poi(C, file.lay, n, d)[1]
          /\ UNCHANGED <<pic, file, d, n>>
FetchTo(m) == /\ view # Nothing /\ n < Len(file.bytes)
              /\ n' = MinI(m, Len(file.bytes)) /\ view' = Nothing /\ asked' = -1
              /\ UNCHANGED <<pic, file, d>>
\* the reader that does as it is told
Follow == asked > 0 /\ FetchTo(asked)
Wander == asked # -1 /\ FetchTo(n + Jump)
Next == Decode \/ Follow \/ Wander
Spec == Init /\ [][Next]_vars
Obedient == Init /\ [][Decode \/ Follow]_vars /\ WF_vars(Decode \/ Follow)

-----------------------------------------------------------------------------
Seen == view # Nothing
\* exactly the complete blocks are decoded, the rest is zero
Blockwise == Seen => view.coefs = Known(C, pic.coefs, file.own, Done(C, file.lay, n, d), d)
\* the result is the point of interest of the format; D4: the procedure of the library does not find
\* one when a level that is not the last one is cut inside
Points == Seen =>
    IF InsideLevel(C, file.lay, n, d) THEN view.res = <<"underflow">>
    ELSE LET p == Poi(C, file.lay, n, d)
         IN IF p[1] = 0 THEN view.res = <<"ok", 0>>
            ELSE view.res[1] = "poi" /\ view.res[2] >= p[1] /\ view.res[2] <= p[2]
\* a point of interest is always ahead, so every fetch makes progress
Ahead == Seen /\ asked > 0 => asked > n
\* nothing is asked for when everything needed is there, and only then
Complete == Seen => (asked = 0 <=> n >= NeededBytes(C, file.lay, d))
\* test mode says the same without decoding (an error of a block is not seen by it)
TestMode == Seen => LET t == DecodeFrame(C, Ch, file.bytes, 0, n, d, TRUE)
                    IN t.res = view.res /\ \A i \in 1..Len(t.coefs) : t.coefs[i] = 0
\* what is behind the levels that are needed is not looked at
Blind == Seen /\ n >= NeededBytes(C, file.lay, d) =>
    view = Decoded(NeededBytes(C, file.lay, d))
\* the reduced image holds the coefficients at multiples of 2^d (nothing is
\* defined for a reduction beyond the coarsest level: zeros)
Reduced == Seen /\ asked = 0 /\ NeededLevels(C, d) > 0 => \A i \in 1..Len(view.coefs) : view.coefs[i] = pic.coefs[FullIndex(C, d, i)]
\* an obedient reader gets everything
Satisfied == <>(asked = 0 /\ view.coefs = Known(C, pic.coefs, file.own, AllDone(C, file.lay, d), d))

P(w, h, layers, channels, bs, enc, q) ==
    [w |-> w, h |-> h, layers |-> layers, channels |-> channels, quality |-> q, cs |-> 2, bs |-> bs, filter |-> 0, encoder |-> enc]
Noise(k, a) == [i \in 1..k |-> LET v == Mod(i * i * 7 + i * a + a, 23) IN IF v > 12 THEN 0 ELSE IF Mod(v, 2) = 0 THEN v ELSE -3 * v]
Pic(c, a, pad) == [c |-> c, coefs |-> Noise(NChan(c) * c.w * c.h, a), pad |-> pad]
\* block size 1 does not occur in files; it gives several blocks per level in a small model
SmallPics == {Pic(P(5, 3, 1, 1, 1, 2, 1024), 3, 0), Pic(P(4, 5, 1, 2, 2, 1, 100), 5, 0), Pic(P(3, 7, 1, 1, 1, 0, 512), 4, 1),
              Pic(P(1, 1, 1, 1, 2, 0, 1024), 4, 0), Pic(P(1, 2, 2, 1, 2, 2, 1024), 4, 2)}
MorePics == SmallPics \cup
            {Pic(P(w, h, 1, ch, bs, e, q), w + h, pd) : w \in {1, 6, 9}, h \in {2, 5}, ch \in {1, 2}, bs \in {1, 2},
                                                      e \in {0, 1, 2}, q \in {100, 1024}, pd \in {0, 1}}
=============================================================================
