----------------------------- MODULE GenStreams -----------------------------
(***************************************************************************)
(* Streams of an encoder that is not the library's: this specification's   *)
(* own encoder, with unused words behind some blocks.  Every behaviour of  *)
(* N steps makes N streams, the last step writes them to OUT.              *)
(* A line: w, h, layers, channels, quality, cs, bs, filter, encoder,       *)
(* chroma flags, coefficients, bytes.                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC, IOUtils, Json, GfwxInt, GfwxHeader, GfwxFrame

VARIABLES k, out

N == atoi(IOEnv.N)
R(lo, hi) == RandomElement(lo..hi)
Pick(s) == s[R(1, Len(s))]

Params ==
    [w |-> Pick(<<1, 2, 3, 4, 5, 7, 8, 9, 11, 13, 16, 17, 19>>), h |-> Pick(<<1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17>>),
     layers |-> Pick(<<1, 1, 2>>), channels |-> Pick(<<1, 1, 2, 3>>),
     quality |-> Pick(<<1024, 1024, 1023, 700, 512, 300, 64, 20, 3, 1>>), cs |-> Pick(<<1, 2, 8, 200>>),
     bs |-> Pick(<<2, 2, 3, 5, 9>>), filter |-> R(0, 1), encoder |-> R(0, 2)]

Coef(kind) ==
    CASE kind = 1 -> IF R(1, 9) = 1 THEN R(-4, 4) ELSE 0
      [] kind = 2 -> R(-2, 2)
      [] kind = 3 -> R(-60, 60)
      [] kind = 4 -> IF R(1, 3) = 1 THEN R(-3000, 3000) ELSE R(-1, 1)
      [] kind = 5 -> IF R(1, 40) = 1 THEN R(-32767, 32767) ELSE 0

Pad(bytes) == \* sometimes one to three words of anything
    LET n == Pick(<<0, 0, 0, 4, 8, 12>>)
    IN bytes \o [j \in 1..n |-> R(0, 255)]

One ==
    LET p == TLCEval(Params)
        n == NChan(p)
        chroma == TLCEval([c \in 1..n |-> R(0, 2) = 0])
        kind == TLCEval(R(1, 5))
        coefs == TLCEval([j \in 1..(p.w * p.h * n) |-> Coef(kind)])
        levels == EncodeLevels(p, chroma, coefs)
        padded == TLCEval([j \in 1..Len(levels) |-> TLCEval([b \in 1..Len(levels[j]) |-> TLCEval(Pad(levels[j][b]))])])
    IN TLCEval(<<p.w, p.h, p.layers, p.channels, p.quality, p.cs, p.bs, p.filter, p.encoder>>
               \o [c \in 1..n |-> IF chroma[c] THEN 1 ELSE 0] \o coefs \o FrameBytes(padded))

Init == k = 0 /\ out = <<>>
Next == /\ k < N
        /\ k' = k + 1
        /\ out' = Append(out, One)
        /\ IF k' = N THEN ndJsonSerialize(IOEnv.OUT, out') ELSE TRUE
=============================================================================
