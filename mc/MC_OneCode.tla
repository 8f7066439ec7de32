----------------------------- MODULE MC_OneCode -----------------------------
(***************************************************************************)
(* E01: every number of an interval, in every code and parameter, reads    *)
(* back whatever follows it.  One state is one (kind, parameter, stretch   *)
(* of numbers).                                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, GfwxInt, GfwxBits, GfwxGolomb

CONSTANTS Limit, Far

Stretch == 64
VARIABLES kind, pot, from
vars == <<kind, pot, from>>
Init == kind \in {"u", "i", "s"} /\ pot \in 0..24 /\ from = 0
Next == /\ from + Stretch <= Limit /\ from' = from + Stretch /\ UNCHANGED <<kind, pot>>
Spec == Init /\ [][Next]_vars

\* nothing is emitted but 12 zeros per escape, a unary part of at most 12 bits, the remainder and the sign
Bits(v) == PieceBits(Code(kind, v, pot))

RoundTrips(v, junk) ==
    LET b == PackBytes(Append(Code(kind, v, pot), <<junk, 20>>))
        r == Dec(kind, Source(b, 0, Len(b)), 0, pot)
    IN r = <<v, Bits(v)>>

Good(v) == RoundTrips(v, 0) /\ RoundTrips(v, 1048575)
Numbers == {from + k : k \in 0..(Stretch - 1)} \cup {Far + from + k * 97 : k \in 0..7}
           \cup (IF from = 0 /\ pot <= 22 THEN {12 * P2(pot) + k : k \in -3..3} ELSE {}) \* around the escapes
           \cup (IF from = 0 /\ pot <= 18 THEN {12 * (P2(pot) + P2(pot + 4)) + k : k \in -3..3} ELSE {})

\* all 32 bit numbers: those with few ones and few zeros, and around multiples of the last escape
WideRoundTrips(v, junk) ==
    LET b == PackBytes(Append(CodeW(kind, v, pot), <<junk, 20>>))
    IN DecW(kind, Source(b, 0, Len(b)), 0, pot) = <<v, PieceBits(CodeW(kind, v, pot))>>
WideNumbers ==
    {<<Mod(a * (from + k + 1), 65536), Mod(b * (from + k), 65536)>> : a \in {1, 257, 4096, 40503}, b \in {0, 1, 33023}, k \in 0..3}
    \cup {U32Add(<<3072 * m, 0>>, <<0, from + k>>) : m \in 0..21, k \in 0..1}
    \cup (IF from = 0 THEN {<<P2(k), 0>> : k \in 0..15} \cup {<<P2(k) - 1, 65535>> : k \in 0..16} \cup {<<65535, 65535 - k>> : k \in 0..15} ELSE {})
\* the interleaved code has no room for more than 30 bits and the sign, the signed one none for the smallest number
InDomain(v) == kind = "u" \/ (kind = "s" /\ v # <<32768, 0>>) \/ (kind = "i" /\ (v[1] < 16384 \/ v[1] > 49152))
WideInverse == \A v \in WideNumbers : InDomain(v) => WideRoundTrips(v, 0) /\ WideRoundTrips(v, 1048575)
\* both ways to write the codes down agree where both apply
Agree == \A v \in Numbers : v < 67108864 =>
    /\ CodeW(kind, U32OfInt(v), pot) = Code(kind, v, pot)
    /\ LET b == PackBytes(Code(kind, v, pot))
           r == Dec(kind, Source(b, 0, Len(b)), 0, pot)
       IN DecW(kind, Source(b, 0, Len(b)), 0, pot) = <<U32OfI32(r[1]), r[2]>>
Inverse == \A v \in Numbers : v < 67108864 => Good(v) /\ (kind # "u" => Good(-v))

\* longer codes for larger numbers only
Monotone == kind = "u" => \A k \in 1..(Stretch - 1) : Bits(from + k) >= Bits(from + k - 1)
=============================================================================
