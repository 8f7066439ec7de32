----------------------------- MODULE MC_Hostile -----------------------------
(***************************************************************************)
(* C08 on the specification: streams of arbitrary words.  The decoders are *)
(* total, stop, never look behind the end of what they were given and      *)
(* change nothing but the coefficients of their level.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, GfwxInt, GfwxBits, GfwxGolomb, GfwxBlock, GfwxWavelet, GfwxHeader, GfwxColor, GfwxFrame

CONSTANTS Bytes, MaxWords, Shapes

VARIABLES bytes, kind, arg
vars == <<bytes, kind, arg>>

Words == [1..4 -> Bytes]
NoArg == [w |-> 0, h |-> 0, s |-> 0, enc |-> 0, q |-> 0, dc |-> FALSE]
Args(k) == IF k = "block"
           THEN {[w |-> z[1], h |-> z[2], s |-> z[3], enc |-> e, q |-> q, dc |-> dc] :
                    z \in Shapes, e \in {0, 1, 2}, q \in {1, 1024}, dc \in BOOLEAN}
           ELSE IF k = "frame" THEN {[w |-> z[1], h |-> z[2], s |-> d, enc |-> e, q |-> 1024, dc |-> FALSE] :
                    z \in Shapes, e \in {0, 1, 2}, d \in 0..1}
           ELSE {NoArg}
Init == /\ bytes = <<>> /\ kind \in {"code", "program", "block", "frame"} /\ arg \in Args(kind)
Extend == /\ Len(bytes) < 4 * MaxWords
          /\ \E w \in Words : bytes' = bytes \o w
          /\ UNCHANGED <<kind, arg>>
Next == Extend
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Bits == 8 * Len(bytes)
Src == Source(bytes, 0, Len(bytes))
\* a read ends behind where it started and inside the source, or fails for good
Codes == kind = "code" => \A k \in {"u", "i", "s"} : \A pot \in {0, 1, 4, 24} : \A p \in {0, 1, 13} :
    LET r == Dec(k, Src, p, pot)
    IN r = Failed \/ (r[2] > p /\ r[2] <= Bits)
DryStaysDry == kind = "code" => Dec("s", Src, -1, 2) = Failed /\ GetBits(Src, -1, 3) = Failed
Programs == kind = "program" => \A n \in {1, 3} :
    LET r == DecodeProgram(bytes, 0, Len(bytes), n)
    IN r.ok => /\ r.bytes <= Len(bytes) /\ Mod(r.bytes, 4) = 0 /\ r.bytes > 0
               /\ \A i \in 1..Len(r.prog) : r.prog[i].dest \in 0..(n - 1) /\ r.prog[i].denom \in 1..32767
               \* what is accepted can be written and read again
               /\ (\A i \in 1..Len(r.prog) : \A j \in 1..Len(r.prog[i].factors) : AbsI(r.prog[i].factors[j][2]) < 65536) =>
                  LET b == EncodeProgram(r.prog) IN DecodeProgram(b, 0, Len(b), n).prog = r.prog
G == [o |-> 0, w |-> arg.w, x0 |-> 0, y0 |-> 0, x1 |-> arg.w, y1 |-> arg.h, s |-> arg.s]
Mark == 77
Blocks == kind = "block" =>
    LET old == [i \in 1..(arg.w * arg.h) |-> Mark]
        r == DecBlock(old, G, arg.enc, arg.q, arg.dc, FALSE, Src)
        own == {Idx(G, c[1], c[2]) : c \in {Cells(arg.w, arg.h, arg.s)[k] : k \in 1..Len(Cells(arg.w, arg.h, arg.s))}}
               \cup (IF arg.dc THEN {1} ELSE {})
    IN /\ r[2] = -1 \/ r[2] \in 0..Bits
       /\ \A i \in 1..Len(old) : i \notin own => r[1][i] = Mark
       /\ \A i \in 1..Len(old) : r[1][i] \in -32768..32767
C == [w |-> arg.w, h |-> arg.h, layers |-> 1, channels |-> 1, quality |-> arg.q, cs |-> 1, bs |-> 1, filter |-> 0, encoder |-> arg.enc]
Frames == kind = "frame" =>
    LET r == DecodeFrame(C, <<FALSE>>, bytes, 0, Len(bytes), arg.s, FALSE)
        t == DecodeFrame(C, <<FALSE>>, bytes, 0, Len(bytes), arg.s, TRUE)
    IN /\ r.res[1] \in {"ok", "poi", "underflow"}
       /\ Len(r.coefs) = Down(arg.w, arg.s) * Down(arg.h, arg.s)
       /\ r.res[1] = "poi" => r.res[2] > Len(bytes)
       /\ r.res[1] # "underflow" => t.res = r.res
       /\ \A i \in 1..Len(t.coefs) : t.coefs[i] = 0
SmallShapes == {<<2, 2, 1>>, <<3, 1, 1>>, <<3, 3, 2>>}
MoreShapes == {<<2, 2, 1>>, <<3, 2, 1>>, <<3, 3, 2>>, <<5, 4, 1>>, <<1, 1, 1>>}
=============================================================================
