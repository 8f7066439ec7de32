----------------------------- MODULE GfwxSession -----------------------------
(***************************************************************************)
(* Progressive reading.  A reader holds a prefix of a payload and decodes  *)
(* it at some downsampling d.  What it gets follows from the positions of  *)
(* the blocks alone: a coefficient is known when its block is complete.    *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE SequencesExt
LOCAL INSTANCE FiniteSets
LOCAL INSTANCE TLC
LOCAL INSTANCE GfwxInt
LOCAL INSTANCE GfwxHeader
LOCAL INSTANCE GfwxColor
LOCAL INSTANCE GfwxFrame

Steps(c) == StepsDownTo(TopStep(c.w, c.h), 1)
\* levels that downsampling d needs are a prefix of all levels
NeededLevels(c, d) == Len(StepsDownTo(TopStep(c.w, c.h), P2(d)))

\* sums of the first k numbers
RECURSIVE Sums(_, _)
Sums(q, o) == IF o >= Len(q) THEN q
              ELSE Sums(TLCEval([k \in 1..Len(q) |-> IF k > o THEN q[k] + q[k - o] ELSE q[k]]), 2 * o)

(* Positions in a complete payload: a sequence of levels                   *)
(*   [pos, table, ends]: first byte of the table, its length, and where    *)
(* each block ends                                                         *)
LayoutOf(c, bytes) ==
    LET S == Steps(c)
        level(acc, s) ==
            LET n == BlockCount(c, s)
                p0 == acc[2]
                size(k) == LET u == U32At(bytes, p0 + 4 * (k - 1)) IN 4 * (u[1] * 65536 + u[2])
                sums == Sums(TLCEval([k \in 1..n |-> size(k)]), 1)
                ends == TLCEval([k \in 1..n |-> p0 + 4 * n + sums[k]])
            IN <<Append(acc[1], [pos |-> p0, table |-> 4 * n, ends |-> ends]), ends[n]>>
    IN FoldLeft(level, << <<>>, 0>>, S)[1]

LevelEnd(lay, j) == IF j = 0 THEN 0 ELSE lay[j].ends[Len(lay[j].ends)]
\* bytes that decoding at d needs
NeededBytes(c, lay, d) == LevelEnd(lay, NeededLevels(c, d))

\* number of complete blocks of each level in a prefix of n bytes
Done(c, lay, n, d) ==
    LET need == NeededLevels(c, d)
    IN TLCEval([j \in 1..Len(lay) |->
        IF j > need \/ n <= lay[j].pos + lay[j].table THEN 0
        ELSE LET e == lay[j].ends
             IN Cardinality({k \in 1..Len(e) : e[k] <= n})])

\* level and block (from 1) of every coefficient
Owners(c) ==
    LET S == Steps(c)
        size == c.w * c.h
        lev(x, y) == \* the coarsest level with these coordinates
            LET RECURSIVE L(_)
                L(j) == IF Mod(x, S[j]) = 0 /\ Mod(y, S[j]) = 0 THEN j ELSE L(j + 1)
            IN L(1)
        E == TLCEval([j \in 1..Len(S) |-> BlockEdge(c, S[j], c.w, c.h)])
        NX == TLCEval([j \in 1..Len(S) |-> CeilDiv(c.w, E[j])])
        NY == TLCEval([j \in 1..Len(S) |-> CeilDiv(c.h, E[j])])
    IN TLCEval([i \in 1..(NChan(c) * size) |->
          LET r == Mod(i - 1, size)
              x == Mod(r, c.w)
              y == r \div c.w
              j == lev(x, y)
          IN <<j, ((i - 1) \div size) * NX[j] * NY[j] + (y \div E[j]) * NX[j] + (x \div E[j]) + 1>>])

\* index of a coefficient of the reduced image in the full one
FullIndex(c, d, i) ==
    LET wd == Down(c.w, d)
        size == wd * Down(c.h, d)
        r == Mod(i - 1, size)
    IN ((i - 1) \div size) * c.w * c.h + (r \div wd) * P2(d) * c.w + Mod(r, wd) * P2(d) + 1

Known(c, coefs, own, done, d) ==
    TLCEval([i \in 1..(NChan(c) * Down(c.w, d) * Down(c.h, d)) |->
        LET f == FullIndex(c, d, i)
        IN IF own[f][2] <= done[own[f][1]] THEN coefs[f] ELSE 0])

\* nothing is missing
AllDone(c, lay, d) == Done(c, lay, NeededBytes(c, lay, d), d)

(* The next point of interest the format defines for a prefix of n bytes:  *)
(* 0 when nothing is missing.  Before the first table is complete the      *)
(* format only asks for more: any value that is enough will do.            *)
(* Result: <<lo, hi>>, the values that are right.                          *)
Open(c, lay, n, d) == \* the first level that is not complete
    LET J == {j \in 1..NeededLevels(c, d) : LevelEnd(lay, j) > n}
    IN IF J = {} THEN 0 ELSE CHOOSE j \in J : \A k \in J : j <= k
Poi(c, lay, n, d) ==
    LET j == Open(c, lay, n, d)
        last(k) == k = NeededLevels(c, d)
        \* end of level k and, unless it is the last one, four tables of its size
        point(k) == LevelEnd(lay, k) + (IF last(k) THEN 0 ELSE 4 * lay[k].table)
    IN IF j = 0 THEN <<0, 0>>
       ELSE IF n > lay[j].pos + lay[j].table THEN <<point(j), point(j)>>
       ELSE LET need == lay[j].pos + lay[j].table + 4
            IN IF j = 1 THEN <<MaxI(need, n + 1), MaxInt>>
               ELSE LET p == MaxI(point(j - 1), need) IN <<p, p>>

(* The table of a level that is not the last needed one is complete and    *)
(* its blocks are not: known finding D4                                    *)
InsideLevel(c, lay, n, d) ==
    LET j == Open(c, lay, n, d)
    IN j # 0 /\ j < NeededLevels(c, d) /\ n > lay[j].pos + lay[j].table

(* From the coefficients of the reduced image to samples *)
AuxOf(c, chroma, coefs, d) == UnliftAll(c, DequantizeAll(c, chroma, coefs, d), d)
ImageOf(c, prog, aux, d) ==
    DetransformInterleaved(prog, aux, c.layers, c.channels, Down(c.w, d) * Down(c.h, d), Boost(c.quality))
=============================================================================
