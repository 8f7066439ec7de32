----------------------------- MODULE TracePrefix -----------------------------
(***************************************************************************)
(* C04, C05, C06.  Decoding parts of a known file.  The file is known by   *)
(* its payload, whose block sizes say where everything is, and by the      *)
(* coefficients that were put into it.                                     *)
(***************************************************************************)
EXTENDS TraceBase, GfwxInt, GfwxHeader, GfwxColor, GfwxFrame, GfwxSession

VARIABLES i, st

Init == i = 1 /\ st = [file |-> FALSE]

NoCache == [k \in {} |-> 0]

File(e) ==
    /\ e.ev = "file"
    /\ LET lay == LayoutOf(e.p, e.bytes)
       IN /\ Holds(Same(Len(e.bytes), LevelEnd(lay, Len(lay)), "length of the payload"))
          /\ st' = [file |-> TRUE, lax |-> e.lax, p |-> e.p, prog |-> e.prog, plen |-> e.plen, total |-> Len(e.bytes),
                    coefs |-> e.coefs, lay |-> TLCEval(lay), own |-> Owners(e.p),
                    results |-> NoCache, cache |-> NoCache]

\* a result that did not occur before in this session
Result(e) ==
    /\ e.ev = "result"
    /\ st' = [st EXCEPT !.results = (e.id :> e.coefs) @@ st.results]

Deviation(name) == ("KNOWN_" \o name) \in DOMAIN IOEnv /\ PrintT(<<"KNOWN", name>>)

Chroma == ChromaFlags(st.prog, NChan(st.p))
KnownAt(n, d) == Known(st.p, st.coefs, st.own, Done(st.p, st.lay, n, d), d)
Complete(d) == Known(st.p, st.coefs, st.own, AllDone(st.p, st.lay, d), d)

\* a result is right for a prefix of n bytes; extra: bytes in front that the point counts
RightPoi(res, n, d, extra) ==
    LET q == Poi(st.p, st.lay, n, d)
    IN IF q[2] = 0 THEN Same(res, <<"ok", 0>>, "result")
       ELSE IF res[1] # "ok" THEN Same(res, <<"ok", q>>, "result")
       ELSE IF res[2] - extra >= q[1] /\ res[2] - extra <= q[2] THEN TRUE
       ELSE Same(res, <<"ok", q, "in front", extra>>, "point of interest")

IsD4(e) == /\ e.res = <<"err", "underflow">> /\ InsideLevel(st.p, st.lay, e.n, e.d)

\* sessions about test mode only compare it with the real call there
Excused(e) == IsD4(e) /\ (IF st.lax THEN TRUE ELSE Deviation("D4"))

\* test mode touches nothing and says the same
RightTest(e) ==
    /\ Same(e.kept, TRUE, "output kept in test mode")
    /\ Same(e.test, e.res, "test mode result")

Cut(e) ==
    /\ e.ev = "cut"
    /\ LET key == <<e.d, Done(st.p, st.lay, e.n, e.d)>>
       IN IF Holds(Excused(e))
          THEN /\ Holds(RightTest(e))
               /\ UNCHANGED st
          ELSE /\ Holds(RightPoi(e.res, e.n, e.d, 0) /\ RightTest(e))
               /\ IF Holds(key \in DOMAIN st.cache)
                  THEN /\ Holds(SameSeq(st.results[e.id], st.results[st.cache[key]], "coefficients"))
                       /\ UNCHANGED st
                  ELSE /\ Holds(SameSeq(st.results[e.id], KnownAt(e.n, e.d), "coefficients"))
                       /\ st' = [st EXCEPT !.cache = (TLCEval(key) :> e.id) @@ st.cache]

\* the same through the entry points that give planes and samples
Aux(e) ==
    /\ e.ev = "aux"
    /\ Holds(/\ RightTest(e)
             /\ IF Excused(e) THEN TRUE
                ELSE /\ RightPoi(e.res, e.n, e.d, 0)
                     /\ SameSeq(e.aux, AuxOf(st.p, Chroma, KnownAt(e.n, e.d), e.d), "planes"))
    /\ UNCHANGED st

Simple(e) ==
    /\ e.ev = "simple"
    /\ Holds(/\ RightTest(e)
             /\ IF Excused(e) THEN TRUE
                ELSE /\ RightPoi(e.res, e.n, e.d, st.plen)
                     /\ SameSeq(e.img, ImageOf(st.p, st.prog, AuxOf(st.p, Chroma, KnownAt(e.n, e.d), e.d), e.d), "samples"))
    /\ UNCHANGED st

\* a prefix that ends inside the color program has no image: any error
NoProgram(e) ==
    /\ e.ev = "noprogram"
    /\ Holds(Same(e.res[1], "err", "result") /\ Same(e.test[1], "err", "test") /\ Same(e.kept, TRUE, "kept"))
    /\ UNCHANGED st

(* A reader who starts with some bytes and then always fetches up to the   *)
(* point that was reported; steps: sequence of <<bytes, result>>           *)
Fetch(e) ==
    /\ e.ev = "fetch"
    /\ Holds(/\ \A k \in 1..Len(e.steps) :
                  LET n == e.steps[k][1]
                      res == e.steps[k][2]
                      d4 == IsD4([res |-> res, n |-> n, d |-> e.d])
                  IN /\ IF d4 THEN Deviation("D4") ELSE RightPoi(res, n, e.d, 0)
                     /\ IF k = Len(e.steps) THEN Same(res, <<"ok", 0>>, "last result")
                        ELSE Same(e.steps[k + 1][1],
                                  IF d4 THEN st.total ELSE MinI(st.total, res[2]), "bytes fetched")
             /\ SameSeq(st.results[e.id], Complete(e.d), "coefficients"))
    /\ UNCHANGED st

(* Any bytes: when the real call succeeds, the test said so; real: result  *)
(* of the real call                                                        *)
AnyBytes(e) ==
    /\ e.ev = "any"
    /\ Holds(/\ Same(e.kept, TRUE, "output kept in test mode")
             /\ IF e.real[1] = "ok" THEN Same(e.test, e.real, "test mode result")
                ELSE Same(e.test[1] \in {"ok", "err"}, TRUE, "test mode result"))
    /\ UNCHANGED st

(* A thumbnail of a vast image: a file without the levels behind it.       *)
Thumb(e) ==
    /\ e.ev = "thumb"
    /\ Holds(LET r == DecodeFrame(e.p, e.flags, e.bytes, 0, Len(e.bytes), e.d, FALSE)
             IN /\ Same(e.res, r.res, "result")
                /\ SameSeq(e.coefs, r.coefs, "coefficients")
                \* and that is what was put into it
                /\ SameSeq(e.coefs, e.want, "original coefficients"))
    /\ UNCHANGED st

\* far reduced images of large ones: planes and samples
FarReduced(e) ==
    /\ e.ev = "farreduced"
    /\ Holds(LET flags == ChromaFlags(e.prog, NChan(e.p))
                 r == DecodeFrame(e.p, flags, e.bytes, 0, Len(e.bytes), e.d, FALSE)
                 aux == TLCEval(AuxOf(e.p, flags, r.coefs, e.d))
             IN /\ Same(e.res, r.res, "result")
                /\ SameSeq(e.coefs, r.coefs, "coefficients")
                /\ SameSeq(e.aux, aux, "planes")
                /\ SameSeq(e.img, ImageOf(e.p, e.prog, aux, e.d), "samples"))
    /\ UNCHANGED st

Next == i <= Len(Log) /\ i' = i + 1
        /\ LET e == Log[i]
           IN File(e) \/ Result(e) \/ Cut(e) \/ Aux(e) \/ Simple(e) \/ NoProgram(e) \/ Fetch(e) \/ AnyBytes(e) \/ Thumb(e) \/ FarReduced(e)
Spec == Init /\ [][Next]_<<i, st>>
=============================================================================
