------------------------------ MODULE GfwxStream ------------------------------
(***************************************************************************)
(* Sinks and sources of the caller.  A transfer moves the bytes todo, one  *)
(* call after the other.  The other side of a call answers as it likes:    *)
(*   some n   moves 1 <= n bytes, perhaps fewer than asked for             *)
(*   again    was interrupted, nothing moved                               *)
(*   none     moves nothing: a full sink or the end of a source            *)
(*   fail     an error, perhaps only this once                             *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences

Fresh(todo) == [todo |-> todo, at |-> 0, fault |-> FALSE]
Left(s) == Len(s.todo) - s.at

\* calls that the library may make: nothing but the next bytes, nothing behind the last one, nothing after a fault
MayAsk(s, n) == ~s.fault /\ n >= 1 /\ n <= Left(s)
MayPut(s, buf) == MayAsk(s, Len(buf)) /\ SubSeq(s.todo, s.at + 1, s.at + Len(buf)) = buf

\* asked: bytes that the call is about
IsAnswer(asked, ans, n) == CASE ans = "some" -> n \in 1..asked
                             [] OTHER -> ans \in {"again", "none", "fail"} /\ n = 0
After(s, ans, n) == CASE ans = "some" -> [s EXCEPT !.at = @ + n]
                      [] ans = "again" -> s
                      [] OTHER -> [s EXCEPT !.fault = TRUE]

\* how a transfer may end: with an error exactly if there was a fault, and not before everything is through
MayEnd(s, ok) == IF s.fault THEN ~ok ELSE ok /\ Left(s) = 0
=============================================================================
