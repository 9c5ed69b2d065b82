------------------------------- MODULE Taus -------------------------------
(* Technological times, milli-minutes.                                      *)
EXTENDS TrainSets

(* minimal stop: only where the train goes on                               *)
GoesOn(V, n, s)  == V.row[n][s] < Len(V.blk[n])
TurnAt(V, n, s)  == LET t == Rec(V, n).rows[V.row[n][s]].turn IN IF t < 0 THEN 0 ELSE t
TurnWritten(V, n, s) == Rec(V, n).rows[V.row[n][s]].turn >= 0
StopTime(V, n, s) == TrackTime(V, n, s) + (IF s = FirstSt(V, n) THEN 0 ELSE TurnAt(V, n, s))
PrepTime(V, n)    == TurnAt(V, n, FirstSt(V, n))
HasPrep(V, n)     == TurnWritten(V, n, FirstSt(V, n)) /\ PrepTime(V, n) > 0

(* Headway of n before m on the line s -> t: the least gap h >= 0 such that
   m, leaving h after n, enters each block only after n has cleared that
   block (close following) or also the next one.                            *)
CloseLines == {{"KO(STM)", "KZ"}, {"CB", "CM"}, {"KTC-CB", "via Gt"}}
LookAhead(s, t) == IF {s, t} \in CloseLines THEN 0 ELSE 1
EnterAfter(V, n, s, k) == SeqSum(SubSeq(V.time[n], V.row[n][s] + 1, V.row[n][s] + k - 1))
ClearAfter(V, n, s, k) == SeqSum(SubSeq(V.time[n], V.row[n][s] + 1, V.row[n][s] + k))
Separated(V, n, m, s, t, h) ==
   LET len == Len(Between(V, n, s, t))
   IN \A k \in 1..len : EnterAfter(V, m, s, k) + h >= ClearAfter(V, n, s, Min2(k + LookAhead(s, t), len))
Headway(V, n, m, s, t) ==
   LET len == Len(Between(V, n, s, t))
       need == {ClearAfter(V, n, s, Min2(k + LookAhead(s, t), len)) - EnterAfter(V, m, s, k) : k \in 1..len}
   IN MaxSet({0} \cup need)
(* the closed form is the least separation (checked as an assumption of the
   specification itself, see TausSelfCheck)                                  *)
HeadwayIsLeast(V, n, m, s, t) ==
   LET h == Headway(V, n, m, s, t)
   IN Separated(V, n, m, s, t, h) /\ (h = 0 \/ ~Separated(V, n, m, s, t, h - 1))
============================================================================
