------------------------------ MODULE Dispatch ------------------------------
(* The same rules as an operational model: a clock, trains that appear,
   depart and arrive, and what the signal box allows at that very moment,
   looking only at what has happened so far.  Used to validate module
   Dispatching: with the delays d given, the trains can run to the end if
   and only if d is conflict-free.                                           *)
EXTENDS Dispatching, Json, IOUtils

Insts == ndJsonDeserialize(IOEnv.TRACE)
Grid(I) == {I.unit * k : k \in 0..(I.dmax \div I.unit)}

VARIABLES X,        \* the instance with its earliest times (Ctx)
          i,        \* number of the instance
          d,        \* the delays
          safe,     \* are they conflict-free?
          now,      \* the clock
          at,       \* train -> position on its path
          st,       \* train -> "out" | "in" a station | "run"ning to the next | "off"
          dep, arr, \* train -> times so far (Never: not yet)
          was       \* the last event
vars == <<X, i, d, safe, now, at, st, dep, arr, was>>

Never == -2000000000
I == X.I
J == Trains(I)
Here(j) == Path(I, j)[at[j]]
GoesOn(j) == at[j] < Len(Path(I, j))
There(j) == Path(I, j)[at[j] + 1]

Init == /\ i \in DOMAIN Insts
        /\ X = Ctx(Insts[i])
        /\ LET R == TLCEval(Rules(X)) IN \E v \in [DOMAIN X.D -> Grid(I)] : d = v /\ safe = Safe(R, v)
        /\ now = Never
        /\ at = [j \in J |-> 1]
        /\ st = [j \in J |-> "out"]
        /\ dep = [j \in J |-> [k \in DOMAIN Path(I, j) |-> Never]]
        /\ arr = dep
        /\ was = <<"start", "">>

-----------------------------------------------------------------------------
(* when is the next event of a train due? *)
Due(j) == IF st[j] = "out" THEN (IF Takes(I, j, Here(j)) THEN Never ELSE X.e[j][1])
          ELSE IF st[j] = "in" THEN (IF Decides(I, j, Here(j)) THEN X.e[j][at[j]] + d[X.ix[<<j, Here(j)>>]] ELSE Never)
          ELSE IF st[j] = "run" THEN dep[j][at[j]] + I.pass[K3(j, Here(j), There(j))]
          ELSE Never
(* What counts as done at this moment: occupation is from the moment of
   entering to just before the moment of leaving, so two trains may change
   places at one moment, each of them giving way to the other.               *)
DepAt(j, s) == IF st[j] = "in" /\ Here(j) = s /\ Due(j) = now THEN now ELSE dep[j][Pos(I, j, s)]
ArrAt(j, s) == IF st[j] = "run" /\ There(j) = s /\ Due(j) = now THEN now ELSE arr[j][Pos(I, j, s)]
Gone(j, s) == DepAt(j, s) # Never
Waiting == {j \in J : Due(j) # Never}
Complete == \A j \in J : st[j] = "off"
Clock == /\ Waiting # {}
         /\ \A j \in Waiting : Due(j) > now
         /\ now' = MinSet({Due(j) : j \in Waiting})
         /\ was' = <<"clock", "">>
         /\ UNCHANGED <<X, i, d, safe, at, st, dep, arr>>

(* a platform track *)
OneTrack(j, k, s) == /\ j # k /\ ~SameStock(I, j, k)
                     /\ \E m \in DOMAIN I.track : I.track[m].s = s /\ {j, k} \subseteq Rng(I.track[m].g)
TrackFree(j, s) == \A k \in J : OneTrack(j, k, s) =>
   /\ ~(st[k] = "in" /\ Here(k) = s /\ ~Gone(k, s))
   /\ Gone(k, s) => now >= DepAt(k, s) + SwitchGap(X, s)
(* nobody who left sp earlier in front of j is still to come to this track *)
NoSwap(j, sp, s) == \A k \in J : (/\ OneTrack(j, k, s) /\ Follow(I, j, k, sp, s)
                               /\ Gone(k, sp) /\ DepAt(k, sp) < DepAt(j, sp)) => arr[k][Pos(I, k, s)] # Never

(* switches *)
Passed(k, q, s) == IF q = "out" THEN DepAt(k, s) ELSE ArrAt(k, s)
SwitchFree(j, r, s) == \A m \in DOMAIN I.switch :
   LET W == I.switch[m]
       side == IF W.s # s THEN 0 ELSE IF W.j = j /\ W.r = r THEN 1 ELSE IF W.k = j /\ W.q = r THEN 2 ELSE 0
       o == IF side = 1 THEN W.k ELSE W.j
       q == IF side = 1 THEN W.q ELSE W.r
   IN side # 0 /\ ~SameStock(I, j, o) =>
        /\ Passed(o, q, s) # Never => now >= Passed(o, q, s) + I.res
        /\ (/\ r = "in" /\ q = "in" /\ Follow(I, j, o, Here(j), s)
            /\ Gone(o, Here(j)) /\ DepAt(o, Here(j)) < DepAt(j, Here(j))) => arr[o][Pos(I, o, s)] # Never

(* lines *)
LineFree(j, s, t) ==
   /\ \A k \in J \ {j} : Follow(I, j, k, s, t) => (Gone(k, s) => now >= DepAt(k, s) + I.headway[K4(k, j, s, t)])
   /\ \A m \in DOMAIN I.single :
        LET L == I.single[m]
            o == IF L.j = j /\ L.s = s /\ L.t = t THEN L.k ELSE IF L.k = j /\ L.t = s /\ L.s = t THEN L.j ELSE NONE
        IN o # NONE => SameStock(I, j, o) \/ (Gone(o, t) => ArrAt(o, s) # Never)

-----------------------------------------------------------------------------
Appear(j) == /\ st[j] = "out" /\ Due(j) = now /\ now # Never
             /\ TrackFree(j, Here(j))
             /\ st' = [st EXCEPT ![j] = "in"]
             /\ was' = <<"appear", j>>
             /\ UNCHANGED <<X, i, d, safe, now, at, dep, arr>>

Prepared(j) ==
   IF at[j] > 1 THEN now >= arr[j][at[j]] + I.stop[K2(j, Here(j))]
   ELSE Takes(I, j, Here(j)) => now >= ArrAt(TakesFrom(I, j, Here(j)), Here(j)) + I.prep[K2(j, Here(j))]
Depart(j) == /\ st[j] = "in" /\ Due(j) = now /\ now # Never
             /\ Prepared(j)
             /\ GoesOn(j) => LineFree(j, Here(j), There(j)) /\ SwitchFree(j, "out", Here(j))
             /\ dep' = [dep EXCEPT ![j][at[j]] = now]
             /\ st' = [st EXCEPT ![j] = IF GoesOn(j) THEN "run" ELSE "off"]
             /\ was' = <<"depart", j>>
             /\ UNCHANGED <<X, i, d, safe, now, at, arr>>

Arrive(j) == /\ st[j] = "run" /\ Due(j) = now
             /\ TrackFree(j, There(j)) /\ NoSwap(j, Here(j), There(j)) /\ SwitchFree(j, "in", There(j))
             /\ arr' = [arr EXCEPT ![j][at[j] + 1] = now]
             /\ at' = [at EXCEPT ![j] = @ + 1]
             /\ st' = [k \in J |-> IF k = j THEN (IF Decides(I, j, There(j)) THEN "in" ELSE "off")
                                   ELSE IF Gives(I, j, There(j)) /\ k = GivesTo(I, j, There(j)) THEN "in" ELSE st[k]]
             /\ dep' = IF Decides(I, j, There(j)) \/ Gives(I, j, There(j)) THEN dep
                       ELSE [dep EXCEPT ![j][at[j] + 1] = now]                 \* taken off the track at once
             /\ was' = <<"arrive", j>>
             /\ UNCHANGED <<X, i, d, safe, now>>

(* Of several events at one moment those come first that leave a track free:
   departures, then trains that stay for no time, then the others.            *)
Passing(j) == \/ st[j] = "out" /\ Decides(I, j, Here(j)) /\ d[X.ix[<<j, Here(j)>>]] = 0
              \/ st[j] = "run" /\ ~Decides(I, j, There(j)) /\ ~Gives(I, j, There(j))
Rank(j) == IF st[j] = "in" THEN 1 ELSE IF Passing(j) THEN 2 ELSE 3
Event(j) == Appear(j) \/ Depart(j) \/ Arrive(j)
Now == {j \in J : Due(j) = now}
Turn(j) == \A k \in Now : Rank(k) < Rank(j) => ~ENABLED Event(k)
Next == Clock \/ \E j \in Now : Turn(j) /\ Event(j)

View == <<i, d, now, at, st, dep, arr>>
OnlySafeComplete == Complete => safe
SafeNeverStuck == safe => Complete \/ ENABLED Next
Seen == Complete => PrintT("DONE " \o ToJson(<<i>>))
============================================================================
