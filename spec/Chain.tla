------------------------------- MODULE Chain -------------------------------
(* From a world to the dispatching problem posed by it: which trains follow,
   meet, share tracks, switches and stock is read off the block routes of
   the timetable file; times are the exact ones rounded to minutes.          *)
EXTENDS Util
Wd == INSTANCE Scheduling

Name(n) == ToString(n)
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SeqOf(S \ {x})

Key2(n, s)       == Name(n) \o "_" \o s
Key3(n, s, t)    == Key2(n, s) \o "_" \o t
Key4(n, m, s, t) == Name(n) \o "_" \o Name(m) \o "_" \o s \o "_" \o t

Legs(V) == UNION {{<<n, V.sts[n][i], V.sts[n][i + 1]>> : i \in 1..(Len(V.sts[n]) - 1)} : n \in Wd!Trains(V)}
Stops(V) == UNION {{<<n, s>> : s \in {s \in Rng(V.sts[n]) : Wd!GoesOn(V, n, s)}} : n \in Wd!Trains(V)}
FollowGroups(V) == UNION {{<<l[1], l[2], G>> : G \in Wd!HeadwayGroups(V, l[1], l[2])} : l \in Wd!DirectLegs(V)}
Followers(V) == UNION {{<<p[1], p[2], g[1], g[2]>> : p \in {p \in g[3] \X g[3] : p[1] # p[2]}} : g \in FollowGroups(V)}
Meetings(V) == {LET x == CHOOSE x \in S : TRUE  y == CHOOSE y \in S : y # x IN <<x[2], x[3], x[1], y[1]>> : S \in Wd!OpposingSet(V, Wd!Stations(V))}
Turns(V) == UNION {Wd!HandOvers(V, p) : p \in Wd!Pairs9(V)}
PlatformGroups(V) == UNION {{<<s, G>> : G \in Wd!TrackGroups(V, s)} : s \in Wd!Stations(V)}
SwitchPairs(V) == UNION {{LET x == CHOOSE x \in S : TRUE  y == CHOOSE y \in S : y # x IN <<s, x, y>> : S \in Wd!SwitchConflicts(V, s)} : s \in Wd!Stations(V)}

(* worlds in which the rules are unambiguous                                 *)
Clear(V) ==
   /\ \A p \in Wd!Pairs9(V) : Cardinality(Wd!HandOvers(V, p)) = 1
   /\ \A h \in Turns(V) : h[1] # "" /\ Wd!HasPrep(V, h[3])
   /\ \A h, g \in Turns(V) : (h # g) => (h[2] # g[2] /\ h[3] # g[3])
   /\ \A l \in Wd!DirectLegs(V) : \A p \in Wd!Running(V, l[1], l[2]) \X Wd!Running(V, l[2], l[1]) : ~Wd!PartialOverlap(V, p[1], p[2], l[1], l[2])

(* the recorded times (functions keyed by text) against the exact ones       *)
Timed(what, tab, key, exact) ==
   IF key \notin DOMAIN tab THEN Fail("times." \o what, FALSE, <<key, "missing, want", exact>>)
   ELSE Fail("times." \o what, RoundsTo(exact, tab[key]), <<key, "want", exact, "got", tab[key]>>)
Times(V, tau) ==
   UNION {Timed("pass", tau.pass, Key3(x[1], x[2], x[3]), Wd!RunTime(V, x[1], x[2], x[3])) : x \in Legs(V)}
   \cup UNION {Timed("stop", tau.stop, Key2(x[1], x[2]), Wd!StopTime(V, x[1], x[2])) : x \in Stops(V)}
   \cup UNION {Timed("prep", tau.prep, Key2(x[3], x[1]), Wd!PrepTime(V, x[3])) : x \in Turns(V)}
   \cup UNION {Timed("headway", tau.headway, Key4(x[1], x[2], x[3], x[4]), Wd!Headway(V, x[1], x[2], x[3], x[4])) : x \in Followers(V)}

Late(delays, n) == SeqSum([i \in DOMAIN delays |-> IF delays[i].no = n THEN delays[i].d ELSE 0])
Tab(S, key(_), val(_)) == [k \in {key(x) : x \in S} |-> val(CHOOSE x \in S : key(x) = k)]

(* the dispatching problem (module Dispatching)                              *)
Problem(V, tau, delays, dmax) ==
   LET T == Wd!Trains(V)
       calls == UNION {{<<n, s>> : s \in {s \in Rng(V.sts[n]) : Wd!Scheduled(V, n, s)}} : n \in T}
       jd == SeqOf(FollowGroups(V))
       ms == SeqOf(Meetings(V))
       hs == SeqOf(Turns(V))
       ps == SeqOf(PlatformGroups(V))
       ws == SeqOf(SwitchPairs(V))
       es == SeqOf({n \in T : Wd!EndsInside(V, n) # ""})
   IN TLCEval([
     J |-> [i \in DOMAIN V.J |-> Name(V.J[i])],
     paths |-> [k \in {Name(n) : n \in T} |-> V.sts[CHOOSE n \in T : Name(n) = k]],
     jd |-> [i \in DOMAIN jd |-> [s |-> jd[i][1], t |-> jd[i][2], g |-> SeqOf({Name(n) : n \in jd[i][3]})]],
     single |-> [i \in DOMAIN ms |-> [s |-> ms[i][1], t |-> ms[i][2], j |-> Name(ms[i][3]), k |-> Name(ms[i][4])]],
     round |-> [i \in DOMAIN hs |-> [s |-> hs[i][1], j |-> Name(hs[i][2]), k |-> Name(hs[i][3])]],
     track |-> [i \in DOMAIN ps |-> [s |-> ps[i][1], g |-> SeqOf({Name(n) : n \in ps[i][2]})]],
     switch |-> [i \in DOMAIN ws |-> [s |-> ws[i][1], j |-> Name(ws[i][2][1]), r |-> ws[i][2][2], k |-> Name(ws[i][3][1]), q |-> ws[i][3][2]]],
     skip |-> [i \in DOMAIN es |-> [j |-> Name(es[i]), s |-> Wd!EndsInside(V, es[i])]],
     addsw |-> <<>>, hassched |-> "T",
     pass |-> tau.pass, stop |-> tau.stop, prep |-> tau.prep, headway |-> tau.headway,
     init |-> Tab(T, LAMBDA n : Key2(n, Wd!FirstSt(V, n)), LAMBDA n : Wd!Initial(V, n) + Late(delays, n)),
     sched |-> Tab(calls, LAMBDA x : Key2(x[1], x[2]), LAMBDA x : Wd!Planned(V, x[1], x[2])),
     res |-> 1000, dmax |-> dmax, unit |-> 1000])
============================================================================
