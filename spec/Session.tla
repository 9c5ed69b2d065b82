------------------------------ MODULE Session ------------------------------
(* Sessions: calls on shared objects, several scenarios in one process.
   Every call reads objects of one scenario and may create one more object of
   that scenario; nothing else changes, and a call on the same objects always
   gives the same answer.  TLC walks the machine (-simulate) and prints the
   histories that the recorder replays; TraceSession judges what happened.   *)
EXTENDS Util, Json

CONSTANTS Scenarios, MaxLen

Given == {"td", "st", "net", "some", "pen"}      \* some: a list of stations, pen: penalties
Op(n, needs, makes) == [n |-> n, needs |-> needs, makes |-> makes]
Table == {Op("J", {"td"}, ""), Op("Paths", {"td"}, ""), Op("jd", {"td", "st"}, ""), Op("josingle", {"td", "st"}, ""),
   Op("jround", {"td", "st"}, ""), Op("jtrack", {"td", "st"}, ""), Op("jswitch", {"td", "st", "net"}, ""),
   Op("pass", {"td"}, ""), Op("headway", {"td", "st"}, ""), Op("prep", {"td", "st"}, ""), Op("stop", {"td", "st"}, ""),
   Op("initial", {"td"}, ""), Op("schedule", {"td"}, ""), Op("pair9", {"td"}, ""), Op("blocks", {"td"}, ""), Op("common", {"td"}, ""),
   Op("atstation", {"td", "st"}, ""), Op("passing", {"td"}, ""), Op("next", {"td"}, ""), Op("own", {"td", "st"}, ""),
   Op("connected", {"td", "net"}, ""), Op("stations", {"td"}, ""), Op("times", {"td"}, ""), Op("weights", {"td", "skip"}, ""),
   Op("somejd", {"td", "st", "some"}, ""), Op("somesingle", {"td", "st", "some"}, ""), Op("sometrack", {"td", "st", "some"}, ""),
   Op("someswitch", {"td", "st", "net", "some"}, ""), Op("somepass", {"td"}, ""), Op("leaving", {"td", "st"}, ""),
   Op("blockset", {"td"}, ""), Op("stationset", {"td"}, ""),
   Op("taus", {"td", "st"}, "taus"), Op("skip", {"td"}, "skip"), Op("timetable", {"td", "st", "skip", "taus"}, "tt"),
   Op("trainset", {"td", "st", "net", "skip"}, "ts"), Op("delay", {"tt"}, "late"),
   Op("model", {"ts", "tt"}, "prob"), Op("latemodel", {"ts", "late"}, "lateprob"), Op("solve", {"ts", "tt"}, "solved"), Op("latesolve", {"ts", "late"}, "latesolved"),
   Op("orders", {"ts"}, ""), Op("delays", {"ts"}, ""), Op("earliest", {"ts", "tt"}, ""), Op("size", {"prob"}, ""), Op("checksize", {"solved"}, ""),
   Op("report", {"solved", "tt", "ts", "taus", "skip"}, ""), Op("latereport", {"latesolved", "late", "ts", "taus", "skip"}, ""),
   Op("impact", {"solved", "tt", "ts"}, ""), Op("actual", {"solved", "tt", "ts"}, ""),
   Op("cqm", {"prob"}, "cqm"), Op("bqm", {"prob", "pen"}, "bqm"), Op("fields", {"bqm"}, ""),
   Op("sampleset", {"prob"}, "set"), Op("results", {"set", "prob"}, "res"), Op("best", {"res"}, ""), Op("value", {"prob", "set"}, ""),
   Op("analyse", {"prob", "set"}, ""), Op("anneal", {"bqm"}, ""), Op("hybrid", {"bqm"}, ""), Op("constrained", {"cqm"}, ""),
   Op("external", {"prob", "set", "tt", "ts", "taus", "skip"}, ""),
   Op("quantum-sim", {"prob", "pen"}, ""), Op("quantum-cqm", {"prob", "pen"}, "")}
Ops == {o.n : o \in Table}
OpOf(n) == CHOOSE o \in Table : o.n = n
Makes(n) == OpOf(n).makes

VARIABLES have, hist
Init == have = [s \in Scenarios |-> Given] /\ hist = <<>>
Ready(s) == {o \in Table : o.needs \subseteq have[s]}
(* building calls are preferred until most objects exist, so that walks get everywhere *)
Choice(s) == LET new == {o \in Ready(s) : o.makes # "" /\ o.makes \notin have[s]}
                 late == {o \in Ready(s) : o.needs \cap Given = {}}
             IN CASE new # {} /\ Chance(30) -> new
                  [] late # {} /\ Chance(40) -> late
                  [] OTHER -> Ready(s)
Next == /\ Len(hist) < MaxLen
        /\ \E s \in {Pick(Scenarios)} : \E o \in {Pick(Choice(s))} :
              /\ have' = [have EXCEPT ![s] = @ \cup (IF o.makes = "" THEN {} ELSE {o.makes})]
              /\ hist' = Append(hist, [sc |-> s, op |-> o.n])
              /\ (Len(hist') = MaxLen => PrintT("SESS " \o ToJson(hist')))
(* every call of a history has its objects made by earlier calls of its own scenario *)
NeedsMet == \A k \in DOMAIN hist : \A n \in OpOf(hist[k].op).needs \ Given :
               \E i \in 1..(k - 1) : hist[i].sc = hist[k].sc /\ Makes(hist[i].op) = n
============================================================================
