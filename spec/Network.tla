------------------------------ MODULE Network ------------------------------
(* The static infrastructure of a world w:
     w.stations : sequence of [name, tracks]
     w.links    : sequence of [a, b, rab, icab, rba, icba, sw]
   Running times are in milli-minutes; rab/icab are for a train running from
   a to b, rba/icba for a train running from b to a.                        *)
EXTENDS Util

StationNames(w) == {w.stations[i].name : i \in DOMAIN w.stations}

(* station owning each track; "" for every other block                      *)
TrackOwner(w) ==
   LET bs == UNION {Rng(w.stations[i].tracks) : i \in DOMAIN w.stations}
   IN TLCEval([b \in bs |-> w.stations[CHOOSE i \in DOMAIN w.stations : b \in Rng(w.stations[i].tracks)].name])
OwnerOf(owner, b) == IF b \in DOMAIN owner THEN owner[b] ELSE ""

(* index of the link joining two blocks, keyed by the unordered pair        *)
LinkIndex(w) ==
   TLCEval([p \in {{w.links[i].a, w.links[i].b} : i \in DOMAIN w.links}
            |-> CHOOSE i \in DOMAIN w.links : {w.links[i].a, w.links[i].b} = p])

Joined(lix, x, y) == x # y /\ {x, y} \in DOMAIN lix

(* NoRun marks a direction in which the link cannot be used                 *)
NoRun == -1
(* running time over block x when the train goes on to block y              *)
LinkTime(w, lix, x, y, speed) ==
   LET l == w.links[lix[{x, y}]]
   IN IF l.a = x THEN (IF speed = "R" THEN l.rab ELSE l.icab)
                 ELSE (IF speed = "R" THEN l.rba ELSE l.icba)

Usable(w, lix, x, y, speed) == Joined(lix, x, y) /\ LinkTime(w, lix, x, y, speed) # NoRun

LinkSwitches(w, lix, x, y) == IF Joined(lix, x, y) THEN Rng(w.links[lix[{x, y}]].sw) ELSE {}

(* C05: a route is accepted iff each two consecutive blocks are joined      *)
Connected(lix, route) == \A i \in 1..(Len(route) - 1) : Joined(lix, route[i], route[i + 1])
(* C02: a route can be run iff each step is a link usable that way          *)
Runnable(w, lix, route, sp) == \A i \in 1..(Len(route) - 1) : Usable(w, lix, route[i], route[i + 1], sp[i])
============================================================================
