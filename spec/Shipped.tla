------------------------------ MODULE Shipped ------------------------------
(* What the shipped data sets promise to the tools (C35): a station table, a
   network and a timetable that fit together.
     w       the data set as a world: stations [name, tracks], links
             [a, b, rab, icab, rba, icba, sw] (times in milli-minutes, -1: not
             allowed), trains with rows [b, sp, app, arr, dep, shunt, turn]
     script  the station table made by the script next to the stored one     *)
EXTENDS Util, Json, IOUtils
CONSTANT Prop
VARIABLES l, done
Trace == ndJsonDeserialize(IOEnv.TRACE)

Table(st) == {<<st[i].name, Rng(st[i].tracks)>> : i \in DOMAIN st}
Blocks(links) == {links[i].a : i \in DOMAIN links} \cup {links[i].b : i \in DOMAIN links}
Stored(r) ==
   LET st == r.w.stations  net == Blocks(r.w.links) IN
   Fail("table.script", Table(st) = Table(r.script), <<r.name, "stored", Table(st) \ Table(r.script), "script", Table(r.script) \ Table(st)>>)
   \cup UNION {UNION {Fail("table.block", st[i].tracks[k] \in net, <<r.name, st[i].name, st[i].tracks[k]>>) : k \in DOMAIN st[i].tracks} : i \in DOMAIN st}
   \cup Fail("table.once", \A i, j \in DOMAIN st : i # j => Rng(st[i].tracks) \cap Rng(st[j].tracks) = {}, r.name)
   \cup Fail("table.repeat", \A i \in DOMAIN st : NoDup(st[i].tracks), r.name)

Joins(k, a, b) == {k.a, k.b} = {a, b}
Network(r) ==
   LET L == r.w.links IN
   Fail("network.self", \A i \in DOMAIN L : L[i].a # L[i].b, {L[i] : i \in {j \in DOMAIN L : L[j].a = L[j].b}})
   \cup LET pairs == {<<i, j>> \in (DOMAIN L) \X (DOMAIN L) : i < j /\ {L[i].a, L[i].b} = {L[j].a, L[j].b}} IN
        Fail("network.once", pairs = {}, {<<L[p[1]].a, L[p[1]].b>> : p \in pairs})
   \cup UNION {Fail("network.time", \A t \in {L[i].rab, L[i].icab, L[i].rba, L[i].icba} : t = -1 \/ t > 0, L[i]) : i \in DOMAIN L}
   \cup UNION {Fail("network.class", L[i].rab = -1 <=> L[i].icab = -1, L[i]) : i \in DOMAIN L}

(* a route runs over links, in an allowed direction, through each block once *)
Way(k, a, sp) == IF k.a = a THEN (IF sp = "R" THEN k.rab ELSE k.icab) ELSE (IF sp = "R" THEN k.rba ELSE k.icba)
Times(rows) == LET all == Cat([i \in DOMAIN rows |-> <<rows[i].app, rows[i].arr, rows[i].dep>>]) IN SelectSeq(all, LAMBDA t : t # -1)
Train(r, t) ==
   LET rows == t.rows
       at(b) == {i \in DOMAIN r.w.stations : b \in Rng(r.w.stations[i].tracks)}
       stops == SelectSeq(rows, LAMBDA x : at(x.b) # {})
       ts == Times(rows)
   IN UNION {LET hit == SelectSeq(r.w.links, LAMBDA k : Joins(k, rows[i].b, rows[i + 1].b)) IN
             IF hit = <<>> THEN Fail("route.link", FALSE, <<r.name, t.no, rows[i].b, rows[i + 1].b>>)
             ELSE Fail("route.way", Way(hit[1], rows[i].b, rows[i].sp) > 0, <<r.name, t.no, rows[i].b, rows[i + 1].b, rows[i].sp>>) : i \in 1..(Len(rows) - 1)}
      \cup Fail("route.once", Cardinality({rows[i].b : i \in DOMAIN rows}) = Len(rows), <<r.name, t.no>>)
      \cup Fail("route.speed", \A i \in DOMAIN rows : rows[i].sp \in {"R", "IC"}, <<r.name, t.no>>)
      \cup Fail("route.shunting", \A i \in DOMAIN rows : rows[i].shunt \in {"Y", "N", ""}, <<r.name, t.no>>)
      \cup Fail("route.stations", Len(stops) >= 2 /\ \A i, j \in DOMAIN stops : i # j => at(stops[i].b) # at(stops[j].b), <<r.name, t.no, [i \in DOMAIN stops |-> stops[i].b]>>)
      \cup Fail("times.order", \A i \in 1..(Len(ts) - 1) : ts[i] <= ts[i + 1], <<r.name, t.no, ts>>)
      \cup Fail("times.some", ts # <<>>, <<r.name, t.no>>)
      \cup Fail("turn.station", \A i \in DOMAIN rows : rows[i].turn > 0 => at(rows[i].b) # {}, <<r.name, t.no>>)

Judge(r) == Stored(r) \cup Network(r) \cup UNION {Train(r, r.w.trains[i]) : i \in DOMAIN r.w.trains}
Init == l \in DOMAIN Trace /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED l
        /\ \E bad \in {Judge(Trace[l])} : PrintT("V " \o ToJson([i |-> l, bad |-> bad]))
=============================================================================
