------------------------------ MODULE StatsGen ------------------------------
(* Draws sets of result files.                                               *)
EXTENDS Stats, Json
CONSTANTS PerKind
VARIABLES f, done
Kinds == {"stats", "fast", "lim", "tmin", "rev"}
Spots == Rng(Considered) \cup {"K", "KO(IC)", "GLC", "Ty", "KO1"}
Stop(x) == [s |-> Pick(Spots), d |-> IF Chance(20) THEN NA ELSE IF Chance(40) THEN 0 ELSE Pick(-3..50)]
Stops(x) == [i \in 1..Pick(1..5) |-> Stop(i)]
Single(st) == Cat([i \in DOMAIN st |-> IF \E j \in 1..(i - 1) : st[j].s = st[i].s THEN <<>> ELSE <<st[i]>>])
All(x) == [i \in DOMAIN Considered |-> [s |-> Considered[i], d |-> Pick(0..30)]]
Trains(x) == [i \in 1..Pick(1..4) |-> [n |-> 100 + i, st |-> Stops(i)]]
Clean(ts, all) == <<[n |-> 99, stops |-> all]>> \o [i \in DOMAIN ts |-> [n |-> ts[i].n, stops |-> Single(ts[i].st)]]

Ok(p) == IF Chance(p) THEN "T" ELSE "F"
Run(p) == [obj |-> Pick(0..7000), run |-> Pick(490000..2100000), qpu |-> Pick(0..9000), ok |-> Ok(p)]
Sample(x, n) == [dmax |-> Pick({10, 40, 20}), inst |-> [i \in 1..n |-> Run(70)]]
Solved(x, n) == [i \in 1..n |-> [obj |-> Pick(0..400000), time |-> Pick(1..20000), ok |-> Ok(85), iv |-> Pick(10..60), ov |-> Pick(5..90), con |-> Pick(40..900)]]

Line(x, lim, n) == [lim |-> lim, q |-> [k \in 1..2 |-> Sample(k, n)], exact |-> Solved(1, n), limited |-> Solved(2, n)]
Put(x) == PrintT("SET " \o ToJson(x))
Init == f \in Kinds \X (1..PerKind) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED f
        /\ CASE f[1] = "stats" ->
                  \E raw \in {[k \in 1..10 |-> [q |-> [r \in 1..(IF Chance(30) THEN Pick(4..8) ELSE Pick(1..3)) |-> [all |-> All(r), ts |-> Trains(r)]], c |-> [all |-> All(k), ts |-> Trains(k)]]]} :
                     Put([kind |-> "stats", cases |-> [k \in 1..10 |-> [q |-> [r \in DOMAIN raw[k].q |-> Clean(raw[k].q[r].ts, raw[k].q[r].all)], c |-> Clean(raw[k].c.ts, raw[k].c.all)]]])
             [] f[1] \in {"fast", "lim"} ->
                  \E n \in {[k \in 1..3 |-> Pick(1..16)]} : Put([kind |-> f[1], lines |-> [k \in 1..3 |-> Line(k, IF f[1] = "lim" THEN "T" ELSE "F", n[k])]])
             [] OTHER -> \E p \in {IF Chance(75) THEN 100 ELSE 97} :
                     Put([kind |-> f[1], cases |-> [c \in 1..2 |-> [runs |-> [k \in 1..10 |-> [i \in 1..Pick(1..8) |-> Run(p)]]]]])
=============================================================================
