---------------------------- MODULE DiagramGen -----------------------------
(* Draws solution files and diagram requests.                                *)
EXTENDS Diagram, Json
CONSTANTS Files
VARIABLES k, done
Names == UNION {{Segments[g].st[i].name : i \in DOMAIN Segments[g].st} : g \in DOMAIN Segments} \ {"Katowice", "Katowice Stacja Manewrowa"}
Signs == UNION {{Segments[g].st[i].sign : i \in DOMAIN Segments[g].st} : g \in DOMAIN Segments} \ {""}
Off   == {"MJ", "Mi", "KO(IC)", "KO(KS)", "CM", "Gl", "K", "KT", "C", "T", "Tych", "KO1", "KO(STM", "Katowice Ligota 2", "Chorzo'w"}
Numbers == {44862, 4486, 862, 44717, 94766, 94767, 9476, 4, 140, 14}

Spot(seg) == LET d == Pick(1..100) IN
   CASE d <= 45 -> Pick({Segments[seg].st[i].sign : i \in DOMAIN Segments[seg].st} \ {""})
     [] d <= 65 -> Pick(Signs) [] d <= 75 -> "KO" [] d <= 88 -> Pick(Names) [] OTHER -> Pick(Off)
Variant(seg) == LET d == Pick(1..10) IN CASE d <= 7 -> "as" [] d = 8 -> "upper" [] OTHER -> "lower"

(* Random numbers of a train first (they are drawn once), the train from them. *)
Dice(seg) == [n |-> Pick(Numbers), t |-> Pick({380, 1400}), first |-> Pick(1..10), last |-> Pick(1..10), gap |-> Pick(1..30),
              x |-> [j \in 1..Pick(1..7) |-> [s |-> Spot(seg), v |-> Variant(seg), run |-> Pick(1..26), stay |-> Pick(0..9), drift |-> Pick(-9..9), cstay |-> Pick(0..9)]]]

(* stops: arrivals go up, conflicted times drift around them; no station twice *)
RECURSIVE Go(_, _, _, _)
Go(x, j, seen, t) ==
   IF j > Len(x) THEN <<>>
   ELSE IF x[j].s \in seen THEN Go(x, j + 1, seen, t)
   ELSE LET a == t + x[j].run  c == a + x[j].drift IN
        <<[s |-> x[j].s, v |-> x[j].v, ra |-> a, rd |-> a + x[j].stay, ca |-> c, cd |-> c + x[j].cstay]>> \o Go(x, j + 1, seen \cup {x[j].s}, a + x[j].stay)
(* no arrival at the first stop, no departure at the last one, now and then a hole *)
Train(d) ==
   LET st == Go(d.x, 1, {}, d.t)
       start(i) == i = 1 /\ d.first > 1
       end(i) == (i = Len(st) /\ d.last > 2) \/ d.gap = i
   IN [n |-> d.n, stops |-> [i \in DOMAIN st |->
         [st[i] EXCEPT !.ra = IF start(i) THEN NA ELSE @, !.ca = IF start(i) \/ d.gap = i + 10 THEN NA ELSE @,
                       !.rd = IF end(i) THEN NA ELSE @, !.cd = IF end(i) THEN NA ELSE @]]]
Once(ds) == LET keep == {i \in DOMAIN ds : \A j \in 1..(i - 1) : ds[j].n # ds[i].n}
            IN Cat([i \in DOMAIN ds |-> IF i \in keep THEN <<Train(ds[i])>> ELSE <<>>])

Init == k \in 1..Files /\ done = FALSE
Next == /\ ~done /\ done' = TRUE
        /\ \E seg \in {Pick(DOMAIN Segments)}, sampled \in {Pick({"T", "F"})}, shuffle \in {Pick({"T", "F", "F"})} :
           \E nr \in {IF sampled = "T" THEN (IF Chance(25) THEN Pick(4..8) ELSE Pick(1..3)) ELSE 1} :
           \E dice \in {[r \in 1..nr |-> [i \in 1..Pick(1..5) |-> Dice(seg)]]} :
           \E reals \in {[r \in 1..nr |-> Once(dice[r])]} :
           \E real \in {IF sampled = "T" THEN Pick(1..nr) ELSE Pick({0, 1, 2})} :
           \E fixed \in {LET d == IF Chance(25) THEN Pick(3..6) ELSE Pick(0..2) IN [i \in 1..d |-> Pick(Numbers)]} :
           \E name \in {IF sampled = "T" THEN Pick({"cqm5_case3_Integer.pkl", "sim_case1_Integer.pkl", "bqm_11.0_case8_Integer.pkl", "real_case0.pkl"})
                                         ELSE Pick({"PULP_CBC_CMD_case3_Integer.pkl", "CPLEX_CMD_case7_Integer.pkl", "cqm_study/GUROBI_CMD_case2_Integer.pkl", "Continuous.pkl"})} :
              PrintT("FILE " \o ToJson([seg |-> seg, id |-> Segments[seg].id, sampled |-> sampled, real |-> real, reals |-> reals, fixed |-> fixed, name |-> name,
                                        shuffle |-> shuffle, keys |-> Pick({"int", "int", "str"}), eps |-> Pick({"", "", "fig.eps"}), bw |-> Pick({"T", "F"})]))
        /\ UNCHANGED k
=============================================================================
