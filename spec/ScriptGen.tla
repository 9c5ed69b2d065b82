----------------------------- MODULE ScriptGen -----------------------------
(* Draws configurations: Per runs of every case of every script.             *)
EXTENDS Scripts, Json
CONSTANTS PerReal, PerGlc, PerWisla
VARIABLES f, done
Per(s) == CASE s = "real" -> PerReal [] s = "glc" -> PerGlc [] OTHER -> PerWisla
Init == /\ \E s \in Scripts : \E c \in CasesOf(s) : \E k \in 1..Per(s) : f = <<s, c, k>>
        /\ done = FALSE
(* either a linear solver or a sampler, now and then both or none *)
Next == /\ ~done /\ done' = TRUE
        /\ \E s \in {f[1]}, c \in {f[2]}, k \in {f[3]}, dice \in {Pick(1..100)} :
           \E q \in {IF k % 2 = 1 THEN (IF dice <= 8 THEN "cqm" ELSE "") ELSE Pick({"sim", "real", "bqm", "cqm"})} :
           \E lp \in {IF k % 2 = 0 /\ dice > 15 THEN "" ELSE IF dice > 95 THEN "" ELSE Pick({"PULP_CBC_CMD", "CPLEX_CMD", "GUROBI_CMD"})} :
           \E cat \in {IF s # "wisla" /\ q = "" THEN Pick({"Integer", "Continuous"}) ELSE "Integer"} :
           \E show \in {IF s = "glc" THEN "F" ELSE Pick({"T", "F"})} :
           \E short \in {Pick({"T", "F"})} :      \* settings that are the default are left out
           \E mint \in {IF short = "T" /\ Chance(60) THEN 5 ELSE Pick({5, 6, 20, 180})}, runs \in {IF short = "T" /\ Chance(60) THEN 1 ELSE Pick({1, 2, 3})},
              pen \in {IF short = "T" /\ Chance(60) THEN 1000 ELSE Pick({500, 1000, 1750, 3250})} :
           \E tlim \in {IF s = "real" THEN 0 ELSE Pick({0, 0, 30000, 7000})} :
              PrintT("CFG " \o ToJson(Config(s, c, q, lp, cat, mint, runs, pen, show, tlim, k) @@ [per |-> Per(s), short |-> short, pens |-> Penalties([script |-> s, pen |-> pen])]))
        /\ UNCHANGED f
=============================================================================
