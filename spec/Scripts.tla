------------------------------ MODULE Scripts ------------------------------
(* The scenario scripts as a specification: which files a case reads, which
   trains it disturbs by how much, with which limits it builds its models,
   what is handed to which solver and which files hold the results.
   Times in milli-minutes.                                                   *)
EXTENDS Util

D(n, v) == [n |-> n, v |-> v]
Pens(p, circ) == [minimal_span |-> p, single_line |-> p, minimal_stay |-> p, track_occupation |-> p,
                  switch |-> p, occupation |-> p, circulation |-> circ, objective |-> 1000]

-----------------------------------------------------------------------------
(* solve_real_problem: ten cases on four timetables of the whole network     *)
RealCases == 0..9
RealFiles(c) ==
   CASE c \in 0..3 -> <<"data/important_stations.npz", "data/trains_schedules.csv">>
     [] c \in 4..5 -> <<"data/important_stations_Gt.npz", "data/trains_schedules_Gt.csv">>
     [] c = 6      -> <<"data/important_stations.npz", "data/trains_schedules_1track.csv">>
     [] OTHER      -> <<"data/important_stations_Gt.npz", "data/trains_schedules_1track_Gt.csv">>
Fourteen == <<D(94766, 30), D(26013, 12), D(5312, 18), D(40518, 5), D(34319, 30), D(14006, 23), D(40150, 3),
              D(41004, 21), D(45101, 35), D(4500, 10), D(49317, 25), D(64359, 7), D(44862, 5), D(73000, 16)>>
RealLate(c) ==
   CASE c \in {0, 4} -> <<>>
     [] c = 1 -> <<D(14006, 12)>>
     [] c = 2 -> <<D(94766, 15), D(40518, 12), D(41004, 13), D(44862, 6), D(4120, 21)>>
     [] c \in {3, 5, 6, 7} -> Fourteen
     [] c = 8 -> <<D(94766, 28), D(26013, 10), D(42009, 12), D(5312, 7), D(34319, 30), D(14006, 13), D(94611, 3),
                   D(40150, 10), D(41004, 28), D(45101, 30), D(94113, 11), D(40673, 5), D(54101, 7)>>
     [] OTHER -> <<D(94766, 30), D(26013, 11), D(42009, 15), D(5312, 19), D(40518, 5), D(34319, 28), D(14006, 21), D(40150, 4),
                   D(41004, 21), D(45101, 34), D(4500, 11), D(49317, 25), D(64359, 7), D(44862, 5), D(73000, 5)>>

(* solve_KO_GLC_problems: twelve instances of each of three timetables       *)
GlcCases == 1..3
GlcFiles(c) ==
   CASE c = 1 -> <<"data/KO_GLC/important_stations_KO_GLC.npz", "data/KO_GLC/trains_schedules_KO_GLC.csv">>
     [] c = 2 -> <<"data/KO_GLC/important_stations_KO_GLC_R.npz", "data/KO_GLC/trains_schedules_KO_RCB_ZZ_GLC.csv">>
     [] OTHER -> <<"data/KO_GLC/important_stations_KO_GLC_R.npz", "data/KO_GLC/trains_schedules_KO_RCB_ZZ_GLC_v2.csv">>
Dense(k, J) ==
   CASE k = 0 -> <<>>
     [] k = 1 -> <<D(4602, 2)>>
     [] k = 2 -> <<D(6401, 3), D(4604, 13)>>
     [] k = 3 -> <<D(1, 2), D(3, 2), D(5, 7)>>
     [] k = 4 -> <<D(2, 2), D(4, 2), D(6405, 3), D(6407, 3)>>
     [] k = 5 -> <<D(1, 5), D(2, 3), D(3, 7), D(4, 2), D(5, 1), D(6401, 2)>>
     [] k = 6 -> <<D(3, 7), D(4, 2), D(5, 1), D(23, 6), D(1, 6), D(6407, 2), D(101, 4), D(4602, 7)>>
     [] k = 7 -> <<D(1, 5), D(11, 3), D(21, 3), D(25, 2), D(2, 4), D(4, 6), D(6, 6), D(8, 3), D(10, 3), D(22, 6), D(24, 1)>>
     [] k = 8 -> <<D(1, 3), D(2, 5), D(3, 7), D(4, 25), D(5, 8), D(6, 12), D(7, 17), D(23, 4), D(25, 3), D(24, 8), D(10, 4), D(6401, 3), D(6403, 7), D(101, 8)>>
     [] k = 9 -> <<D(2, 3), D(4602, 1), D(4, 10), D(102, 2), D(6, 15), D(8, 7), D(4604, 4), D(10, 1), D(12, 7), D(1, 10), D(101, 8), D(3, 2),
                   D(6401, 6), D(5, 15), D(7, 1), D(103, 30), D(9, 7), D(6403, 8)>>
     [] k = 10 -> [i \in DOMAIN J |-> D(J[i], J[i] % 3)]
     [] OTHER  -> [i \in DOMAIN J |-> D(J[i], J[i] % 10)]
Sparse(k) ==
   CASE k = 0 -> <<>>
     [] k = 1 -> <<D(2, 18)>>
     [] k = 2 -> <<D(2, 36), D(4602, 20)>>
     [] k = 3 -> <<D(101, 18), D(1, 29), D(3, 25)>>
     [] k = 4 -> <<D(101, 18), D(1, 29), D(3, 25), D(5, 15), D(2, 18)>>
     [] k = 5 -> <<D(101, 18), D(1, 29), D(3, 25), D(5, 15), D(2, 36), D(4602, 20), D(9, 12)>>
     [] k = 6 -> <<D(101, 18), D(1, 29), D(3, 25), D(5, 15), D(2, 36), D(4602, 20), D(9, 12), D(103, 15), D(10, 50), D(4606, 30)>>
     [] k = 7 -> <<D(2, 50), D(4602, 32), D(4, 10), D(102, 5), D(1, 12), D(101, 10)>>
     [] k = 8 -> <<D(2, 90), D(4602, 72), D(4, 72), D(102, 45), D(4604, 10), D(101, 47), D(6401, 35), D(3, 20)>>
     [] k = 9 -> <<D(2, 90), D(4602, 72), D(4, 72), D(102, 45), D(4604, 10), D(101, 47), D(6401, 35), D(6403, 20), D(5, 25), D(103, 30), D(3, 60), D(10, 25)>>
     [] k = 10 -> <<D(1, 29), D(2, 36), D(4602, 20), D(9, 12), D(4606, 30), D(102, 45), D(101, 47), D(6401, 35), D(6403, 20), D(5, 25),
                    D(103, 30), D(3, 60), D(4604, 10), D(10, 25)>>
     [] OTHER -> <<D(2, 92), D(4602, 70), D(4, 72), D(102, 46), D(101, 45), D(6401, 33), D(6403, 20), D(5, 25), D(103, 28), D(3, 59), D(4604, 12), D(10, 25)>>

-----------------------------------------------------------------------------
(* wisla_problems: one hand-written single-track line 1 - 3 - 5 - 10         *)
Up == <<"Ks1", "Ks3", "Ic1">>        \* 1 -> 10
Down == <<"Ks2", "Ks4", "Ic2">>      \* 10 -> 1
Legs == {<<"1", "3">>, <<"3", "5">>, <<"5", "10">>}
WPath(j) == IF j \in Rng(Up) THEN <<"1", "3", "5", "10">> ELSE <<"10", "5", "3", "1">>
WRun(j, l) == LET ic == j \in {"Ic1", "Ic2"} IN
   CASE l = <<"1", "3">> -> 4000 [] l = <<"3", "5">> -> (IF ic THEN 4000 ELSE 6000) [] OTHER -> (IF ic THEN 5000 ELSE 6000)
K(k, v) == [k |-> k, v |-> v]
N3(j, a, b) == j \o "_" \o a \o "_" \o b
Flip(l) == <<l[2], l[1]>>
Wisla == [
   paths  |-> {[j |-> j, p |-> WPath(j)] : j \in Rng(Up) \cup Rng(Down)},
   skip   |-> {[j |-> j, s |-> Last(WPath(j))] : j \in Rng(Up) \cup Rng(Down)},
   jd     |-> {[s |-> l[1], t |-> l[2], g |-> Rng(Up)] : l \in Legs} \cup {[s |-> l[2], t |-> l[1], g |-> Rng(Down)] : l \in Legs},
   single |-> {[s |-> l[1], t |-> l[2], a |-> a, b |-> b] : l \in Legs, a \in Rng(Up), b \in Rng(Down)},
   round  |-> {[s |-> "10", a |-> "Ic1", b |-> "Ic2"]},
   pass   |-> {K(N3(j, l[1], l[2]), WRun(j, l)) : j \in Rng(Up), l \in Legs} \cup {K(N3(j, l[2], l[1]), WRun(j, l)) : j \in Rng(Down), l \in Legs},
   headway |-> UNION {UNION {{K(a \o "_" \o N3(b, l[1], l[2]), 2000) : b \in Rng(Up) \ {a}} : a \in Rng(Up)} : l \in Legs}
               \cup UNION {UNION {{K(a \o "_" \o N3(b, l[2], l[1]), 2000) : b \in Rng(Down) \ {a}} : a \in Rng(Down)} : l \in Legs},
   prep   |-> {K("Ic2_10", 20000)},
   stop   |-> {K(j \o "_" \o s, 1000) : j \in Rng(Up) \cup Rng(Down), s \in {"1", "3", "5", "10"}},
   init   |-> {K("Ks1_1", 0), K("Ks3_1", 60000), K("Ic1_1", 30000), K("Ks2_10", 40000), K("Ks4_10", 100000), K("Ic2_10", 95000)},
   sched  |-> {K("Ks1_1", 0), K("Ks3_1", 60000), K("Ic1_1", 10000), K("Ks2_10", 40000), K("Ks4_10", 100000), K("Ic2_10", 95000)},
   weight |-> {K("Ks1_5", 900), K("Ks3_5", 900), K("Ic1_5", 900), K("Ks2_3", 1000), K("Ks2_5", 1000), K("Ic2_3", 1500)}]

-----------------------------------------------------------------------------
(* what a run announces *)
Scripts == {"real", "glc", "wisla"}
CasesOf(s) == CASE s = "real" -> RealCases [] s = "glc" -> GlcCases [] OTHER -> {1}
FilesOf(s, c) == CASE s = "real" -> RealFiles(c) [] s = "glc" -> GlcFiles(c) [] OTHER -> <<>>
Tref(s) == CASE s = "real" -> 960 [] s = "glc" -> 840 [] OTHER -> 480
Dmax(s) == IF s = "wisla" THEN 10000 ELSE 40000
Instances(s) == IF s = "glc" THEN 12 ELSE 1
Late(s, c, k, J) ==         \* k-th instance, J the trains (with order) of the timetable
   CASE s = "real" -> RealLate(c) [] s = "glc" -> (IF c = 3 THEN Sparse(k - 1) ELSE Dense(k - 1, J)) [] OTHER -> <<>>
Announced(s, c) ==          \* all trains a case names
   UNION {{x.n : x \in Rng(Late(s, c, k, <<>>))} : k \in 1..Instances(s)}
Penalties(f) == CASE f.script = "real" -> Pens(f.pen, f.pen) [] f.script = "glc" -> Pens(2500, 2500) [] OTHER -> Pens(10000, 4000)
Bits(q) == q \in {"sim", "real", "bqm"}
Hybrid(q) == q \in {"bqm", "cqm"}
Dec(p) == CASE p = 500 -> "0.5" [] p = 1000 -> "1.0" [] p = 1750 -> "1.75" [] p = 3250 -> "3.25" [] p = 0 -> "0" [] OTHER -> ToString(p \div 1000) \o ".0"

(* A configuration: script, case, category, solvers, limits, and k of Per
   (several runs of one case share its disturbed trains between them).       *)
Config(s, c, q, lp, cat, mint, runs, pen, show, tlim, k) ==
   [script |-> s, case |-> c, quantum |-> q, lp |-> lp, cat |-> cat, mint |-> mint, runs |-> runs, pen |-> pen,
    show |-> show, tlim |-> tlim, k |-> k, files |-> FilesOf(s, c), tref |-> Tref(s), dmax |-> Dmax(s), announced |-> Announced(s, c)]

(* result files *)
Mint(f) == IF Hybrid(f.quantum) THEN ToString(f.mint) ELSE ""
RealTail(f) == "_case" \o ToString(f.case) \o "_" \o f.cat \o ".pkl"
RealQ(f) == f.quantum \o Mint(f) \o (IF f.quantum = "cqm" THEN "" ELSE "_" \o Dec(f.pen)) \o RealTail(f)
SampleFile(f) == CASE f.script = "real" -> "solutions_quantum/" \o RealQ(f)
                   [] f.script = "wisla" -> "solutions_quantum/wisla/" \o f.quantum \o "_wisla" \o Mint(f) \o "_case1.pkl"
                   [] OTHER -> ""
DiagramLp(f) == CASE f.script = "real" -> "solutions_quantum/data4diagrams/" \o f.lp \o RealTail(f)
                  [] OTHER -> "solutions_quantum/wisla/data4diagrams/" \o f.lp \o "_wisla_case1.pkl"
DiagramQ(f) == CASE f.script = "real" -> "solutions_quantum/data4diagrams/" \o RealQ(f)
                 [] OTHER -> "solutions_quantum/wisla/data4diagrams/" \o f.quantum \o "_wisla" \o Mint(f) \o "_case1.pkl"
ResultFile(f) == "results_KO_GLC/results" \o (IF f.lp = "" THEN Mint(f) ELSE "") \o "_" \o f.lp \o "_"
                 \o (IF f.tlim = 0 THEN "" ELSE "ilp_t_lim" \o Dec(f.tlim) \o "_") \o f.quantum \o "_" \o ToString(f.case) \o "_" \o f.cat \o ".pkl"

UsesLp(f) == f.lp # ""
UsesQ(f) == f.quantum # "" /\ ~(f.script = "glc" /\ f.lp # "")
Samples(f) == UsesQ(f) /\ ~(f.show = "T" /\ f.script # "glc")     \* showing a sampled timetable reads the stored samples
Runs(f) == IF f.script = "real" THEN f.runs ELSE Instances(f.script)
=============================================================================
