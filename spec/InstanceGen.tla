---------------------------- MODULE InstanceGen ----------------------------
(* Generator of dispatching instances: a tree of stations, lines with one or
   more tracks, trains entered one after another, then times.  Walked by
   TLC -simulate; each walk publishes one instance (module Dispatching) as
   a JSON line.                                                              *)
EXTENDS Util, Json

CONSTANTS MaxStations, MaxTrains,
          PairPct,     \* chance that a train takes over stock
          SwitchPct,   \* chance of a switch conflict between two movements
          TightPct,    \* chance that headways do not by themselves keep the order of arrival
          NameStyle,   \* "any" | "num"
          Cap,         \* bound on the number of delay vectors
          Deci,        \* "T": times in half minutes as well
          Room         \* "T": delays large enough for every order of the trains

VARIABLES stage, par, lanes, trains, opt
vars == <<stage, par, lanes, trains, opt>>

Names(style) == IF style = 1 THEN <<"1", "3", "5", "10", "31">>
                ELSE IF style = 2 THEN <<"A", "B", "KO", "KO(STM)", "Ty">> ELSE <<"KO(STM)", "KO", "GLC", "CB", "Mi">>
TrainNames(style) == IF style = 1 THEN <<"1", "11", "111", "2", "21", "12", "109">>
                     ELSE IF style = 2 THEN <<"Ks1", "Ic1", "Ks11", "Rz", "Ky", "s1", "K">> ELSE <<"94766", "9476", "4", "5312", "53129", "49", "40">>

Init == stage = "net" /\ par = <<0>> /\ lanes = <<0>> /\ trains = <<>> /\ opt = <<>>

(* a station and its line to an older station; lanes: 1 single track, 2 one
   track per direction, 4 two tracks per direction                           *)
Net == /\ stage = "net"
       /\ par' = Append(par, IF Chance(75) THEN Len(par) ELSE Pick(1..Len(par)))
       /\ lanes' = Append(lanes, Pick({1, 1, 2, 2, 4}))
       /\ stage' = IF Len(par') >= MaxStations \/ Chance(30) THEN "opt" ELSE "net"
       /\ UNCHANGED <<trains, opt>>

Opt == /\ stage = "opt"
       /\ opt' = TLCEval([sty |-> IF NameStyle = "num" THEN Pick({1, 3}) ELSE Pick(1..3), tsty |-> IF NameStyle = "num" THEN Pick({1, 3}) ELSE Pick(1..3),
                          nplat |-> [i \in DOMAIN par |-> Pick({1, 1, 2, 3})],
                          tight |-> Chance(TightPct), sched |-> Chance(85), res |-> Pick({1, 1, 1, 2, 0}),
                          addsw |-> Chance(20),
                          back |-> IF Chance(65) THEN 0 ELSE Pick({3, 6, 12, 30}),    \* how long before the reference time it starts
                          wide |-> Chance(25),       \* long runs, trains far apart, a large bound on the delay
                          unit |-> IF Deci = "T" /\ Chance(50) THEN 500 ELSE 1000])
       /\ stage' = "trains"
       /\ UNCHANGED <<par, lanes, trains>>

RECURSIVE ToRoot(_)
ToRoot(i) == IF par[i] = 0 THEN <<i>> ELSE <<i>> \o ToRoot(par[i])
Walk(i, j) == LET p == ToRoot(i)  q == ToRoot(j)
                  meet == CHOOSE m \in Rng(p) \cap Rng(q) : \A k \in Rng(p) \cap Rng(q) : IndexOf(p, m) <= IndexOf(p, k)
              IN SubSeq(p, 1, IndexOf(p, meet)) \o Rev(SubSeq(q, 1, IndexOf(q, meet) - 1))
LineOf(a, b) == IF par[a] = b THEN a ELSE b
PickLane(a, b) == LET n == lanes[LineOf(a, b)] IN IF n = 4 THEN Pick({1, 2}) ELSE 1

MkTrain(i, j, from, plat0) ==
   LET wk == Walk(i, j)
   IN TLCEval([path |-> wk,
       lane |-> TLCEval([k \in 1..(Len(wk) - 1) |-> PickLane(wk[k], wk[k + 1])]),
       plat |-> TLCEval([k \in DOMAIN wk |-> IF k = 1 /\ plat0 > 0 THEN plat0 ELSE Pick(1..opt.nplat[wk[k]])]),
       from |-> from,                           \* number of the train whose stock it takes, 0 none
       ends |-> Pick({"skip", "skip", "skip", "skip", "goes"}),   \* when nobody takes its stock
       gskip |-> Chance(50)])                   \* marked as to be skipped although the stock goes on

Open == {i \in DOMAIN trains : ~\E k \in DOMAIN trains : trains[k].from = i}
AddTrain == /\ stage = "trains"
            /\ trains' =
                 IF Open # {} /\ Chance(PairPct)
                 THEN LET g == Pick(Open)
                          a == Last(trains[g].path)
                          b == Pick((DOMAIN par) \ {a})
                      IN Append(trains, MkTrain(a, b, g, Last(trains[g].plat)))
                 ELSE IF trains # <<>> /\ Chance(45)     \* the route of another train, or back along it
                 THEN LET p == trains[Pick(DOMAIN trains)].path
                      IN IF Chance(50) THEN Append(trains, MkTrain(p[1], Last(p), 0, 0)) ELSE Append(trains, MkTrain(Last(p), p[1], 0, 0))
                 ELSE LET a == Pick(DOMAIN par) IN Append(trains, MkTrain(a, Pick((DOMAIN par) \ {a}), 0, 0))
            /\ stage' = IF Len(trains') >= MaxTrains \/ (Len(trains') >= 2 /\ Chance(20)) THEN "times" ELSE "trains"
            /\ UNCHANGED <<par, lanes, opt>>

-----------------------------------------------------------------------------
S(i) == Names(opt.sty)[i]
T(i) == TrainNames(opt.tsty)[i]
N == DOMAIN trains
RECURSIVE Shuffle(_)
Shuffle(X) == IF X = {} THEN <<>> ELSE LET x == TLCEval(Pick(X)) IN <<x>> \o Shuffle(TLCEval(X \ {x}))
RECURSIVE InOrder(_)
InOrder(X) == IF X = {} THEN <<>> ELSE LET x == MinSet(X) IN <<x>> \o InOrder(X \ {x})
Gives(i) == \E k \in N : trains[k].from = i
Legs(i) == {<<trains[i].path[k], trains[i].path[k + 1], k>> : k \in 1..(Len(trains[i].path) - 1)}
EndSkip(i) == IF Gives(i) THEN trains[i].gskip ELSE trains[i].ends = "skip"
HasVar(i, k) == k < Len(trains[i].path) \/ (~Gives(i) /\ ~EndSkip(i))
StopsAt(i, s) == \E k \in DOMAIN trains[i].path : trains[i].path[k] = s
PosOf(i, s) == IndexOf(trains[i].path, s)
Txt(g) == [m \in DOMAIN g |-> T(g[m])]

(* groups *)
Edges == UNION {{<<l[1], l[2]>> : l \in Legs(i)} : i \in N}
RunsOn(e, ln) == {i \in N : \E l \in Legs(i) : l[1] = e[1] /\ l[2] = e[2] /\ trains[i].lane[l[3]] = ln}
Groups == {g \in {<<e, ln>> : e \in Edges, ln \in 1..2} : RunsOn(g[1], g[2]) # {}}
Opposite == {x \in Edges \X N \X N : x[2] # x[3] /\ x[2] \in RunsOn(x[1], 1) /\ x[3] \in RunsOn(<<x[1][2], x[1][1]>>, 1)
                                      /\ lanes[LineOf(x[1][1], x[1][2])] = 1}
Plats == {p \in {<<s, q>> : s \in DOMAIN par, q \in 1..3} : \E i \in N : StopsAt(i, p[1]) /\ trains[i].plat[PosOf(i, p[1])] = p[2]}
OnPlat(p) == {i \in N : StopsAt(i, p[1]) /\ trains[i].plat[PosOf(i, p[1])] = p[2]}

Moves(i, s) == IF ~StopsAt(i, s) THEN {}
               ELSE (IF PosOf(i, s) > 1 THEN {"in"} ELSE {}) \cup (IF PosOf(i, s) < Len(trains[i].path) THEN {"out"} ELSE {})
MovePairs == {x \in {<<s, i, r, k, q>> : s \in DOMAIN par, i \in N, k \in N, r \in {"in", "out"}, q \in {"in", "out"}} :
                x[2] < x[4] /\ x[3] \in Moves(x[2], x[1]) /\ x[5] \in Moves(x[4], x[1])}
RECURSIVE Thin(_)
Thin(xs) ==    \* keep a random part
   IF xs = <<>> THEN <<>> ELSE LET rest == Thin(Tail(xs)) IN IF Chance(SwitchPct) THEN <<xs[1]>> \o rest ELSE rest

(* times, in units *)
U(n) == n * opt.unit
RECURSIVE Obj(_)
Obj(q) == IF q = <<>> THEN <<>> ELSE (q[1][1] :> q[1][2]) @@ Obj(Tail(q))

Publish ==
   /\ stage = "times"
   /\ stage' = "end"
   /\ \E J \in {Shuffle(N)} :
      LET ord(X) == IF Chance(80) THEN SelectSeq(J, LAMBDA i : i \in X) ELSE Shuffle(X) IN
      \E legs \in {UNION {{<<i, l>> : l \in Legs(i)} : i \in N}} :
      \E run \in {TLCEval([x \in legs |-> U(IF opt.wide THEN Pick(1..30) ELSE Pick({1, 2, 2, 3, 4}))])} :
      LET rt(i, a, b) == run[<<i, <<a, b, PosOf(i, a)>>>>] IN
      \E passT \in {Obj(Shuffle({<<T(x[1]) \o "_" \o S(x[2][1]) \o "_" \o S(x[2][2]), run[x]>> : x \in legs}))} :
      \E stops \in {UNION {{<<i, k>> : k \in {k \in DOMAIN trains[i].path : k < Len(trains[i].path) \/ ~EndSkip(i) \/ Chance(30)}} : i \in N}} :
      \E stopT \in {Obj(Shuffle({<<T(x[1]) \o "_" \o S(trains[x[1]].path[x[2]]), U(Pick({1, 1, 2}))>> : x \in stops}))} :
      \E heads \in {UNION {{<<i, k, g[1][1], g[1][2]>> : i \in RunsOn(g[1], g[2]), k \in RunsOn(g[1], g[2])} : g \in Groups}} :
      \E headT \in {Obj(Shuffle({<<T(h[1]) \o "_" \o T(h[2]) \o "_" \o S(h[3]) \o "_" \o S(h[4]),
                                  LET a == U(Pick({1, 1, 2, 3})) IN
                                  IF opt.tight THEN a ELSE Max2(a, rt(h[1], h[3], h[4]) - rt(h[2], h[3], h[4]) + opt.unit)>>
                                : h \in {h \in heads : h[1] # h[2]}}))} :
      \E prepT \in {Obj(Shuffle({<<T(i) \o "_" \o S(trains[i].path[1]), U(Pick({1, 2, 3, 5}))>> : i \in {i \in N : trains[i].from # 0 \/ Chance(20)}}))} :
      \E t0 \in {TLCEval([i \in N |-> U(0 - opt.back + Pick(IF opt.wide THEN 0..59 ELSE IF Room = "T" THEN 0..(4 * Len(trains)) ELSE 0..7) + (IF trains[i].from # 0 THEN 6 ELSE 0))])} :
      \E more \in {UNION {{<<i, k>> : k \in {k \in 2..Len(trains[i].path) : HasVar(i, k) /\ Chance(4)}} : i \in N}} :
      \E initT \in {Obj(Shuffle({<<T(i) \o "_" \o S(trains[i].path[1]), t0[i]>> : i \in N}
                               \cup {<<T(x[1]) \o "_" \o S(trains[x[1]].path[x[2]]), t0[x[1]] + U(3 * x[2])>> : x \in more}))} :
      \E sch \in {UNION {{<<i, k>> : k \in {k \in DOMAIN trains[i].path : Chance(45)}} : i \in N}} :
      \E schedT \in {Obj(Shuffle({<<T(x[1]) \o "_" \o S(trains[x[1]].path[x[2]]), t0[x[1]] + U(3 * (x[2] - 1) + Pick(-2..3))>> : x \in sch}))} :
      \E ws \in {UNION {{<<i, k>> : k \in {k \in DOMAIN trains[i].path : HasVar(i, k) /\ Chance(50)}} : i \in N}} :
      \E wT \in {Obj(Shuffle({<<T(x[1]) \o "_" \o S(trains[x[1]].path[x[2]]), Pick({0, 500, 1000, 1500, 1750, 2000})>> : x \in ws}))} :
      \E nd \in {Cardinality(UNION {{<<i, k>> : k \in {k \in DOMAIN trains[i].path : HasVar(i, k)}} : i \in N})} :
      LET pow(b) == LET f[k \in 0..nd] == IF k = 0 THEN 1 ELSE Min2(Cap + 1, b * f[k - 1]) IN f[nd] IN
      \E fits \in {IF Room = "T" THEN {} ELSE {m \in 1..8 : pow(m + 1) <= Cap}} :
      \E dmax \in {IF fits = {} THEN (IF Room = "T" THEN Pick({12, 16, 20, 25, 30}) + (IF opt.wide THEN 40 ELSE 0) ELSE IF opt.wide THEN Pick({9, 10, 15, 20, 30, 40, 60}) ELSE Pick(3..8)) ELSE MaxSet(fits)} :
      \E gs \in {Shuffle(Groups)} :
      \E os \in {Shuffle(Opposite)} :
      \E ps \in {Shuffle(Plats)} :
      \E keep \in {TLCEval([e \in Edges |-> Chance(50)])} :
      \E os1 \in {SelectSeq(os, LAMBDA x : IF <<x[1][2], x[1][1]>> \in Edges THEN (IF x[1][1] < x[1][2] THEN keep[x[1]] ELSE ~keep[<<x[1][2], x[1][1]>>]) ELSE TRUE)} :
      \E sw \in {Thin(Shuffle(MovePairs))} :
      \E rs \in {Shuffle({i \in N : trains[i].from # 0})} :
      \E sk \in {Shuffle({i \in N : EndSkip(i)})} :
      PrintT("INST " \o ToJson(
           [J |-> Txt(J),
            paths |-> Obj([i \in N |-> <<T(i), [k \in DOMAIN trains[i].path |-> S(trains[i].path[k])]>>]),
            jd |-> [m \in DOMAIN gs |-> [s |-> S(gs[m][1][1]), t |-> S(gs[m][1][2]), g |-> Txt(ord(RunsOn(gs[m][1], gs[m][2])))]],
            single |-> [m \in DOMAIN os1 |-> [s |-> S(os1[m][1][1]), t |-> S(os1[m][1][2]), j |-> T(os1[m][2]), k |-> T(os1[m][3])]],
            round |-> [m \in DOMAIN rs |-> [s |-> S(trains[rs[m]].path[1]), j |-> T(trains[rs[m]].from), k |-> T(rs[m])]],
            track |-> [m \in DOMAIN ps |-> [s |-> S(ps[m][1]), g |-> Txt(ord(OnPlat(ps[m])))]],
            switch |-> [m \in DOMAIN sw |-> [s |-> S(sw[m][1]), j |-> T(sw[m][2]), r |-> sw[m][3], k |-> T(sw[m][4]), q |-> sw[m][5]]],
            skip |-> [m \in DOMAIN sk |-> [j |-> T(sk[m]), s |-> S(Last(trains[sk[m]].path))]],
            addsw |-> IF opt.addsw THEN <<S(Pick(DOMAIN par))>> ELSE <<>>,
            hasaddsw |-> IF opt.addsw THEN "T" ELSE "F",
            hassched |-> IF opt.sched THEN "T" ELSE "F",
            snum |-> IF opt.sty = 1 THEN "T" ELSE "F", tnum |-> IF opt.tsty = 2 THEN "F" ELSE "T",
            pass |-> passT, stop |-> stopT, headway |-> headT, prep |-> prepT, init |-> initT,
            sched |-> schedT, weight |-> wT,
            res |-> U(opt.res), dmax |-> U(dmax), unit |-> opt.unit, nd |-> nd,
            small |-> IF fits = {} THEN "F" ELSE "T"]))
   /\ UNCHANGED <<par, lanes, trains, opt>>

Next == Net \/ Opt \/ AddTrain \/ Publish
============================================================================
