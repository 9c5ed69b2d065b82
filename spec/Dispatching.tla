---------------------------- MODULE Dispatching ----------------------------
(* The dispatching problem: trains J on routes through stations, delays
   d in 0..dmax on top of the earliest departures, and the rules a
   conflict-free plan obeys.

   An instance I has the fields
     J       sequence of trains            paths   train -> stations
     jd      <<[s, t, g]>>   trains g follow each other on one track s -> t
     single  <<[s, t, j, k]>> j runs s -> t, k runs t -> s on one track
     round   <<[s, j, k]>>   j ends at s, its stock continues as k
     track   <<[s, g]>>      trains g use one platform track of s
     switch  <<[s, j, r, k, q]>>  j moving r ("in"/"out") and k moving q use
                             a common switch of s
     skip    <<[j, s]>>      j ends at s and is taken off the track
     addsw   stations where a platform track needs the switch time in between
     pass, headway, stop, prep, init, sched, weight   tables keyed "j_s..."
     res     switch time,    dmax  largest delay,   hassched
   All times are milli-minutes.                                            *)
EXTENDS Util

K2(a, b)       == a \o "_" \o b
K3(a, b, c)    == K2(a, b) \o "_" \o c
K4(a, b, c, d) == K3(a, b, c) \o "_" \o d

Trains(I) == Rng(I.J)
Path(I, j) == I.paths[j]
On(I, j, s) == s \in Rng(Path(I, j))
Pos(I, j, s) == IndexOf(Path(I, j), s)
NONE == "~none"
PrevOn(I, j, s) == LET k == Pos(I, j, s) IN IF k = 1 THEN NONE ELSE Path(I, j)[k - 1]
NextOn(I, j, s) == LET k == Pos(I, j, s) IN IF k = Len(Path(I, j)) THEN NONE ELSE Path(I, j)[k + 1]

-----------------------------------------------------------------------------
(* earliest departures (C17)                                                 *)
Has(tab, k) == k \in DOMAIN tab
NoSched == -2000000000
SchedAt(I, j, s) == IF I.hassched = "T" /\ Has(I.sched, K2(j, s)) THEN I.sched[K2(j, s)] ELSE NoSched
EarliestOf(I, j) ==
   LET p == Path(I, j)
       f[k \in 1..Len(p)] ==
          LET s == p[k]
              forced == IF Has(I.init, K2(j, s)) THEN I.init[K2(j, s)]
                        ELSE f[k - 1] + I.pass[K3(j, p[k - 1], s)] + I.stop[K2(j, s)]
          IN Max2(SchedAt(I, j, s), forced)
       defined(k) == Has(I.init, K2(j, p[k])) \/ (k > 1 /\ Has(I.stop, K2(j, p[k])))
       n == Len(p)
   IN [k \in {k \in 1..n : defined(k)} |-> f[k]]

(* stock *)
Gives(I, j, s) == \E i \in DOMAIN I.round : I.round[i].s = s /\ I.round[i].j = j
Takes(I, k, s) == \E i \in DOMAIN I.round : I.round[i].s = s /\ I.round[i].k = k
GivesTo(I, j, s) == I.round[CHOOSE i \in DOMAIN I.round : I.round[i].s = s /\ I.round[i].j = j].k
TakesFrom(I, k, s) == I.round[CHOOSE i \in DOMAIN I.round : I.round[i].s = s /\ I.round[i].k = k].j
SameStock(I, j, k) == \E i \in DOMAIN I.round : {I.round[i].j, I.round[i].k} = {j, k}
Skips(I, j, s) == \E i \in DOMAIN I.skip : I.skip[i].j = j /\ I.skip[i].s = s

(* where a delay is decided                                                  *)
Decides(I, j, s) == ~Skips(I, j, s) /\ ~Gives(I, j, s)
DecidesAt(I, j) == LET q == SelectSeq(Path(I, j), LAMBDA s : Decides(I, j, s)) IN [k \in DOMAIN q |-> <<j, q[k]>>]
Decisions(I) == Cat([n \in DOMAIN I.J |-> DecidesAt(I, I.J[n])])

-----------------------------------------------------------------------------
(* Context: everything about I that does not depend on the delays.           *)
Ctx(I) == LET D == TLCEval(Decisions(I)) IN
   [I |-> I, D |-> D,
    ix |-> TLCEval([x \in Rng(D) |-> IndexOf(D, x)]),
    e |-> TLCEval([j \in Trains(I) |-> EarliestOf(I, j)])]

(* An event is <<base, i>>: it happens at base + d[i] (i = 0: at base).      *)
Dep(X, j, s) == <<X.e[j][Pos(X.I, j, s)], X.ix[<<j, s>>]>>
Arr(X, j, s) == LET p == PrevOn(X.I, j, s)
                    a == Dep(X, j, p)
                IN <<a[1] + X.I.pass[K3(j, p, s)], a[2]>>
(* platform track: from / until                                              *)
Enter(X, j, s) == IF Takes(X.I, j, s) THEN Arr(X, TakesFrom(X.I, j, s), s)
                  ELSE IF PrevOn(X.I, j, s) # NONE THEN Arr(X, j, s)
                  ELSE <<X.e[j][Pos(X.I, j, s)], 0>>
Leave(X, j, s) == IF Gives(X.I, j, s) /\ Decides(X.I, GivesTo(X.I, j, s), s) THEN Dep(X, GivesTo(X.I, j, s), s)
                  ELSE IF Decides(X.I, j, s) THEN Dep(X, j, s)
                  ELSE Enter(X, j, s)        \* taken off at once
(* passing a switch                                                          *)
Pass(X, j, r, s) == IF r = "out" THEN Dep(X, j, s) ELSE Arr(X, j, s)

(* A rule holds under d iff one of its alternatives does; an alternative is
   a set of <<later, earlier, gap>>.                                         *)
After(a, b, gap) == <<a, b, gap>>
Rule(kind, who, alts) == [kind |-> kind, who |-> who, alts |-> alts]

Headway(X, j, k, s, t) == After(Dep(X, k, s), Dep(X, j, s), X.I.headway[K4(j, k, s, t)])   \* j before k
PairsOf(g) == {<<g[p[1]], g[p[2]]>> : p \in {p \in (DOMAIN g) \X (DOMAIN g) : p[1] < p[2]}}

FollowRules(X) == UNION {LET G == X.I.jd[i] IN
   {Rule("headway", <<p[1], p[2], G.s, G.t>>, {{Headway(X, p[1], p[2], G.s, G.t)}, {Headway(X, p[2], p[1], G.s, G.t)}})
      : p \in PairsOf(G.g)} : i \in DOMAIN X.I.jd}

LineRules(X) == {LET L == X.I.single[i] IN
   Rule("single line", <<L.j, L.k, L.s, L.t>>,
        {{After(Dep(X, L.j, L.s), Arr(X, L.k, L.s), 0)}, {After(Dep(X, L.k, L.t), Arr(X, L.j, L.t), 0)}})
   : i \in {i \in DOMAIN X.I.single : ~SameStock(X.I, X.I.single[i].j, X.I.single[i].k)}}

SwitchGap(X, s) == IF s \in Rng(X.I.addsw) THEN X.I.res ELSE 0
TrackFirst(X, j, k, s) == After(Enter(X, k, s), Leave(X, j, s), SwitchGap(X, s))            \* j before k
TrackRules(X) == UNION {LET T == X.I.track[i] IN
   {Rule("platform", <<p[1], p[2], T.s>>, {{TrackFirst(X, p[1], p[2], T.s)}, {TrackFirst(X, p[2], p[1], T.s)}})
      : p \in {p \in PairsOf(T.g) : ~SameStock(X.I, p[1], p[2])}} : i \in DOMAIN X.I.track}

(* trains that follow each other s -> t do not change their order on the way *)
Follow(I, j, k, s, t) == \E i \in DOMAIN I.jd : I.jd[i].s = s /\ I.jd[i].t = t /\ {j, k} \subseteq Rng(I.jd[i].g)
OrderRules(X) == UNION {LET T == X.I.track[i] IN
   {Rule("order", <<p[1], p[2], PrevOn(X.I, p[1], T.s), T.s>>,
         LET sp == PrevOn(X.I, p[1], T.s) IN
         {{Headway(X, p[1], p[2], sp, T.s), TrackFirst(X, p[1], p[2], T.s)},
          {Headway(X, p[2], p[1], sp, T.s), TrackFirst(X, p[2], p[1], T.s)}})
      : p \in {p \in PairsOf(T.g) : /\ ~SameStock(X.I, p[1], p[2])
                                    /\ PrevOn(X.I, p[1], T.s) # NONE
                                    /\ Follow(X.I, p[1], p[2], PrevOn(X.I, p[1], T.s), T.s)}} : i \in DOMAIN X.I.track}

SwitchRules(X) == {LET W == X.I.switch[i]
                       a == Pass(X, W.j, W.r, W.s)
                       b == Pass(X, W.k, W.q, W.s)
                       sp == PrevOn(X.I, W.j, W.s)
                       fifo == /\ W.r = "in" /\ W.q = "in" /\ sp = PrevOn(X.I, W.k, W.s)
                               /\ Follow(X.I, W.j, W.k, sp, W.s)
   IN Rule("switch", <<W.j, W.r, W.k, W.q, W.s>>,
           {{After(b, a, X.I.res)} \cup (IF fifo THEN {Headway(X, W.j, W.k, sp, W.s)} ELSE {}),
            {After(a, b, X.I.res)} \cup (IF fifo THEN {Headway(X, W.k, W.j, sp, W.s)} ELSE {})})
   : i \in {i \in DOMAIN X.I.switch : ~SameStock(X.I, X.I.switch[i].j, X.I.switch[i].k)}}

StayRules(X) == {Rule("stay", x, {{After(Dep(X, x[1], x[2]), Arr(X, x[1], x[2]), X.I.stop[K2(x[1], x[2])])}})
   : x \in {x \in Rng(X.D) : PrevOn(X.I, x[1], x[2]) # NONE}}

StockRules(X) == {LET R == X.I.round[i] IN
   Rule("stock", <<R.j, R.k, R.s>>, {{After(Dep(X, R.k, R.s), Arr(X, R.j, R.s), X.I.prep[K2(R.k, R.s)])}})
   : i \in DOMAIN X.I.round}

Rules(X) == FollowRules(X) \cup LineRules(X) \cup TrackRules(X) \cup OrderRules(X) \cup SwitchRules(X) \cup StayRules(X) \cup StockRules(X)

(* Two trains that leave for one line at the same instant (no headway between
   them) have no order; such plans are neither demanded nor forbidden.       *)
TieRules(X) == UNION {LET G == X.I.jd[i] IN
   {Rule("tie", <<p[1], p[2], G.s, G.t>>, {{After(Dep(X, p[1], G.s), Dep(X, p[2], G.s), X.I.unit)}, {After(Dep(X, p[2], G.s), Dep(X, p[1], G.s), X.I.unit)}})
      : p \in PairsOf(G.g)} : i \in DOMAIN X.I.jd}

At(e, d) == IF e[2] = 0 THEN e[1] ELSE e[1] + d[e[2]]
AtomHolds(a, d) == At(a[1], d) >= At(a[2], d) + a[3]
Holds(r, d) == \E alt \in r.alts : \A a \in alt : AtomHolds(a, d)
Safe(R, d) == \A r \in R : Holds(r, d)
Broken(R, d) == {r \in R : ~Holds(r, d)}

-----------------------------------------------------------------------------
(* Repair: turns a plan into a conflict-free one by postponing, one broken
   rule after another; the dice decide who gives way.  The result (empty or
   one plan) is tight: trains wait exactly as long as they must.             *)
Postpone(alt, d, dmax) ==
   LET a == CHOOSE a \in alt : ~AtomHolds(a, d)
       i == a[1][2]
   IN IF i = 0 THEN {} ELSE LET v == At(a[2], d) + a[3] - a[1][1] IN IF v > dmax THEN {} ELSE {[d EXCEPT ![i] = v]}
RECURSIVE Repair(_, _, _, _)
Repair(R, d, dmax, dice) ==
   LET B == Broken(R, d) IN
   IF B = {} THEN {d}
   ELSE IF dice = <<>> THEN {}
   ELSE LET r == CHOOSE r \in B : TRUE
            A == CHOOSE A \in r.alts : TRUE
            O == r.alts \ {A}
            C == IF O = {} THEN A ELSE IF dice[1] = 1 THEN A ELSE CHOOSE x \in O : TRUE
            one == TLCEval(Postpone(C, d, dmax))
            two == IF one # {} \/ O = {} THEN one ELSE TLCEval(Postpone(CHOOSE x \in r.alts : x # C, d, dmax))
        IN IF two = {} THEN {} ELSE Repair(R, CHOOSE x \in two : TRUE, dmax, Tail(dice))
(* a plan and its neighbours                                                 *)
Around(d, dmax, u) == {d} \cup {[d EXCEPT ![i] = d[i] + u] : i \in {i \in DOMAIN d : d[i] + u <= dmax}}
                      \cup {[d EXCEPT ![i] = d[i] - u] : i \in {i \in DOMAIN d : d[i] >= u}}
============================================================================
