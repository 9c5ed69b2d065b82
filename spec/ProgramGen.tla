----------------------------- MODULE ProgramGen -----------------------------
(* Generator of small bounded integer programs: variables with ranges of any
   sign, constraints of the six classes in the three senses, an objective.
   Walked by TLC -simulate; each walk publishes one program as a JSON line.
   Coefficients are whole numbers, objective coefficients sixteenths.   *)
EXTENDS Util, Json

CONSTANTS MaxVars, MaxCons,
          Ranges,      \* "zero": lower bounds are zero | "any"
          WidePct,     \* chance of large coefficients
          FixPct,      \* chance that a variable has one value only
          Many,        \* "T": as many constraints as allowed, all of them met halfway between the bounds
          Aim          \* chance that a constraint is aimed at the edge of its range

VARIABLES stage, vs, cs, ob
vars == <<stage, vs, cs, ob>>

Classes == <<"minimal_span", "circulation", "single_line", "minimal_stay", "track_occupation", "switch">>
Tails == <<"1_2_A_B", "2_1_B", "switch_9", "single_line_1", "A_minimal_stay_B", "circulation_", "x", "objective", "KO_STM_", "94766_44717_KO_STM_Katowice_Szopienice_Poludniowe_depot_track">>
Names(k) == <<<<"x", "y", "z", "d_1_A", "t">>, <<"Delays_1_A", "Delays_11_A", "y_1_2_A", "z_1_2_A", "y_11_2_A">>, <<"a", "ab", "abc", "b", "ba">>>>[k]

Init == stage = "vars" /\ vs = <<>> /\ cs = <<>> /\ ob = <<>>

Range(k) == LET lo == IF Ranges = "zero" \/ Chance(50) THEN 0 ELSE Pick(-4..4)
             w  == IF Chance(25) THEN 1 ELSE IF Chance(88) THEN Pick(1..8) ELSE Pick({10, 12, 15, 16, 21})
         IN <<lo, IF Chance(FixPct) THEN 0 ELSE w>>
AddVar == /\ stage = "vars"
          /\ \E r \in {Range(Len(vs))} : vs' = Append(vs, [lo |-> r[1], hi |-> r[1] + r[2]])
          /\ stage' = IF Len(vs') >= MaxVars \/ Chance(30) THEN "cons" ELSE "vars"
          /\ UNCHANGED <<cs, ob>>

Half(v) == (v.lo + v.hi) \div 2
Extreme(t, up) == SeqSum([i \in DOMAIN t |-> LET v == vs[t[i].v] IN t[i].k * (IF up = (t[i].k > 0) THEN v.hi ELSE v.lo)])
AddCon == /\ stage = "cons"
          /\ \E n \in {Pick(1..Min2(3, Len(vs)))} :
             \E set \in {Pick({S \in SUBSET DOMAIN vs : Cardinality(S) = n})} :
             \E ks \in {TLCEval([v \in set |-> IF Chance(WidePct) THEN Pick({-40, -25, 25, 40}) ELSE Pick({-3, -2, -1, 1, 2, 3, 12})])} :
             \E ord \in {SelectSeq([v \in DOMAIN vs |-> v], LAMBDA v : v \in set)} :
             \E s \in {IF Many = "T" THEN Pick({-1, 1}) ELSE Pick({-1, 0, 1})} :
             LET t == [i \in DOMAIN ord |-> [v |-> ord[i], k |-> ks[ord[i]]]]
                 lo == Extreme(t, FALSE)  hi == Extreme(t, TRUE)
             IN \E c \in {IF Many = "T" THEN s * (IF Chance(10) THEN 0 ELSE Pick({4, 9, 30})) - SeqSum([i \in DOMAIN t |-> t[i].k * Half(vs[t[i].v])])
                         ELSE IF Chance(Aim) THEN 0 - Pick({lo - 1, lo, lo + 1, hi - 1, hi, hi + 1}) ELSE 0 - Pick(lo..hi)} :
                cs' = Append(cs, [cl |-> Pick(1..6), tl |-> Pick(DOMAIN Tails), s |-> s, c |-> c, t |-> t])
          /\ stage' = IF Len(cs') >= MaxCons \/ (Many # "T" /\ Chance(25)) THEN "obj" ELSE "cons"
          /\ UNCHANGED <<vs, ob>>

AddObj == /\ stage = "obj"
          /\ ob' = TLCEval([has |-> Chance(90), oc |-> Pick({0, 0, 0, 24, -32}),
                            k |-> [v \in DOMAIN vs |-> Pick({0, 4, 8, 16, 32, -16, 1})],
                            nm |-> Pick(1..3)])
          /\ stage' = "publish"
          /\ UNCHANGED <<vs, cs>>

Publish == /\ stage = "publish"
           /\ stage' = "end"
           /\ LET on == SelectSeq([v \in DOMAIN vs |-> v], LAMBDA v : ob.k[v] # 0)
              IN PrintT("PROG " \o ToJson(
                 [hint |-> IF Many = "T" THEN [v \in DOMAIN vs |-> Half(vs[v])] ELSE <<>>,
                  vars |-> [v \in DOMAIN vs |-> [n |-> Names(ob.nm)[v], lo |-> vs[v].lo, hi |-> vs[v].hi]],
                  cons |-> [i \in DOMAIN cs |-> [n |-> Classes[cs[i].cl] \o "_" \o Tails[cs[i].tl] \o "_" \o ToString(i), s |-> cs[i].s, c |-> cs[i].c, t |-> cs[i].t]],
                  has |-> IF ob.has THEN "T" ELSE "F", oc |-> IF ob.has THEN ob.oc ELSE 0,
                  obj |-> IF ob.has THEN [i \in DOMAIN on |-> [v |-> on[i], k |-> ob.k[on[i]]]] ELSE <<>>]))
           /\ UNCHANGED <<vs, cs, ob>>

Next == AddVar \/ AddCon \/ AddObj \/ Publish
=============================================================================
