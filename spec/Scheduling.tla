---------------------------- MODULE Scheduling ----------------------------
(* Schedules, initial conditions, disturbances and weights.                 *)
EXTENDS Taus

At(V, n, s)        == Rec(V, n).rows[V.row[n][s]]
Scheduled(V, n, s) == At(V, n, s).dep >= 0
Planned(V, n, s)   == 1000 * (At(V, n, s).dep - V.w.tref)
Initial(V, n)      ==
   LET r == At(V, n, FirstSt(V, n))
   IN IF r.dep >= 0 THEN 1000 * (r.dep - V.w.tref)
      ELSE IF r.app >= 0 THEN 1000 * (r.app - V.w.tref) ELSE 0

(* disturbance of train n by d: a table is a function <<train, station>> -> time *)
Disturb(tab, n, d) == [k \in DOMAIN tab |-> IF k[1] = n THEN tab[k] + d ELSE tab[k]]

StoppingTypes == {"KS - Os", "PR - R", "KS - OsP"}
FastTypes     == {"IC - TLK", "IC - IC"}
ExpressTypes  == {"IC - EIP", "IC - EIC"}
IsEmptyRun(V, n) == n % 10 = 9 /\ n \div 10 \in Trains(V)
Weight(V, n, cfg) ==
   IF IsEmptyRun(V, n) THEN cfg.empty
   ELSE LET ty == Rec(V, n).type
        IN IF ty \in StoppingTypes THEN cfg.stopping ELSE IF ty \in FastTypes THEN cfg.fast ELSE cfg.express
WeightStation(V, n, skips) ==
   IF \E k \in DOMAIN skips : skips[k].k = n /\ skips[k].v = LastSt(V, n)
   THEN V.sts[n][Len(V.sts[n]) - 1] ELSE LastSt(V, n)
============================================================================
