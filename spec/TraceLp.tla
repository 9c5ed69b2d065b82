------------------------------ MODULE TraceLp ------------------------------
(* Judges programs recorded from the model builder against Dispatching.      *)
EXTENDS Dispatching, Program, Chain, Json, IOUtils

CONSTANT Prop
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, done

-----------------------------------------------------------------------------
(* C18 / C19: admitted <=> conflict-free, for every examined delay vector    *)
Grid(I) == {I.unit * k : k \in 0..(I.dmax \div I.unit)}
Vectors(I, p) == LET G == Grid(I)  V == Rng(p.vary)
                 IN {[i \in DOMAIN p.base |-> IF i \in V THEN f[i] ELSE p.base[i]] : f \in [V -> G]}
(* decisions unused by the program (no constraint, no weight) are free       *)
DecisionVars(r, D) == [i \in DOMAIN D |-> LET M == {k \in DOMAIN r.dv : r.dv[k].j = D[i][1] /\ r.dv[k].s = D[i][2]}
                                           IN IF M = {} THEN 0 ELSE r.dv[CHOOSE k \in M : TRUE].v]
Some(S, n) == IF Cardinality(S) <= n THEN S ELSE LET f[k \in 0..n] == IF k = 0 THEN {} ELSE f[k - 1] \cup {CHOOSE x \in S \ f[k - 1] : TRUE} IN f[n]

(* the delay vectors examined: the recorded probes, and plans made conflict-free
   by the specification (with their neighbours)                              *)
Examined(r, R) ==
   LET I == r.I IN
   UNION {Vectors(I, r.probes[k]) : k \in DOMAIN r.probes}
   \cup UNION {UNION {Around(p, I.dmax, I.unit) : p \in Repair(R, r.dice[k].base, I.dmax, r.dice[k].bits)} : k \in DOMAIN r.dice}

Compare(r, sound) ==
   LET I == r.I
       X == TLCEval(Ctx(I))
       R == TLCEval(Rules(X) \cup (IF sound THEN {} ELSE TieRules(X)))
       dv == TLCEval(DecisionVars(r, X.D))
       used == SelectSeq([i \in DOMAIN dv |-> i], LAMBDA i : dv[i] # 0)
       S == TLCEval(Split(r.P, [m \in DOMAIN used |-> dv[used[m]]]))
       proj(d) == TLCEval([m \in DOMAIN used |-> d[used[m]]])
       ex == TLCEval(Examined(r, R))
       bad == {d \in ex : IF sound THEN ~Safe(R, d) /\ Completes(S, proj(d)) ELSE Safe(R, d) /\ ~Completes(S, proj(d))}
   IN IF bad = {} THEN {}
      ELSE LET d == CHOOSE d \in bad : TRUE
               show == [i \in DOMAIN X.D |-> <<X.D[i][1], X.D[i][2], d[i]>>]
           IN IF sound THEN Fail("model.admits-conflict", FALSE, <<{<<b.kind, b.who>> : b \in Broken(R, d)}, show, Cardinality(bad)>>)
              ELSE Fail("model.excludes-plan", FALSE, <<show, Cardinality(bad)>>)

J18(r) == Fail("model.ok", r.err = "", r.err) \cup (IF r.err # "" THEN {} ELSE Compare(r, TRUE))
J19(r) == Fail("model.ok", r.err = "", r.err) \cup (IF r.err # "" THEN {} ELSE Compare(r, FALSE))

(* C30: the same for a model built from files, judged on the block routes    *)
Mapped(D, q) == [i \in DOMAIN D |-> LET M == {m \in DOMAIN q : q[m].j = D[i][1] /\ q[m].s = D[i][2]} IN IF M = {} THEN 0 ELSE q[CHOOSE m \in M : TRUE].v]
J30(r) ==
   LET V == TLCEval(Wd!View(r.w)) IN
   IF ~Clear(V) THEN {}
   ELSE IF r.err # "" THEN Fail("chain.ok", FALSE, r.err)
   ELSE LET late == Times(V, r.tau) IN
   IF late # {} THEN late
   ELSE LET I == Problem(V, r.tau, r.delays, r.dmax)
            D == TLCEval(Decisions(I))
            n == Len(D)
            full == r @@ [I |-> I,
                          probes |-> [k \in DOMAIN r.sols |-> [base |-> Mapped(D, r.sols[k].at), vary |-> SeqOf({1 + (r.sols[k].vary[m] % n) : m \in DOMAIN r.sols[k].vary})]],
                          dice |-> [k \in DOMAIN r.toss |-> [base |-> SubSeq(r.toss[k].base, 1, n), bits |-> r.toss[k].bits]]]
        IN Fail("chain.decisions", {<<D[i][1], D[i][2]>> : i \in DOMAIN D} = {<<r.dv[k].j, r.dv[k].s>> : k \in DOMAIN r.dv}, <<D, r.dv>>)
           \cup Compare(full, TRUE) \cup Compare(full, FALSE)

J17(r) ==
   LET I == r.I
       X == Ctx(I)
       D == Rng(X.D)
   IN Fail("model.ok", r.err = "", r.err)
      \cup (IF r.err # "" THEN {} ELSE
        UNION {LET q == r.e[k]  i == Pos(I, q.j, q.s) IN
               IF i \in DOMAIN X.e[q.j]
               THEN Fail("earliest.ok", q.err = "", <<q.j, q.s, q.err>>)
                    \cup Fail("earliest.value", q.err # "" \/ q.v = X.e[q.j][i], <<q.j, q.s, "want", X.e[q.j][i], "got", q.v>>)
               ELSE {} : k \in DOMAIN r.e}
        \cup Fail("delays.where", SameBag([k \in DOMAIN r.dv |-> <<r.dv[k].j, r.dv[k].s>>], X.D), <<r.dv, X.D>>)
        \cup Fail("delays.range", \A k \in DOMAIN r.dv : r.dv[k].lo = 0 /\ r.dv[k].hi = I.dmax /\ r.dv[k].int = (IF r.cat = "Integer" THEN "T" ELSE "F"), r.dv)
        \cup Fail("delays.one", NoDup([k \in DOMAIN r.dv |-> r.dv[k].n]), r.dv)
        \cup LET names == {r.dv[k].n : k \in DOMAIN r.dv} IN
             Fail("program.range", \A k \in DOMAIN r.P.vars : LET v == r.P.vars[k] IN
                    IF v.n \in names THEN v.lo = 0 /\ v.hi = I.dmax /\ v.int = (IF r.cat = "Integer" THEN "T" ELSE "F")
                    ELSE v.lo = 0 /\ v.hi = 1000 /\ v.int = "T", r.P.vars))

-----------------------------------------------------------------------------
(* C20: the objective                                                        *)
WeightAt(I, j, s) == IF Has(I.weight, K2(j, s)) THEN I.weight[K2(j, s)] ELSE 0
Steps(I) == I.dmax \div 500
Near(a, b, tol) == Abs(a - b) <= tol
(* k (micro) is w (milli) * x (milli) / dmax *)
IsShare(I, k, w, x) == Abs(k) < 10000000 /\ Near(k * Steps(I), w * (x \div 500) * 1000, Steps(I))
J20(r) ==
   LET I == r.I
       D == TLCEval(Decisions(I))
       name(k) == LET M == {m \in DOMAIN r.dv : r.dv[m].j = D[k][1] /\ r.dv[m].s = D[k][2]} IN IF M = {} THEN "~" ELSE r.dv[CHOOSE m \in M : TRUE].n
       names == TLCEval([k \in DOMAIN D |-> name(k)])
       coef(n) == LET M == {m \in DOMAIN r.P.obj : r.P.vars[r.P.obj[m].v].n = n}
                      f[S \in SUBSET M] == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN r.P.obj[x].k + f[S \ {x}]
                  IN f[M]
   IN Fail("model.ok", r.err = "", r.err)
      \cup (IF r.err # "" THEN {} ELSE
        UNION {LET w == WeightAt(I, D[k][1], D[k][2]) IN
               Fail("objective.term", Near(coef(names[k]) * Steps(I), w * 2000, Steps(I)), <<D[k], "weight", w, "dmax", I.dmax, "coefficient", coef(names[k])>>) : k \in DOMAIN D}
        \cup Fail("objective.only", \A m \in DOMAIN r.P.obj : r.P.obj[m].k = 0 \/ r.P.vars[r.P.obj[m].v].n \in Rng(names), r.P.obj)
        \cup Fail("objective.constant", r.P.oc = 0, r.P.oc)
        \cup Fail("objective.minimised", r.sense = 1, r.sense)
        \cup UNION {LET q == r.sol[n] IN
              UNION {LET w == WeightAt(I, D[k][1], D[k][2]) IN
                     Fail("impact.ok", q.imp[k].err = "", <<D[k], q.how, q.imp[k].err>>)
                     \cup Fail("impact.value", q.imp[k].err # "" \/ IsShare(I, q.imp[k].v, w, q.d[k]), <<D[k], q.how, "weight", w, "delay", q.d[k], "dmax", I.dmax, "got", q.imp[k].v>>) : k \in DOMAIN D}
              \cup Fail("impact.sum", \/ \E k \in DOMAIN D : q.imp[k].err # ""
                                      \/ Near(SeqSum([k \in DOMAIN D |-> q.imp[k].v]), q.obj, 2 * Len(D) + 2), <<q.how, q.obj, q.imp>>)
            : n \in DOMAIN r.sol})

-----------------------------------------------------------------------------
(* C27: the output timetable.  Times are milli-minutes from the reference;
   Absent: no such entry.                                                    *)
Absent == -777777777
J27(r) ==
   LET I == r.I
       X == TLCEval(Ctx(I))
       q == r.out
       d(j, s) == r.d[X.ix[<<j, s>>]]
       E(j, s) == X.e[j][Pos(I, j, s)]
       run(j, s) == I.pass[K3(j, PrevOn(I, j, s), s)]
       row(j, s) == LET tr == q[CHOOSE m \in DOMAIN q : q[m].j = j] IN tr.at[CHOOSE m \in DOMAIN tr.at : tr.at[m].s = s]
       One(j, s) ==
          LET x == row(j, s)  first == PrevOn(I, j, s) = NONE  p == PrevOn(I, j, s) IN
          Fail("row.arrive", x.arr = (IF first THEN Absent ELSE E(j, p) + d(j, p) + run(j, s)), <<j, s, r.how, x.arr>>)
          \cup Fail("row.conflicted-arrive", x.carr = (IF first THEN Absent ELSE E(j, p) + run(j, s)), <<j, s, r.how, x.carr>>)
          \cup (IF Decides(I, j, s)
                THEN Fail("row.departure", x.dep = E(j, s) + d(j, s), <<j, s, r.how, x.dep, "want", E(j, s) + d(j, s)>>)
                     \cup Fail("row.conflicted-departure", x.cdep = E(j, s), <<j, s, r.how, x.cdep, "want", E(j, s)>>)
                     \cup Fail("row.delay", x.del = d(j, s), <<j, s, r.how, x.del, "want", d(j, s)>>)
                     \cup Fail("row.impact", IsShare(I, x.imp, WeightAt(I, j, s), d(j, s)), <<j, s, r.how, x.imp>>)
                ELSE IF Skips(I, j, s)
                THEN Fail("row.skipped", {x.dep, x.cdep, x.del, x.imp} = {Absent}, <<j, s, r.how, x>>)
                ELSE {})
   IN Fail("table.ok", r.err = "", r.err)
      \cup (IF r.err # "" THEN {} ELSE
        LET trains == Fail("table.trains", [m \in DOMAIN q |-> q[m].j] = I.J, <<I.J, q>>)
            routes == IF trains # {} THEN {} ELSE UNION {Fail("table.route", [m \in DOMAIN q[n].at |-> q[n].at[m].s] = Path(I, q[n].j), q[n]) : n \in DOMAIN q}
        IN trains \cup routes \cup (IF trains \cup routes # {} THEN {} ELSE UNION {UNION {One(j, s) : s \in Rng(Path(I, j))} : j \in Trains(I)}))

-----------------------------------------------------------------------------
(* C28: sizes                                                                *)
J28(r) ==
   LET names == {r.dv[k].n : k \in DOMAIN r.dv}
       order == Cardinality({k \in DOMAIN r.P.vars : r.P.vars[k].n \notin names})
       delay == Cardinality({k \in DOMAIN r.P.vars : r.P.vars[k].n \in names})
       size == <<order, delay, Len(r.P.cons)>>
   IN IF r.kind = "model" THEN
        Fail("model.ok", r.err = "", r.err)
        \cup (IF r.err # "" THEN {} ELSE
          Fail("size.counts", r.size.err = "" /\ r.size.v = size, <<"want", size, "got", r.size>>)
          \cup Fail("size.shown", r.shown.err = "" /\ (r.shown.v = <<>> \/ r.shown.v = size), <<"want", size, "got", r.shown>>)
          \cup UNION {Fail("size.rejects", r.spoilt[k].err # "", r.spoilt[k]) : k \in DOMAIN r.spoilt})
      ELSE
        Fail("qubo.fields", r.lin.err = "" /\ r.lin.v = Cardinality({k \in DOMAIN r.h : r.h[k] # 0}), <<r.h, r.lin>>)
        \cup Fail("qubo.couplings", r.quad.err = "" /\ r.quad.v = Cardinality({k \in DOMAIN r.q : r.q[k] # 0}), <<r.q, r.quad>>)

-----------------------------------------------------------------------------
(* C29: elementary queries.  NONE stands for no answer.                      *)
Together(gs, a, b) == a # b /\ \E m \in DOMAIN gs : {a, b} \subseteq Rng(gs[m])
GroupsAt(I, s, t) == LET q == SelectSeq(I.jd, LAMBDA x : x.s = s /\ x.t = t) IN [m \in DOMAIN q |-> q[m].g]
MayOvertake(I, j, k, s) ==
   LET p == PrevOn(I, j, s)  q == PrevOn(I, k, s) IN
   IF I.jd = <<>> \/ p = NONE \/ q = NONE THEN FALSE
   ELSE IF p # q THEN TRUE ELSE ~Together(GroupsAt(I, p, s), j, k)
BothIn(I, j, k, s) == \E m \in DOMAIN I.switch : LET W == I.switch[m] IN W.s = s /\ {W.j, W.k} = {j, k} /\ W.r = "in" /\ W.q = "in"
B(x) == IF x THEN "T" ELSE "F"
Answer(I, q) ==
   CASE q.f = "prev" -> PrevOn(I, q.j, q.s)
     [] q.f = "next" -> NextOn(I, q.j, q.s)
     [] q.f = "gives" -> IF Gives(I, q.j, q.s) THEN GivesTo(I, q.j, q.s) ELSE NONE
     [] q.f = "takes" -> IF Takes(I, q.j, q.s) THEN TakesFrom(I, q.j, q.s) ELSE NONE
     [] q.f = "skip" -> B(Skips(I, q.j, q.s))
     [] q.f = "stock" -> B(~SameStock(I, q.j, q.k))
     [] q.f = "overtake" -> B(MayOvertake(I, q.j, q.k, q.s))
     [] q.f = "bothin" -> B(BothIn(I, q.j, q.k, q.s))
     [] q.f = "from-in" -> PrevOn(I, q.j, q.s)
     [] q.f = "from-out" -> q.s
     [] q.f = "pair" -> B(Together(q.g, q.j, q.k))
Merged(q) == Rng(q.old) \cup Rng(q.new)
J29(r) == UNION {LET q == r.q[n] IN
                 IF q.f = "merge" THEN Fail("merge", q.err = "" /\ Len(q.v) = Cardinality(Merged(q)) /\ Rng(q.v) = Merged(q), q)
                 ELSE Fail("query." \o q.f, q.err = "" /\ q.v = Answer(r.I, q), <<q, "want", Answer(r.I, q)>>)
               : n \in DOMAIN r.q}

Judge(r) == CASE Prop = "C17" -> J17(r) [] Prop = "C18" -> J18(r) [] Prop = "C19" -> J19(r) [] Prop = "C20" -> J20(r)
              [] Prop = "C27" -> J27(r) [] Prop = "C28" -> J28(r) [] Prop = "C29" -> J29(r) [] Prop = "C30" -> J30(r)

Init == l \in DOMAIN Trace /\ done = FALSE
Next == /\ ~done
        /\ done' = TRUE
        /\ PrintT("V " \o ToJson([i |-> l, bad |-> Judge(Trace[l])]))
        /\ UNCHANGED l
============================================================================
