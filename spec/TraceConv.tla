----------------------------- MODULE TraceConv -----------------------------
(* Judges recorded conversions, decodings, analyses and quantum-style runs.  *)
EXTENDS Quadratic, Json, IOUtils

CONSTANT Prop
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, done

B(x) == IF x THEN "T" ELSE "F"
VarNames(P) == [v \in DOMAIN P.vars |-> P.vars[v].n]
ConNames(P) == [i \in DOMAIN P.cons |-> P.cons[i].n]

-----------------------------------------------------------------------------
(* C21.  r.cqm: vars <<[n, type, lo, hi]>>, cons <<[n, s]>>;
   r.asg: <<[x, val, obj]>>, val and obj as the constrained model computes
   them at x (counted from the model's own lower bounds).                    *)
J21(r) ==
   IF r.kind = "reject" THEN Fail(r.why \o ".rejected", r.err # "", r)
   ELSE
   Fail("cqm.ok", r.err = "", r.err)
   \cup (IF r.err # "" THEN {} ELSE
     LET P == r.P  C == r.cqm
         names == Fail("cqm.variables", SameBag([k \in DOMAIN C.vars |-> C.vars[k].n], VarNames(P)), <<C.vars, P.vars>>)
                  \cup Fail("cqm.constraints", SameBag([k \in DOMAIN C.cons |-> C.cons[k].n], ConNames(P)), <<C.cons, ConNames(P)>>)
     IN names \cup (IF names # {} THEN {} ELSE
          LET cv(n) == C.vars[CHOOSE k \in DOMAIN C.vars : C.vars[k].n = n]
              ci(n) == CHOOSE k \in DOMAIN C.cons : C.cons[k].n = n
              at == TLCEval([i \in DOMAIN P.cons |-> ci(P.cons[i].n)])
          IN UNION {LET v == P.vars[k]  w == cv(v.n) IN
                    Fail("cqm.range", w.hi - w.lo = v.hi - v.lo, <<v, w>>)
                    \cup Fail("cqm.type", w.type = "INTEGER" \/ (w.type = "BINARY" /\ v.hi - v.lo = 1), <<v, w>>) : k \in DOMAIN P.vars}
             \cup UNION {LET q == r.asg[m] IN
                    Fail("cqm.objective", q.obj = ObjAt(P, q.x), <<P.obj, q.x, "want", ObjAt(P, q.x), "got", q.obj>>)
                    \cup Fail("cqm.same-violations", \A i \in DOMAIN P.cons : Sat(C.cons[at[i]].s, q.val[at[i]]) = Holds(P.cons[i], q.x),
                              <<q.x, {P.cons[i] : i \in {i \in DOMAIN P.cons : Sat(C.cons[at[i]].s, q.val[at[i]]) # Holds(P.cons[i], q.x)}}>>)
                  : m \in DOMAIN r.asg}))

-----------------------------------------------------------------------------
(* C22 / C23: Q quadratic model, Q2 the coefficient map returned beside it   *)
Represent(P, Q) ==
   UNION {Fail("decode.range", Reach(Q, v) = P.vars[v].lo..P.vars[v].hi, <<P.vars[v], "reached", Reach(Q, v)>>) : v \in DOMAIN P.vars}
Weigh(r) ==
   LET P == r.P  Q == r.Q
       gs == Groups(Q)
       tab == TLCEval([G \in gs |-> Table(Q, G)])
       mix == TLCEval([G \in gs |-> Mixed(Q, G)])
       least(on) == Energy(Q, on) + SumSet(gs, LAMBDA G : LeastIn(Q, G, tab[G], mix[G], on))
   IN UNION {LET on == TLCEval(Rng(r.asg[m]))
                 x == TLCEval(Decode(Q, on))
                 got == TLCEval(least(on))
                 want == TLCEval(Deserved(P, r.w, r.pen, x))
             IN Fail("energy", got = want, <<"assignment", [v \in DOMAIN x |-> <<P.vars[v].n, x[v]>>], "want", want, "got", got,
                                           "missed", {<<P.cons[i].n, Miss(P.cons[i], x), r.pen[i]>> : i \in {i \in DOMAIN P.cons : ~Holds(P.cons[i], x)}}>>)
           : m \in DOMAIN r.asg}
Linear(r) ==
   UNION {LET q == r.dec[m] IN Fail("decode.bits", q.x = Decode(r.Q, Rng(q.on)), <<q, Decode(r.Q, Rng(q.on))>>) : m \in DOMAIN r.dec}
J22(r) ==
   IF r.kind = "reject" THEN Fail(r.why \o ".rejected", r.err # "", r)
   ELSE
   Fail("qubo.ok", r.err = "", r.err)
   \cup (IF r.err # "" THEN {} ELSE
     Linear(r) \cup Represent(r.P, r.Q) \cup Weigh(r)
     \cup UNION {LET on == Rng(r.dec[m].on) IN Fail("qubo.same", Energy(r.Q, on) = Energy(r.Q2, on), <<r.dec[m].on, Energy(r.Q, on), Energy(r.Q2, on)>>) : m \in DOMAIN r.dec})

J23(r) ==
   Fail("qubo.ok", r.err = "", r.err)
   \cup (IF r.err # "" THEN {} ELSE
     Linear(r) \cup Represent(r.P, r.Q) \cup Weigh(r)
     \cup UNION {LET q == r.sets[m] IN
           Fail("interpret.ok", q.err = "", q.err)
           \cup (IF q.err # "" THEN {} ELSE
             Fail("interpret.variables", \A k \in DOMAIN q.out : SameBag(q.out[k].names, VarNames(r.P)), q.out)
             \cup Fail("interpret.samples", SameBag([k \in DOMAIN q.out |-> <<q.out[k].x, q.out[k].e>>],
                                                    [k \in DOMAIN q.rows |-> <<Decode(r.Q, Rng(q.rows[k].on)), q.rows[k].e>>]), q))
         : m \in DOMAIN r.sets})

-----------------------------------------------------------------------------
(* C24: one true record per sample, by objective                             *)
TrueRecord(P, q) ==
   Fail("record.objective", q.obj = ObjAt(P, q.x), <<q.x, "want", ObjAt(P, q.x), "got", q.obj>>)
   \cup Fail("record.feasible", q.feas = B(Feasible(P, q.x)), <<q.x, q.feas>>)
   \cup Fail("record.count", q.cnt = NumHolds(P, q.x), <<q.x, "want", NumHolds(P, q.x), "got", q.cnt>>)
   \cup Fail("record.flags", /\ SameBag([k \in DOMAIN q.flags |-> q.flags[k].n], ConNames(P))
                             /\ \A k \in DOMAIN q.flags : \A i \in DOMAIN P.cons : P.cons[i].n = q.flags[k].n => q.flags[k].ok = B(Holds(P.cons[i], q.x)), q)
J24(r) ==
   Fail("analysis.ok", r.err = "", r.err)
   \cup (IF r.err # "" THEN {} ELSE
     Fail("analysis.samples", SameBag([k \in DOMAIN r.out |-> <<r.out[k].x, r.out[k].e>>], [k \in DOMAIN r.rows |-> <<r.rows[k].x, r.rows[k].e>>]), <<r.rows, r.out>>)
     \cup Fail("analysis.order", \A k \in 1..(Len(r.out) - 1) : r.out[k].obj <= r.out[k + 1].obj, r.out)
     \cup UNION {TrueRecord(r.P, r.out[k]) : k \in DOMAIN r.out})

-----------------------------------------------------------------------------
(* C25: q chosen out of the records R = <<[obj, e, feas]>>                   *)
Best(R, q) == /\ \E k \in DOMAIN R : R[k] = q
              /\ LET F == {k \in DOMAIN R : R[k].feas = "T"} IN
                 IF F # {} THEN q.feas = "T" /\ \A k \in F : q.obj <= R[k].obj
                 ELSE \A k \in DOMAIN R : q.e <= R[k].e
J25(r) == Fail("select.ok", r.err = "", r.err) \cup (IF r.err # "" THEN {} ELSE Fail("select.best", Best(r.R, r.got), <<r.R, r.got>>))

-----------------------------------------------------------------------------
(* C26: whole runs and sampler settings                                      *)
Who(m) == CASE m = "sim" -> "neal" [] m = "real" -> "DWaveSampler" [] m = "bqm" -> "LeapHybridSampler" [] m = "cqm" -> "LeapHybridCQMSampler"
J26(r) ==
   IF r.kind = "settings" THEN
     Fail("sampler.ok", r.err = "", r.err)
     \cup (IF r.err # "" THEN {} ELSE
       Fail("sampler.once", Len(r.calls) = 1 /\ r.calls[1].who = Who(r.method), r.calls)
       \cup (IF Len(r.calls) # 1 THEN {} ELSE
         UNION {LET a == r.want[k]  M == {m \in DOMAIN r.calls[1].set : r.calls[1].set[m].n = a.n} IN
                Fail("sampler.setting", \E m \in M : r.calls[1].set[m].v = a.v, <<r.method, a, r.calls[1].set>>) : k \in DOMAIN r.want}
         \cup Fail("sampler.problem", r.calls[1].same = "T", <<r.method, "sampler received another problem">>)
         \cup Fail("sampler.samples", r.same = "T", <<r.method, "samples were not returned as drawn">>)
         \cup Fail("sampler.properties", r.prop = "T", <<r.method, r.want>>)))
   ELSE
     Fail("run.ok", r.err = "", <<r.method, r.err>>)
     \cup (IF r.err # "" THEN {} ELSE
       LET P == r.P
           cand == TLCEval([k \in DOMAIN r.rows |->
                     IF r.method = "cqm" THEN [x |-> r.rows[k].x, e |-> ObjAt(P, r.rows[k].x)]
                     ELSE [x |-> Decode(r.Q, Rng(r.rows[k].on)), e |-> Energy(r.Q, Rng(r.rows[k].on))]])
           R == TLCEval([k \in DOMAIN cand |-> [obj |-> ObjAt(P, cand[k].x), e |-> cand[k].e, feas |-> B(Feasible(P, cand[k].x))]])
           a == r.ans
       IN Fail("run.from-samples", \E k \in DOMAIN cand : cand[k].x = a.x /\ cand[k].e = a.e, <<r.method, cand, a>>)
          \cup Fail("run.best", Best(R, [obj |-> ObjAt(P, a.x), e |-> a.e, feas |-> B(Feasible(P, a.x))]), <<r.method, R, a>>)
          \cup TrueRecord(P, a)
          \cup Fail("run.sampler", Len(r.calls) = 1 /\ r.calls[1].who = Who(r.method), <<r.method, r.calls>>)
          \cup Fail("run.problem", \A k \in DOMAIN r.seen : r.seen[k] = cand[k].e, <<r.method, r.seen, cand>>)
          \cup (IF Len(r.calls) # 1 THEN {} ELSE
                UNION {LET q == r.want[k]  M == {m \in DOMAIN r.calls[1].set : r.calls[1].set[m].n = q.n} IN
                       Fail("run.setting", \E m \in M : r.calls[1].set[m].v = q.v, <<r.method, q, r.calls[1].set>>) : k \in DOMAIN r.want})
          \cup Fail("run.info", r.info = "T", <<r.method, "information of the sampler not attached">>)
          \cup Fail("run.properties", r.prop = "T", <<r.method, "settings not attached">>))

Judge(r) == CASE Prop = "C21" -> J21(r) [] Prop = "C22" -> J22(r) [] Prop = "C23" -> J23(r)
              [] Prop = "C24" -> J24(r) [] Prop = "C25" -> J25(r) [] Prop = "C26" -> J26(r)

Init == l \in DOMAIN Trace /\ done = FALSE
Next == /\ ~done
        /\ done' = TRUE
        /\ PrintT("V " \o ToJson([i |-> l, bad |-> Judge(Trace[l])]))
        /\ UNCHANGED l
============================================================================
