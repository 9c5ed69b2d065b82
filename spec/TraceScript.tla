---------------------------- MODULE TraceScript ----------------------------
(* Judges recorded runs of the scenario scripts (C32) against Scripts.
     f        the configuration       err      exception that ended the run
     ref      undisturbed timetable and train sets of the announced files
              (digests; init: <<[n, s, v]>> initial conditions)
     built    models in the order of construction
     solves   calls of linear solvers <<[m, solver, tl, optimal]>>, m the model
     samples  calls of samplers: model that was last built, digest of the
              sampled problem and of the conversion of that model under the
              announced penalties, and the best result of the rows returned
     files    files written, out the numbers printed (hundred-thousandths)   *)
EXTENDS Scripts, Json, IOUtils
CONSTANT Prop
VARIABLES l, done
Trace == ndJsonDeserialize(IOEnv.TRACE)

Files(r) == {r.files[i].path : i \in DOMAIN r.files}
FileOf(r, p) == r.files[CHOOSE i \in DOMAIN r.files : r.files[i].path = p]

(* the model of the k-th instance *)
Sum(s, n) == LET hit == SelectSeq(s, LAMBDA x : x.n = n) IN SeqSum([i \in DOMAIN hit |-> hit[i].v])
Built(r, k) ==
   LET f == r.f  b == r.built[k]
   IN Fail("limit", b.dmax = f.dmax, <<f.script, f.case, b.dmax>>)
      \cup Fail("category", b.cat = f.cat, <<f.script, f.case, b.cat, "want", f.cat>>)
      \cup (IF f.script = "wisla" THEN
              UNION {Fail("wisla." \o x, Rng(b.w[x]) = Wisla[x], <<"missing", Wisla[x] \ Rng(b.w[x]), "extra", Rng(b.w[x]) \ Wisla[x]>>)
                       : x \in (DOMAIN Wisla) \ {"jd"}}
              \cup LET jd == {[e EXCEPT !.g = Rng(e.g)] : e \in Rng(b.w.jd)} IN
                   Fail("wisla.jd", jd = Wisla.jd, <<"missing", Wisla.jd \ jd, "extra", jd \ Wisla.jd>>)
              \cup Fail("wisla.J", IsPerm(b.w.J, Rng(Up) \cup Rng(Down)), b.w.J)
              \cup Fail("wisla.more", b.w.more = <<>>, b.w.more)
            ELSE
              LET late == Late(f.script, f.case, k, r.ref.J)
                  want == {[e EXCEPT !.v = @ + 1000 * Sum(late, e.n)] : e \in Rng(r.ref.init)}
              IN Fail("trainsets", b.ts = r.ref.ts, <<f.script, f.case, "trains", b.J, "want", r.ref.J>>)
                 \cup Fail("timetable", b.rest = r.ref.rest, <<f.script, f.case>>)
                 \cup Fail("disturbance", Rng(b.init) = want, <<f.script, f.case, "instance", k - 1, "missing", want \ Rng(b.init), "extra", Rng(b.init) \ want>>))

Announce(r) == UNION {FailAt("announced.train", n \in Rng(r.listed), r.f.script \o ":" \o ToString(r.f.case) \o ":" \o ToString(n), n) : n \in Announced(r.f.script, r.f.case)}

(* solvers *)
Whole(r) == Len(r.built) = Instances(r.f.script)
Lp(r) ==
   LET f == r.f IN
   IF ~UsesLp(f) THEN Fail("lp.none", r.solves = <<>>, r.solves)
   ELSE Fail("lp.calls", [i \in DOMAIN r.solves |-> r.solves[i].m] = [i \in 1..Instances(f.script) |-> i], r.solves)
        \cup Fail("lp.solver", \A i \in DOMAIN r.solves : r.solves[i].solver = f.lp, r.solves)
        \cup Fail("lp.limit", \A i \in DOMAIN r.solves : r.solves[i].tl = f.tlim, <<r.solves, f.tlim>>)
Sampler(q) == CASE q = "sim" -> "neal" [] q = "real" -> "DWaveSampler" [] q = "bqm" -> "LeapHybridSampler" [] OTHER -> "LeapHybridCQMSampler"
Quantum(r) ==
   LET f == r.f IN
   IF ~Samples(f) THEN Fail("quantum.none", r.samples = <<>>, r.samples)
   ELSE Fail("quantum.calls", [i \in DOMAIN r.samples |-> r.samples[i].m] = [i \in 1..Runs(f) |-> IF f.script = "glc" THEN i ELSE 1], r.samples)
        \cup Fail("quantum.sampler", \A i \in DOMAIN r.samples : r.samples[i].who = Sampler(f.quantum), r.samples)
        \cup Fail("quantum.limit", Hybrid(f.quantum) => \A i \in DOMAIN r.samples : r.samples[i].tl = 1000 * f.mint, <<r.samples, f.mint>>)
        \cup Fail("quantum.problem", \A i \in DOMAIN r.samples : r.samples[i].got = r.samples[i].want, <<f.quantum, f.pens>>)

(* results *)
Near(a, b, t) == Abs(a - b) <= t
Wanted(r) ==
   LET f == r.f IN
   IF f.script = "glc" THEN {ResultFile(f)}
   ELSE (IF UsesLp(f) /\ f.show = "T" THEN {DiagramLp(f)} ELSE {})
        \cup (IF Samples(f) THEN {SampleFile(f)} ELSE IF UsesQ(f) THEN {DiagramQ(f)} ELSE {})
Numeral(n) == "~int:" \o ToString(n)
GlcResults(r) ==
   LET f == r.f  e == FileOf(r, ResultFile(f))
       top(k) == (CHOOSE x \in Rng(e.top) : x.k = k).v
   IN Fail("results.head", top("method") = f.lp /\ top("d_max") = Numeral(f.dmax \div 1000) /\ top("case") = Numeral(f.case)
                            /\ top("samples") = Numeral(Instances("glc")), e.top)
      \cup Fail("results.instances", [i \in DOMAIN e.inst |-> e.inst[i].k] = [i \in 1..Instances("glc") |-> i - 1], e.inst)
      \cup UNION {LET x == e.inst[i] IN
             Fail("results.size", x.size = r.built[i].size, <<i - 1, x.size, r.built[i].size>>)
             \cup (IF UsesLp(f) THEN
                     Fail("results.objective", Near(x.obj, (f.dmax \div 1000) * r.built[i].obj, 40), <<i - 1, x.obj, r.built[i].obj>>)
                     \cup Fail("results.feasible", x.feas = "T" /\ x.broken = 0, x)
                   ELSE IF UsesQ(f) THEN
                     Fail("results.sample", x.best = r.samples[i].best, <<i - 1, "objective", x.obj, r.samples[i].obj>>)
                     \cup Fail("results.broken", x.broken = r.built[i].size[3] - r.samples[i].ok, <<i - 1, x.broken, r.built[i].size, r.samples[i].ok>>)
                   ELSE {})
           : i \in (DOMAIN e.inst) \cap (DOMAIN r.built)}
Results(r) ==
   LET f == r.f IN
   Fail("files", Files(r) = Wanted(r), <<"written", Files(r), "want", Wanted(r)>>)
   \cup (IF Files(r) # Wanted(r) THEN {}
         ELSE IF f.script = "glc" THEN GlcResults(r)
         ELSE (IF UsesLp(f) /\ f.show = "T" THEN Fail("diagram.lp", FileOf(r, DiagramLp(f)).whole = r.lp_diagram, DiagramLp(f)) ELSE {})
              \cup (IF Samples(f) THEN
                      Fail("samples.stored", FileOf(r, SampleFile(f)).each = [i \in DOMAIN r.samples |-> r.samples[i].best], <<SampleFile(f), FileOf(r, SampleFile(f)).keys>>)
                      \cup Fail("samples.runs", f.script = "real" => FileOf(r, SampleFile(f)).keys = [i \in 1..f.runs |-> ToString(i)], FileOf(r, SampleFile(f)).keys)
                    ELSE IF UsesQ(f) THEN
                      LET e == FileOf(r, DiagramQ(f))
                          s == r.stored[CHOOSE i \in DOMAIN r.stored : r.stored[i].path = SampleFile(f)]
                      IN IF f.script = "wisla" THEN Fail("diagram.quantum", s.want = <<e.whole>>, DiagramQ(f))
                         ELSE Fail("diagram.quantum", e.each = s.want /\ e.keys = [i \in 1..f.runs |-> ToString(i)], <<DiagramQ(f), e.keys>>)
                    ELSE {}))
Shown(r) ==
   LET f == r.f IN
   IF f.script = "glc" \/ ~UsesLp(f) THEN {}
   ELSE LET o == r.built[1].obj IN
        Fail("shown.objective", \E x \in Rng(r.out) : Near(x, o, 1), <<"objective", o>>)
        \cup Fail("shown.minutes", f.script = "real" => \E x \in Rng(r.out) : Near(x, 40 * o, 40), <<"objective", o>>)

(* a model without solution is outside: the scripts do not handle it *)
Solved(r) == \A i \in DOMAIN r.solves : r.solves[i].optimal = "T"
Judge(r) ==
   Announce(r) \cup UNION {Built(r, k) : k \in (DOMAIN r.built) \cap 1..Instances(r.f.script)}
   \cup (IF ~Solved(r) THEN {}
         ELSE Fail("run.ok", r.err = "", <<r.f.script, r.f.case, r.err>>)
              \cup Fail("models", Whole(r), <<r.f.script, r.f.case, "models", Len(r.built)>>)
              \cup (IF r.err # "" \/ ~Whole(r) THEN {} ELSE Lp(r) \cup Quantum(r) \cup Results(r) \cup Shown(r)))

Init == l \in DOMAIN Trace /\ done = FALSE
Next == /\ ~done
        /\ done' = TRUE
        /\ PrintT("V " \o ToJson([i |-> l, bad |-> Judge(Trace[l])]))
        /\ UNCHANGED l
=============================================================================
