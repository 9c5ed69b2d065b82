----------------------------- MODULE TraceStats -----------------------------
(* Judges figures and printed statistics (C34) against Stats.
     f      the input files       err     exception that ended the script
     figs   figures saved <<[path, heads, axes]>>: numbers in the titles, axes sequences of series
            [kind, x, y, colour, label, lx, lo, up] (lo, up: error bars; names: texts on
            the horizontal axis)
     out    numbers printed: stats <<[kind, case, what, v]>>, fast <<three means>> *)
EXTENDS Stats, Json, IOUtils
CONSTANT Prop
VARIABLES l, done
Trace == ndJsonDeserialize(IOEnv.TRACE)

FigsAt(r, p) == SelectSeq(r.figs, LAMBDA g : g.path = p)
Axis(name, got, want) ==
   Fail(name \o ".series", Len(got) = Len(want), <<"drawn", Len(got), "want", Len(want)>>)
   \cup UNION {Fail(name \o ".missing", \E j \in DOMAIN got : Matches(got[j], want[i]), want[i]) : i \in DOMAIN want}
   \cup UNION {Fail(name \o ".extra", \E i \in DOMAIN want : Matches(got[j], want[i]), got[j]) : j \in DOMAIN got}
Headed(r, p, n) == UNION {Fail("figure.head", Rng(g.heads) = {n}, <<p, g.heads, "want", n>>) : g \in Rng(FigsAt(r, p))}
Figure(r, p, want) ==
   LET g == FigsAt(r, p) IN
   IF Len(g) # 1 THEN Fail("figure.saved", FALSE, <<p, "saved", Len(g)>>)
   ELSE IF Len(g[1].axes) # Len(want) THEN Fail("figure.axes", FALSE, <<p, Len(g[1].axes)>>)
   ELSE UNION {Axis(r.f.kind \o ".axis" \o ToString(a), g[1].axes[a], want[a]) : a \in DOMAIN want}
Only(r, ps) == Fail("figure.other", {r.figs[i].path : i \in DOMAIN r.figs} \subseteq ps, {r.figs[i].path : i \in DOMAIN r.figs} \ ps)

(* delays *)
What == {"max", "q75", "mean", "q25", "min"}
Delays(r, kind, k) == [i \in DOMAIN Considered |-> IF kind = "q" THEN Together(r.f.cases[k + 1].q, Considered[i]) ELSE DelaysAt(r.f.cases[k + 1].c, Considered[i])]
Printed(r, kind, k) ==
   LET qs == Delays(r, kind, k) IN
   UNION {LET got == SelectSeq(r.out, LAMBDA o : o.kind = kind /\ o.case = k /\ o.what = w) IN
          Fail("stats." \o w, Len(got) = 1 /\ AllNear(got[1].v, Summary(qs, w)), <<kind, k, got, Summary(qs, w)>>) : w \in What}
StatFile(kind, k) == (IF kind = "q" THEN "statistics" ELSE "classical_statistics") \o "_case" \o ToString(k) \o ".pdf"
Diff(a, b) == F(a.n * b.d - b.n * a.d, a.d * b.d)
Bars(r, kind, k) ==
   LET g == FigsAt(r, StatFile(kind, k))
       qs == Delays(r, kind, k)
       m == Summary(qs, "mean")
       lo == Summary(qs, "min")
       up == Summary(qs, "max")
       c == IF kind = "q" THEN "blue" ELSE "red"
       like(s, kd, y) == s.kind = kd /\ s.names = Considered /\ s.colour = <<c>> /\ AllNear(s.y, y)
   IN IF Len(g) # 1 \/ Len(g[1].axes) # 1 THEN Fail("stats.figure", FALSE, <<kind, k, Len(g)>>)
      ELSE LET s == g[1].axes[1] IN
           Fail("stats.bars", \E i \in DOMAIN s : /\ like(s[i], "errorbar", m)
                                                 /\ Len(s[i].lo) = 5 /\ Len(s[i].up) = 5
                                                 /\ \A j \in 1..5 : Near(s[i].lo[j], Diff(m[j], lo[j])) /\ Near(s[i].up[j], Diff(up[j], m[j])), <<kind, k, s, m>>)
           \cup Fail("stats.q25", \E i \in DOMAIN s : like(s[i], "plot", Summary(qs, "q25")), <<kind, k, s>>)
           \cup Fail("stats.q75", \E i \in DOMAIN s : like(s[i], "plot", Summary(qs, "q75")), <<kind, k, s>>)
           \cup Fail("stats.marks", Len(s) = 3, <<kind, k, Len(s)>>)
JudgeStats(r) ==
   Fail("run.ok", r.err = "", r.err)
   \cup (IF r.err # "" THEN {} ELSE
         UNION {Printed(r, kind, k) : kind \in {"q", "c"}, k \in 0..9}
         \cup UNION {Bars(r, kind, k) : kind \in {"q", "c"}, k \in Plotted}
         \cup UNION {Headed(r, StatFile(kind, k), k) : kind \in {"q", "c"}, k \in Plotted}
         \cup Only(r, {StatFile(kind, k) : kind \in {"q", "c"}, k \in Plotted}))

JudgeLines(r) ==
   Fail("run.ok", r.err = "", r.err)
   \cup (IF r.err # "" THEN {} ELSE
         UNION {Figure(r, LineFile(k, r.f.lines[k].lim), Lines(r.f.lines[k])) : k \in 1..3}
         \cup UNION {Headed(r, LineFile(k, r.f.lines[k].lim), k) : k \in 1..3}
         \cup Only(r, {LineFile(k, r.f.lines[k].lim) : k \in 1..3})
         \cup Fail("lines.means", Len(r.means) = 3 /\ \A k \in 1..3 : AllNear(r.means[k], Sizes(r.f.lines[k])), <<r.means, [k \in 1..3 |-> Sizes(r.f.lines[k])]>>))

Network(k) == IF k = 1 THEN 7 ELSE 9
(* infeasible runs are not averaged: the figure is refused *)
JudgeSweep(r) ==
   LET rev == r.f.kind = "rev"
       bad == {k \in 1..2 : ~Feasible(r.f.cases[k])}
       good == IF bad = {} THEN 1..2 ELSE 1..(MinSet(bad) - 1)
   IN Fail("run.ok", (r.err = "") = (bad = {}), <<r.err, bad>>)
      \cup UNION {Figure(r, SweepFile(Reference[k].case, rev), Sweep(r.f.cases[k], Reference[k], rev)) : k \in good}
      \cup UNION {Headed(r, SweepFile(Reference[k].case, rev), IF rev THEN k ELSE Network(k)) : k \in good}
      \cup Only(r, {SweepFile(Reference[k].case, rev) : k \in (1..2) \ bad})

Judge(r) == CASE r.f.kind = "stats" -> JudgeStats(r) [] r.f.kind \in {"fast", "lim"} -> JudgeLines(r) [] OTHER -> JudgeSweep(r)
Init == l \in DOMAIN Trace /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED l
        /\ \E bad \in {Judge(Trace[l])} : PrintT("V " \o ToJson([i |-> l, bad |-> bad]))
=============================================================================
