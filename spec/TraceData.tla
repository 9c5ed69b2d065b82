----------------------------- MODULE TraceData -----------------------------
(* Binds recorded calls of the timetable / train-set code (C01..C16) to the
   specification.  Every record of the trace file is judged on its own; the
   verdict is the set of violated clauses.                                  *)
EXTENDS Scheduling, Timetable, Json, IOUtils

CONSTANT Prop
Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, done

Fun(tab) == [k \in {tab[i].k : i \in DOMAIN tab} |-> tab[CHOOSE i \in DOMAIN tab : tab[i].k = k].v]
Keys(tab) == {tab[i].k : i \in DOMAIN tab}
OnceEach(tab) == Cardinality(Keys(tab)) = Len(tab)
NoValue == -1000000001

Set2(f) == UNION f        \* clauses are combined by union

(* every entry of a table against an expectation                            *)
Exactly(name, tab, dom, E(_, _)) ==
   Fail(name \o ".domain", Keys(tab) = dom /\ OnceEach(tab), <<"missing", dom \ Keys(tab), "extra", Keys(tab) \ dom>>)
   \cup UNION {IF tab[i].k \in dom THEN Fail(name \o ".value", E(tab[i].k, tab[i].v), tab[i]) ELSE {} : i \in DOMAIN tab}

-----------------------------------------------------------------------------
J01(r) ==
   LET all  == Parse(r.rows, 1)
       times(n) == Cardinality({i \in DOMAIN all : all[i].no = n})
       want == SelectSeq(all, LAMBDA t : times(t.no) = 1)
       twice == {all[i].no : i \in DOMAIN all} \ {want[i].no : i \in DOMAIN want}
       outs == SelectSeq([i \in DOMAIN r.out |-> [o |-> r.out[i], t |-> r.times[i]]], LAMBDA x : x.o.no \notin twice)
   IN Fail("read.ok", r.err = "", r.err)
      \cup UNION {FailAt("read.twice", Cardinality({i \in DOMAIN r.out : r.out[i].no = n}) = times(n), r.src \o ":" \o n, n) : n \in twice}
      \cup Fail("read.trains", [i \in DOMAIN outs |-> outs[i].o.no] = [i \in DOMAIN want |-> want[i].no],
                [i \in DOMAIN outs |-> outs[i].o.no])
      \cup UNION {IF i \in DOMAIN outs /\ outs[i].o.no = want[i].no
                  THEN LET o == outs[i].o  t == outs[i].t IN
                       Fail("read.info", o.info = want[i].info, <<want[i], o.info>>)
                       \cup Fail("read.rows", o.rows = want[i].rows, <<want[i].no, o.rows>>)
                       \cup Fail("table.rows", o.tt = want[i].rows, <<want[i].no, o.tt>>)
                       \cup Fail("arrdep.columns", o.ad = [k \in DOMAIN want[i].rows |->
                              <<want[i].rows[k][3], want[i].rows[k][4], want[i].rows[k][5]>>], <<want[i].no, o.ad>>)
                       \cup Fail("arrdep.values", t.err = "" /\ t.v = TimeCells(want[i].rows), <<want[i].no, t>>)
                  ELSE {} : i \in DOMAIN want}

J02(r) ==
   LET V == View(r.w)
       o(i) == r.out[i]
   IN Fail("enrich.ok", r.err = "", r.err)
      \cup (IF r.err # "" THEN {} ELSE
      Fail("enrich.trains", [i \in DOMAIN r.out |-> r.out[i].no] = V.J, [i \in DOMAIN r.out |-> r.out[i].no])
      \cup UNION {IF o(i).no \in Trains(V)
                  THEN LET n == o(i).no  m == Len(V.blk[n])
                           want == [k \in 1..m |-> IF k = m THEN NoValue ELSE V.time[n][k]]
                       IN Fail("enrich.blocks", o(i).b = V.blk[n], <<n, o(i).b>>)
                          \cup Fail("enrich.times", o(i).t = want, <<n, "want", want, "got", o(i).t>>)
                          \cup Fail("enrich.labels", o(i).lab = V.lab[n], <<n, "want", V.lab[n], "got", o(i).lab>>)
                          \cup Fail("route.times", r.seg[i].err = "" /\ r.seg[i].t = want, <<n, "want", want, "got", r.seg[i]>>)
                  ELSE {} : i \in DOMAIN r.out}
      \cup Fail("store.unasked", r.stray = <<>>, r.stray)
      \cup Fail("store.same", r.stored = r.out, r.stored)
      \cup UNION {LET q == r.q[i] IN
                  IF Usable(r.w, V.lix, q.x, q.y, q.sp)
                  THEN Fail("link.time", q.err = "" /\ q.t = LinkTime(r.w, V.lix, q.x, q.y, q.sp), q)
                  ELSE Fail("link.refused", q.err # "", q) : i \in DOMAIN r.q}
      \cup UNION {LET q == r.broken[i] IN
                  Fail("route.refused", Runnable(r.w, V.lix, q.route, q.sp) <=> q.err = "", q) : i \in DOMAIN r.broken})

J03(r) ==
   LET V == View(r.w)
       touching(s) == {n \in Trains(V) : Serves(V, n, s)}
       leaving(s) == {n \in touching(s) : EndsInside(V, n) # s}
   IN Fail("enrich.ok", r.err = "", r.err)
      \cup (IF r.err # "" THEN {} ELSE
      Exactly("paths", r.paths, Trains(V), LAMBDA n, v : v = V.sts[n])
      \cup Exactly("stations", r.sts, Trains(V), LAMBDA n, v : v = V.sts[n])
      \cup Fail("trains", SameBag(r.J, V.J), r.J)
      \cup UNION {LET q == r.next[i] IN Fail("next", q.v = NextSt(V, q.n, q.s), q) : i \in DOMAIN r.next}
      \cup UNION {LET q == r.passes[i] IN Fail("passes", q.v = IF Serves(V, q.n, q.s) THEN "T" ELSE "F", q) : i \in DOMAIN r.passes}
      \cup UNION {LET q == r.at[i] IN Fail("tracks", q.v = IF Serves(V, q.n, q.s) THEN <<TrackAt(V, q.n, q.s)>> ELSE <<>>, q) : i \in DOMAIN r.at}
      \cup UNION {LET q == r.wide[i] IN Fail("tracks.wide", IsPerm(q.v, Rng(q.own) \cap Rng(V.blk[q.n])), q) : i \in DOMAIN r.wide}
      \cup Exactly("at", r.all, Stations(V), LAMBDA s, v : IsPerm(v, touching(s)))
      \cup Exactly("departing", r.dep, Stations(V), LAMBDA s, v : IsPerm(v, leaving(s)))
      \cup UNION {LET q == r.common[i] IN Fail("common", IsPerm(q.v, Rng(V.sts[q.n]) \cap Rng(V.sts[q.m])), q) : i \in DOMAIN r.common}
      \cup UNION {LET q == r.blocks[i] IN
                  Fail("blocks.common", q.v = SelectSeq(V.blk[q.n], LAMBDA b : b \in Rng(V.blk[q.m])), q) : i \in DOMAIN r.blocks}
      \cup (IF r.hasof THEN Exactly("of", r.of, UNION {Rng(V.sts[n]) : n \in Trains(V)}, LAMBDA s, v : IsPerm(v, touching(s))) ELSE {})
      \cup Exactly("skip", r.skip, {n \in Trains(V) : EndsInside(V, n) # ""}, LAMBDA n, v : v = EndsInside(V, n)))

J04(r) ==
   LET V == View(r.w)
   IN Fail("enrich.ok", r.err = "", r.err)
      \cup (IF r.err # "" THEN {} ELSE
      UNION {LET q == r.q[i] IN
             IF ~Serves(V, q.n, q.s) \/ ~Serves(V, q.n, q.t)
             THEN Fail("between.offroute", q.blocks = <<>> /\ q.rev = "N", q)
             ELSE IF V.row[q.n][q.s] < V.row[q.n][q.t]
             THEN Fail("between", q.blocks = Between(V, q.n, q.s, q.t) /\ q.rev = "F", <<q, Between(V, q.n, q.s, q.t)>>)
             ELSE Fail("between.reverse", q.blocks = <<>> /\ q.rev = "T", q) : i \in DOMAIN r.q}
      \cup UNION {LET q == r.sh[i] IN
             Fail("shared", q.blocks = Shared(V, q.n, q.m, q.s, q.t), <<q, Shared(V, q.n, q.m, q.s, q.t)>>)
             \cup Fail("direction", q.dir = IF SameWay(V, q.n, q.m, q.s, q.t) THEN "same" ELSE "opposite", q) : i \in DOMAIN r.sh})

J05(r) ==
   LET lix == LinkIndex(r.w)
   IN UNION {LET q == r.q[i] IN
             IF Connected(lix, q.route) THEN Fail("connected.accepted", q.ok = "T", q) ELSE Fail("broken.rejected", q.ok = "F", q)
             : i \in DOMAIN r.q}

J06(r) ==
   LET V == View(r.w)
   IN Fail("enrich.ok", r.err = "", r.err)
      \cup UNION {LET q == r.q[k]
                      S == Rng(q.imp)
                      want == {x \in DirectLegs(V) : x[1] \in S}
                      real == {i \in DOMAIN q.out : q.out[i].groups # <<>>}
                      got == {<<q.out[i].s, q.out[i].t>> : i \in real}
                  IN Fail("groups.ok", q.err = "", q.err)
                     \cup (IF q.err # "" THEN {} ELSE
                     Fail("groups.legs", got = want /\ Cardinality(got) = Cardinality(real), <<"missing", want \ got, "extra", got \ want>>)
                     \cup UNION {LET g == q.out[i].groups
                                     G == HeadwayGroups(V, q.out[i].s, q.out[i].t)
                                 IN IF <<q.out[i].s, q.out[i].t>> \notin want THEN {} ELSE
                                    Fail("groups.members", /\ {Rng(g[x]) : x \in DOMAIN g} = G
                                                           /\ Len(g) = Cardinality(G)
                                                           /\ \A x \in DOMAIN g : NoDup(g[x]), <<"want", G, q.out[i]>>) : i \in real})
                  : k \in DOMAIN r.q}

J07(r) ==
   LET V == View(r.w)
   IN Fail("enrich.ok", r.err = "", r.err)
      \cup UNION {LET q == r.q[k]
                      want == OpposingSet(V, Rng(q.imp))
                      canon(o) == {<<o.j, o.s, o.t>>, <<o.m, o.t, o.s>>}
                      got == {canon(q.out[i]) : i \in DOMAIN q.out}
                      vague(o) == o.j \in Trains(V) /\ o.m \in Trains(V) /\ PartialOverlap(V, o.j, o.m, o.s, o.t)
                  IN Fail("opposing.ok", q.err = "", q.err)
                     \cup (IF q.err # "" THEN {} ELSE
                     Fail("opposing.found", want \subseteq got, <<"missing", want \ got>>)
                     \cup Fail("opposing.only", \A i \in DOMAIN q.out : canon(q.out[i]) \in want \/ vague(q.out[i]), <<"extra", got \ want>>)
                     \cup Fail("opposing.once", \A i, j \in DOMAIN q.out : i # j => canon(q.out[i]) # canon(q.out[j]), q.out))
                  : k \in DOMAIN r.q}

J08(r) ==
   LET V == View(r.w)
   IN Fail("enrich.ok", r.err = "", r.err)
      \cup UNION {LET q == r.q[k]
                      S == Rng(q.imp)
                      f == Fun(q.out)
                  IN Fail("tracks.ok", q.err = "", q.err)
                     \cup (IF q.err # "" THEN {} ELSE
                     Fail("tracks.stations", Keys(q.out) \subseteq S /\ OnceEach(q.out), Keys(q.out))
                     \cup UNION {LET g == IF s \in DOMAIN f THEN f[s] ELSE <<>>
                                     G == TrackGroups(V, s)
                                 IN Fail("tracks.groups", /\ {Rng(g[x]) : x \in DOMAIN g} = G
                                                          /\ Len(g) = Cardinality(G)
                                                          /\ \A x \in DOMAIN g : NoDup(g[x]), <<s, "want", G, "got", g>>) : s \in S})
                  : k \in DOMAIN r.q}

J09(r) ==
   LET V == View(r.w)
   IN Fail("enrich.ok", r.err = "", r.err)
      \cup UNION {LET q == r.q[k]
                      S == Rng(q.imp)
                      canon(o) == {<<o.mv[i].n, o.mv[i].d>> : i \in DOMAIN o.mv}
                      at(s) == {i \in DOMAIN q.out : q.out[i].s = s}
                  IN Fail("switches.ok", q.err = "", q.err)
                     \cup (IF q.err # "" THEN {} ELSE
                     Fail("switches.stations", \A i \in DOMAIN q.out : q.out[i].s \in S, q.imp)
                     \cup UNION {LET got == {canon(q.out[i]) : i \in at(s)}
                                     want == SwitchConflicts(V, s)
                                 IN Fail("switches.found", want \subseteq got, <<s, "missing", want \ got>>)
                                    \cup Fail("switches.only", got \subseteq want, <<s, "extra", got \ want>>)
                                    \cup Fail("switches.once", Cardinality(at(s)) = Cardinality(got), <<s, got>>) : s \in S})
                  : k \in DOMAIN r.q}
      \cup UNION {LET z == r.z[i] IN Fail("movement.switches", Rng(z.v) = Switches(V, z.n, z.s, z.d), <<z, Switches(V, z.n, z.s, z.d)>>) : i \in DOMAIN r.z}

J10(r) ==
   LET V == View(r.w)
       P == Pairs9(V)
       connected == {p \in P : HandOvers(V, p) # {}}
       q == r.q[1]
       trip(o) == <<o.s, o.a, o.b>>
       of(p) == {i \in DOMAIN q.out : {q.out[i].a, q.out[i].b} = {p[1], p[2]}}
   IN Fail("enrich.ok", r.err = "", r.err)
      \cup (IF r.err # "" THEN {} ELSE
      Fail("pairs", {<<r.pairs[i][1], r.pairs[i][2]>> : i \in DOMAIN r.pairs} = P /\ Len(r.pairs) = Cardinality(P), <<r.pairs, "want", P>>)
      \cup (IF q.err # "" THEN Fail("handover.ok", connected # P, q.err) ELSE
            UNION {Fail("handover.once", Cardinality(of(p)) = (IF p \in connected THEN 1 ELSE 0), <<p, q.out>>)
                   \cup Fail("handover.place", \A i \in of(p) : trip(q.out[i]) \in HandOvers(V, p) /\ q.out[i].n = 2, <<p, q.out, HandOvers(V, p)>>) : p \in P}
            \cup Fail("handover.only", \A i \in DOMAIN q.out : \E p \in P : {q.out[i].a, q.out[i].b} = {p[1], p[2]}, q.out)))

J11(r) ==
   LET V == View(r.w)
   IN Fail("enrich.ok", r.err = "", r.err)
      \cup UNION {LET q == r.q[k]
                      T == Rng(q.trains)
                      dom == UNION {{<<n, V.sts[n][i], V.sts[n][i + 1]>> : i \in 1..(Len(V.sts[n]) - 1)} : n \in T}
                  IN Fail("pass.ok", q.err = "", q.err)
                     \cup (IF q.err # "" THEN {} ELSE
                           Exactly("pass", q.out, dom, LAMBDA x, v : Within(RunTime(V, x[1], x[2], x[3]), v, q.r = 1)))
                  : k \in DOMAIN r.q}

J12(r) ==
   LET V == View(r.w)
   IN Fail("enrich.ok", r.err = "", r.err)
      \cup UNION {LET q == r.q[k]
                      T == Rng(q.trains)
                      sdom == UNION {{<<n, s>> : s \in {x \in Rng(V.sts[n]) : GoesOn(V, n, x)}} : n \in T}
                      must == {<<n, FirstSt(V, n)>> : n \in {n \in T : HasPrep(V, n)}}
                  IN Fail("taus.ok", q.err = "", q.err)
                     \cup (IF q.err # "" THEN {} ELSE
                     (IF q.f = "prep" THEN {} ELSE
                        Exactly("stop", q.stop, sdom, LAMBDA x, v : Within(StopTime(V, x[1], x[2]), v, q.r = 1)))
                     \cup Exactly("prep", q.prep, must, LAMBDA x, v : Within(PrepTime(V, x[1]), v, q.r = 1)))
                  : k \in DOMAIN r.q}

J13(r) ==
   LET V == View(r.w)
       same == UNION {UNION {{<<p[1], p[2], x[1], x[2]>> : p \in {p \in g \X g : p[1] # p[2]}} : g \in HeadwayGroups(V, x[1], x[2])} : x \in DirectLegs(V)}
   IN Fail("enrich.ok", r.err = "", r.err)
      \cup UNION {LET q == r.q[k]  f == Fun(q.out)
                  IN Fail("headway.ok", q.err = "", q.err)
                     \cup (IF q.err # "" THEN {} ELSE
                     UNION {Fail("spec.least", HeadwayIsLeast(V, x[1], x[2], x[3], x[4]), x)
                            \cup Fail("headway.present", x \in DOMAIN f, x)
                            \cup (IF x \in DOMAIN f THEN Fail("headway.value", Within(Headway(V, x[1], x[2], x[3], x[4]), f[x], q.r = 1),
                                                              <<x, "want", Headway(V, x[1], x[2], x[3], x[4]), "got", f[x]>>) ELSE {}) : x \in same}
                     \cup Fail("headway.trains", \A x \in DOMAIN f : x[1] \in Trains(V) /\ x[2] \in Trains(V) /\ x[1] # x[2]
                               /\ RunsDirect(V, x[1], x[3], x[4]) /\ RunsDirect(V, x[2], x[3], x[4]), DOMAIN f))
                  : k \in DOMAIN r.q}

J14(r) ==
   LET V0 == View(r.w)
   IN Fail("enrich.ok", r.err = "", r.err)
      \cup UNION {LET q == r.q[k]
                      V == [V0 EXCEPT !.w.tref = q.tref]
                      sdom == UNION {{<<n, s>> : s \in {x \in Rng(V.sts[n]) : Scheduled(V, n, x)}} : n \in Trains(V)}
                  IN Fail("schedule.ok", q.err = "", q.err)
                     \cup (IF q.err # "" THEN {} ELSE
                     Exactly("schedule", q.sched, sdom, LAMBDA x, v : v = Planned(V, x[1], x[2]))
                     \cup Exactly("initial", q.init, {<<n, FirstSt(V, n)>> : n \in Trains(V)}, LAMBDA x, v : v = Initial(V, x[1])))
                  : k \in DOMAIN r.q}

J16(r) ==
   LET V == View(r.w)
   IN Fail("enrich.ok", r.err = "", r.err)
      \cup UNION {LET q == r.q[k]
                  IN Fail("weights.ok", q.err = "", q.err)
                     \cup (IF q.err # "" THEN {} ELSE
                     Exactly("weights", q.out, {<<n, WeightStation(V, n, q.skips)>> : n \in Trains(V)},
                             LAMBDA x, v : v = Weight(V, x[1], q.cfg)))
                  : k \in DOMAIN r.q}

Judge(r) ==
   CASE Prop = "C01" -> J01(r) [] Prop = "C02" -> J02(r) [] Prop = "C03" -> J03(r) [] Prop = "C04" -> J04(r)
     [] Prop = "C05" -> J05(r) [] Prop = "C06" -> J06(r) [] Prop = "C07" -> J07(r) [] Prop = "C08" -> J08(r)
     [] Prop = "C09" -> J09(r) [] Prop = "C10" -> J10(r) [] Prop = "C11" -> J11(r) [] Prop = "C12" -> J12(r)
     [] Prop = "C13" -> J13(r) [] Prop = "C14" -> J14(r) [] Prop = "C16" -> J16(r)

Init == l \in DOMAIN Trace /\ done = FALSE
Next == /\ ~done
        /\ done' = TRUE
        /\ PrintT("V " \o ToJson([i |-> l, bad |-> Judge(Trace[l])]))
        /\ UNCHANGED l
============================================================================
