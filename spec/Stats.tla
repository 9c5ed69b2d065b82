------------------------------- MODULE Stats -------------------------------
(* Figures and statistics made from result files (C34).

   Four kinds of input:
     stats  cases 0..9, each a classical solution (trains) and a sampled one
            (realisations of trains); a train is its stops [s, d], d the
            secondary delay of its departure, NA at a stop without departure
     fast, lim   three lines; for each the runs of the hybrid solver under two
            time settings, the exact and the time-limited linear solver, all on
            the same instances
     tmin, rev   two cases; for each of ten time settings some runs
   Objectives are thousandths, run and QPU times hundred-thousandths of a
   second, solver times milliseconds.  What is drawn is compared as fractions
   [n, d] of hundred-thousandths.                                            *)
EXTENDS Util
NA == -100000
F(n, d) == [n |-> n, d |-> d]
Whole(n) == F(n, 1)
Near(g, f) == Abs(g) < 100000000 /\ Abs(g * f.d - f.n) <= f.d
AllNear(gs, fs) == Len(gs) = Len(fs) /\ \A i \in DOMAIN fs : Near(gs[i], fs[i])

(* ---------------------------------------------------------------- delays *)
Considered == <<"KO(STM)", "KO", "CB", "KL", "MJ">>
DelaysAt(trains, s) == Cat([i \in DOMAIN trains |-> LET st == SelectSeq(trains[i].stops, LAMBDA x : x.s = s /\ x.d # NA) IN [k \in DOMAIN st |-> st[k].d]])
Together(reals, s) == Cat([r \in DOMAIN reals |-> DelaysAt(reals[r], s)])
Sorted(q) == SortSeq(q, LAMBDA a, b : a < b)
H == 100000
MeanOf(q) == F(H * SeqSum(q), Len(q))
(* quartile k of 4, interpolated between neighbours *)
Quartile(q, k) == LET s == Sorted(q)  p == (Len(s) - 1) * k  lo == p \div 4 + 1  f == p % 4
                  IN F(H * (4 * s[lo] + IF f = 0 THEN 0 ELSE f * (s[lo + 1] - s[lo])), 4)
Least(q) == Whole(H * MinSet(Rng(q)))
Most(q)  == Whole(H * MaxSet(Rng(q)))
Summary(qs, what) ==
   LET each(x) == [i \in DOMAIN qs |-> CASE x = "max" -> Most(qs[i]) [] x = "q75" -> Quartile(qs[i], 3) [] x = "mean" -> MeanOf(qs[i])
                                        [] x = "q25" -> Quartile(qs[i], 1) [] OTHER -> Least(qs[i])]
   IN each(what)
Plotted == {0, 4, 7}

(* ---------------------------------------------------------------- series *)
(* kind of mark, horizontal positions, values, colours (one, or one each), name *)
Series(kind, x, y, colour, label) == [kind |-> kind, x |-> x, y |-> y, colour |-> colour, label |-> label]
Count0(n) == [i \in 1..n |-> Whole(H * (i - 1))]
Light(inst) == [i \in DOMAIN inst |-> IF inst[i].ok = "T" THEN "green" ELSE "red"]
One(c) == <<c>>

Times == <<5, 20>>
Lab(k) == "CQM t\\_min = " \o ToString(Times[k])
Lines(f) ==      \* the three diagrams of line f
   LET N == Len(f.exact)
       x == Count0(N)
       q(k, g(_, _)) == [i \in 1..N |-> Whole(g(f.q[k], f.q[k].inst[i]))]
       minutes(file, e) == 100 * e.obj * file.dmax
       run(file, e) == e.run
       qpu(file, e) == e.qpu
       lp(s, g(_)) == [i \in 1..N |-> Whole(g(s[i]))]
       obj(e) == 100 * e.obj
       sec(e) == 100 * e.time
       zero(e) == 0
       sampled(g(_, _)) == [k \in 1..2 |-> Series("scatter", x, q(k, g), Light(f.q[k].inst), Lab(k))]
       exact == IF f.lim = "T" THEN "CPLEX  exact" ELSE "CPLEX "
       plain(g(_)) == <<Series("plot", x, lp(f.exact, g), One("blue"), exact)>> \o IF f.lim = "T" THEN <<Series("plot", x, lp(f.limited, g), One("black"), "CPLEX  time limit $ = 5$s")>> ELSE <<>>
       lit(g(_)) == <<Series("scatter", x, lp(f.exact, g), Light(f.exact), "")>>
   IN << sampled(minutes) \o plain(obj) \o lit(obj), sampled(run) \o plain(sec) \o lit(sec), sampled(qpu) \o plain(zero) >>
LineFile(k, lim) == "CPLEX_CMD_cqm_compt_case" \o ToString(k) \o (IF lim = "T" THEN "b_lim.pdf" ELSE "b.pdf")
Sizes(f) == LET m(g(_)) == F(H * SeqSum([i \in DOMAIN f.exact |-> g(f.exact[i])]), Len(f.exact))
                iv(e) == e.iv  ov(e) == e.ov  con(e) == e.con
            IN <<m(iv), m(ov), m(con)>>

TMins == <<5, 6, 7, 10, 15, 20, 25, 30, 40, 60>>
Reference == << [case |-> "case7", obj |-> 18875000, time |-> 789000], [case |-> "case9", obj |-> 18550000, time |-> 651000] >>
Feasible(c) == \A k \in DOMAIN c.runs : \A i \in DOMAIN c.runs[k] : c.runs[k][i].ok = "T"
Sweep(c, ref, rev) ==
   LET xs == [k \in 1..10 |-> Whole(H * TMins[k])]
       col(k, g(_)) == [i \in DOMAIN c.runs[k] |-> g(c.runs[k][i])]
       mean(g(_)) == [k \in 1..10 |-> F(SeqSum(col(k, g)), Len(c.runs[k]))]
       low(g(_)) == [k \in 1..10 |-> Whole(MinSet(Rng(col(k, g))))]
       top(g(_)) == [k \in 1..10 |-> Whole(MaxSet(Rng(col(k, g))))]
       obj(e) == 100 * e.obj * 40
       run(e) == e.run
       qpu(e) == e.qpu
       flat(v) == [k \in 1..10 |-> Whole(v)]
       x == IF rev THEN mean(run) ELSE xs
       three == << Series("plot", x, mean(obj), One("green"), "mean"), Series("plot", x, low(obj), One("green"), "env."), Series("plot", x, top(obj), One("green"), "") >>
       fit == << [kind |-> "fit", x |-> x, y |-> mean(obj), colour |-> One("green"), label |-> "log lin. fit"] >>
   IN IF rev THEN << three \o fit \o << Series("plot", <<Whole(ref.time)>>, <<Whole(ref.obj)>>, One("black"), "CPLEX"), Series("plot", xs, flat(ref.obj), One("black"), "Optimum") >> >>
      ELSE << three \o fit \o << Series("plot", x, flat(ref.obj), One("blue"), "CPLEX") >>,
              << Series("plot", x, mean(run), One("green"), "mean CQM"), Series("plot", x, flat(ref.time), One("blue"), "CPLEX") >>,
              << Series("plot", x, low(qpu), One("gray"), "CQM env."), Series("plot", x, top(qpu), One("gray"), "") >> >>
SweepFile(case, rev) == "cqm_" \o case \o (IF rev THEN "_R_tmin.pdf" ELSE "_sweep_tmin.pdf")

(* y is the least squares line in the logarithm lx (thousandths) of the points p *)
Fits(y, lx, p) ==
   LET n == Len(y)
       v == [i \in 1..n |-> y[i] \div 1000]
       w == [i \in 1..n |-> p[i].n \div (1000 * p[i].d)]
       r == [i \in 1..n |-> v[i] - w[i]]
   IN /\ \A i \in 1..n : Abs((v[i] - v[1]) * (lx[n] - lx[1]) - (v[n] - v[1]) * (lx[i] - lx[1])) <= 150000
      /\ Abs(SeqSum(r)) <= 2 * n + 5
      /\ Abs(SeqSum([i \in 1..n |-> r[i] * lx[i]])) <= 10000 * n
Matches(g, e) ==
   /\ g.label = e.label /\ g.colour = e.colour
   /\ IF e.kind = "fit" THEN g.kind = "plot" /\ Len(g.y) = Len(e.y) /\ AllNear(g.x, e.x) /\ Fits(g.y, g.lx, e.y)
      ELSE g.kind = e.kind /\ AllNear(g.x, e.x) /\ AllNear(g.y, e.y)
=============================================================================
