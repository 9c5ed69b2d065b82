---------------------------- MODULE TraceDisturb ----------------------------
(* Replays recorded disturbance histories step by step.                      *)
EXTENDS Util, Json, IOUtils
CONSTANT Prop
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, pos, tab, bad

Fun(t) == [k \in {t[i].k : i \in DOMAIN t} |-> t[CHOOSE i \in DOMAIN t : t[i].k = k].v]
Change(t, n, d) == [k \in DOMAIN t |-> IF k[1] = n THEN t[k] + d ELSE t[k]]

Init == /\ l \in DOMAIN Trace /\ pos = 0
        /\ tab = Fun(Trace[l].init)
        /\ bad = Fail("initial.ok", Trace[l].err = "", Trace[l].err)

Step == /\ pos < Len(Trace[l].steps)
        /\ LET e == Trace[l].steps[pos + 1]
               want == Change(tab, e.n, e.d)
               who == <<"train", e.n, "by", e.d, "before", tab, "after", e.out>>
           IN /\ tab' = want
              /\ bad' = bad \cup (IF e.err # "" THEN Fail("delay.ok", FALSE, <<e.err, who>>) ELSE
                        Fail("delay.result", Fun(e.out) = want /\ Len(e.out) = Cardinality(DOMAIN want), who)
                        \cup Fail("delay.input", Fun(e.inp) = tab /\ Len(e.inp) = Cardinality(DOMAIN tab), <<"input became", e.inp, who>>))
        /\ pos' = pos + 1 /\ UNCHANGED l
Finish == /\ pos = Len(Trace[l].steps) /\ pos' = pos + 1
          /\ PrintT("V " \o ToJson([i |-> l, bad |-> bad]))
          /\ UNCHANGED <<l, tab, bad>>
Next == Step \/ Finish
============================================================================
