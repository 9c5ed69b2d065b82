---------------------------- MODULE TraceSession ----------------------------
(* Judges recorded sessions (C31).  A record has
     heap0   objects and their contents (digests) at the start
     steps   <<[sc, op, ans, heap]>>   answer and all objects after each call
     fresh   <<[sc, op, ans]>>         answers given in a process of its own
   A digest is an integer; objects are named "scenario:object".              *)
EXTENDS Util, Json, IOUtils
CONSTANTS Prop, Scenarios, MaxLen
VARIABLES l, done, have, hist
S == INSTANCE Session
Trace == ndJsonDeserialize(IOEnv.TRACE)

Tag(s, o) == ToString(s) \o ":" \o o
Before(r, k) == IF k = 1 THEN r.heap0 ELSE r.steps[k - 1].heap
Step(r, k) ==
   LET x == r.steps[k]
       h == Before(r, k)
       lost == {o \in DOMAIN h : o \notin DOMAIN x.heap \/ x.heap[o] # h[o]}
       new == (DOMAIN x.heap) \ (DOMAIN h)
       same == {i \in 1..(k - 1) : r.steps[i].sc = x.sc /\ r.steps[i].op = x.op}
   IN Fail("input.unchanged", lost = {}, <<x.op, "changed", lost, "call", k>>)
      \cup Fail("created", new \subseteq (IF S!Makes(x.op) = "" THEN {} ELSE {Tag(x.sc, S!Makes(x.op))}), <<x.op, new>>)
      \cup Fail("answer.repeats", \A i \in same : r.steps[i].ans = x.ans, <<x.op, "scenario", x.sc, "call", k>>)
      \cup Fail("answer.fresh", \A i \in DOMAIN r.fresh : (r.fresh[i].sc = x.sc /\ r.fresh[i].op = x.op) => r.fresh[i].ans = x.ans, <<x.op, "scenario", x.sc, "call", k>>)
Judge(r) == UNION {Step(r, k) : k \in DOMAIN r.steps}

Init == l \in DOMAIN Trace /\ done = FALSE /\ have = <<>> /\ hist = <<>>
Next == /\ ~done
        /\ done' = TRUE
        /\ PrintT("V " \o ToJson([i |-> l, bad |-> Judge(Trace[l])]))
        /\ UNCHANGED <<l, have, hist>>
============================================================================
