------------------------------ MODULE Disturb ------------------------------
(* Histories of disturbances of a table of initial times (C15).  TLC
   enumerates every history over a small set of look-alike train numbers (or
   simulates longer ones) and prints it for replay.                          *)
EXTENDS Util, Json

CONSTANTS Nos,       \* train numbers that may be present
          Absent,    \* a train number that is never present
          Delays,    \* delays + 2000, milli-minutes (configuration files know no negative numbers)
          MaxLen     \* length of a history

VARIABLES init, tab, hist

Stations2 == {"KO", "1"}
Change(t, n, d) == [k \in DOMAIN t |-> IF k[1] = n THEN t[k] + d ELSE t[k]]

Tables == {[k \in {<<n, IF n = 1 THEN "KO(STM)" ELSE "KO">> : n \in N} |-> 1000 * (k[1] % 7)] : N \in (SUBSET Nos) \ {{}}}
          \cup {[k \in N \X Stations2 |-> 500 * (k[1] % 5)] : N \in {X \in SUBSET Nos : Cardinality(X) = 2}}

Init == init \in Tables /\ tab = init /\ hist = <<>>

Delay(n, d) == /\ Len(hist) < MaxLen
               /\ tab' = Change(tab, n, d)
               /\ hist' = Append(hist, <<n, d>>)
               /\ UNCHANGED init
               /\ (Len(hist') = MaxLen =>
                     PrintT("HIST " \o ToJson([init |-> {[k |-> k, v |-> init[k]] : k \in DOMAIN init}, hist |-> hist'])))
Next == \E n \in Nos \cup {Absent}, d \in {x - 2000 : x \in Delays} : Delay(n, d)

Sum(h, n) == SeqSum([i \in DOMAIN h |-> IF h[i][1] = n THEN h[i][2] ELSE 0])
(* several disturbances in any order add up, nobody else moves              *)
Additive == \A k \in DOMAIN tab : tab[k] = init[k] + Sum(hist, k[1])
SameKeys == DOMAIN tab = DOMAIN init
============================================================================
