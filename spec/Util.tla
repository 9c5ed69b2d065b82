------------------------------- MODULE Util -------------------------------
(* Small helpers shared by all modules.                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Rng(s)        == {s[i] : i \in DOMAIN s}
Last(s)       == s[Len(s)]
Front(s)      == SubSeq(s, 1, Len(s) - 1)
Max2(a, b)    == IF a >= b THEN a ELSE b
Min2(a, b)    == IF a <= b THEN a ELSE b
MaxSet(S)     == CHOOSE x \in S : \A y \in S : x >= y
MinSet(S)     == CHOOSE x \in S : \A y \in S : x <= y
Abs(a)        == IF a >= 0 THEN a ELSE 0 - a
Rev(s)        == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
NoDup(s)      == Cardinality(Rng(s)) = Len(s)
IndexOf(s, x) == CHOOSE i \in DOMAIN s : s[i] = x
SeqSum(s)     == LET f[i \in 0..Len(s)] == IF i = 0 THEN 0 ELSE f[i - 1] + s[i] IN f[Len(s)]
Cat(ss)       == LET f[i \in 0..Len(ss)] == IF i = 0 THEN <<>> ELSE f[i - 1] \o ss[i] IN f[Len(ss)]
Filter(s, P(_)) == SelectSeq(s, P)
Count(s, x)   == Cardinality({i \in DOMAIN s : s[i] = x})
SameBag(a, b) == Len(a) = Len(b) /\ \A x \in Rng(a) \cup Rng(b) : Count(a, x) = Count(b, x)
IsPerm(s, S)  == Len(s) = Cardinality(S) /\ Rng(s) = S

(* Milli-minutes.  v is a correct rounding of x to whole minutes iff it is
   a whole minute at distance at most half a minute (a tie may go either way). *)
RoundsTo(x, v) == v % 1000 = 0 /\ Abs(v - x) <= 500
Within(x, v, r) == IF r THEN RoundsTo(x, v) ELSE x = v

(* pick: random element of a sequence / set, used by the generators only *)
Pick(S)       == RandomElement(S)
Chance(p)     == RandomElement(1..100) <= p

(* A verdict is a set of failed clauses.                                  *)
FailAt(name, cond, key, info) == IF cond THEN {} ELSE {[clause |-> name, key |-> key, info |-> ToString(info)]}
Fail(name, cond, info) == IF cond THEN {} ELSE {[clause |-> name, key |-> "", info |-> ToString(info)]}
===========================================================================
