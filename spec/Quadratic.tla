----------------------------- MODULE Quadratic -----------------------------
(* Bounded integer programs and the quadratic models made from them.
   Program P:  vars <<[n, lo, hi]>>, whole numbers
               cons <<[n, s, c, t]>>: sum of k * x[v] over t, plus c, compared
                    with 0 (s: -1 <=, 0 =, 1 >=); k and c in thousandths
               obj <<[v, k]>>, oc: sixteenths
   An assignment x is a sequence of whole numbers, one per variable.

   Quadratic model Q over bits 1..Len(Q.h): energy (sixteenths)
               off + sum of h + sum of couplings J = <<[a, b, k]>>
   Decoding:   base[v] + sum over eff = <<[b, v, k]>> of k for the set bits;
               a bit without effect on any variable is auxiliary.            *)
EXTENDS Util

Dot(t, x) == LET f[i \in 0..Len(t)] == IF i = 0 THEN 0 ELSE f[i - 1] + t[i].k * x[t[i].v] IN f[Len(t)]
ConAt(c, x) == Dot(c.t, x) + c.c
Sat(s, v) == IF s = 0 THEN v = 0 ELSE IF s = 1 THEN v >= 0 ELSE v <= 0
Holds(c, x) == Sat(c.s, ConAt(c, x))
Miss(c, x) == LET v == ConAt(c, x) IN IF Sat(c.s, v) THEN 0 ELSE Abs(v) \div 1000
ObjAt(P, x) == Dot(P.obj, x) + P.oc
Feasible(P, x) == \A i \in DOMAIN P.cons : Holds(P.cons[i], x)
NumHolds(P, x) == Cardinality({i \in DOMAIN P.cons : Holds(P.cons[i], x)})

(* the energy an assignment deserves: w whole, pen[i] sixteenths        *)
Deserved(P, w, pen, x) ==
   w * ObjAt(P, x) + SeqSum([i \in DOMAIN P.cons |-> LET m == Miss(P.cons[i], x) IN pen[i] * m * m])

-----------------------------------------------------------------------------
SumSet(S, f(_)) == LET g[T \in SUBSET S] == IF T = {} THEN 0 ELSE LET a == CHOOSE a \in T : TRUE IN f(a) + g[T \ {a}] IN g[S]
SumSeq(s, f(_)) == LET g[i \in 0..Len(s)] == IF i = 0 THEN 0 ELSE f(s[i]) + g[i - 1] IN g[Len(s)]
Energy(Q, on) == Q.off + SumSeq([b \in DOMAIN Q.h |-> b], LAMBDA b : IF b \in on THEN Q.h[b] ELSE 0)
                       + SumSeq(Q.J, LAMBDA e : IF e.a \in on /\ e.b \in on THEN e.k ELSE 0)
Decode(Q, on) == [v \in DOMAIN Q.base |-> Q.base[v] + SumSeq(Q.eff, LAMBDA e : IF e.v = v /\ e.b \in on THEN e.k ELSE 0)]
Aux(Q) == DOMAIN Q.h \ {Q.eff[i].b : i \in DOMAIN Q.eff}

(* auxiliary bits fall into groups that do not interact with each other      *)
RECURSIVE Grow(_, _, _)
Grow(nb, S, new) == IF new = {} THEN S ELSE LET T == S \cup new IN Grow(nb, T, (UNION {nb[b] : b \in new}) \ T)
RECURSIVE Parts(_, _)
Parts(nb, A) == IF A = {} THEN {} ELSE LET G == TLCEval(Grow(nb, {}, {CHOOSE a \in A : TRUE})) IN {G} \cup Parts(nb, A \ G)
Groups(Q) == LET A == TLCEval(Aux(Q))
                 nb == TLCEval([a \in A |-> {b \in A : \E i \in DOMAIN Q.J : Q.J[i].k # 0 /\ {Q.J[i].a, Q.J[i].b} = {a, b} /\ a # b}])
             IN Parts(nb, A)

(* least energy over the auxiliary bits, given the set bits among the others *)
Table(Q, G) == LET in == SelectSeq(Q.J, LAMBDA e : e.a \in G /\ e.b \in G)
               IN TLCEval([S \in SUBSET G |-> SumSeq(in, LAMBDA e : IF e.a \in S /\ e.b \in S THEN e.k ELSE 0)])
Mixed(Q, G) == TLCEval(SelectSeq(Q.J, LAMBDA e : (e.a \in G) # (e.b \in G)))
LeastIn(Q, G, tab, mix, on) ==
   LET f == TLCEval([a \in G |-> Q.h[a] + SumSeq(mix, LAMBDA e : IF (e.a = a /\ e.b \in on) \/ (e.b = a /\ e.a \in on) THEN e.k ELSE 0)])
       E == {tab[S] + SumSet(S, LAMBDA a : f[a]) : S \in SUBSET G}
   IN MinSet(E)

Reach(Q, v) == LET es == SelectSeq(Q.eff, LAMBDA e : e.v = v)
                   f[i \in 0..Len(es)] == IF i = 0 THEN {Q.base[v]} ELSE f[i - 1] \cup {x + es[i].k : x \in f[i - 1]}
               IN f[Len(es)]
============================================================================
