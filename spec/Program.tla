------------------------------ MODULE Program ------------------------------
(* Integer programs as handed to a solver.  A program P has
     vars  <<[n, lo, hi, int]>>      lo..hi milli, int "T"/"F"
     cons  <<[n, s, c, t]>>          sum over t of coef * var + c  (s) 0,
                                     s in {-1, 0, 1} for <=, =, >=;
                                     t = <<[v, k]>>, k and c milli
     obj   <<[v, k]>>, oc            objective, k micro                       *)
EXTENDS Util

Meets(s, x) == IF s = 0 THEN x = 0 ELSE IF s = 1 THEN x >= 0 ELSE x <= 0
Lin(t, x) == LET f[i \in 0..Len(t)] == IF i = 0 THEN 0 ELSE f[i - 1] + t[i].k * x[t[i].v] IN f[Len(t)]
ConVal(c, x) == Lin(c.t, x) + 1000 * c.c          \* x milli, result micro
ConHolds(c, x) == Meets(c.s, ConVal(c, x))

(* Completion: given values of the variables in dv (sequence of variable
   numbers), can the remaining (binary) variables be chosen?                  *)
Split(P, dv) ==
   LET isD == TLCEval([v \in DOMAIN P.vars |-> \E i \in DOMAIN dv : dv[i] = v])
       pos == TLCEval([v \in {v \in DOMAIN P.vars : isD[v]} |-> IndexOf(dv, v)])
       con(i) == LET c == P.cons[i] IN
          [n |-> c.n, s |-> c.s, c |-> c.c,
           d |-> TLCEval(LET q == SelectSeq(c.t, LAMBDA e : isD[e.v]) IN [m \in DOMAIN q |-> [v |-> pos[q[m].v], k |-> q[m].k]]),
           y |-> TLCEval(SelectSeq(c.t, LAMBDA e : ~isD[e.v]))]
       C == TLCEval([i \in DOMAIN P.cons |-> con(i)])
       ys == {v \in DOMAIN P.vars : ~isD[v]}
   IN [plain |-> {i \in DOMAIN C : C[i].y = <<>>},
       one |-> TLCEval([v \in ys |-> {i \in DOMAIN C : Len(C[i].y) = 1 /\ C[i].y[1].v = v}]),
       many |-> {i \in DOMAIN C : Len(C[i].y) > 1},
       C |-> C, ys |-> ys,
       dom |-> TLCEval([v \in ys |-> {b \in {0, 1000} : P.vars[v].lo <= b /\ b <= P.vars[v].hi}])]

RECURSIVE Search(_, _)
Search(cs, dom) ==     \* cs: set of [s, x, y], residual constraints (two of one form may merge)
   IF cs = {} THEN TRUE
   ELSE IF \E c \in cs : c.y = <<>> /\ ~Meets(c.s, c.x) THEN FALSE
   ELSE LET ones == {c \in cs : Len(c.y) = 1}
            sub(D, v, b) == TLCEval({[s |-> c.s, x |-> c.x + Lin(SelectSeq(c.y, LAMBDA e : e.v = v), [w \in {v} |-> b]),
                                      y |-> SelectSeq(c.y, LAMBDA e : e.v # v)] : c \in D})
        IN IF ones # {}
           THEN LET v == (CHOOSE c \in ones : TRUE).y[1].v
                    mine == {c \in ones : c.y[1].v = v}
                    left == {b \in dom[v] : \A c \in mine : Meets(c.s, c.x + c.y[1].k * b)}
                IN IF left = {} THEN FALSE
                   ELSE IF Cardinality(left) = 1
                   THEN Search(sub(cs \ mine, v, CHOOSE b \in left : TRUE), dom)
                   ELSE Search(cs \ mine, dom)        \* mine restrict nothing
           ELSE LET rest == {c \in cs : c.y # <<>>}
                IN IF rest = {} THEN TRUE
                   ELSE LET vs == UNION {{c.y[m].v : m \in DOMAIN c.y} : c \in rest}
                            v == CHOOSE v \in vs : \A w \in vs : Cardinality(dom[v]) <= Cardinality(dom[w])
                        IN \E b \in dom[v] : Search(sub(rest, v, b), dom)

Completes(S, d) ==
   LET val(i) == LET c == S.C[i] IN Lin(c.d, d) + 1000 * c.c
   IN /\ \A i \in S.plain : Meets(S.C[i].s, val(i))
      /\ LET al == TLCEval([v \in S.ys |-> {b \in S.dom[v] : \A i \in S.one[v] : Meets(S.C[i].s, val(i) + S.C[i].y[1].k * b)}])
         IN /\ \A v \in S.ys : al[v] # {}
            /\ \/ S.many = {}
               \/ Search(TLCEval({[s |-> S.C[i].s, x |-> val(i), y |-> S.C[i].y] : i \in S.many}), al)
============================================================================
