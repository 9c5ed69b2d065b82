------------------------------ MODULE Diagram ------------------------------
(* Train diagrams and path listings of solution files (C33).

   A solution file holds realisations 1..n (one for a classical solver), each a
   set of trains; a train is its stops in travel order,
        [s, v, ra, rd, ca, cd]
   station spelling s (v: how it is capitalised in the file, w: the
   text in the file), resolved and
   conflicted arrival and departure in minutes, NA where there is none.
   A diagram shows one segment of the network: position of a station across,
   time of day down.  Letters outside ASCII are written s' l/ o' a, e, here.   *)
EXTENDS Util
NA == -100000
St(name, sign, km) == [name |-> name, sign |-> sign, km |-> km]

(* distances in metres; positions behind Katowice follow from line 139 *)
GlcKo == << St("Gliwice", "GLC", 0), St("Zabrze", "ZZ", 8180), St("Ruda S'la,ska", "RS'l", 12500), St("Ruda Chebzie", "RCB", 15360),
            St("S'wie,tochl/owice", "", 18690), St("Chorzo'w Batory", "CB", 20940), St("Katowice Towarowa KTC", "KTC", 24190), St("Katowice", "KO", 26710) >>
Line139 == << St("Katowice Bryno'w", "Bry", 3880), St("Katowice Ligota", "KL", 6080), St("Katowice Piotrowice", "KtP", 7750),
              St("Katowice Podlesie", "", 11350), St("Ma,kol/owiec", "Mc", 14040), St("Tychy", "Ty", 16970) >>
Shift(s, km) == [i \in DOMAIN s |-> [s[i] EXCEPT !.km = @ + km]]
(* the third segment counts line 139 from a rounded position of Katowice *)
Segments == [
   glcty |-> [id |-> "137139GLYTy", st |-> GlcKo \o Shift(Line139, 26710)],
   glckz |-> [id |-> "137138GLYKZ", st |-> [GlcKo EXCEPT ![3].sign = "RSl"] \o << St("Katowice Stacja Manewrowa", "KO(STM)", 27210), St("Katowice Zawodzie", "KZ", 29430) >>],
   kzty  |-> [id |-> "138139KZTY", st |-> << St("Katowice Zawodzie", "KZ", 0), St("Katowice Stacja Manewrowa", "KO(STM)", 2210), St("Katowice", "KO", 2710) >> \o Shift(Line139, 2720)] ]

Hit(seg, s)  == {i \in DOMAIN Segments[seg].st : s # "" /\ (Segments[seg].st[i].sign = s \/ Segments[seg].st[i].name = s)}
On(seg, s)   == Hit(seg, s) # {}
Km(seg, s)   == Segments[seg].st[CHOOSE i \in Hit(seg, s) : TRUE].km
(* the main station does not make a train relevant for a segment *)
Hub == {"KO", "KO(STM)"}
Relevant(seg, tr) == Cardinality({i \in DOMAIN tr.stops : On(seg, tr.stops[i].s) /\ tr.stops[i].s \notin Hub}) >= 2

Realised(f) == f.reals[IF f.sampled = "T" THEN f.real ELSE 1]
Shown(f)    == SelectSeq(Realised(f), LAMBDA tr : Relevant(f.seg, tr) \/ tr.n \in Rng(f.fixed))

Arr(stop, status) == IF status = "resolved" THEN stop.ra ELSE stop.ca
Dep(stop, status) == IF status = "resolved" THEN stop.rd ELSE stop.cd
Clock(t) == t % 1440
Point(km, t) == IF t = NA THEN <<>> ELSE <<[km |-> km, t |-> Clock(t)]>>
OnIt(seg, tr) == SelectSeq(tr.stops, LAMBDA x : On(seg, x.s))

Path(seg, tr, status) ==
   LET on == OnIt(seg, tr)
   IN Cat([i \in DOMAIN on |-> Point(Km(seg, on[i].s), Arr(on[i], status)) \o Point(Km(seg, on[i].s), Dep(on[i], status))])

(* the number of the train half way of each leg *)
Labels(seg, tr, status) ==
   LET on == OnIt(seg, tr)
       left(i) == {j \in 1..(i - 1) : Dep(on[j], status) # NA}
       lab(i) == IF Arr(on[i], status) = NA \/ left(i) = {} THEN <<>>
                 ELSE LET j == MaxSet(left(i)) IN
                      <<[km |-> (Km(seg, on[j].s) + Km(seg, on[i].s)) \div 2, t |-> Clock((Dep(on[j], status) + Arr(on[i], status)) \div 2), n |-> tr.n]>>
   IN Cat([i \in DOMAIN on |-> lab(i)])

Status == <<"resolved", "conflicted">>
Colour(status) == IF status = "resolved" THEN "green" ELSE "red"
Paths(f) == LET sh == Shown(f) IN
   Cat([k \in DOMAIN sh |-> [i \in 1..2 |-> [colour |-> Colour(Status[i]), pts |-> Path(f.seg, sh[k], Status[i])]]])
AllLabels(f) == LET sh == Shown(f) IN
   Cat([k \in DOMAIN sh |-> Labels(f.seg, sh[k], "resolved") \o Labels(f.seg, sh[k], "conflicted")])

Signed(f) == SelectSeq(Segments[f.seg].st, LAMBDA x : x.sign # "")
Tics(f)   == LET s == Signed(f) IN [i \in DOMAIN s |-> [s |-> s[i].sign, km |-> s[i].km]]
Range(f)  == <<Signed(f)[1].km, Last(Signed(f)).km>>

(* listing: all trains of the realisation with all their stops *)
Rows(tr, status) == [i \in DOMAIN tr.stops |-> [w |-> tr.stops[i].w, a |-> Arr(tr.stops[i], status), d |-> Dep(tr.stops[i], status)]]
Listing(f) == LET trs == Realised(f) IN
   Cat([k \in DOMAIN trs |-> [i \in 1..2 |-> [n |-> trs[k].n, status |-> Status[3 - i], rows |-> Rows(trs[k], Status[3 - i])]]])
=============================================================================
