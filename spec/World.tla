------------------------------- MODULE World -------------------------------
(* Generator of worlds: a railway network together with the block timetable
   of the trains running on it.  The machine plans a network station by
   station, then lets trains be entered one after another, then publishes
   the world (one JSON line).  TLC -simulate walks it at random.           *)
EXTENDS Util, Json

CONSTANTS MaxStations,   \* number of stations at most
          MaxTrains,     \* number of trains at most
          Theme,         \* "any" | "silesia" | "plain"
          DirectPct,     \* chance (percent) that two stations touch without a block in between
          PairPct,       \* chance of adding a rolling-stock partner
          RepeatPct,     \* chance that a train copies the line tracks of another one
          StrayPct,      \* chance that a new train gets the shunting number of an unrelated one
          MinTrack,      \* least running time over a station track
          EmptySw        \* chance that a station link has an empty switch list

VARIABLES stage, stations, lines, links, trains, tref

vars == <<stage, stations, lines, links, trains, tref>>

Quote(s) == "\"" \o s \o "\""

-----------------------------------------------------------------------------
(* names *)
PlainNames   == <<"A", "Bb", "Cc2", "Dd", "Ee", "F(x)", "Aa", "D", "F", "G-h", "Bb2", "J.k">>
SilesiaNames == <<"KZ", "KO(STM)", "KO", "CB", "CM", "GLC", "KL", "Ty", "MJ", "Mi">>

(* Some worlds have short block names of which one may be part of another.  *)
ShortRoots == {"A", "F(x)", "D", "J.k", "Ee"}
No(st) == ToString(IndexOf(PlainNames, st))
TrackName(short, st, i) ==
   IF short THEN "b" \o No(st) \o "." \o ToString(i) \o "x"
   ELSE IF st = "KO(STM)" /\ i >= 3
   THEN Quote("KO") \o ", " \o Quote("ST-M") \o ", " \o (IF i = 3 THEN "1114" ELSE IF i = 4 THEN "1113" ELSE "1118") \o ", " \o Quote("(N/A)")
   ELSE Quote(st) \o ", " \o Quote("ST") \o ", " \o ToString(i) \o ", " \o Quote("(" \o ToString(i) \o ")")
BlockName(short, a, b, t, i) ==
   IF short THEN "b" \o No(a) \o "." \o No(b) \o "x" \o ToString(t) \o ToString(i) ELSE
   Quote(a \o "-" \o b) \o ", " \o Quote("SBL") \o ", " \o ToString(t) \o ", " \o Quote("(" \o ToString(i) \o ")")
OuterName(short, a, i) == IF short THEN "b" \o No(a) \o "." \o ToString(i) ELSE Quote("out-" \o a) \o ", " \o Quote("PO") \o ", " \o ToString(i)

The(S) == CHOOSE x \in S : TRUE

RECURSIVE Shuffle(_)
Shuffle(S) == IF S = {} THEN <<>> ELSE LET x == TLCEval(Pick(S)) IN <<x>> \o Shuffle(TLCEval(S \ {x}))

-----------------------------------------------------------------------------
(* A station: its tracks, its parent in the tree of lines (0 for the root), *)
(* the number of outer blocks behind it.                                    *)
MkStation(nm, par, short) ==
   [name |-> nm,
    par  |-> par,
    tracks |-> LET n == IF nm = "KO(STM)" THEN Pick({2, 3, 4, 5})
                        ELSE IF nm \in {"KO(KS)", "KO(IC)"} THEN Pick({1, 2})
                        ELSE Pick({1, 1, 2, 3})
               IN TLCEval([i \in 1..n |-> TrackName(short, nm, i)]),
    outer |-> Pick(0..2)]

Init == /\ stage = "root"
        /\ stations = <<>> /\ lines = <<>> /\ links = <<>> /\ trains = <<>>
        /\ tref = 0

Root == /\ stage = "root"
        /\ stage' = "grow"
        /\ tref' = Pick({960, 960, 840, 485, 600, 1020})
        /\ stations' = LET sil == IF Theme = "any" THEN Chance(65) ELSE Theme = "silesia"
                       IN IF sil THEN <<MkStation("KO", 0, FALSE)>> ELSE The({<<MkStation(nm, 0, nm \in ShortRoots)>> : nm \in {Pick(Rng(PlainNames))}})
        /\ UNCHANGED <<lines, links, trains>>

Used == {stations[i].name : i \in DOMAIN stations}
Short == stations[1].name \in ShortRoots
IsSilesia == stations[1].name = "KO"

Grow == /\ stage = "grow"
        /\ IF Len(stations) >= 2 /\ (Len(stations) >= MaxStations \/ Chance(18))
           THEN stage' = "lines" /\ UNCHANGED stations
           ELSE /\ stage' = "grow"
                /\ stations' =
                     LET i == Len(stations)
                         nm == IF IsSilesia
                               THEN Pick(({"KO(STM)", "KO(KS)", "KO(IC)", "KZ", "CB", "CM", "GLC", "KL", "Ty", "MJ"} \ Used)
                                         \ (IF "KO(STM)" \in Used THEN {} ELSE {"KO(IC)", "KZ", "CM", "MJ"}))
                               ELSE Pick(Rng(PlainNames) \ Used)
                         at(n) == CHOOSE k \in 1..i : stations[k].name = n
                         par == IF nm \in {"KO(STM)", "KO(KS)", "CB"} /\ "KO" \in Used THEN at("KO")
                                ELSE IF nm \in {"KO(IC)", "KZ"} THEN at("KO(STM)")
                                ELSE IF nm = "CM" /\ "CB" \in Used THEN at("CB")
                                ELSE IF Chance(70) THEN i ELSE Pick(1..i)
                     IN Append(stations, MkStation(nm, par, Short))
        /\ UNCHANGED <<lines, links, trains, tref>>

-----------------------------------------------------------------------------
(* One line per non-root station, to its parent: a set of tracks, each a    *)
(* sequence of blocks in the direction parent -> station.                   *)
(* Positions the second track shares with the first one: none, a beginning, *)
(* an end, or any of them but not all.                                      *)
SharedPos(n) == IF n = 1 THEN {}
                ELSE The({IF k <= 50 THEN {} ELSE IF k <= 65 THEN 1..m ELSE IF k <= 80 THEN (n + 1 - m)..n ELSE S :
                          k \in {Pick(1..100)}, m \in {Pick(1..(n - 1))}, S \in {Pick(SUBSET (1..n) \ {1..n})}})
MkTracks(a, b, nt, len, cut, other) ==
   LET tr(t, shared) == IF t = 2 THEN [k \in 1..len |-> BlockName(Short, a, b, IF k \in shared THEN 1 ELSE 2, k)]
                ELSE IF t = 3 /\ cut # 0     \* third track: the first one without one of its blocks
                THEN [k \in 1..(len - 1) |-> BlockName(Short, a, b, 1, IF k < cut THEN k ELSE k + 1)]
                ELSE [k \in 1..(IF t = 3 THEN other ELSE len) |-> BlockName(Short, a, b, t, k)]
   IN The({[t \in 1..nt |-> tr(t, shared)] : shared \in {SharedPos(len)}})
MkLine(i) ==
   LET b == stations[i].name
       a == stations[stations[i].par].name
       depot == {a, b} \in {{"KO", "KO(STM)"}, {"KO", "KO(KS)"}, {"KO(STM)", "KO(IC)"}}
   IN The({[a |-> stations[i].par, b |-> i,
            tracks |-> IF direct THEN <<<<>>>> ELSE MkTracks(a, b, nt, len, IF cut <= 30 /\ len >= 2 THEN (cut % len) + 1 ELSE 0, other)] :
           direct \in {depot \/ Chance(DirectPct)}, nt \in {Pick({1, 2, 3, 11, 12}) % 10}, len \in {Pick({1, 2, 3, 4, 11, 13, 5}) % 10},
           cut \in {Pick(1..100)}, other \in {Pick(1..3)}})

Lines == /\ stage = "lines"
         /\ stage' = "links"
         /\ lines' = TLCEval([i \in 1..(Len(stations) - 1) |-> MkLine(i + 1)])
         /\ UNCHANGED <<stations, links, trains, tref>>

-----------------------------------------------------------------------------
(* Links: pairs of adjacent blocks, with four running times and a switch    *)
(* list; sw are the switches, cell tells how the list is written.           *)
Deci == {0, 100, 200, 300, 400, 500, 600, 700, 800, 900}
RndTime(d) == Pick({200, 300, 400, 500, 600, 700, 800, 900, 1000, 1100, 1200, 1300, 1500, 1600, 1900, 2000, 2100, 2400, 250, 1250, 670, 1330, 1875, 2050, 2500, 3000, 3500, 4200})

RndSw(i) ==   \* switches of station i; of either station of the connection i (100 * one + other)
   LET base(d) == 10 * (IF i < 100 THEN i ELSE Pick({i \div 100, i % 100}))
       one == TLCEval(base(1) + Pick(1..4))
       two == TLCEval(base(2) + Pick(1..4))
       three == TLCEval(base(3) + Pick(1..4))
       k == Pick(1..100)
   IN IF k <= EmptySw THEN [sw |-> <<>>, cell |-> "none"]
      ELSE IF k <= EmptySw + 8 THEN [sw |-> <<one>>, cell |-> "int"]
      ELSE IF k <= EmptySw + 30 THEN [sw |-> <<one>>, cell |-> "str"]
      ELSE IF one = two THEN [sw |-> <<one>>, cell |-> "str"]
      ELSE IF k <= EmptySw + 45 THEN [sw |-> <<one, two>>, cell |-> IF two % 10 = 0 THEN "str" ELSE "float"]
      ELSE IF three \in {one, two} \/ k <= EmptySw + 75 THEN [sw |-> <<one, two>>, cell |-> "str"]
      ELSE [sw |-> <<one, two, three>>, cell |-> "str"]
NoSw == [sw |-> <<>>, cell |-> "none"]

MkLink(x, y, s) ==
   LET flip == Chance(50)
       same == Chance(25)
       least == IF s = NoSw THEN 0 ELSE MinTrack
       t1 == Max2(least, RndTime(0))
       t(d) == IF same THEN t1 ELSE Max2(least, RndTime(d))
   IN [a |-> IF flip THEN y ELSE x, b |-> IF flip THEN x ELSE y,
       rab |-> t(1), icab |-> t(2), rba |-> t(3), icba |-> t(4), sw |-> s.sw, cell |-> s.cell]

LineLinks(ln) ==
   LET A == stations[ln.a].tracks   B == stations[ln.b].tracks
       pairs == UNION {
          LET T == ln.tracks[k] IN
          IF T = <<>> THEN {<<A[i], B[j], IF {stations[ln.a].name, stations[ln.b].name} = {"KO", "KO(STM)"} THEN 100 * ln.a + ln.b ELSE ln.a>> : i \in DOMAIN A, j \in DOMAIN B}
          ELSE {<<A[i], T[1], ln.a>> : i \in DOMAIN A} \cup {<<T[Len(T)], B[j], ln.b>> : j \in DOMAIN B}
               \cup {<<T[m], T[m + 1], 0>> : m \in 1..(Len(T) - 1)} : k \in DOMAIN ln.tracks}
   IN pairs
OuterLinks(i) == {<<stations[i].tracks[t], OuterName(Short, stations[i].name, k), i>> : t \in DOMAIN stations[i].tracks, k \in 1..stations[i].outer}

Links == /\ stage = "links"
         /\ stage' = "trains"
         /\ links' = LET P == UNION {LineLinks(lines[i]) : i \in DOMAIN lines} \cup UNION {OuterLinks(i) : i \in DOMAIN stations}
                         sq == Shuffle(P)
                     IN TLCEval([i \in DOMAIN sq |-> MkLink(sq[i][1], sq[i][2], IF sq[i][3] = 0 THEN NoSw ELSE RndSw(sq[i][3]))])
         /\ UNCHANGED <<stations, lines, trains, tref>>

-----------------------------------------------------------------------------
(* Trains.  A route is a walk between two stations of the tree.             *)
RECURSIVE ToRoot(_)
ToRoot(i) == IF stations[i].par = 0 THEN <<i>> ELSE <<i>> \o ToRoot(stations[i].par)
Walk(i, j) == LET p == ToRoot(i)  q == ToRoot(j)
                  meet == CHOOSE m \in Rng(p) \cap Rng(q) :
                             \A k \in Rng(p) \cap Rng(q) : IndexOf(p, m) <= IndexOf(p, k)
              IN SubSeq(p, 1, IndexOf(p, meet)) \o Rev(SubSeq(q, 1, IndexOf(q, meet) - 1))
LineBetween(i, j) == CHOOSE k \in DOMAIN lines : {lines[k].a, lines[k].b} = {i, j}

(* the blocks of line track t of the line i-j, in running direction i -> j  *)
TrackRun(i, j, t) == LET k == LineBetween(i, j) IN
                     IF lines[k].a = i THEN lines[k].tracks[t] ELSE Rev(lines[k].tracks[t])
PickTrack(i, j) == LET k == LineBetween(i, j)
                       n == Len(lines[k].tracks)
                   IN IF n = 1 THEN 1
                      ELSE IF Chance(45) THEN (IF lines[k].a = i THEN 1 ELSE 2) ELSE Pick(1..n)
PickPlatform(i) == Pick(1..Len(stations[i].tracks))

Numbers == {1, 2, 3, 4, 5, 11, 12, 14, 21, 40, 41, 64, 101, 114, 419, 640, 4100, 6401, 6405, 421, 4210, 42103, 42109, 42100, 94766, 54101, 406, 40628, 1006, 14006, 26103, 5312, 40150, 94611, 73000, 8, 33, 58, 77, 902}
Types == <<"KS - Os", "PR - R", "KS - OsP", "IC - TLK", "IC - IC", "IC - EIP", "IC - EIC">>
NoTime == -1

(* rows of a route given as a sequence of blocks with the index of station  *)
(* rows; speed mostly constant.                                             *)
StationBlock(i, p) == [b |-> stations[i].tracks[p], st |-> i]
LineBlock(b) == [b |-> b, st |-> 0]

RECURSIVE Route(_, _)
Route(wk, plats) ==   \* wk: stations, plats: platform per station
   IF Len(wk) = 1 THEN <<StationBlock(wk[1], plats[1])>>
   ELSE LET run == TrackRun(wk[1], wk[2], PickTrack(wk[1], wk[2]))
        IN <<StationBlock(wk[1], plats[1])>> \o [k \in 1..Len(run) |-> LineBlock(run[k])] \o Route(Tail(wk), Tail(plats))

MkRows(cells, t0, sp, turnFirst) ==
   LET n == Len(cells)
       stRows == {i \in 1..n : cells[i].st # 0}
       f == MinSet(stRows)
       inc == TLCEval([i \in 1..n |-> Pick({0, 1, 2, 3, 5, 8})])
       acc[i \in 0..n] == IF i = 0 THEN t0 ELSE acc[i - 1] + inc[i]
       kind == TLCEval([i \in 1..n |-> Pick(1..100)])
   IN TLCEval([i \in 1..n |->
        LET isSt == i \in stRows
            k == kind[i]
            dep == IF ~isSt THEN (IF k <= 6 THEN acc[i] ELSE NoTime)
                   ELSE IF i = f THEN (IF k <= 70 THEN acc[i] ELSE NoTime)
                   ELSE IF i = n THEN (IF k <= 15 THEN acc[i] ELSE NoTime)
                   ELSE IF k <= 65 THEN acc[i] ELSE NoTime
            app == IF i = f THEN (IF dep = NoTime /\ k <= 92 THEN acc[i] ELSE IF k <= 10 THEN acc[i] + 1 ELSE NoTime)
                   ELSE IF k \in 40..45 THEN acc[i] ELSE NoTime
            arr == IF isSt /\ (IF i = f THEN k % 3 = 0 ELSE k <= 50) THEN acc[i] - 1 ELSE IF ~isSt /\ k \in 4..9 THEN acc[i] - 1 ELSE NoTime
        IN [b |-> cells[i].b,
            sp |-> IF Chance(85) THEN sp ELSE IF sp = "R" THEN "IC" ELSE "R",
            arr |-> arr, dep |-> dep, app |-> app,
            label |-> Pick({"", "", "x"}), shunt |-> Pick({"N", "N", "Y", ""}),
            turn |-> IF ~isSt THEN -1
                     ELSE IF i = f /\ turnFirst THEN Pick({1000, 3000, 5000, 2500, 12000})
                     ELSE IF Chance(12) THEN Pick({1000, 2000, 4000, 1500}) ELSE -1]])

MkTrain(no, cells, turnFirst) ==
   LET ty == Types[Pick(1..7)]
       sp == Pick({"R", "IC"})
   IN [no |-> no, type |-> ty, name |-> Pick({"S5", "SZTYGAR", "Mr. Fro", "x1", "Wisla"}),
       from |-> Pick({"from Katowice", "departure Ty", "from 1"}), to |-> Pick({"to Lublin", "terminates at KO", "to 2"}),
       rows |-> MkRows(cells, tref + Pick({0, 0, 1, 2, 3, 5, 8, 13, 21, 34, 55, -4, -11}), sp, turnFirst)]

TakenNos == {trains[i].no : i \in DOMAIN trains}
FreeNos == Numbers \ (TakenNos \cup {n * 10 + 9 : n \in TakenNos} \cup {n \div 10 : n \in {m \in TakenNos : m % 10 = 9}})

OuterBlock(i) == LineBlock(OuterName(Short, stations[i].name, Pick(1..stations[i].outer)))

(* station index of a block                                                 *)
StationOfBlock(b) == LET S == {i \in DOMAIN stations : b \in Rng(stations[i].tracks)}
                     IN IF S = {} THEN 0 ELSE CHOOSE i \in S : TRUE

Anchored(t) == StationOfBlock(t.rows[1].b) # 0 /\ StationOfBlock(Last(t.rows).b) # 0
CanPair == {i \in DOMAIN trains : /\ Anchored(trains[i])
                                  /\ trains[i].no % 10 # 9
                                  /\ trains[i].no < 100000
                                  /\ trains[i].no * 10 + 9 \notin TakenNos}

(* a brand-new train *)
NewTrain ==
   LET i == Pick(DOMAIN stations)
       j == Pick((DOMAIN stations) \ {i})
       wk == Walk(i, j)
       pl == TLCEval([k \in 1..Len(wk) |-> PickPlatform(wk[k])])
       core == TLCEval(Route(wk, pl))
       openS == stations[i].outer > 0 /\ Chance(40)
       openE == stations[j].outer > 0 /\ Chance(40)
       cells == (IF openS THEN <<OuterBlock(i)>> ELSE <<>>) \o core \o (IF openE THEN <<OuterBlock(j)>> ELSE <<>>)
   IN MkTrain(IF StrayPct > 0 /\ CanPair # {} /\ Chance(StrayPct) THEN trains[Pick(CanPair)].no * 10 + 9 ELSE Pick(FreeNos),
              TLCEval(cells), Chance(15))

(* the cells of an existing train                                            *)
Cells(t) == [k \in DOMAIN t.rows |-> [b |-> t.rows[k].b, st |-> StationOfBlock(t.rows[k].b)]]

(* a train following the same blocks, or running them backwards, as another,
   perhaps only over a part of the route                                     *)
CopyTrain ==
   LET t == trains[Pick(DOMAIN trains)]
       cs == Cells(t)
       back == Chance(45)
       cs2 == IF back THEN Rev(cs) ELSE cs
       sts == {k \in DOMAIN cs2 : cs2[k].st # 0}
       lo == IF Chance(50) THEN 1 ELSE Pick(sts \ {MaxSet(sts)})
       hi == IF Chance(50) THEN Len(cs2) ELSE Pick({k \in sts : k > lo})
       mid == {k \in sts : k >= lo /\ k <= hi}
       part == IF Cardinality(mid) >= 2 THEN SubSeq(cs2, lo, hi) ELSE cs2
       \* sometimes use another platform where another track exists
       part2 == TLCEval([k \in DOMAIN part |->
                  IF part[k].st # 0 /\ Chance(25) THEN StationBlock(part[k].st, PickPlatform(part[k].st)) ELSE part[k]])
   IN MkTrain(Pick(FreeNos), part2, Chance(15))

(* a train serving the stations of another one over other tracks             *)
VaryTrain ==
   The({MkTrain(Pick(FreeNos), cells, Chance(15)) :
        cells \in {TLCEval(Route(wk, [k \in 1..Len(wk) |-> PickPlatform(wk[k])])) :
                   wk \in {[k \in DOMAIN cs |-> cs[k].st] :
                           cs \in {SelectSeq(Cells(trains[n]), LAMBDA c : c.st # 0) : n \in {Pick(DOMAIN trains)}}}}})

(* rolling-stock partner: number 10n+9, continuing at the block where n ends
   or ending at the block where n begins                                     *)
PartnerOf(t) ==
   LET cs == Cells(t)
       after == Chance(50)
       anchor == IF after THEN Last(cs) ELSE cs[1]
       other == Pick((DOMAIN stations) \ {anchor.st})
       wk == IF after THEN Walk(anchor.st, other) ELSE Walk(other, anchor.st)
       ap == IndexOf(stations[anchor.st].tracks, anchor.b)
       pl == TLCEval([k \in 1..Len(wk) |-> IF wk[k] = anchor.st THEN ap ELSE PickPlatform(wk[k])])
       core == TLCEval(Route(wk, pl))
       openS == ~after /\ stations[other].outer > 0 /\ Chance(30)
       openE == after /\ stations[other].outer > 0 /\ Chance(30)
       cells == (IF openS THEN <<OuterBlock(other)>> ELSE <<>>) \o core \o (IF openE THEN <<OuterBlock(other)>> ELSE <<>>)
   IN IF after THEN MkTrain(t.no * 10 + 9, TLCEval(cells), TRUE)
      ELSE MkTrain(t.no * 10 + 9, TLCEval(cells), Chance(15))

InsertAt(s, x, k) == SubSeq(s, 1, k - 1) \o <<x>> \o SubSeq(s, k, Len(s))

(* A train that takes over stock must state its preparation time.           *)
WithTurn(t) == [t EXCEPT !.rows[1].turn = IF @ = -1 THEN Pick({2000, 3000, 6000}) ELSE @]

AddTrain == /\ stage = "trains"
            /\ \E pairing \in {CanPair # {} /\ Chance(PairPct)} :
               \E idx \in {IF CanPair = {} THEN 0 ELSE Pick(CanPair)} :
               \E new \in {TLCEval(IF pairing THEN PartnerOf(trains[idx])
                          ELSE IF trains # <<>> /\ Chance(RepeatPct) THEN (IF Chance(30) THEN VaryTrain ELSE CopyTrain) ELSE NewTrain)} :
               LET \* if the partner ends where the original starts, the original needs a preparation time
                   old == IF pairing /\ Last(new.rows).b = trains[idx].rows[1].b
                          THEN [trains EXCEPT ![idx] = WithTurn(@)] ELSE trains
               IN trains' = TLCEval(InsertAt(old, new, Pick(1..(Len(trains) + 1))))
            /\ stage' = IF Len(trains') >= MaxTrains \/ (Len(trains') >= 2 /\ Chance(15)) THEN "done" ELSE "trains"
            /\ UNCHANGED <<stations, lines, links, tref>>

(* Some directions no train uses are closed, for both or for one class.     *)
NoRun == -1
UsedWay(x, y, sps) == \E n \in DOMAIN trains : \E k \in 1..(Len(trains[n].rows) - 1) :
                         trains[n].rows[k].b = x /\ trains[n].rows[k + 1].b = y /\ trains[n].rows[k].sp \in sps
OneWay(l) == LET f(t, x, y, sps, p) == IF t # 0 /\ p /\ ~UsedWay(x, y, sps) THEN NoRun ELSE t
             IN The({[l EXCEPT !.rab = f(@, l.a, l.b, {"R", "IC"}, k = 1), !.icab = f(@, l.a, l.b, IF k = 3 THEN {"IC"} ELSE {"R", "IC"}, k \in {1, 3}),
                               !.rba = f(@, l.b, l.a, {"R", "IC"}, k = 2), !.icba = f(@, l.b, l.a, {"R", "IC"}, k = 2)] : k \in {Pick(1..9)}})
Close == /\ stage = "done"
         /\ stage' = "closed"
         /\ links' = TLCEval([i \in DOMAIN links |-> OneWay(links[i])])
         /\ UNCHANGED <<stations, lines, trains, tref>>

Publish == /\ stage = "closed"
           /\ stage' = "end"
           /\ PrintT("WORLD " \o ToJson([stations |-> [i \in DOMAIN stations |-> [name |-> stations[i].name, tracks |-> stations[i].tracks]],
                                        links |-> links, trains |-> trains, tref |-> tref]))
           /\ UNCHANGED <<stations, lines, links, trains, tref>>

Next == Root \/ Grow \/ Lines \/ Links \/ AddTrain \/ Close \/ Publish
Spec == Init /\ [][Next]_vars
============================================================================
