----------------------------- MODULE TrainSets -----------------------------
(* Which trains interact where.                                             *)
EXTENDS Routes

DepotStations == {"KO(KS)", "KO(IC)"}
DepotTracks   == {"\"KO\", \"ST-M\", 1114, \"(N/A)\"", "\"KO\", \"ST-M\", 1113, \"(N/A)\"", "\"KO\", \"ST-M\", 1118, \"(N/A)\""}
MainStation   == "KO"
ShuntingArea  == "KO(STM)"

-----------------------------------------------------------------------------
(* headway groups: trains running s -> t, by equal block sequence           *)
Running(V, s, t) == {n \in Trains(V) : RunsDirect(V, n, s, t)}
SameTrack(V, n, m, s, t) == Between(V, n, s, t) = Between(V, m, s, t)
HeadwayGroups(V, s, t) == {{m \in Running(V, s, t) : SameTrack(V, n, m, s, t)} : n \in Running(V, s, t)}
(* all <<s, t>> such that some train runs directly s -> t                   *)
DirectLegs(V) == UNION {{<<V.sts[n][i], V.sts[n][i + 1]>> : i \in 1..(Len(V.sts[n]) - 1)} : n \in Trains(V)}

(* opposing pairs on a single-track line: {<<n,s,t>>, <<m,t,s>>}            *)
Opposing(V, n, m, s, t) ==
   /\ RunsDirect(V, n, s, t) /\ RunsDirect(V, m, t, s)
   /\ Between(V, n, s, t) # <<>>
   /\ Between(V, n, s, t) = Rev(Between(V, m, t, s))
OpposingSet(V, S) ==
   UNION {{ {<<p[1], l[1], l[2]>>, <<p[2], l[2], l[1]>>} :
            p \in {p \in Running(V, l[1], l[2]) \X Running(V, l[2], l[1]) : Opposing(V, p[1], p[2], l[1], l[2])}}
          : l \in {l \in DirectLegs(V) : l[1] \in S /\ l[2] \in S}}
(* pairs that share some but not all blocks: deliberately unspecified       *)
PartialOverlap(V, n, m, s, t) ==
   /\ RunsDirect(V, n, s, t) /\ RunsDirect(V, m, t, s)
   /\ Rng(Between(V, n, s, t)) \cap Rng(Between(V, m, t, s)) # {}
   /\ Between(V, n, s, t) # Rev(Between(V, m, t, s))

-----------------------------------------------------------------------------
(* platform tracks                                                          *)
OnTrack(V, s) == IF s \in DepotStations THEN {}
                 ELSE {n \in Trains(V) : Serves(V, n, s) /\ TrackAt(V, n, s) \notin DepotTracks}
TrackGroups(V, s) == {{m \in OnTrack(V, s) : TrackAt(V, m, s) = TrackAt(V, n, s)} : n \in OnTrack(V, s)}

-----------------------------------------------------------------------------
(* switches                                                                 *)
InSwitches(V, n, s) ==
   IF s = FirstSt(V, n) THEN {}
   ELSE LET k == V.row[n][s] IN LinkSwitches(V.w, V.lix, V.blk[n][k - 1], V.blk[n][k])
OutSwitches(V, n, s) ==
   IF s = LastSt(V, n) THEN {}
   ELSE LET k == V.row[n][s] IN LinkSwitches(V.w, V.lix, V.blk[n][k], V.blk[n][k + 1])
Switches(V, n, s, dir) == IF dir = "in" THEN InSwitches(V, n, s) ELSE OutSwitches(V, n, s)

(* movements on the connection main station - shunting area are reported at
   the main station only                                                    *)
Suppressed(V, n, s, dir) ==
   \/ s \in DepotStations
   \/ s = ShuntingArea /\ (IF dir = "in" THEN PrevSt(V, n, s) = MainStation ELSE NextSt(V, n, s) = MainStation)

SwitchConflicts(V, s) ==
   LET at == {n \in Trains(V) : Serves(V, n, s)}
       dirs == {"in", "out"}
       mv == TLCEval([p \in at \X dirs |-> IF Suppressed(V, p[1], s, p[2]) THEN {} ELSE Switches(V, p[1], s, p[2])])
   IN {{q[1], q[2]} : q \in {q \in (DOMAIN mv) \X (DOMAIN mv) : q[1][1] < q[2][1] /\ mv[q[1]] \cap mv[q[2]] # {}}}

-----------------------------------------------------------------------------
(* rolling stock                                                            *)
Pairs9(V) == {<<n, 10 * n + 9>> : n \in {n \in Trains(V) : n < 200000000 /\ 10 * n + 9 \in Trains(V)}}
(* possible hand-overs of a pair: <<station, train that ends, train that begins>> *)
HandOvers(V, p) ==
   (IF Last(V.blk[p[1]]) = V.blk[p[2]][1] THEN {<<OwnerOf(V.own, V.blk[p[2]][1]), p[1], p[2]>>} ELSE {})
   \cup
   (IF Last(V.blk[p[2]]) = V.blk[p[1]][1] THEN {<<OwnerOf(V.own, V.blk[p[1]][1]), p[2], p[1]>>} ELSE {})

SkipStation(V, n) == EndsInside(V, n)
============================================================================
