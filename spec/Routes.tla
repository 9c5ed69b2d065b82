------------------------------- MODULE Routes -------------------------------
(* Block routes of trains and everything that can be read off them.         *)
EXTENDS Network

(* The view of a world: per train (keyed by its number) its blocks, the
   station label of each block ("" if none), the running time per block (0
   for the last one), its stations in order and the row of each station.    *)
View(w) ==
   LET lix == LinkIndex(w)
       own == TrackOwner(w)
       idx == TLCEval([n \in {w.trains[i].no : i \in DOMAIN w.trains} |->
                        CHOOSE i \in DOMAIN w.trains : w.trains[i].no = n])
       blk == TLCEval([n \in DOMAIN idx |-> [k \in DOMAIN w.trains[idx[n]].rows |-> w.trains[idx[n]].rows[k].b]])
       lab == TLCEval([n \in DOMAIN idx |-> [k \in DOMAIN blk[n] |-> OwnerOf(own, blk[n][k])]])
       time == TLCEval([n \in DOMAIN idx |->
                 [k \in DOMAIN blk[n] |->
                    IF k = Len(blk[n]) \/ ~Joined(lix, blk[n][k], blk[n][k + 1]) THEN 0
                    ELSE LinkTime(w, lix, blk[n][k], blk[n][k + 1], w.trains[idx[n]].rows[k].sp)]])
       sts == TLCEval([n \in DOMAIN idx |-> SelectSeq(lab[n], LAMBDA x : x # "")])
   IN [w |-> w, lix |-> lix, own |-> own, idx |-> idx,
       J |-> [i \in DOMAIN w.trains |-> w.trains[i].no],
       blk |-> blk, lab |-> lab, time |-> time, sts |-> sts,
       row |-> TLCEval([n \in DOMAIN idx |-> [s \in Rng(sts[n]) |-> IndexOf(lab[n], s)]])]

Trains(V)        == DOMAIN V.idx
Stations(V)      == StationNames(V.w)
Rec(V, n)        == V.w.trains[V.idx[n]]
Serves(V, n, s)  == s \in DOMAIN V.row[n]
StationNo(V, n, s) == IndexOf(V.sts[n], s)
FirstSt(V, n)    == V.sts[n][1]
LastSt(V, n)     == Last(V.sts[n])
NextSt(V, n, s)  == IF ~Serves(V, n, s) \/ s = LastSt(V, n) THEN "" ELSE V.sts[n][StationNo(V, n, s) + 1]
PrevSt(V, n, s)  == IF ~Serves(V, n, s) \/ s = FirstSt(V, n) THEN "" ELSE V.sts[n][StationNo(V, n, s) - 1]
TrackAt(V, n, s) == V.blk[n][V.row[n][s]]
EndsInside(V, n) == Last(V.lab[n])          \* station in which the route ends, "" if outside
RunsDirect(V, n, s, t) == Serves(V, n, s) /\ NextSt(V, n, s) = t /\ t # ""

(* blocks strictly between the visits to two stations served in this order  *)
Between(V, n, s, t) == SubSeq(V.blk[n], V.row[n][s] + 1, V.row[n][t] - 1)
Stretch(V, n, s, t) == IF V.row[n][s] < V.row[n][t] THEN Between(V, n, s, t) ELSE Between(V, n, t, s)
Shared(V, n, m, s, t) == SelectSeq(Stretch(V, n, s, t), LAMBDA b : b \in Rng(Stretch(V, m, s, t)))
SameWay(V, n, m, s, t) == (V.row[n][s] < V.row[n][t]) <=> (V.row[m][s] < V.row[m][t])

(* running time over the blocks between two consecutive stations            *)
RunTime(V, n, s, t) == SeqSum(SubSeq(V.time[n], V.row[n][s] + 1, V.row[n][t] - 1))
TrackTime(V, n, s)  == V.time[n][V.row[n][s]]
============================================================================
