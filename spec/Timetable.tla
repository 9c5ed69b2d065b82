----------------------------- MODULE Timetable -----------------------------
(* The timetable file: lines of eight text cells.  A train is a section
     ####
     <type>
     <number>
     <name>
     from ... | depa...
     <block row> ...
     to ... | te...                                                        *)
EXTENDS Util

StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
IsOrigin(c)      == StartsWith(c, "from") \/ StartsWith(c, "depa")
IsDestination(c) == StartsWith(c, "to") \/ StartsWith(c, "te")

Sections(rows) == {i \in DOMAIN rows : rows[i][1] = "####"}
EndOf(rows, i) == LET after == {k \in Sections(rows) : k > i}
                  IN IF after = {} THEN Len(rows) ELSE MinSet(after) - 1

(* the section that starts at line i                                        *)
ParseSection(rows, i) ==
   LET e    == EndOf(rows, i)
       orig == MinSet({k \in (i + 1)..e : k >= i + 4 /\ IsOrigin(rows[k][1])})
       dest == MinSet({k \in (orig + 1)..e : IsDestination(rows[k][1])})
   IN [no   |-> rows[i + 2][1],
       info |-> <<rows[i + 1][1], rows[i + 3][1], rows[orig][1], rows[dest][1]>>,
       rows |-> SubSeq(rows, orig + 1, dest - 1)]

RECURSIVE Parse(_, _)
Parse(rows, from) ==
   LET S == {k \in Sections(rows) : k >= from}
   IN IF S = {} THEN <<>> ELSE LET i == MinSet(S) IN <<ParseSection(rows, i)>> \o Parse(rows, i + 1)

(* rows with at least one of arrival, departure, approximate entry          *)
Timed(rows) == SelectSeq(rows, LAMBDA r : r[3] # "" \/ r[4] # "" \/ r[5] # "")
TimeCells(rows) == LET t == Timed(rows) IN [i \in DOMAIN t |-> <<t[i][3], t[i][4], t[i][5]>>]
============================================================================
