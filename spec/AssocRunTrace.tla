--------------------------- MODULE AssocRunTrace ---------------------------
(* The rows of the program's catalogue with the three filters of the association, on the same image. *)
EXTENDS Assoc, Json, IOUtils, TLC
VARIABLES c, l, all
Cases == ndJsonDeserialize(IOEnv.TRACE)
Evs == Cases[c].ev
Ev == Evs[l]
Cfg == Cases[c].cfg
IsEv(e) == l <= Len(Evs) /\ Ev.e = e /\ l' = l + 1 /\ c' = c
TInit == l = 1 /\ c \in 1..Len(Cases) /\ all = <<>>
Cat == Cfg.cat
Square(n) == n * n
\* hundredths of a pixel, squared; centroids are not exact: nothing is said of objects at the rim
D(i, r) == Square((Cat[i].x - r.x) \div 10) + Square((Cat[i].y - r.y) \div 10)
R2 == Square(Cfg.radius \div 10)
Rim == 6 * (Cfg.radius \div 10) + 100
Surely(r) == { i \in 1..Len(Cat) : D(i, r) < R2 - Rim }
Maybe(r) == { i \in 1..Len(Cat) : D(i, r) < R2 + Rim }
\* the objects that can be the nearest
Nearest(r) == { i \in Maybe(r) : \A j \in Surely(r) : D(i, r) <= D(j, r) + Rim + 300 }
Row(r) == IF r.match THEN \E i \in Nearest(r) : r.v = Cat[i].v ELSE Surely(r) = {}
What(r) == [box |-> r.box, n |-> r.n, flux |-> r.flux, x |-> r.x, y |-> r.y, match |-> r.match, v |-> r.v]
Of(rows, P(_)) == LET s == SelectSeq(rows, P) IN [i \in 1..Len(s) |-> What(s[i])]
Same(a, b) == Len(a) = Len(b) /\ \A x \in { a[i] : i \in 1..Len(a) } \cup { b[i] : i \in 1..Len(b) } : Cardinality({ i \in 1..Len(a) : a[i] = x }) = Cardinality({ i \in 1..Len(b) : b[i] = x })
\* the groups the catalogue may give a source; 0: it is alone
GroupsOf(r) == IF ~r.match THEN {0} ELSE { Cat[i].g : i \in { k \in Nearest(r) : Cat[k].v = r.v } }
Grouped(rows) ==
  \A i, j \in 1..Len(rows) : i # j =>
    IF Cfg.group /\ Cardinality(GroupsOf(rows[i])) = 1 /\ Cardinality(GroupsOf(rows[j])) = 1
    THEN (rows[i].grp = rows[j].grp) = (GroupsOf(rows[i]) = GroupsOf(rows[j]) /\ GroupsOf(rows[i]) # {0})
    ELSE ~Cfg.group => rows[i].grp # rows[j].grp
Run ==
  /\ IsEv("Run")
  /\ TRUE = (/\ Ev.rc = 0
             /\ \A i \in 1..Len(Ev.rows) : Row(Ev.rows[i])
             /\ Grouped(Ev.rows)
             /\ LET Every(r) == TRUE  Match(r) == r.match  Other(r) == ~r.match  mine == Of(Ev.rows, Every) IN
                  CASE Ev.filter = "ALL" -> TRUE
                    [] Ev.filter = "MATCHED" -> Same(mine, Of(all, Match))
                    [] OTHER -> Same(mine, Of(all, Other)))
  /\ all' = IF Ev.filter = "ALL" THEN Ev.rows ELSE all
End == IsEv("End") /\ UNCHANGED all
TNext == Run \/ End \/ (l > Len(Evs) /\ UNCHANGED <<c, l, all>>)
TSpec == TInit /\ [][TNext]_<<c, l, all>>
=============================================================================
