-------------------------------- MODULE Lutz --------------------------------
(* Lutz' one pass labelling as implemented by Lutz::labelImage: one step per   *)
(* pixel (plus one column on the right), a marker per column, a stack of the   *)
(* states of the preceding scan, a stack of open groups and the groups waiting *)
(* for the next scan by the column they start in. Checked for every image.     *)
EXTENDS Components, TLC
CONSTANTS W, H
VARIABLES img, x, y, st, pub
vars == <<img, x, y, st, pub>>
Cols == 0..W
NoGroup == [start |-> -1, end |-> -1, pix |-> {}]
Last(s) == s[Len(s)]
Pop(s) == SubSeq(s, 1, Len(s) - 1)
SetLast(s, v) == [s EXCEPT ![Len(s)] = v]
Start == [mk |-> [c \in Cols |-> "0"], gs |-> <<>>, pss |-> <<>>, inc |-> <<>>, ps |-> "COMPLETE", cs |-> "NON", out |-> {}, dup |-> FALSE]
Drop(f, k) == [j \in DOMAIN f \ {k} |-> f[j]]
Put(f, k, v) == [j \in DOMAIN f \cup {k} |-> IF j = k THEN v ELSE f[j]]
Merge(a, b) == [a EXCEPT !.pix = @ \cup b.pix]
\* start of a segment
Seg(s, c, in) ==
  IF ~in \/ s.cs = "OBJ" THEN s
  ELSE IF s.ps = "OBJ"
    THEN IF Last(s.gs).start = -1
           THEN [s EXCEPT !.cs = "OBJ", !.mk[c] = "S", !.gs = SetLast(@, [Last(@) EXCEPT !.start = c])]
           ELSE [s EXCEPT !.cs = "OBJ", !.mk[c] = "S0"]
    ELSE [s EXCEPT !.cs = "OBJ", !.pss = Append(@, s.ps), !.ps = "COMPLETE", !.mk[c] = "S", !.gs = Append(@, [NoGroup EXCEPT !.start = c])]
MS(s, c) ==
  LET t == IF s.cs = "NON"
             THEN [s EXCEPT !.pss = @ \o <<s.ps, "COMPLETE">>, !.gs = Append(@, [s.inc[c] EXCEPT !.start = -1]), !.inc = Drop(@, c)]
             ELSE [s EXCEPT !.pss = Append(@, s.ps), !.gs = SetLast(@, Merge(Last(@), s.inc[c])), !.inc = Drop(@, c)]
  IN [t EXCEPT !.ps = "OBJ"]
MS0(s, c) ==
  LET t == IF s.cs = "OBJ" /\ s.ps = "COMPLETE"
             THEN LET old == Last(s.gs)
                      g == Pop(s.gs)
                      m == Merge(Last(g), old)
                      u == [s EXCEPT !.pss = Pop(@)]
                  IN IF m.start = -1 THEN [u EXCEPT !.gs = SetLast(g, [m EXCEPT !.start = old.start])]
                     ELSE [u EXCEPT !.gs = SetLast(g, m), !.mk[old.start] = "S0"]
             ELSE s
  IN [t EXCEPT !.ps = "OBJ"]
MF(s, c) ==
  LET t == [s EXCEPT !.ps = Last(s.pss), !.pss = Pop(@)]
  IN IF t.cs = "NON" /\ t.ps = "COMPLETE"
       THEN LET old == Last(t.gs)
                u == [t EXCEPT !.gs = Pop(@)]
                v == IF old.start = -1 THEN [u EXCEPT !.out = @ \cup {old.pix}, !.dup = @ \/ old.pix \in u.out]
                     ELSE [u EXCEPT !.mk[old.end] = "F", !.inc = Put(@, old.start, old)]
            IN [v EXCEPT !.ps = Last(v.pss), !.pss = Pop(@)]
       ELSE t
Mark(s, c, m) == CASE m = "0" -> s [] m = "S" -> MS(s, c) [] m = "S0" -> MS0(s, c) [] m = "F0" -> [s EXCEPT !.ps = "INC"] [] m = "F" -> MF(s, c)
Upd(s, c, r, in) ==
  IF in THEN [s EXCEPT !.gs = SetLast(@, [Last(@) EXCEPT !.pix = @ \cup {<<c, r>>}])]
  ELSE IF s.cs # "OBJ" THEN s
  ELSE IF s.ps # "COMPLETE" THEN [s EXCEPT !.cs = "NON", !.mk[c] = "F0", !.gs = SetLast(@, [Last(@) EXCEPT !.end = c])]
  ELSE [s EXCEPT !.cs = "NON", !.ps = Last(s.pss), !.pss = Pop(@), !.mk[c] = "F", !.gs = Pop(@), !.inc = Put(@, Last(s.gs).start, Last(s.gs))]
Step(s, c, r, in) == LET m == s.mk[c]
                         s0 == [s EXCEPT !.mk[c] = "0"]
                     IN Upd(Mark(Seg(s0, c, in), c, m), c, r, in)
Init == img \in SUBSET ((0..W-1) \X (0..H-1)) /\ x = 0 /\ y = 0 /\ st = Start /\ pub = {}
Pixel == /\ y < H
         /\ LET s == Step(IF x = 0 THEN [st EXCEPT !.ps = "COMPLETE", !.cs = "NON"] ELSE st, x, y, <<x, y>> \in img)
            IN st' = s /\ pub' = s.out
         /\ IF x = W THEN x' = 0 /\ y' = y + 1 ELSE x' = x + 1 /\ y' = y
         /\ img' = img
Finish == /\ y = H /\ x = 0
          /\ pub' = pub \cup {st.inc[k].pix : k \in DOMAIN st.inc}
          /\ st' = [st EXCEPT !.inc = <<>>] /\ x' = W /\ UNCHANGED <<img, y>>
Next == Pixel \/ Finish
Spec == Init /\ [][Next]_vars
Done == y = H /\ x = W
ExactlyTheComponents == Done => pub = Comps(img)
\* a component is published as soon as the scan after its last one has passed it
Published == \A p \in pub : p # {}
NothingTwice == ~st.dup
StacksBalanced == x = 0 => Len(st.gs) = 0 /\ Len(st.pss) = 0
\* every pixel seen so far is in one place only
Seen == {p \in img : p[2] < y \/ (p[2] = y /\ p[1] < x)}
Once == /\ ~Done => Seen = UNION pub \cup UNION {st.gs[i].pix : i \in 1..Len(st.gs)} \cup UNION {st.inc[k].pix : k \in DOMAIN st.inc}
=============================================================================
