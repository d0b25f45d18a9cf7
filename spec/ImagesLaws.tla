----------------------------- MODULE ImagesLaws -----------------------------
(* The definitions of Images have the laws one expects of them: checked for every small image, padding, shift and window. *)
EXTENDS Images
CONSTANTS MaxN, MaxPad
VARIABLES w, h, px, pw, ph, how
vars == <<w, h, px, pw, ph, how>>
Init == /\ w \in 1..MaxN /\ h \in 1..MaxN /\ px = [k \in 1..w * h |-> 100 + k]
        /\ pw \in w..(w + MaxPad) /\ ph \in h..(h + MaxPad) /\ how \in {"const", "replicate", "reflect", "reflect101", "wrap"}
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
B == <<px>>
V == [k |-> "vec", w |-> w, h |-> h, id |-> 1]
P == [k |-> "pad", i |-> V, w |-> pw, h |-> ph, how |-> how, v |-> -1]
Xs(e) == 0..(W(e) - 1)
Ys(e) == 0..(H(e) - 1)
Same(e, f) == W(e) = W(f) /\ H(e) = H(f) /\ \A x \in Xs(e), y \in Ys(e) : Pix(B, e, x, y) = Pix(B, f, x, y)
M(e) == [k |-> "mirror", i |-> e]
R(e, a, b) == [k |-> "recenter", i |-> e, x |-> a, y |-> b]
S(e, a, b, c, d) == [k |-> "sub", i |-> e, x |-> a, y |-> b, w |-> c, h |-> d]
MirrorTwice == Same(M(M(V)), V)
\* the middle of a padded image is the image
PadKeeps == Same(S(P, (pw - w) \div 2, (ph - h) \div 2, w, h), V)
\* padding only ever shows pixels of the image (or the default)
PadShows == \A x \in Xs(P), y \in Ys(P) : LET v == Pix(B, P, x, y) IN (v = -1 /\ how = "const") \/ \E k \in 1..w * h : px[k] = v
\* padding an even amount and mirroring commute, except for wrapping which is periodic either way
PadMirrors == ((pw - w) % 2 = 0 /\ (ph - h) % 2 = 0) => Same(M(P), [P EXCEPT !.i = M(V)])
\* a step in the padded image is at most a step in the image, where it is continued without wrapping
PadContinuous == how \in {"replicate", "reflect", "reflect101"} =>
   \A v \in (-MaxPad)..(w + MaxPad) : LET d == Coord(how, w, v + 1) - Coord(how, w, v) IN d \in {-1, 0, 1} /\ (how = "reflect101" /\ w > 1 => d # 0)
\* shifting around the edges is undone by the opposite shift
RecenterBack == \A a \in Xs(V), b \in Ys(V) : Same(R(R(V, a, b), (w - a) % w, (h - b) % h), V)
\* the replacement of a bad pixel is good whenever there is a good one in reach
InterpGood == \A bad \in SUBSET {1, 2, w * h} : \A gap \in 0..2 :
   LET Good(x, y) == (y * w + x + 1) \notin bad IN
   \A x \in Xs(V), y \in Ys(V) : LET p == InterpAt(x, y, gap, Good) IN
      /\ p[1] \in Xs(V) /\ p[2] \in Ys(V)
      /\ Good(x, y) => p = <<x, y>>
      /\ (~Good(p[1], p[2])) => /\ p = <<x, y>>
                               /\ \A d \in 1..gap : (x - d >= 0 => ~Good(x - d, y)) /\ (y - d >= 0 => ~Good(x, y - d))
=============================================================================
