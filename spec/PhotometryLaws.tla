--------------------------- MODULE PhotometryLaws ---------------------------
(* Laws of the measurement itself: a circle's pixels add up to its area, the   *)
(* aperture grows with its radius, moves with its centre, keeps its pixels     *)
(* under rotations and reflections, fits its box and has no pixel outside.     *)
EXTENDS Photometry
CONSTANT Floored      \* boxes rounded outwards (the code before the repair truncated towards zero)
VARIABLES r, cx, cy, j
Rigids == {<<1, 0, 0, 1>>, <<0, 1, -1, 0>>, <<0, 1, 1, 0>>, <<-1, 0, 0, 1>>, <<1, 0, 0, -1>>, <<-1, 0, 0, -1>>}
Init == r = 1 /\ cx \in {-16, -7, 0, 5, 11, 16} /\ cy \in {-9, 4} /\ j \in Rigids
Next == r < 81 /\ r' = r + 2 /\ UNCHANGED <<cx, cy, j>>
Spec == Init /\ [][Next]_<<r, cx, cy, j>>
A == [circ |-> TRUE, r |-> r, ell |-> <<1, 1, 0>>, jac |-> j, cx |-> cx, cy |-> cy]
W == ((-5)..5) \X ((-5)..5)
Quot(a, b) == IF a >= 0 \/ Floored THEN a \div b ELSE -((-a) \div b)
Down(x) == Quot(x, 32)
Up(x) == -((-x) \div 32)
Box == <<Down((2 * cx) - r), Down((2 * cy) - r), Up((2 * cx) + r), Up((2 * cy) + r)>>
Total == Sum([p \in W |-> Area(A, p)], W)
BoxCovers == j = <<1, 0, 0, 1>> => Covers(A, Box) /\ Tight(A, Box)
\* 100 pi (r / 32)^2 up to the ring of the sampling
AreaRight == r > 20 => Near(Total, (100 * 355 * Sq(r)) \div (113 * 1024), 8 + (r * 2))
Involution == \A p \in W : Mirror([A EXCEPT !.cx = (@ \div 8) * 8, !.cy = (@ \div 8) * 8], Mirror([A EXCEPT !.cx = (@ \div 8) * 8, !.cy = (@ \div 8) * 8], p)) = p
Grows == [][\A p \in W : Area(A', p) >= Area(A, p)]_<<r, cx, cy, j>>
\* an image of ones without bad pixels measures the area; twice the image, twice the flux
Ones == LET m == [w |-> 4, h |-> 4, px |-> [i \in 1..16 |-> i % 3], var |-> [i \in 1..16 |-> 1], mask2 |-> 9, sym |-> TRUE]
            x == Measure(A, m, W)  y == Measure(A, [m EXCEPT !.px = [i \in 1..16 |-> 2 * (i % 3)]], W)
        IN x.bad = 0 /\ x.v = x.area /\ y.flux = 2 * x.flux /\ x.area <= Total /\ x.flux >= 0
=============================================================================
