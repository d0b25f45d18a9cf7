----------------------------- MODULE FilterLaws -----------------------------
(* What follows from the definition, for every small image, mask and kernel. *)
EXTENDS Filter
CONSTANT Variant
VARIABLES m, im, k, at
vars == <<m, im, k, at>>
Vals == {-1, 2}
Kernels == {<<<<1, 2, 1>>>>, <<<<1>>, <<3>>>>, <<<<3, 1, 2>>, <<1, 2, 5>>, <<4, 1, 1>>>>, <<<<2, 1>>, <<1, 3>>>>, <<<<2>>>>}
Init == /\ m \in {[w |-> 3, h |-> 2, vt |-> 2, var |-> v] : v \in [1..6 -> {1, 2}]} /\ im \in [1..6 -> Vals] /\ k \in Kernels /\ at \in 0..5
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
X == at % 3
Y == at \div 3
\* a control: pixels that are not usable count in the weight
F(i, q) == LET r == Filtered(m, i, q, X, Y) IN IF Variant = "weight" /\ Usable(m, X, Y) THEN <<r[1], Rows([m EXCEPT !.vt = 9], i, q, X, Y, Len(q))[2]>> ELSE r
Here == Usable(m, X, Y)
S == F(im, k)
Set(q) == {q[i] : i \in 1..Len(q)}
\* a flat image stays flat, and a mean is between the values there are
Flat == \A v \in Vals : LET s == F([i \in 1..6 |-> v], k) IN Here => s[1] = v * s[2]
Between == Here => \E lo, hi \in Vals : lo * S[2] <= S[1] /\ S[1] <= hi * S[2] /\ (\A i \in 1..6 : m.var[i] < m.vt => lo <= im[i] /\ im[i] <= hi)
\* what is not usable does not matter, and stays without a value
Masked == F([i \in 1..6 |-> IF m.var[i] < m.vt THEN im[i] ELSE 99], k) = S /\ (~Here => S[1] = 0)
\* a kernel and a multiple of it are the same filter
Scaled == LET s == F(im, [j \in 1..Len(k) |-> [i \in 1..Len(k[1]) |-> 3 * k[j][i]]]) IN S[1] * s[2] = s[1] * S[2]
\* a point becomes the kernel, not its mirror image
Point == LET p == F([i \in 1..6 |-> IF i = 1 THEN 1 ELSE 0], k) IN
         Here /\ m.var[1] < m.vt => p[1] = (IF Centre(Len(k)) + Y <= Len(k) /\ Centre(Len(k[1])) + X <= Len(k[1]) THEN k[Centre(Len(k)) + Y][Centre(Len(k[1])) + X] ELSE 0)
\* a kernel of one pixel changes nothing
One == Len(k) = 1 /\ Len(k[1]) = 1 /\ Here => S[1] = Pix(im, 3, X, Y) * S[2]
=============================================================================
