------------------------------ MODULE Hilbert ------------------------------
(* The Hilbert curve over 2^n x 2^n squares, defined by its recursion: four copies of the smaller curve, the first and the
   last one turned over. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
RECURSIVE Curve(_)
Curve(n) == IF n = 0 THEN << <<0, 0>> >>
            ELSE LET c == TLCEval(Curve(n - 1))  s == 2 ^ (n - 1)  m == 4 ^ (n - 1)
                 IN TLCEval([i \in 1..4 * m |->
                      LET q == (i - 1) \div m  p == c[((i - 1) % m) + 1]
                      IN CASE q = 0 -> <<p[2], p[1]>>
                           [] q = 1 -> <<p[1], p[2] + s>>
                           [] q = 2 -> <<p[1] + s, p[2] + s>>
                           [] q = 3 -> <<2 * s - 1 - p[2], s - 1 - p[1]>>])
Abs(v) == IF v < 0 THEN -v ELSE v
\* what the traversal relies on
Pow2(n) == CHOOSE p \in {2 ^ k : k \in 0..12} : p >= n /\ (p = 1 \/ p \div 2 < n)
Square(n) == (0..(n - 1)) \X (0..(n - 1))
AllOnce(pts, n) == Len(pts) = n * n /\ {pts[i] : i \in 1..Len(pts)} = Square(n)
Steps(pts) == \A i \in 1..(Len(pts) - 1) : Abs(pts[i][1] - pts[i + 1][1]) + Abs(pts[i][2] - pts[i + 1][2]) = 1
=============================================================================
