------------------------------- MODULE Filter -------------------------------
(* The filter for detection: a pixel becomes the mean of the usable pixels around it, weighted with the mirrored kernel;
   pixels which are not usable become 0 and count for nothing. Images are given row by row, kernels as rows of numbers. *)
EXTENDS Integers, Sequences
\* the pixel dx to the right gets the weight dx to the left: of n weights, number n - n \div 2 is the centre
Centre(n) == n - n \div 2
Pix(q, w, x, y) == q[y * w + x + 1]
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
Usable(m, x, y) == x >= 0 /\ x < m.w /\ y >= 0 /\ y < m.h /\ Pix(m.var, m.w, x, y) < m.vt
\* weight of the pixel (px, py) for (x, y)
Weight(k, px, py, x, y) == k[Centre(Len(k)) + y - py][Centre(Len(k[1])) + x - px]
RECURSIVE Rows(_, _, _, _, _, _), Cells(_, _, _, _, _, _, _)
Cells(m, im, k, x, y, j, i) ==
  IF i = 0 THEN <<0, 0>>
  ELSE LET rest == Cells(m, im, k, x, y, j, i - 1) px == x + Centre(Len(k[1])) - i py == y + Centre(Len(k)) - j IN
       IF Usable(m, px, py) THEN <<rest[1] + k[j][i] * Pix(im, m.w, px, py), rest[2] + k[j][i]>> ELSE rest
Rows(m, im, k, x, y, j) ==
  IF j = 0 THEN <<0, 0>> ELSE LET rest == Rows(m, im, k, x, y, j - 1) here == Cells(m, im, k, x, y, j, Len(k[1])) IN <<rest[1] + here[1], rest[2] + here[2]>>
\* total and weight
Filtered(m, im, k, x, y) == IF Usable(m, x, y) THEN Rows(m, im, k, x, y, Len(k)) ELSE <<0, 1>>
Default == <<<<1, 2, 1>>, <<2, 4, 2>>, <<1, 2, 1>>>>
=============================================================================
