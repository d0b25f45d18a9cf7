----------------------------- MODULE Background -----------------------------
(* The background of an image.  Each cell of a grid gets the level and the     *)
(* spread of its usable pixels, or nothing if fewer than half are usable;      *)
(* cells with nothing take the mean of the nearest cells with something; the   *)
(* grid is smoothed by a median filter whose window shrinks evenly at the      *)
(* borders; the image's background passes through the values of the grid.      *)
(* Images are sequences, row by row; x and y count from 0.                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Abs(x) == IF x < 0 THEN -x ELSE x
Min(a, b) == IF a < b THEN a ELSE b
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
At(a, w, x, y) == a[x + y * w + 1]
X(i, w) == (i - 1) % w
Y(i, w) == (i - 1) \div w
RECURSIVE SumTo(_, _)
SumTo(a, n) == IF n = 0 THEN 0 ELSE a[n] + SumTo(a, n - 1)
Sum(a) == SumTo(a, Len(a))
RECURSIVE Root(_, _, _)
\* the largest r in lo..hi with r * r <= n
Root(n, lo, hi) == IF lo = hi THEN lo ELSE LET m == (lo + hi + 1) \div 2 IN IF m * m <= n THEN Root(n, m, hi) ELSE Root(n, lo, m - 1)
ISqrt(n) == Root(n, 0, 46340)
Sorted(a) == SortSeq(a, <)
\* twice the median
Median2(a) == LET s == Sorted(a) n == Len(a) IN IF n % 2 = 1 THEN 2 * s[n \div 2 + 1] ELSE s[n \div 2] + s[n \div 2 + 1]

\* ---- the median filter: as much of the box as fits evenly around the cell
Half(p, box, n) == Min(box \div 2, Min(p, n - 1 - p))
Window(a, w, h, bw, bh, x, y) ==
  LET rx == Half(x, bw, w) ry == Half(y, bh, h) nx == 2 * rx + 1 ny == 2 * ry + 1 IN
  [k \in 1..(nx * ny) |-> At(a, w, x - rx + ((k - 1) % nx), y - ry + ((k - 1) \div nx))]
Filter2(a, w, h, bw, bh) == [i \in 1..Len(a) |-> Median2(Window(a, w, h, bw, bh, X(i, w), Y(i, w)))]

\* ---- undefined cells
Dist(i, j, w) == (X(i, w) - X(j, w)) * (X(i, w) - X(j, w)) + (Y(i, w) - Y(j, w)) * (Y(i, w) - Y(j, w))
Nearest(a, w, u, i) == LET D == {j \in 1..Len(a) : a[j] # u} IN IF D = {} THEN {} ELSE LET m == MinOf({Dist(i, j, w) : j \in D}) IN {j \in D : Dist(i, j, w) = m}
RECURSIVE SumOver(_, _)
SumOver(a, S) == IF S = {} THEN 0 ELSE LET j == CHOOSE j \in S : TRUE IN a[j] + SumOver(a, S \ {j})
Defined(a, w, u) == [i \in 1..Len(a) |-> IF a[i] # u THEN a[i] ELSE LET N == Nearest(a, w, u, i) IN IF N = {} THEN 0 ELSE SumOver(a, N) \div Cardinality(N)]

\* ---- the level and spread of the pixels of a cell, by levels: cnt[v] pixels have the value v
Cnt(a, K) == [v \in K |-> Cardinality({i \in 1..Len(a) : a[i] = v})]
RECURSIVE SumK(_, _, _)
SumK(cnt, K, p) == IF K = {} THEN 0 ELSE LET v == CHOOSE v \in K : TRUE IN cnt[v] * (IF p = 0 THEN 1 ELSE IF p = 1 THEN v ELSE v * v) + SumK(cnt, K \ {v}, p)
N(cnt, K) == SumK(cnt, K, 0)
S(cnt, K) == SumK(cnt, K, 1)
\* n squared times the variance
Var(cnt, K) == N(cnt, K) * SumK(cnt, K, 2) - S(cnt, K) * S(cnt, K)
\* a hundred times the standard deviation
Sig100(cnt, K) == (10 * ISqrt(100 * Var(cnt, K))) \div N(cnt, K)
Med(cnt, K) == MinOf({v \in K : 2 * N(cnt, {x \in K : x <= v}) >= N(cnt, K)})
Even(cnt, K) == \A v \in K : 2 * N(cnt, {x \in K : x <= v}) # N(cnt, K) \/ K = {v}
Dev(cnt, K, v) == (N(cnt, K) * v - S(cnt, K)) * (N(cnt, K) * v - S(cnt, K))
\* clipping to three standard deviations around the median until nothing more goes
OffMed(cnt, K, v) == N(cnt, K) * N(cnt, K) * (v - Med(cnt, K)) * (v - Med(cnt, K))
Clip(cnt, K) == {v \in K : OffMed(cnt, K, v) <= 9 * Var(cnt, K)}
\* sc: the width of a bin of the histogram in thousandths, within which nothing is sure
Sure(cnt, K, sc) == /\ Var(cnt, K) < 20000000 /\ Even(cnt, K)
                    /\ \A v \in K : LET d == 1000 * Abs(v - Med(cnt, K)) s3 == 30 * Sig100(cnt, K) IN v = Med(cnt, K) \/ Abs(d - s3) > 2 * sc + s3 \div 40
RECURSIVE Clipped(_, _), AllSure(_, _, _)
Clipped(cnt, K) == IF Var(cnt, K) = 0 \/ Clip(cnt, K) = K THEN K ELSE Clipped(cnt, Clip(cnt, K))
AllSure(cnt, K, sc) == Sure(cnt, K, sc) /\ (Var(cnt, K) = 0 \/ Clip(cnt, K) = K \/ AllSure(cnt, Clip(cnt, K), sc))
Bins(n) == (n * 9974) \div 10000 + 1
\* what is known of a cell: [exact |-> TRUE, v |-> level], [exact |-> FALSE, ...] with the allowed levels and spread, or nothing sure
CellStats(a, unit) ==
  LET L == {a[i] : i \in 1..Len(a)}
      cnt == Cnt(a, L)
      V0 == Var(cnt, L)
      K1 == IF V0 = 0 THEN L ELSE {v \in L : Dev(cnt, L, v) <= 4 * V0}
      sure1 == V0 = 0 \/ \A v \in L : Abs(Dev(cnt, L, v) - 4 * V0) > V0 \div 5
      V1 == Var(cnt, K1) n1 == N(cnt, K1)
      out == L \ K1
      K2 == {v \in L : Dev(cnt, K1, v) <= 25 * V1}
      sure2 == \A v \in L : ~(Dev(cnt, K1, v) >= 16 * V1 /\ Dev(cnt, K1, v) <= 36 * V1)
      K == Clipped(cnt, K2)
      sc == (100 * Sig100(cnt, K1)) \div Bins(n1)
      s1 == 10 * Sig100(cnt, K1) s == 10 * Sig100(cnt, K)
      mean == (1000 * S(cnt, K)) \div N(cnt, K) med == 1000 * Med(cnt, K)
      off == Abs(mean - med)
      free == (5 * med - 3 * mean) \div 2
  IN CASE V1 = 0 /\ (out = {} \/ unit = 0) -> [sure |-> sure1, levels |-> {1000 * (CHOOSE v \in K1 : TRUE)}, tol |-> 2, sigma |-> 0, stol |-> 2]
     [] V1 = 0 /\ out # {} /\ unit > 0 -> [sure |-> sure1 /\ Cardinality(out) = 1 /\ 10 * N(cnt, out) < n1 /\ (\A v \in out : Abs(v - (CHOOSE k \in K1 : TRUE)) >= 5), levels |-> {1000 * (CHOOSE v \in K1 : TRUE)}, tol |-> 2, sigma |-> 0, stol |-> 2]
     [] V1 > 0 -> [sure |-> sure1 /\ sure2 /\ V1 < 20000000 /\ AllSure(cnt, K2, sc) /\ (s = 0 \/ 3 * sc < s),
                   levels |-> (IF 10 * (2 * off + 3 * sc) < 6 * (s - sc) THEN {free} ELSE IF 10 * (2 * off - 3 * sc) > 6 * (s + sc) THEN {med} ELSE {free, med}),
                   tol |-> 3 * sc + sc \div 4 + 5, sigma |-> s, stol |-> sc + 10]
     [] OTHER -> [sure |-> FALSE, levels |-> {}, tol |-> 0, sigma |-> 0, stol |-> 0]
=============================================================================
