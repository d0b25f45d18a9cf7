------------------------------ MODULE Fitting ------------------------------
(* The pieces of a fit: how engine values map to the values of parameters, the *)
(* residuals, and the solution of a linear problem.                            *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC
Near(x, y, t) == x - y <= t /\ y - x <= t
Abs(x) == IF x < 0 THEN -x ELSE x
Pow(k) == 2^k
\* e^(k ln 2) over its sum with 1, as a fraction
Share(k) == IF k >= 0 THEN <<Pow(k), 1 + Pow(k)>> ELSE <<1, 1 + Pow(-k)>>
\* a thousand times the world value of engine value k ln 2 in [lo, hi]
SigWorld(lo, hi, k) == 1000 * lo + ((1000 * (hi - lo) * Share(k)[1]) \div Share(k)[2])
SigSlope(lo, hi, k) == (((1000 * (hi - lo) * Share(k)[1]) \div Share(k)[2]) * (Share(k)[2] - Share(k)[1])) \div Share(k)[2]
\* in [lo, lo 2^n]: lo times 2 to the share of n
ExpPower(n, k) == (n * Share(k)[1]) \div Share(k)[2]
ExpWorld(lo, n, k) == lo * Pow(ExpPower(n, k))
\* thousand times the slope: value * p ln2 * (n - p) ln2 / (n ln2)
ExpSlope(lo, n, k) == LET p == ExpPower(n, k) IN (((ExpWorld(lo, n, k) * 6931 * p) \div n) * (n - p)) \div 10
Seq1(s) == [i \in 1..Len(s) |-> s[i]]
\* the residuals of a linear problem at p
Residual(a, d, w, p) == [i \in 1..Len(d) |-> w[i] * ((a[i][1] * p[1]) + (IF Len(p) > 1 THEN a[i][2] * p[2] ELSE 0) - d[i])]
RECURSIVE SumTo(_, _)
SumTo(f, k) == IF k = 0 THEN 0 ELSE f[k] + SumTo(f, k - 1)
\* normal equations
N(a, w, x, y) == SumTo([i \in 1..Len(w) |-> w[i] * w[i] * a[i][x] * a[i][y]], Len(w))
B(a, d, w, x) == SumTo([i \in 1..Len(w) |-> w[i] * w[i] * a[i][x] * d[i]], Len(w))
DD(d, w) == SumTo([i \in 1..Len(w) |-> w[i] * w[i] * d[i] * d[i]], Len(w))
\* [det, num: numerators of the solution, inv: numerators of the inverse's diagonal, chi: sum of squares times det]
Solve(np, a, d, w) ==
  IF np = 1 THEN LET n == N(a, w, 1, 1)  b == B(a, d, w, 1) IN [det |-> n, num |-> <<b>>, inv |-> <<1>>, chi |-> (DD(d, w) * n) - (b * b)]
  ELSE LET n11 == N(a, w, 1, 1)  n12 == N(a, w, 1, 2)  n22 == N(a, w, 2, 2)  b1 == B(a, d, w, 1)  b2 == B(a, d, w, 2)
           num == <<(b1 * n22) - (b2 * n12), (b2 * n11) - (b1 * n12)>>
           det == (n11 * n22) - (n12 * n12)
       IN [det |-> det, num |-> num, inv |-> <<n22, n11>>, chi |-> (DD(d, w) * det) - (b1 * num[1]) - (b2 * num[2])]
=============================================================================
