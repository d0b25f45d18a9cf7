------------------------------- MODULE Quant -------------------------------
(* What the catalogue says about a group of detected pixels, computed from   *)
(* the images alone. Pixels are <<x, y>>; v and s are the values and variances *)
(* as functions of the pixel. All quantities are integers with a scale.         *)
EXTENDS Components
RECURSIVE SumOf(_, _)
SumOf(F(_), S) == IF S = {} THEN 0 ELSE LET p == CHOOSE q \in S : TRUE IN F(p) + SumOf(F, S \ {p})
Abs(x) == IF x < 0 THEN -x ELSE x
Near(a, b, tol) == Abs(a - b) <= tol
Box(C) == LET X == {p[1] : p \in C} Y == {p[2] : p \in C} IN <<MinOf(X), MinOf(Y), MaxOf(X), MaxOf(Y)>>
\* division that rounds to the nearest
Div(a, b) == IF a >= 0 THEN (2 * a + b) \div (2 * b) ELSE -((2 * (-a) + b) \div (2 * b))
\* ---- moments about the barycentre, relative to the corner of the box so that the numbers stay small
Moments(C, v) == LET bx == Box(C)[1] by == Box(C)[2] IN
  LET t == SumOf(LAMBDA p : v[p], C) IN
  LET sx == SumOf(LAMBDA p : v[p] * (p[1] - bx), C) sy == SumOf(LAMBDA p : v[p] * (p[2] - by), C) IN
  [t |-> t, sx |-> sx, sy |-> sy, bx |-> bx, by |-> by,
   nxx |-> t * SumOf(LAMBDA p : v[p] * (p[1] - bx) * (p[1] - bx), C) - sx * sx,
   nyy |-> t * SumOf(LAMBDA p : v[p] * (p[2] - by) * (p[2] - by), C) - sy * sy,
   nxy |-> t * SumOf(LAMBDA p : v[p] * (p[1] - bx) * (p[2] - by), C) - sx * sy]
\* second moments (scale 1000) of the profile
Second(m) == [x |-> Div(1000 * m.nxx, m.t * m.t), y |-> Div(1000 * m.nyy, m.t * m.t), xy |-> Div(1000 * m.nxy, m.t * m.t)]
\* ---- variances of the barycentre (scale 10^6)
ErrPart(e, t) == Div(Div(e * 50, t * t) * 20000, t * t)
Errors(C, m, s) == [x |-> ErrPart(SumOf(LAMBDA p : s[p] * (m.t * (p[1] - m.bx) - m.sx) * (m.t * (p[1] - m.bx) - m.sx), C), m.t),
                    y |-> ErrPart(SumOf(LAMBDA p : s[p] * (m.t * (p[2] - m.by) - m.sy) * (m.t * (p[2] - m.by) - m.sy), C), m.t),
                    xy |-> ErrPart(SumOf(LAMBDA p : s[p] * (m.t * (p[1] - m.bx) - m.sx) * (m.t * (p[2] - m.by) - m.sy), C), m.t),
                    v |-> Div(SumOf(LAMBDA p : s[p], C) * 83333, m.t * m.t), tol |-> 20000 \div (m.t * m.t) + 3]
\* ---- logarithms: 10^5 times 2.5 log10 of the small primes
Log == <<0, 75257, 119280, 0, 174743, 0, 211275, 0, 0, 0, 260348, 0, 278486, 0, 0, 0, 307612, 0, 319688, 0, 0, 0, 340432, 0, 0, 0, 0, 0, 365600, 0, 372840>>
RECURSIVE Mag(_, _)
Mag(n, p) == IF n = 1 THEN 0 ELSE IF p > 31 THEN -1 ELSE IF n % p = 0 /\ Log[p] > 0 THEN LET r == Mag(n \div p, p) IN IF r < 0 THEN -1 ELSE Log[p] + r ELSE Mag(n, p + 1)
\* ---- frames: twice the world coordinate is at + step * pixel along each axis
World2(fr, x, k) == fr.at[k] + fr.at[k + 2] * x
=============================================================================
