------------------------------- MODULE Images -------------------------------
(* What composed images are: the pixel of an expression at a position.  Expressions are records with a kind k; the leaves
   refer to bases, sequences of pixels in rows which can change.  All values are whole numbers. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Sqrt(v) == CHOOSE r \in 0..4000 : r * r = v
IsSquare(v) == v >= 0 /\ \E r \in 0..4000 : r * r = v
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
(* the coordinate of an image of N pixels that stands for v *)
Replicate(N, v) == Max2(0, Min2(v, N - 1))
Reflect(N, v) == LET m == v % (2 * N) IN IF m < N THEN m ELSE 2 * N - 1 - m
Reflect101(N, v) == IF N = 1 THEN 0 ELSE LET m == v % (2 * N - 2) IN IF m < N THEN m ELSE 2 * N - 2 - m
Wrap(N, v) == v % N
Coord(how, N, v) == CASE how = "replicate" -> Replicate(N, v)
                      [] how = "reflect" -> Reflect(N, v)
                      [] how = "reflect101" -> Reflect101(N, v)
                      [] how = "wrap" -> Wrap(N, v)
(* the functions the drivers apply to pixels *)
Fun(f, x, y, v) == CASE f = 1 -> 2 * v + 1
                     [] f = 2 -> v + x - 3 * y
                     [] f = 3 -> -v
                     [] f = 4 -> IF v < 0 THEN 0 ELSE v
                     [] f = 5 -> IF (x + y) % 2 = 0 THEN v ELSE 7
(* is a pixel of a mask set? flags are powers of two *)
Masks(op, m, flag) == CASE op = "and" -> (m \div flag) % 2 = 1
                        [] op = "greater" -> m > flag
                        [] op = "equal" -> m = flag
RECURSIVE W(_), H(_), Pix(_, _, _, _)
W(e) == CASE e.k \in {"vec", "const", "sub", "pad"} -> e.w [] OTHER -> W(e.i)
H(e) == CASE e.k \in {"vec", "const", "sub", "pad"} -> e.h [] OTHER -> H(e.i)
(* the pixel a bad pixel is replaced by: the nearest good one on its left or above, at most gap away, the left one first *)
InterpAt(x, y, gap, Good(_, _)) ==
  IF Good(x, y) THEN <<x, y>>
  ELSE LET ds == {d \in 1..gap : (x - d >= 0 /\ Good(x - d, y)) \/ (y - d >= 0 /\ Good(x, y - d))}
       IN IF ds = {} THEN <<x, y>>
          ELSE LET d == CHOOSE d \in ds : \A o \in ds : d <= o
               IN IF x - d >= 0 /\ Good(x - d, y) THEN <<x - d, y>> ELSE <<x, y - d>>
Pix(b, e, x, y) ==
  CASE e.k = "vec" -> b[e.id][y * e.w + x + 1]
    [] e.k = "const" -> e.v
    [] e.k = "sub" -> Pix(b, e.i, x + e.x, y + e.y)
    [] e.k = "mirror" -> Pix(b, e.i, W(e.i) - 1 - x, H(e.i) - 1 - y)
    [] e.k = "pad" -> LET px == x - (e.w - W(e.i)) \div 2  py == y - (e.h - H(e.i)) \div 2
                      IN IF e.how = "const"
                         THEN IF px >= 0 /\ py >= 0 /\ px < W(e.i) /\ py < H(e.i) THEN Pix(b, e.i, px, py) ELSE e.v
                         ELSE Pix(b, e.i, Coord(e.how, W(e.i), px), Coord(e.how, H(e.i), py))
    [] e.k = "recenter" -> Pix(b, e.i, (x + e.x) % W(e.i), (y + e.y) % H(e.i))
    [] e.k = "func" -> Fun(e.f, x, y, Pix(b, e.i, x, y))
    [] e.k = "masked" -> IF Masks(e.op, Pix(b, e.m, x, y), e.flag) THEN e.v ELSE Pix(b, e.i, x, y)
    [] e.k = "minus" -> Pix(b, e.i, x, y) - Pix(b, e.j, x, y)
    [] e.k = "times" -> Pix(b, e.i, x, y) * Pix(b, e.j, x, y)
    [] e.k = "thr" -> Pix(b, e.i, x, y) - e.t * Sqrt(Pix(b, e.var, x, y))
    \* the signal to noise ratio, times 60
    [] e.k = "snr" -> (60 * Pix(b, e.i, x, y)) \div Sqrt(Pix(b, e.var, x, y))
    [] e.k = "interp" -> LET Good(gx, gy) == Pix(b, e.var, gx, gy) < e.t
                             p == InterpAt(x, y, e.gap, Good)
                         IN Pix(b, e.i, p[1], p[2])
Rect(b, e, x, y, w, h) == [k \in 1..w * h |-> Pix(b, e, x + ((k - 1) % w), y + ((k - 1) \div w))]
=============================================================================
