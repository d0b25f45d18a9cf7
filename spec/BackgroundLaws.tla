--------------------------- MODULE BackgroundLaws ---------------------------
(* What a user expects of smoothing and of filling undefined cells, for every  *)
(* small grid.  Shifted: at the border the window is moved instead of shrunk.  *)
(* First: an undefined cell takes the first of the nearest.                    *)
EXTENDS Background
CONSTANTS W, H, Values, Boxes, Shifted, First
VARIABLES img, bw, bh
U == 99
Init == img \in [1..(W * H) -> Values \cup {U}] /\ bw \in Boxes /\ bh \in Boxes
Next == UNCHANGED <<img, bw, bh>>
Spec == Init /\ [][Next]_<<img, bw, bh>>
ShiftWindow(a, x, y) == LET x0 == IF x - bw \div 2 < 0 THEN 0 ELSE x - bw \div 2 y0 == IF y - bh \div 2 < 0 THEN 0 ELSE y - bh \div 2
                            x1 == Min(W - 1, x0 + bw - 1) y1 == Min(H - 1, y0 + bh - 1) nx == IF bw = 0 THEN 1 ELSE x1 - x0 + 1 ny == IF bh = 0 THEN 1 ELSE y1 - y0 + 1 IN
                        [k \in 1..(nx * ny) |-> At(a, W, x0 + ((k - 1) % nx), y0 + ((k - 1) \div nx))]
F(a) == IF Shifted THEN [i \in 1..Len(a) |-> Median2(ShiftWindow(a, X(i, W), Y(i, W)))] ELSE Filter2(a, W, H, bw, bh)
D(a) == IF First THEN [i \in 1..Len(a) |-> IF a[i] # U THEN a[i] ELSE LET N0 == Nearest(a, W, U, i) IN IF N0 = {} THEN 0 ELSE a[MinOf(N0)]] ELSE Defined(a, W, U)
Mirror(a) == [i \in 1..(W * H) |-> At(a, W, W - 1 - X(i, W), Y(i, W))]
Turn(a) == [i \in 1..(W * H) |-> a[W * H + 1 - i]]
Filled == D(img)
NothingUndefined == (\E i \in 1..(W * H) : img[i] # U) => \A i \in 1..(W * H) : Filled[i] # U /\ (img[i] # U => Filled[i] = img[i])
Between == \A i \in 1..(W * H) : LET f == F(Filled) IN f[i] >= 2 * MinOf({Filled[k] : k \in 1..(W * H)}) /\ f[i] <= 2 * MaxOf({Filled[k] : k \in 1..(W * H)})
BoxOfOne == (bw <= 1 /\ bh <= 1) => F(Filled) = [i \in 1..(W * H) |-> 2 * Filled[i]]
Corners == F(Filled)[1] = 2 * Filled[1] \/ Shifted
FillMirrors == D(Mirror(img)) = Mirror(D(img)) /\ D(Turn(img)) = Turn(D(img))
SmoothMirrors == F(Mirror(Filled)) = Mirror(F(Filled)) /\ F(Turn(Filled)) = Turn(F(Filled))
=============================================================================
