----------------------------- MODULE FilterModel ----------------------------
(* One row of an image goes through the filter tile by tile, once by summing directly and once by a transform: each tile takes
   the image it needs, clipped to the image, padded to some convenient size, and turns in a circle. Whatever the tiles and the
   sizes, a pixel gets the pixels around it with the same weights.
   Variants for negative controls: "halo" (a tile only takes its own pixels), "centre" (the centre of the padded kernel is that
   of the padding), "small" (no room for the kernel in the padding). *)
EXTENDS Filter
CONSTANTS MaxW, MaxK, Slack, Variant
VARIABLES w, kw, tiles, pad, at, direct, transform
vars == <<w, kw, tiles, pad, at, direct, transform>>
\* which weight (from 1; 0: none) pixel p has for pixel x: the definition
Def(p, x) == LET i == Centre(kw) + x - p IN IF i >= 1 /\ i <= kw THEN i ELSE 0
Half == IF Variant = "halo" THEN 0 ELSE kw \div 2
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
Init == /\ w \in 1..MaxW /\ kw \in 1..MaxK /\ tiles \in 1..MaxW /\ pad \in 0..Slack /\ at = 0
        /\ direct = <<>> /\ transform = <<>>
\* a tile of tw pixels from s
ClipX(s) == Max(s - Half, 0)
ClipW(s, tw) == Min(tw + 2 * Half, w - ClipX(s))
\* direct: the mirrored kernel is laid over the part of the image
Tap(s, tw, x, p) ==
  LET start == (x - s) - kw \div 2 + (s - ClipX(s)) IN
  LET q == p - ClipX(s) IN           \* where the pixel is in the part
  IF q < 0 \/ q >= ClipW(s, tw) THEN 0
  ELSE LET cx == q - start IN IF cx < 0 \/ cx >= kw THEN 0 ELSE kw - cx
\* transform: image and kernel in the middle of a circle of n; the kernel is turned so that its centre comes first
Circle(s, tw) == (IF Variant = "small" THEN ClipW(s, tw) ELSE ClipW(s, tw) + kw - 1) + pad
Turn(n) == IF Variant = "centre" THEN (IF n % 2 = 0 THEN (n \div 2) - 1 ELSE n \div 2) ELSE (n - kw) \div 2 + (kw - 1) \div 2
Spin(s, tw, x, p) ==
  LET n == Circle(s, tw) IN
  LET q == p - ClipX(s) o == x - ClipX(s) IN
  IF q < 0 \/ q >= ClipW(s, tw) THEN 0
  ELSE LET m == ((((o - q + n) % n) + Turn(n)) % n) - ((n - kw) \div 2) IN IF m >= 0 /\ m < kw THEN m + 1 ELSE 0
Row(F(_, _, _, _), s, tw) == [x \in s..s + tw - 1 |-> [p \in 0..w - 1 |-> F(s, tw, x, p)]]
Merge(f, g) == [x \in DOMAIN f \cup DOMAIN g |-> IF x \in DOMAIN g THEN g[x] ELSE f[x]]
Next == /\ at < w
        /\ LET tw == Min(tiles, w - at) IN
             /\ direct' = Merge(direct, Row(Tap, at, tw))
             /\ transform' = Merge(transform, Row(Spin, at, tw))
             /\ at' = at + tw
        /\ UNCHANGED <<w, kw, tiles, pad>>
Spec == Init /\ [][Next]_vars
Seamless == \A x \in DOMAIN direct : \A p \in 0..w - 1 : direct[x][p] = Def(p, x)
Same == \A x \in DOMAIN transform : \A p \in 0..w - 1 : transform[x][p] = Def(p, x)
\* a transform needs a circle that holds the kernel
Room == at < w => Circle(at, Min(tiles, w - at)) >= kw
=============================================================================
