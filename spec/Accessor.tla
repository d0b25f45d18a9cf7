------------------------------ MODULE Accessor ------------------------------
(* The window an accessor keeps of an image: one chunk, moved to where the last read was, starting at the read pixel, around
   it or ending with it.  A read is served from the window; it must hold the pixel and lie inside the image. *)
EXTENDS Integers, TLC
CONSTANTS MaxN, MaxR
VARIABLES w, h, hint, rw, rh, have, x0, y0, x1, y1, x, y
vars == <<w, h, hint, rw, rh, have, x0, y0, x1, y1, x, y>>
Clip(v, n) == IF v < 0 THEN 0 ELSE IF v > n - 1 THEN n - 1 ELSE v
Init == /\ w \in 1..MaxN /\ h \in 1..MaxN /\ rw \in 1..MaxR /\ rh \in 1..MaxR /\ hint \in {"topleft", "centered", "bottomright"}
        /\ have = FALSE /\ x0 = 0 /\ y0 = 0 /\ x1 = 0 /\ y1 = 0 /\ x = 0 /\ y = 0
First(v, r) == CASE hint = "topleft" -> v [] hint = "centered" -> v - r \div 2 [] hint = "bottomright" -> v - r
Later(v, r) == IF hint = "bottomright" THEN v - r + 1 ELSE v
Read == \E a \in 0..(w - 1), b \in 0..(h - 1) :
          /\ x' = a /\ y' = b /\ have' = TRUE /\ UNCHANGED <<w, h, hint, rw, rh>>
          /\ IF have /\ a >= x0 /\ b >= y0 /\ a <= x1 /\ b <= y1 THEN UNCHANGED <<x0, y0, x1, y1>>
             ELSE LET s == IF have THEN Clip(Later(a, rw), w) ELSE Clip(First(a, rw), w)
                      t == IF have THEN Clip(Later(b, rh), h) ELSE Clip(First(b, rh), h)
                  IN x0' = s /\ y0' = t /\ x1' = Clip(s + rw, w) /\ y1' = Clip(t + rh, h)
Next == Read
Spec == Init /\ [][Next]_vars
Serves == have => x0 >= 0 /\ y0 >= 0 /\ x1 < w /\ y1 < h /\ x0 <= x /\ x <= x1 /\ y0 <= y /\ y <= y1
=============================================================================
