------------------------------ MODULE FrameConf ------------------------------
(* What the images, the weights and the frames built on them are, given the options, the headers of the files and the images
   a configuration script defines. Scales: pixels, gains and levels in 1/64; weights, variances and thresholds in 1/4096;
   flux scales in quarters; weight scalings, gains and saturations as given in halves; -1: infinite, or no limit. *)
EXTENDS Integers, Sequences, FiniteSets
Given(q, otherwise) == IF q = <<>> THEN otherwise ELSE q[1]
Types == {"none", "background", "rms", "variance", "weight"}
NeedImage == {"rms", "variance", "weight"}
\* ---- pixels, gain and saturation in the units of the scaled image
Pixels(plane, f4) == [k \in 1..Len(plane) |-> plane[k] * f4 * 16]
Gain(g2, f4) == (g2 * 128) \div f4
Saturation(s2, f4) == s2 * f4 * 8
\* ---- a weight map as variances
Scaled(x, f4, abs) == IF abs /\ x # -1 THEN (x * f4 * f4) \div 16 ELSE x
Variance(type, w4, s2) == LET v == w4 * s2 IN
  CASE type = "rms" -> v * v * 64
    [] type = "variance" -> v * 512
    [] type = "weight" -> IF v > 0 THEN 32768 \div v ELSE -1
Variances(plane, type, s2, f4, abs) == [k \in 1..Len(plane) |-> Scaled(Variance(type, plane[k], s2), f4, abs)]
\* ---- the limit above which a pixel is bad
Limit(type, t4) ==
  CASE type \in {"none", "background", "rms"} -> t4 * t4 * 256
    [] type = "variance" -> t4 * 1024
    [] type = "weight" -> IF t4 > 0 THEN 16384 \div t4 ELSE -1
Threshold(type, thr, f4, abs) == IF thr = <<>> THEN -1 ELSE Scaled(Limit(type, thr[1]), f4, abs)
\* ---- the variance map of a frame: the weights themselves, the weights in proportion to the noise found, or the noise found
Near(a, b) == a - b <= 1 + (b \div 10000) /\ b - a <= 1 + (b \div 10000)
Proportional(q, w, f) == IF w = -1 THEN q = -1 ELSE IF w = 0 THEN q = -3 ELSE Near(q, f)
VarianceOk(has, abs, w, thr, m, f) ==
  IF ~ has THEN f.var = m.var /\ f.thr = thr
  ELSE IF abs THEN f.var = w /\ f.thr = thr
  ELSE m.f # -1 => /\ \A k \in 1..Len(w) : Proportional(f.q[k], w[k], m.f)
                   /\ Proportional(f.tq, thr, m.f)
\* ---- bad pixels are filled from the nearest good one to the left or above, no further than the gap
Filled(w, pix, bad, gap, k) ==
  LET x == (k - 1) % w   y == (k - 1) \div w
      left(d) == x >= d /\ ~ bad[k - d]   above(d) == y >= d /\ ~ bad[k - d * w]
      at == {d \in 1..gap : left(d) \/ above(d)} IN
  IF ~ bad[k] \/ at = {} THEN pix[k]
  ELSE LET d == CHOOSE d \in at : \A e \in at : d <= e IN IF left(d) THEN pix[k - d] ELSE pix[k - d * w]
FilledOk(w, f, gap) == f.filled = [k \in 1..Len(f.pix) |-> Filled(w, f.pix, f.bad, gap, k)]
=============================================================================
