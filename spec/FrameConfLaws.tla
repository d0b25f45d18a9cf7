---------------------------- MODULE FrameConfLaws ----------------------------
(* Laws of FrameConf over a range of weights, limits and scales. ScaleLimit = FALSE: the limit of an absolute map is left in
   the units of the file. *)
EXTENDS FrameConf
CONSTANT ScaleLimit
VARIABLES type, w4, s2, t4, f4, abs
vars == <<type, w4, s2, t4, f4, abs>>
Powers == {1, 2, 4, 8, 16}
Init == /\ type = "rms" /\ w4 = 0 /\ s2 = 2 /\ t4 = 0 /\ f4 = 4 /\ abs = FALSE
Next == \/ type' \in NeedImage /\ UNCHANGED <<w4, s2, t4, f4, abs>>
        \/ w4' \in {-4, 0} \cup Powers /\ UNCHANGED <<type, s2, t4, f4, abs>>
        \/ s2' \in {1, 2, 4} /\ UNCHANGED <<type, w4, t4, f4, abs>>
        \/ t4' \in {-4, 0} \cup Powers /\ UNCHANGED <<type, w4, s2, f4, abs>>
        \/ f4' \in Powers /\ UNCHANGED <<type, w4, s2, t4, abs>>
        \/ abs' = ~ abs /\ UNCHANGED <<type, w4, s2, t4, f4>>
Spec == Init /\ [][Next]_vars
V == Scaled(Variance(type, w4, s2), f4, abs)
T == Threshold(type, <<t4>>, IF ScaleLimit THEN f4 ELSE 4, abs)
Below(v, t) == IF v = -1 THEN FALSE ELSE t = -1 \/ v < t
\* which pixels are bad does not depend on the flux scale
BadUnscaled == Below(Variance(type, w4, s2), Limit(type, t4))
SameBad == Below(V, T) = BadUnscaled
\* a relative map does not know of the flux scale
Relative == ~ abs => V = Variance(type, w4, s2)
\* noise r as rms, as variance and as weight is one and the same
Agree == \A r \in {1, 2, 4} : /\ Variance("rms", 4 * r, 2) = Variance("variance", 4 * r * r, 2)
                               /\ (r <= 2 => Variance("rms", 4 * r, 2) = Variance("weight", 4 \div (r * r), 2))
                               /\ Limit("rms", 4 * r) = Limit("variance", 4 * r * r)
                               /\ (r <= 2 => Limit("rms", 4 * r) = Limit("weight", 4 \div (r * r)))
\* signal to noise does not depend on the flux scale: pixels squared and variances grow alike
Units == \A p \in 1..3 : LET a == Pixels(<<p>>, f4)[1] \div 16  b == Pixels(<<p>>, 4)[1] \div 16 IN
           abs /\ V > 0 => a * a * Variance(type, w4, s2) = b * b * V
\* electrons and the distance to saturation do not depend on it either
Electrons == \A g2 \in 0..3 : \A p \in 1..3 : (g2 * 128) % f4 = 0 => Gain(g2, f4) * Pixels(<<p>>, f4)[1] = Gain(g2, 4) * Pixels(<<p>>, 4)[1]
Saturated == \A n2 \in 0..8 : \A p \in 0..4 : (Pixels(<<p>>, f4)[1] >= Saturation(n2, f4)) = (Pixels(<<p>>, 4)[1] >= Saturation(n2, 4))
\* filling: good pixels stay, a filled pixel has the value of a good one, a wider gap fills no fewer
FillLaws ==
  \A bad \in [1..6 -> BOOLEAN] :
    LET pix == <<1, 2, 3, 4, 5, 6>>
        at(g, k) == Filled(3, pix, bad, g, k) IN
      \A k \in 1..6 : /\ ~ bad[k] => at(2, k) = pix[k]
                      /\ at(2, k) # pix[k] => ~ bad[at(2, k)]
                      /\ at(0, k) = pix[k]
                      /\ (at(1, k) # pix[k] => at(2, k) = at(1, k))
Fill == type = "rms" /\ w4 = 0 /\ s2 = 2 /\ t4 = 0 /\ f4 = 4 => FillLaws
=============================================================================
