----------------------------- MODULE PhotTrace -----------------------------
EXTENDS Photometry, Json, IOUtils
VARIABLES c, l
Cases == ndJsonDeserialize(IOEnv.TRACE)
Evs == Cases[c].ev
Ev == Evs[l]
Cfg == Cases[c].cfg
IsEv(e) == l <= Len(Evs) /\ Ev.e = e /\ l' = l + 1 /\ c' = c
TInit == l = 1 /\ c \in 1..Len(Cases)
M == [w |-> Cfg.w, h |-> Cfg.h, px |-> Cfg.px, var |-> Cfg.var, mask2 |-> Cfg.mask2, sym |-> Cfg.sym]
D == [w |-> Cfg.dw, h |-> Cfg.dh, px |-> Cfg.dpx, var |-> Cfg.dvar, mask2 |-> Cfg.dmask2, sym |-> FALSE]
All(m) == (0..(m.w - 1)) \X (0..(m.h - 1))
\* an image lost the aperture's pixels without saying so?
NothingLost(a, m, b, B) == a.jac = <<1, 0, 0, 1>> /\ (\E p \in Around(b, 2) : ~Inside(m, p) /\ Area(a, p) > 0) => B \cap {3, 5} # {}
Measured(m, a, b, r, B) ==
  IF Out(m, b) THEN Ev.flux = 0 ELSE Near(Ev.flux, r.flux, 2)
Flux == LET a == [circ |-> Ev.circ, r |-> Ev.r, ell |-> Ev.ell, jac |-> Ev.jac, cx |-> Ev.cx, cy |-> Ev.cy]
            r == TLCEval(Measure(a, M, Boxed(Ev.box)))
            B == Bits(Ev.flags)
        IN /\ Covers(a, Ev.box) /\ Tight(a, Ev.box) /\ Measured(M, a, Ev.box, r, B) /\ FluxFlags(M, Ev.box, r, B) /\ NothingLost(a, M, Ev.box, B)
           /\ IF Out(M, Ev.box) THEN Ev.v = 0 /\ Ev.area = 0 /\ Ev.bad = 0
              ELSE Near(Ev.v, r.v, 2) /\ Near(Ev.area, r.area, 1) /\ Ev.bad = 100 * r.bad
DetF == LET a == [circ |-> Ev.circ, r |-> Ev.r, ell |-> Ev.ell, jac |-> Ev.jac, cx |-> Ev.cx, cy |-> Ev.cy]
            own == [p \in All(M) |-> At(M, Ev.own, p) = 1]
            above == [p \in All(M) |-> At(M, Ev.t, p) > 0]
        IN DetFlags(a, M, Ev.box, own, above, Bits(Ev.flags))
Own == [p \in All(D) |-> At(D, Cfg.own, p) = 1]
SqrtOf == [v \in {1, 4, 9} |-> CASE v = 1 -> 1 [] v = 4 -> 2 [] v = 9 -> 3]
Above == [p \in All(D) |-> At(D, D.px, p) > Cfg.dthr * SqrtOf[At(D, D.var, p)]]
Photo == LET a == [circ |-> Ev.circ, r |-> Ev.r, ell |-> Ev.ell, jac |-> Cfg.jac, cx |-> Cfg.cx, cy |-> Cfg.cy]
             d == [circ |-> Ev.circ, r |-> Ev.r, ell |-> Ev.ell, jac |-> <<1, 0, 0, 1>>, cx |-> Cfg.dx, cy |-> Cfg.dy]
             r == TLCEval(Measure(a, M, Boxed(Ev.box)))
             B == Bits(Ev.flags)
             v == IF Out(M, Ev.box) THEN 0 ELSE r.v
             g == IF Cfg.gain = 0 THEN 1 ELSE Cfg.gain
             e2 == (g * v) + (IF Cfg.gain = 0 THEN 0 ELSE Ev.flux)     \* g times the square of the error
         IN /\ Covers(a, Ev.box) /\ Covers(d, Ev.dbox) /\ Measured(M, a, Ev.box, r, B) /\ NothingLost(a, M, Ev.box, B)
            /\ (2 \in B) = Cfg.sat /\ (1 \in B) = Cfg.blended
            \* what the measurement and what the detection frame contribute
            /\ B \subseteq {0, 1, 2, 3, 4, 5}
            /\ \E F \in SUBSET (B \cap {0, 3, 5}), G \in SUBSET (B \cap {0, 3, 4}) :
                  /\ F \cup G = B \ {1, 2} /\ FluxFlags(M, Ev.box, r, F)
                  /\ IF Cfg.noDet THEN G = {} ELSE DetFlags(d, D, Ev.dbox, Own, Above, G)
            /\ IF e2 < -4 * g THEN Ev.nanErr ELSE IF e2 <= 4 * g THEN TRUE ELSE ~Ev.nanErr /\ Near(g * Ev.err2, e2, 4 * g)
            /\ IF Ev.flux > 2 THEN ~Ev.nanMag /\ Near(Ev.mag, Ev.flux, 2 + (Ev.flux \div 5000)) ELSE IF Ev.flux < 0 THEN Ev.nanMag ELSE TRUE
            /\ Abs(Ev.flux) > 2 /\ ~Ev.nanErr => Near(Ev.magErr, Ev.err, 2)
Growth == LET a(r) == [circ |-> TRUE, r |-> r, ell |-> <<1, 1, 0>>, jac |-> <<1, 0, 0, 1>>, cx |-> Cfg.cx, cy |-> Cfg.cy]
          IN /\ Ev.size = 64 /\ Ev.max = 50 * Ev.rl
             /\ \A i \in 1..Len(Ev.at) : Near(Ev.v[i], Measure(a(Ev.at[i]), M, All(M)).flux, 1)
KronR == LET a == [circ |-> FALSE, r |-> 384, ell |-> Ev.ell, jac |-> <<1, 0, 0, 1>>, cx |-> Cfg.dx, cy |-> Cfg.dy]
             Pix == TLCEval({p \in All(D) : Area(a, p) > 0})
             use == TLCEval({p \in Pix : ~Bad(D, p) /\ (Own[p] \/ ~Above[p])})
             f == TLCEval(Sum([p \in use |-> At(D, D.px, p)], use))
             s == TLCEval(Sum([p \in use |-> At(D, D.px, p) * ISqrt(512 * R2(a, p))], use))
             n == TLCEval(Sum([p \in use |-> Abs(At(D, D.px, p))], use))
             lost == \E p \in ((-14)..24) \X ((-14)..24) : ~Inside(D, p) /\ Area(a, p) > 0
         IN /\ IF f <= 0 THEN Ev.v = 0 ELSE Near(Ev.v * f, s, n + f + (Abs(s) \div 10000))
            /\ (3 \in Bits(Ev.flag)) = lost
TNext == \/ IsEv("Flux") /\ Flux
         \/ IsEv("DetFlags") /\ DetF
         \/ IsEv("Kron")
         \/ IsEv("Aper") /\ Photo
         \/ IsEv("Auto") /\ Photo
         \/ IsEv("Growth") /\ Growth
         \/ IsEv("KronRadius") /\ KronR
         \/ IsEv("Count") /\ Ev.n = Ev.want
         \/ IsEv("End")
         \/ l > Len(Evs) /\ UNCHANGED <<c, l>>
TSpec == TInit /\ [][TNext]_<<c, l>>
=============================================================================
