----------------------------- MODULE FrameTrace -----------------------------
(* Every layer of a frame is what its definition gives for the settings in force, whatever was set before and in which order. *)
EXTENDS Images, Json, IOUtils
VARIABLES c, l, s
\* s: [im, var, bg, vt, dt, gap, filter, meta]; images are sequences of pixels; bg and filter may be none
Cases == ndJsonDeserialize(IOEnv.TRACE)
Evs == Cases[c].ev
Ev == Evs[l]
Cfg == Cases[c].cfg
fw == Cfg.w
fh == Cfg.h
IsEv(e) == l <= Len(Evs) /\ Ev.e = e /\ l' = l + 1 /\ c' = c
TInit == l = 1 /\ c \in 1..Len(Cases) /\ s = Cases[c].cfg.s
K == 1..fw * fh
X(k) == (k - 1) % fw
Y(k) == (k - 1) \div fw
At(x, y) == y * fw + x + 1
\* the layers
Interp(im) == TLCEval([k \in K |-> LET Good(x, y) == s.vt < 0 \/ s.var[At(x, y)] < s.vt
                                      p == InterpAt(X(k), Y(k), s.gap, Good) IN im[At(p[1], p[2])]])
Bg == IF s.bg = <<>> THEN [k \in K |-> 0] ELSE s.bg
Minus(a, b) == TLCEval([k \in K |-> a[k] - b[k]])
Sub == Minus(Interp(s.im), Bg)
UVar == Interp(s.var)
\* the filters of the driver: by the image they are given, and some by the variance and the limit they are given
Filt(im, uv) == TLCEval(CASE s.filter = 0 -> im
                  [] s.filter = 1 -> [k \in K |-> 4 * im[k]]
                  [] s.filter = 2 -> [k \in K |-> -im[k]]
                  [] s.filter = 3 -> [k \in K |-> im[At(Min2(X(k) + 1, fw - 1), Y(k))]]
                  [] s.filter = 4 -> [k \in K |-> IF s.vt < 0 \/ uv[k] < s.vt THEN im[k] ELSE 9])
Clamp(v) == TLCEval([k \in K |-> Max2(v[k], 0)])
Var(uv) == IF s.filter = 0 THEN uv ELSE Clamp(Filt(uv, uv))
Thr(a, v) == [k \in K |-> a[k] - s.dt * Sqrt(v[k])]
Snr(a, v) == [k \in K |-> (60 * a[k]) \div Sqrt(v[k])]
\* (m, u): the subtracted image and the variance without filter
Lay(n, m, u) == CASE n = "original" -> s.im
              [] n = "interpolated" -> Interp(s.im)
              [] n = "subtracted" -> m
              [] n = "filtered" -> Filt(m, u)
              [] n = "thresholded" -> LET a == TLCEval(Filt(m, u))  v == TLCEval(Var(u)) IN Thr(a, v)
              [] n = "snr" -> LET a == TLCEval(Filt(m, u))  v == TLCEval(Var(u)) IN Snr(a, v)
              [] n = "original variance" -> s.var
              [] n = "unfiltered variance" -> u
              [] n = "variance" -> Var(u)
              [] n = "threshold map" -> [k \in K |-> s.dt * Sqrt(s.var[k])]
              [] n = "background" -> Bg
Layer(n) == CHOOSE r \in {Lay(n, m, u) : m \in {Sub}, u \in {UVar}} : TRUE
TNext == \/ IsEv("Layer") /\ TRUE = (Ev.v = Layer(Ev.n)) /\ s' = s
         \/ IsEv("Meta") /\ Ev.v = s.meta /\ s' = s
         \/ IsEv("SetVariance") /\ s' = [s EXCEPT !.var = Ev.v]
         \* a frame without a limit keeps being without
         \/ IsEv("SetLimit") /\ s' = IF s.vt < 0 THEN s ELSE [s EXCEPT !.vt = Ev.v, !.meta.vt = Ev.v]
         \/ IsEv("SetThreshold") /\ s' = [s EXCEPT !.dt = Ev.v]
         \/ IsEv("SetBackground") /\ s' = [s EXCEPT !.bg = Ev.v, !.meta.rms = Ev.rms]
         \/ IsEv("SetFilter") /\ s' = [s EXCEPT !.filter = Ev.v]
         \/ IsEv("SetLabel") /\ s' = [s EXCEPT !.meta.label = Ev.v]
         \/ IsEv("SetHdu") /\ s' = [s EXCEPT !.meta.hdu = Ev.v]
         \/ IsEv("End") /\ s' = s
         \/ l > Len(Evs) /\ UNCHANGED <<c, l, s>>
TSpec == TInit /\ [][TNext]_<<c, l, s>>
=============================================================================
