--------------------------- MODULE FrameConfTrace ---------------------------
(* Frames assembled by the configuration classes from FITS files, options and measurement images, against FrameConf. *)
EXTENDS FrameConf, TLC, Json, IOUtils
VARIABLES c, l
Cases == ndJsonDeserialize(IOEnv.TRACE)
Cfg == Cases[c].cfg
Evs == Cases[c].ev
Ev == Evs[l]
IsEv(e) == l <= Len(Evs) /\ Ev.e = e /\ l' = l + 1 /\ c' = c
TInit == l = 1 /\ c \in 1..Len(Cases)
\* ---- the detection images: all those of the file, or the one that is named
Exts == IF ~ Cfg.hasdet THEN <<>> ELSE IF Cfg.picked > 0 THEN <<Cfg.det[Cfg.picked]>> ELSE Cfg.det
Weights == IF ~ Cfg.wimg THEN <<>> ELSE IF Cfg.picked > 0 THEN <<Cfg.wgt[Cfg.picked]>> ELSE Cfg.wgt
Slots == IF Cfg.hasdet THEN Len(Exts) ELSE IF Cfg.hasref THEN 1 ELSE 0
BadHeader == /\ Cfg.hasdet /\ Cfg.badkey # "" /\ Cfg.picked \in {0, Len(Cfg.det)}
             /\ (Cfg.badkey = "FLXSCALE" => Cfg.flx = <<>>)
Refused == \/ Cfg.hasdet /\ Cfg.hasref
           \/ BadHeader
           \/ Cfg.wtype \notin Types
           \/ Cfg.wimg /\ Cfg.wtype \notin NeedImage
           \/ Cfg.wabs /\ ~ Cfg.wimg
           \/ Len(Weights) > Slots
F4(i) == Given(Cfg.flx, Given(Exts[i].flx, 4))
HasW(i) == i <= Len(Weights)
DPix(i) == Pixels(Exts[i].planes[1], F4(i))
DGain(i) == Gain(Given(Cfg.gain, Given(Exts[i].gain, 0)), F4(i))
DSat(i) == Saturation(Given(Cfg.sat, Given(Exts[i].sat, 0)), F4(i))
DGap == IF Cfg.interp /\ Cfg.gap > 0 THEN Cfg.gap ELSE 0
DWgt(i) == IF HasW(i) THEN Variances(Weights[i].planes[1], Cfg.wtype, Cfg.ws2, F4(i), Cfg.wabs) ELSE <<>>
DThr(i) == Threshold(Cfg.wtype, Cfg.thr, F4(i), Cfg.wabs /\ HasW(i))
Const(n, v) == [k \in 1..n |-> v]
Detection == /\ IsEv("Detection")
             /\ TRUE = (Ev.ok = ~ Refused)
             /\ TRUE = (Ev.ok => Ev.n = Len(Exts) /\ Ev.frames = Len(Exts) /\ Ev.ref = Cfg.hasref)
Image == /\ IsEv("Image")
         /\ TRUE = (LET i == Ev.i IN Ev.pix = DPix(i) /\ Ev.gain = DGain(i) /\ Ev.sat = DSat(i) /\ Ev.gap = DGap /\ Ev.flx = F4(i))
Weight == /\ IsEv("Weight")
          /\ TRUE = (LET i == Ev.i IN Ev.has = HasW(i) /\ Ev.pix = DWgt(i) /\ Ev.thr = DThr(i))
Frame == /\ IsEv("Frame")
         /\ TRUE = (LET i == Ev.i  f == Ev.f  m == Ev.m IN
              /\ m.se = Cfg.se
              /\ f.pix = DPix(i) /\ f.gain = DGain(i) /\ f.sat = DSat(i)
              /\ VarianceOk(HasW(i), Cfg.wabs, DWgt(i), DThr(i), m, f)
              /\ f.bg = (IF Cfg.bg = <<>> THEN m.level ELSE Const(Len(f.pix), Cfg.bg[1] * 64)) /\ f.rms = m.rms
              /\ (f.dt = -1 \/ Near(f.dt, Cfg.dt))
              /\ FilledOk(Exts[i].w, f, DGap)
              /\ f.label = "det" /\ f.hdu = i - 1 /\ f.mark = Exts[i].mark /\ f.wcs)
\* ---- the measurement images: those of the script, or the first detection image
Meas == Cfg.meas
BadImage(m) == \/ ~ m.exists
               \/ m.wtype \notin Types
               \/ m.wimg # (m.wtype \in NeedImage)
               \/ m.cube /\ m.layer >= Len(Cfg.cube.planes)
Fallback == Meas = <<>>
RefusedM == Refused \/ IF Fallback THEN Exts = <<>> ELSE \E i \in 1..Len(Meas) : BadImage(Meas[i])
MExt(m) == IF m.cube THEN Cfg.cube ELSE Cfg.det[m.ext]
MHas(i) == IF Fallback THEN HasW(1) ELSE Meas[i].wimg
MAbs(i) == IF Fallback THEN Cfg.wabs ELSE Meas[i].wabs
MPix(i) == IF Fallback THEN DPix(1) ELSE Pixels(MExt(Meas[i]).planes[Meas[i].layer + 1], Meas[i].f4)
MGain(i) == IF Fallback THEN DGain(1) ELSE Gain(Meas[i].g2, Meas[i].f4)
MSat(i) == IF Fallback THEN DSat(1) ELSE Saturation(Meas[i].s2, Meas[i].f4)
MWgt(i) == IF Fallback THEN DWgt(1) ELSE LET m == Meas[i] IN
  IF m.wimg THEN Variances((IF m.cube THEN Cfg.wcube ELSE Cfg.wgt[m.ext]).planes[m.wlayer + 1], m.wtype, m.ws2, m.f4, m.wabs) ELSE <<>>
MThr(i) == IF Fallback THEN DThr(1) ELSE LET m == Meas[i] IN Threshold(m.wtype, m.thr, m.f4, m.wabs /\ m.wimg)
MBg(i) == IF Fallback THEN <<>> ELSE Meas[i].bg
MWidth(i) == IF Fallback THEN Exts[1].w ELSE MExt(Meas[i]).w
MHdus(i) == IF Fallback THEN <<1, 1, 1>> ELSE <<Meas[i].hdu, Meas[i].phdu, Meas[i].whdu>>
MId(i) == IF Fallback THEN 0 ELSE Meas[i].id
MN == IF Fallback THEN 1 ELSE Len(Meas)
Measurement == /\ IsEv("Measurement")
               /\ TRUE = (Ev.ok = ~ RefusedM)
               /\ TRUE = (Ev.ok => Ev.n = MN /\ Ev.ids = [i \in 1..MN |-> MId(i)])
Info == /\ IsEv("Info")
        /\ TRUE = (LET i == Ev.i IN
             /\ Ev.id = MId(i) /\ Ev.pix = MPix(i) /\ Ev.gain = MGain(i) /\ Ev.sat = MSat(i)
             /\ Ev.has = MHas(i) /\ Ev.wpix = MWgt(i) /\ Ev.thr = MThr(i)
             /\ Ev.hdus = MHdus(i) /\ Ev.renorm = (IF Fallback THEN TRUE ELSE Meas[i].renorm) /\ Ev.wcs)
MFrame == /\ IsEv("MFrame")
          /\ TRUE = (LET i == Ev.i  f == Ev.f  m == Ev.m IN
               /\ m.se = Cfg.se
               /\ f.pix = MPix(i) /\ f.gain = MGain(i) /\ f.sat = MSat(i)
               /\ VarianceOk(MHas(i), MAbs(i), MWgt(i), MThr(i), m, f)
               /\ IF MBg(i) = <<>> THEN f.bg = m.level /\ f.rms = m.rms ELSE f.bg = Const(Len(f.pix), MBg(i)[1] * 64) /\ f.rms = 0
               /\ FilledOk(MWidth(i), f, 0)
               /\ f.label = (IF ~ Fallback /\ Meas[i].cube THEN "cube_" ELSE "det_") \o ToString(MHdus(i)[1]) /\ f.wcs)
TNext == \/ Detection \/ Image \/ Weight \/ Frame \/ Measurement \/ Info \/ MFrame \/ IsEv("End")
         \/ l > Len(Evs) /\ UNCHANGED <<c, l>>
TSpec == TInit /\ [][TNext]_<<c, l>>
=============================================================================
