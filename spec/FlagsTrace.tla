----------------------------- MODULE FlagsTrace -----------------------------
EXTENDS Flags, TLC, Json, IOUtils
VARIABLES c, l, acc
Cases == ndJsonDeserialize(IOEnv.TRACE)
Evs == Cases[c].ev
Ev == Evs[l]
Cfg == Cases[c].cfg
IsEv(e) == l <= Len(Evs) /\ Ev.e = e /\ l' = l + 1 /\ c' = c
TInit == l = 1 /\ c \in 1..Len(Cases) /\ acc = {}
F(i) == [w |-> Cfg.dims[i][1], h |-> Cfg.dims[i][2], sat |-> Cfg.sats[i], kind |-> Cfg.kinds[i], rect |-> Cfg.rects[i], px |-> Cfg.pixels[i]]
AtPix == [i \in 1..Len(Cfg.pix) |-> Cfg.fval[Cfg.hdu + 1][Cfg.pix[i][2] * Cfg.fw + Cfg.pix[i][1] + 1]]
Printed == /\ Ev.ok /\ Ev.n = Ev.v /\ Len(Ev.p) = Cardinality(Bits(Ev.v)) /\ Ran(Ev.p) = Words(Bits(Ev.v)) /\ UNCHANGED acc
Op == /\ Bits(Ev["or"]) = Bits(Ev.a) \cup Bits(Ev.b) /\ Bits(Ev["and"]) = Bits(Ev.a) \cap Bits(Ev.b)
      /\ acc' = acc \cup (IF Ev.t THEN Bits(Ev.a) ELSE {}) /\ Bits(Ev.acc) = acc'
      /\ Ev.list = <<Ev.a, Ev.b, Ev["or"]>>
TNext == \/ IsEv("Print") /\ Printed
         \/ IsEv("Op") /\ Op
         \/ IsEv("Boundary") /\ Ev.v = AtBorder(F(Ev.f)) /\ UNCHANGED acc
         \/ IsEv("Saturate") /\ Ev.v = Saturated(F(Ev.f)) /\ UNCHANGED acc
         \/ IsEv("Flags") /\ Len(Ev.v) = Len(Cfg.groups) /\ (\A g \in 1..Len(Ev.v) : Bits(Ev.v[g]) = OfGroup({F(i) : i \in Ran(Cfg.groups[g])}, Cfg.split)) /\ UNCHANGED acc
         \/ IsEv("Ext") /\ (IF Cfg.fw # Cfg.dw \/ Cfg.fh # Cfg.dh THEN Ev.threw ELSE ~Ev.threw /\ Ext(Ev.type, AtPix, Ev.flag, Ev.count)) /\ UNCHANGED acc
         \/ IsEv("End") /\ UNCHANGED acc
         \/ l > Len(Evs) /\ UNCHANGED <<c, l, acc>>
TSpec == TInit /\ [][TNext]_<<c, l, acc>>
=============================================================================
