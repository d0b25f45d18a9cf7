---------------------------- MODULE ImagesTrace ----------------------------
(* Everything read from a composed image is what its definition gives for the pixels the bases have at that moment. *)
EXTENDS Images, Json, IOUtils
VARIABLES c, l, b, ex
Cases == ndJsonDeserialize(IOEnv.TRACE)
Evs == Cases[c].ev
Ev == Evs[l]
IsEv(e) == l <= Len(Evs) /\ Ev.e = e /\ l' = l + 1 /\ c' = c
TInit == l = 1 /\ c \in 1..Len(Cases) /\ b = Cases[c].cfg.base /\ ex = <<>>
TNext == \/ IsEv("New") /\ ex' = Append(ex, Ev.x) /\ Ev.w = W(Ev.x) /\ Ev.h = H(Ev.x) /\ b' = b
         \/ IsEv("Rect") /\ Ev.v = Rect(b, ex[Ev.x], Ev.at[1], Ev.at[2], Ev.at[3], Ev.at[4]) /\ UNCHANGED <<b, ex>>
         \/ IsEv("Pix") /\ Ev.v = Pix(b, ex[Ev.x], Ev.at[1], Ev.at[2]) /\ UNCHANGED <<b, ex>>
         \/ IsEv("Set") /\ b' = [b EXCEPT ![Ev.b][Ev.k] = Ev.v] /\ ex' = ex
         \/ IsEv("Copy") /\ b' = Append(b, Rect(b, ex[Ev.x], 0, 0, W(ex[Ev.x]), H(ex[Ev.x]))) /\ ex' = ex
         \/ IsEv("Base") /\ Ev.v = b[Ev.b] /\ UNCHANGED <<b, ex>>
         \/ IsEv("End") /\ UNCHANGED <<b, ex>>
         \/ l > Len(Evs) /\ UNCHANGED <<c, l, b, ex>>
TSpec == TInit /\ [][TNext]_<<c, l, b, ex>>
=============================================================================
