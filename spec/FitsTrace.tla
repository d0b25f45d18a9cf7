------------------------------ MODULE FitsTrace ------------------------------
(* Histories over FITS files: what is opened, read, written, appended and annotated through image sources, against the
   contents of the files. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES c, l, files, srcs
\* files: per file the sequence of its HDUs and the sections of its .head file; srcs: open sources [f, hdu, type, layer]
Cases == ndJsonDeserialize(IOEnv.TRACE)
Evs == Cases[c].ev
Ev == Evs[l]
IsEv(e) == l <= Len(Evs) /\ Ev.e = e /\ l' = l + 1 /\ c' = c
TInit == l = 1 /\ c \in 1..Len(Cases) /\ srcs = <<>> /\ files = [f \in 1..Cases[c].cfg.files |-> [hdus |-> <<>>, head |-> <<>>]]
Same == UNCHANGED <<files, srcs>>
\* ---- the contents of a file
IsImage(h) == h.kind = "image"
ImagesOf(f) == {i \in 1..Len(files[f].hdus) : IsImage(files[f].hdus[i])}
FirstOf(S) == CHOOSE x \in S : \A y \in S : x <= y
\* the HDU a file opens at: the first array, which is of no use if it has one dimension only
Default(f) == LET arrays == {i \in 1..Len(files[f].hdus) : files[f].hdus[i].kind \in {"image", "line"}} IN IF arrays = {} THEN 0 ELSE FirstOf(arrays)
\* the header of an HDU: its cards, overridden by the section of the .head file that corresponds to it
AsSet(q) == {q[i] : i \in 1..Len(q)}
Nth(f, i) == Cardinality({j \in ImagesOf(f) : j <= i})
Section(f, i) == IF i \in ImagesOf(f) /\ Nth(f, i) <= Len(files[f].head) THEN AsSet(files[f].head[Nth(f, i)]) ELSE {}
Header(f, i) == LET over == Section(f, i) IN over \cup {k \in AsSet(files[f].hdus[i].cards) : \A o \in over : o.k # k.k}
Depth(h) == IF h.d = 0 THEN 1 ELSE h.d
Type(h, as) == IF as = "auto" THEN h.type ELSE as
\* ---- the steps
Opened(f, i, as) == LET h == files[f].hdus[i] IN
  [ok |-> TRUE, hdu |-> i, w |-> h.w, h |-> h.h, d |-> Depth(h), type |-> Type(h, as)]
Open == /\ IsEv("Open")
        /\ LET f == Ev.f  im == ImagesOf(f)
               i == IF Ev.hdu = 0 THEN Default(f) ELSE Ev.hdu IN
             IF i \in im THEN /\ TRUE = (Ev.got = Opened(f, i, Ev.as))
                              /\ srcs' = Append(srcs, [f |-> f, hdu |-> i, layer |-> 0])
                         ELSE TRUE = (Ev.got = [ok |-> FALSE]) /\ srcs' = srcs
        /\ files' = files
\* an image added at the end of a file; an empty primary HDU goes first when there is no image yet
Blank(w, h, t) == [kind |-> "image", type |-> t, w |-> w, h |-> h, d |-> 0, pix |-> <<[k \in 1..w * h |-> 0]>>, cards |-> <<>>]
Empty == [kind |-> "empty", type |-> "none", w |-> 0, h |-> 0, d |-> 0, pix |-> <<>>, cards |-> <<>>]
New == /\ IsEv("New") /\ Ev.ok
       /\ LET old == IF Ev.append THEN files[Ev.f].hdus ELSE <<>>
              pre == IF Ev.empty /\ (\A i \in 1..Len(old) : ~ IsImage(old[i])) THEN Append(old, Empty) ELSE old
              now == Append(pre, Blank(Ev.w, Ev.h, Ev.type)) IN
            /\ Ev.hdu = Len(now)
            /\ files' = [files EXCEPT ![Ev.f].hdus = now]
            /\ srcs' = Append(srcs, [f |-> Ev.f, hdu |-> Len(now), layer |-> 0])
Write == /\ IsEv("Write") /\ Ev.ok
         /\ files' = [files EXCEPT ![Ev.f].hdus = Append(@, [Blank(Ev.w, Ev.h, Ev.type) EXCEPT !.pix = <<Ev.pix>>])]
         /\ srcs' = srcs
ReadBack == /\ IsEv("ReadBack")
            /\ LET i == Default(Ev.f)  h == files[Ev.f].hdus[i] IN
                 TRUE = (Ev.got = IF i \in ImagesOf(Ev.f) THEN [ok |-> TRUE, w |-> h.w, h |-> h.h, pix |-> h.pix[1]]
                                                        ELSE [ok |-> FALSE, w |-> 0, h |-> 0, pix |-> <<>>])
            /\ Same
S == srcs[Ev.s]
H == files[S.f].hdus[S.hdu]
Layer == /\ IsEv("Layer")
         /\ LET in == Ev.l >= 0 /\ Ev.l < Depth(H) IN
              Ev.ok = in /\ srcs' = IF in THEN [srcs EXCEPT ![Ev.s].layer = Ev.l] ELSE srcs
         /\ files' = files
\* pixel k of the window (x, y, w, h) is this pixel of the image
At(k) == (Ev.y + (k - 1) \div Ev.w) * H.w + Ev.x + ((k - 1) % Ev.w) + 1
Read == /\ IsEv("Read") /\ Ev.ok
        /\ TRUE = (Ev.pix = [k \in 1..Ev.w * Ev.h |-> H.pix[S.layer + 1][At(k)]])
        /\ Same
Save == /\ IsEv("Save") /\ Ev.ok
        /\ files' = [files EXCEPT ![S.f].hdus[S.hdu].pix[1] =
             TLCEval([p \in 1..H.w * H.h |-> LET x == (p - 1) % H.w  y == (p - 1) \div H.w IN
               IF x >= Ev.x /\ x < Ev.x + Ev.w /\ y >= Ev.y /\ y < Ev.y + Ev.h THEN Ev.pix[(y - Ev.y) * Ev.w + (x - Ev.x) + 1] ELSE @[p]])]
        /\ srcs' = srcs
Meta == IsEv("Meta") /\ Ev.ok /\ TRUE = (AsSet(Ev.meta) = Header(S.f, S.hdu) /\ Len(Ev.meta) = Cardinality(Header(S.f, S.hdu))) /\ Same
Others(q, k) == SelectSeq(q, LAMBDA x : x.k # k)
SetMeta == /\ IsEv("SetMeta") /\ Ev.ok
           /\ files' = [files EXCEPT ![S.f].hdus[S.hdu].cards = Append(Others(@, Ev.card.k), Ev.card)]
           /\ srcs' = srcs
\* what is in the file in the end
Match(a, b) == a.kind = b.kind /\ a.type = b.type /\ a.w = b.w /\ a.h = b.h /\ a.d = b.d /\ a.pix = b.pix
               /\ AsSet(a.cards) = AsSet(b.cards) /\ Len(a.cards) = Len(b.cards)
Dump == /\ IsEv("Dump")
        /\ TRUE = (Len(Ev.hdus) = Len(files[Ev.f].hdus) /\ \A i \in 1..Len(Ev.hdus) : Match(Ev.hdus[i], files[Ev.f].hdus[i]))
        /\ Same
File == IsEv("File") /\ files' = [files EXCEPT ![Ev.f] = [hdus |-> Ev.hdus, head |-> Ev.head]] /\ srcs' = srcs
TNext == \/ File \/ Open \/ New \/ Write \/ ReadBack \/ Layer \/ Read \/ Save \/ Meta \/ SetMeta \/ Dump
         \/ IsEv("End") /\ Same
         \/ l > Len(Evs) /\ UNCHANGED <<c, l, files, srcs>>
TSpec == TInit /\ [][TNext]_<<c, l, files, srcs>>
=============================================================================
