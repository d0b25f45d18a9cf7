----------------------------- MODULE TileTrace -----------------------------
(* Images behind the tile cache are registers: a read returns the last finished write to the pixel or one going on, a pixel
   never written has the file's value, a flush brings the file up to date, and the tiles in memory stay below the limit plus
   the tile just loaded (plus those in the hands of other threads). *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES c, l, val, wr, rd, tile
tvars == <<c, l, val, wr, rd, tile>>
\* val: <<image, x, y>> -> value; wr: pending writes, op -> [p, v]; rd: pending reads, op -> [p, may]
Cases == ndJsonDeserialize(IOEnv.TRACE)
Evs == Cases[c].ev
Ev == Evs[l]
Cfg == Cases[c].cfg
IsEv(e) == l <= Len(Evs) /\ Ev.e = e /\ l' = l + 1 /\ c' = c
TInit == l = 1 /\ c \in 1..Len(Cases) /\ val = <<>> /\ wr = <<>> /\ rd = <<>> /\ tile = Cases[c].cfg.tile
At(i, x, y) == IF <<i, x, y>> \in DOMAIN val THEN val[<<i, x, y>>]
               ELSE IF Cfg.img[i].orig = 0 THEN 0 ELSE Cfg.img[i].orig + y * Cfg.img[i].w + x
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
P == <<Ev.i, Ev.x, Ev.y>>
InMemory == Ev.live <= Cfg.limit + tile
TNext == \/ IsEv("Write") /\ val' = Put(val, P, Ev.v) /\ UNCHANGED <<wr, rd, tile>>
         \/ IsEv("Read") /\ Ev.v = At(Ev.i, Ev.x, Ev.y) /\ InMemory /\ UNCHANGED <<val, wr, rd, tile>>
         \/ IsEv("Rect") /\ InMemory /\ Len(Ev.v) = Ev.w * Ev.h
                         /\ (\A k \in 1..Len(Ev.v) : Ev.v[k] = At(Ev.i, Ev.x + ((k - 1) % Ev.w), Ev.y + ((k - 1) \div Ev.w))) /\ UNCHANGED <<val, wr, rd, tile>>
         \/ IsEv("File") /\ (\A k \in 1..Len(Ev.p) : Ev.v[k] = At(Ev.i, Ev.p[k][1], Ev.p[k][2])) /\ UNCHANGED <<val, wr, rd, tile>>
         \/ IsEv("Options") /\ tile' = Ev.tile /\ UNCHANGED <<val, wr, rd>>
         \/ IsEv("WS") /\ wr' = Put(wr, Ev.o, [p |-> P, v |-> Ev.v]) /\ UNCHANGED <<val, tile>>
                       /\ rd' = [o \in DOMAIN rd |-> IF rd[o].p = P THEN [rd[o] EXCEPT !.may = @ \cup {Ev.v}] ELSE rd[o]]
         \/ IsEv("WE") /\ val' = Put(val, wr[Ev.o].p, wr[Ev.o].v) /\ wr' = Drop(wr, Ev.o) /\ InMemory /\ UNCHANGED <<rd, tile>>
         \/ IsEv("RS") /\ rd' = Put(rd, Ev.o, [p |-> P, may |-> {At(Ev.i, Ev.x, Ev.y)} \cup {wr[o].v : o \in {o \in DOMAIN wr : wr[o].p = P}}])
                       /\ UNCHANGED <<val, wr, tile>>
         \/ IsEv("RE") /\ Ev.v \in rd[Ev.o].may /\ rd' = Drop(rd, Ev.o) /\ UNCHANGED <<val, wr, tile>>
         \/ IsEv("End") /\ Ev.what = "" /\ wr = <<>> /\ rd = <<>> /\ UNCHANGED <<val, wr, rd, tile>>
         \/ l > Len(Evs) /\ UNCHANGED tvars
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
