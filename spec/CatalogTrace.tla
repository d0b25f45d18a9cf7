---------------------------- MODULE CatalogTrace ----------------------------
EXTENDS Catalog, Json, IOUtils
VARIABLES c, l, cols, al, st
\* cols[p]: the columns of a property; al: the aliases; st: the state of the file
Cases == ndJsonDeserialize(IOEnv.TRACE)
Evs == Cases[c].ev
Ev == Evs[l]
Cfg == Cases[c].cfg
IsEv(e) == l <= Len(Evs) /\ Ev.e = e /\ l' = l + 1 /\ c' = c
TInit == /\ l = 1 /\ c \in 1..Len(Cases) /\ cols = [p \in 1..4 |-> <<>>] /\ al = <<>>
         /\ st = [reg |-> {}, lack |-> FALSE, cs |-> <<>>, pending |-> <<>>, part |-> 0, total |-> 0, made |-> FALSE, head |-> FALSE, frame |-> [gain |-> 0, rms |-> 0, meta |-> <<>>]]
Col == cols' = [cols EXCEPT ![Ev.p] = Append(@, [name |-> Ev.name, p |-> Ev.p, c |-> Ev.c, ix |-> 0, t |-> Ev.t, unit |-> Ev.unit, desc |-> Ev.desc])] /\ st' = [st EXCEPT !.reg = @ \cup {Ev.p}] /\ UNCHANGED al
Enable == /\ Ev.refused = (Ev.p \notin st.reg /\ ~Ev.conf)
          /\ al' = (IF Ev.refused THEN al ELSE Append(al, <<Ev.alias, Ev.p>>)) /\ UNCHANGED <<cols, st>>
Names == {Ev.names[i] : i \in 1..Len(Ev.names)} = {al[i][1] : i \in 1..Len(al)}
Inst == cols' = [cols EXCEPT ![Ev.p] = Instances(@, Ev.post, Ev.ix)] /\ UNCHANGED <<al, st>>
InstNamed == cols' = [cols EXCEPT ![Ev.p] = InstancesOf(@, Ev.name, Ev.names, Ev.ix)] /\ UNCHANGED <<al, st>>
Known == \A i \in 1..Len(Ev.want) : \E k \in 1..Len(al) : al[k][1] = Ev.want[i]
Create == /\ Ev.refused = (IF Ev.bad THEN "format" ELSE IF ~Known THEN "property" ELSE "no")
          /\ st' = [st EXCEPT !.cs = Columns(cols, al, Ev.want), !.lack = \E i \in 1..Len(Properties(al, Ev.want, <<>>)) : Properties(al, Ev.want, <<>>)[i] \notin st.reg] /\ UNCHANGED <<cols, al>>
\* the file
PartName(base) == IF st.part = 0 THEN base ELSE base \o "_" \o ToString(st.part)
Hdu == IF Cfg.fmt = 0 THEN "" ELSE IF Cfg.fmt = 1 THEN PartName("CATALOG") ELSE PartName("LDAC_OBJECTS")
\* the values of the header: those of the image, the gain and the noise, and the end
HeadOk(cards) ==
  LET own == [i \in 1..Len(st.frame.meta) |-> st.frame.meta[i]]
      n == Len(own)
      Cut(a, b) == a = b \/ b = "x" IN
  /\ Len(cards) > n + 2 /\ cards[Len(cards)].k = "END" /\ cards[Len(cards)].v = "END"
  /\ \A i \in 1..n : cards[i].k = own[i].k /\ cards[i].v = own[i].v /\ Cut(cards[i].c, own[i].c)
  /\ cards[n + 1].k = "SPPGAIN" /\ cards[n + 1].v = ToString(st.frame.gain) /\ cards[n + 2].k = "SPPBKDEV" /\ cards[n + 2].v = ToString(st.frame.rms)
  /\ \A i \in (n + 3)..(Len(cards) - 1) : cards[i].k = "HISTORY"
\* one write: a header (before the first row of a part, LDAC only), or the next of the pending rows
WriteOk(s, w) ==
  LET first == (Cfg.fmt # 0) => (w.create = ~s.made) IN
  /\ first /\ w.whole /\ w.file = (IF Cfg.named THEN "out" ELSE "-")
  /\ IF Cfg.fmt = 2 /\ ~s.head THEN w.h = PartName("LDAC_IMHEAD") /\ HeadOk(w.cards)
     ELSE /\ w.h = Hdu /\ w.cols = Described(s.cs) /\ Len(w.rows) > 0 /\ Len(w.rows) <= Len(s.pending)
          /\ \A i \in 1..Len(w.rows) : w.rows[i] = RowOf(s.cs, s.pending[i])
AfterWrite(s, w) == IF Cfg.fmt = 2 /\ ~s.head THEN [s EXCEPT !.head = TRUE, !.made = TRUE]
                    ELSE [s EXCEPT !.made = TRUE, !.pending = SubSeq(@, Len(w.rows) + 1, Len(@)), !.total = @ + Len(w.rows)]
RECURSIVE Writes(_, _)
\* the state after the writes, made = "bad" if one is wrong
Writes(s, ws) == IF ws = <<>> THEN <<TRUE, s>> ELSE IF ~WriteOk(s, Head(ws)) THEN <<FALSE, s>> ELSE Writes(AfterWrite(s, Head(ws)), Tail(ws))
Output == LET r == TLCEval(Writes([st EXCEPT !.pending = @ \o Ev.tags], Ev.writes)) IN
          /\ r[1]
          \* a configuration that gives no column, or asks for a property that has none registered, cannot output anything
          /\ Ev.threw = ((st.lack \/ st.cs = <<>>) /\ Ev.tags # <<>>)
          /\ (Cfg.flush > 0 /\ ~Ev.threw => Len(r[2].pending) < Cfg.flush) /\ (Cfg.flush <= 0 => r[2].total = st.total)
          /\ st' = r[2] /\ UNCHANGED <<cols, al>>
Flush == LET r == TLCEval(Writes(st, Ev.writes)) IN
         /\ r[1] /\ r[2].pending = <<>> /\ Ev.total = r[2].total /\ st' = r[2] /\ UNCHANGED <<cols, al>>
NextPart == /\ Ev.writes = <<>> /\ st' = [st EXCEPT !.part = @ + 1, !.head = FALSE] /\ UNCHANGED <<cols, al>>
Same == UNCHANGED <<cols, al, st>>
TNext == \/ IsEv("Col") /\ Col
         \/ IsEv("Enable") /\ Enable
         \/ IsEv("Names") /\ Names /\ Same
         \/ IsEv("Inst") /\ Inst
         \/ IsEv("InstNamed") /\ InstNamed
         \/ IsEv("Create") /\ Create
         \/ IsEv("Frame") /\ st' = [st EXCEPT !.frame = [gain |-> Ev.gain, rms |-> Ev.rms, meta |-> Ev.meta]] /\ UNCHANGED <<cols, al>>
         \/ IsEv("Output") /\ Output
         \/ IsEv("Flush") /\ Flush
         \/ IsEv("Next") /\ NextPart
         \/ IsEv("End") /\ Same
         \/ l > Len(Evs) /\ UNCHANGED <<c, l>> /\ Same
TSpec == TInit /\ [][TNext]_<<c, l, cols, al, st>>
=============================================================================
