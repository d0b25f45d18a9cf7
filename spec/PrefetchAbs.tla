---------------------------- MODULE PrefetchAbs ----------------------------
(* What the prefetching stage promises to its two neighbours, seen only     *)
(* through its interface: sources and process signals go in (fed), the same *)
(* sequence comes out (nout is the length of the delivered prefix), no      *)
(* source comes out before every requested property has been computed, at   *)
(* most MaxQueue accepted sources are inside, and synchronize/wait only      *)
(* return when nothing is left inside.                                      *)
EXTENDS Naturals, Sequences, FiniteSets

VARIABLES fed,       \* sequence of [k |-> "src" | "sig", id |-> Nat]
          comp,      \* set of <<id, property>> computed
          nout,      \* how many items of fed have been delivered
          accepted   \* how many feeding calls of sources have returned

avars == <<fed, comp, nout, accepted>>

Sources(s) == {i \in 1..Len(s) : s[i].k = "src"}
NSrc(s) == Cardinality(Sources(s))
Delivered == SubSeq(fed, 1, nout)

AInit == fed = <<>> /\ comp = {} /\ nout = 0 /\ accepted = 0

AFeed(id) == /\ \A i \in Sources(fed) : fed[i].id # id
             /\ fed' = Append(fed, [k |-> "src", id |-> id])
             /\ UNCHANGED <<comp, nout, accepted>>

\* the call that fed the source returns to the producer
AAccept(maxq) == /\ accepted < NSrc(fed)
                 /\ accepted + 1 <= maxq + NSrc(Delivered)
                 /\ accepted' = accepted + 1
                 /\ UNCHANGED <<fed, comp, nout>>

ASignal(id) == /\ fed' = Append(fed, [k |-> "sig", id |-> id])
               /\ UNCHANGED <<comp, nout, accepted>>

\* a property is computed at most once, and only for a source that is inside
ACompute(id, p) == /\ \E i \in Sources(fed) : i > nout /\ fed[i].id = id
                   /\ <<id, p>> \notin comp
                   /\ comp' = comp \cup {<<id, p>>}
                   /\ UNCHANGED <<fed, nout, accepted>>

ADeliver(k, id, props) ==
  /\ nout < Len(fed)
  /\ fed[nout + 1] = [k |-> k, id |-> id]
  /\ k = "src" => \A p \in props : <<id, p>> \in comp
  /\ nout' = nout + 1
  /\ UNCHANGED <<fed, comp, accepted>>

\* synchronize() or wait() returns
ADrained == nout = Len(fed) /\ accepted = NSrc(fed) /\ UNCHANGED avars
=============================================================================
