----------------------------- MODULE Prefetch -----------------------------
(* The design of the prefetching stage, one action per critical section:     *)
(* a producer thread that acquires a semaphore slot, queues the source by     *)
(* its address and submits it to the pool; pool workers; an output thread     *)
(* that releases the queue in order and gives up the lock while it sends.     *)
(* Addresses are reused: the next stage may free a source as soon as it has   *)
(* received it, even before the call that delivered it has returned.          *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Workers, NSources, SignalAfter, MaxQueue, Addrs, EraseBeforeSend

NONE == 0
Item(k, i) == [k |-> k, id |-> i]
\* the producer's input: source i, followed by a signal if i \in SignalAfter
RECURSIVE InputFrom(_)
InputFrom(i) == IF i > NSources THEN <<>>
                ELSE <<Item("src", i)>> \o (IF i \in SignalAfter THEN <<Item("sig", i)>> ELSE <<>>) \o InputFrom(i + 1)

VARIABLES todo, ppc, sem, recv, pool, work, fin, addr, live, opc, fed, comp, nout, accepted, stop, done
vars == <<todo, ppc, sem, recv, pool, work, fin, addr, live, opc, fed, comp, nout, accepted, stop, done>>

Abs == INSTANCE PrefetchAbs

Init == /\ todo = InputFrom(1) /\ ppc = "idle" /\ sem = MaxQueue /\ recv = <<>> /\ pool = <<>>
        /\ work = [w \in Workers |-> NONE] /\ fin = {} /\ addr = [i \in 1..NSources |-> NONE] /\ live = {}
        /\ opc = "idle" /\ fed = <<>> /\ comp = {} /\ nout = 0 /\ accepted = 0 /\ stop = FALSE /\ done = FALSE

AddrsInUse == {addr[i] : i \in live}
FinAddrs == {f[1] : f \in fin}

\* receiveSource is called: the source exists at some address nobody uses
CallFeed == /\ ppc = "idle" /\ todo # <<>> /\ Head(todo).k = "src"
            /\ \E a \in Addrs \ AddrsInUse :
                 /\ addr' = [addr EXCEPT ![Head(todo).id] = a]
                 /\ live' = live \cup {Head(todo).id}
            /\ fed' = Append(fed, Head(todo)) /\ ppc' = "acquire"
            /\ UNCHANGED <<todo, sem, recv, pool, work, fin, opc, comp, nout, accepted, stop, done>>
Acquire == /\ ppc = "acquire" /\ sem > 0 /\ sem' = sem - 1 /\ ppc' = "push"
           /\ UNCHANGED <<todo, recv, pool, work, fin, addr, live, opc, fed, comp, nout, accepted, stop, done>>
Push == /\ ppc = "push" /\ recv' = Append(recv, Head(todo)) /\ ppc' = "submit"
        /\ UNCHANGED <<todo, sem, pool, work, fin, addr, live, opc, fed, comp, nout, accepted, stop, done>>
Submit == /\ ppc = "submit" /\ pool' = Append(pool, Head(todo).id) /\ ppc' = "ret"
          /\ UNCHANGED <<todo, sem, recv, work, fin, addr, live, opc, fed, comp, nout, accepted, stop, done>>
Return == /\ ppc = "ret" /\ todo' = Tail(todo) /\ ppc' = "idle" /\ accepted' = accepted + 1
          /\ UNCHANGED <<sem, recv, pool, work, fin, addr, live, opc, fed, comp, nout, stop, done>>
Signal == /\ ppc = "idle" /\ todo # <<>> /\ Head(todo).k = "sig"
          /\ fed' = Append(fed, Head(todo)) /\ recv' = Append(recv, Head(todo)) /\ todo' = Tail(todo)
          /\ UNCHANGED <<ppc, sem, pool, work, fin, addr, live, opc, comp, nout, accepted, stop, done>>

Take(w) == /\ work[w] = NONE /\ pool # <<>> /\ work' = [work EXCEPT ![w] = Head(pool)] /\ pool' = Tail(pool)
           /\ UNCHANGED <<todo, ppc, sem, recv, fin, addr, live, opc, fed, comp, nout, accepted, stop, done>>
Compute(w) == /\ work[w] # NONE /\ <<work[w], 0>> \notin comp /\ comp' = comp \cup {<<work[w], 0>>}
              /\ UNCHANGED <<todo, ppc, sem, recv, pool, work, fin, addr, live, opc, fed, nout, accepted, stop, done>>
\* map::emplace does nothing when the key is already there
Finish(w) == /\ work[w] # NONE /\ <<work[w], 0>> \in comp
             /\ fin' = IF addr[work[w]] \in FinAddrs THEN fin ELSE fin \cup {<<addr[work[w]], work[w]>>}
             /\ work' = [work EXCEPT ![w] = NONE]
             /\ UNCHANGED <<todo, ppc, sem, recv, pool, addr, live, opc, fed, comp, nout, accepted, stop, done>>

\* the output thread takes the lock, looks at the front and delivers with the lock released
SendSignal == /\ opc = "idle" /\ recv # <<>> /\ Head(recv).k = "sig" /\ nout' = nout + 1 /\ opc' = "sentsig"
              /\ UNCHANGED <<todo, ppc, sem, recv, pool, work, fin, addr, live, fed, comp, accepted, stop, done>>
SendSource == /\ opc = "idle" /\ recv # <<>> /\ Head(recv).k = "src"
              /\ \E f \in fin :
                   /\ f[1] = addr[Head(recv).id]
                   /\ fin' = IF EraseBeforeSend THEN fin \ {f} ELSE fin
              /\ nout' = nout + 1 /\ opc' = "sentsrc"
              /\ UNCHANGED <<todo, ppc, sem, recv, pool, work, addr, live, fed, comp, accepted, stop, done>>
AfterSignal == /\ opc = "sentsig" /\ recv' = Tail(recv) /\ opc' = "idle"
               /\ UNCHANGED <<todo, ppc, sem, pool, work, fin, addr, live, fed, comp, nout, accepted, stop, done>>
AfterSource == /\ opc = "sentsrc" /\ recv' = Tail(recv) /\ opc' = "idle" /\ sem' = sem + 1
               /\ fin' = IF EraseBeforeSend THEN fin ELSE {f \in fin : f[1] # addr[Head(recv).id]}
               /\ UNCHANGED <<todo, ppc, pool, work, addr, live, fed, comp, nout, accepted, stop, done>>

\* the next stage frees a source it has received
Free(i) == /\ i \in live /\ \E n \in 1..nout : fed[n] = Item("src", i)
           /\ live' = live \ {i}
           /\ UNCHANGED <<todo, ppc, sem, recv, pool, work, fin, addr, opc, fed, comp, nout, accepted, stop, done>>

Wait == /\ ppc = "idle" /\ todo = <<>> /\ ~stop /\ stop' = TRUE
        /\ UNCHANGED <<todo, ppc, sem, recv, pool, work, fin, addr, live, opc, fed, comp, nout, accepted, done>>
Join == /\ stop /\ ~done /\ opc = "idle" /\ recv = <<>> /\ done' = TRUE
        /\ UNCHANGED <<todo, ppc, sem, recv, pool, work, fin, addr, live, opc, fed, comp, nout, accepted, stop>>
Finished == done /\ UNCHANGED vars

Producer == CallFeed \/ Acquire \/ Push \/ Submit \/ Return \/ Signal \/ Wait \/ Join
Worker(w) == Take(w) \/ Compute(w) \/ Finish(w)
Output == SendSignal \/ SendSource \/ AfterSignal \/ AfterSource
Next == Producer \/ Output \/ (\E w \in Workers : Worker(w)) \/ (\E i \in 1..NSources : Free(i)) \/ Finished

Spec == Init /\ [][Next]_vars /\ WF_vars(Producer) /\ WF_vars(Output) /\ \A w \in Workers : WF_vars(Worker(w))

----------------------------------------------------------------------------
\* Refinement: every step of the design is a step of the interface, or invisible
AbsNext == \/ \E i \in 1..NSources : Abs!AFeed(i) \/ Abs!ASignal(i) \/ Abs!ACompute(i, 0)
           \/ Abs!AAccept(MaxQueue)
           \/ \E i \in 1..NSources : Abs!ADeliver("src", i, {0}) \/ Abs!ADeliver("sig", i, {0})
Refines == [][AbsNext]_<<fed, comp, nout, accepted>>

NothingLost == done => nout = NSources + Cardinality(SignalAfter)
Bounded == Cardinality({i \in 1..Len(recv) : recv[i].k = "src"}) <= MaxQueue
InOrder == \A n \in 1..nout : fed[n] = InputFrom(1)[n]
EventuallyDone == <>done
=============================================================================
