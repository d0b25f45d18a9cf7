---------------------------- MODULE Measurement ----------------------------
(* The design of the measurement stage: the thread that hands groups over,   *)
(* the pool (a queue and workers that flag themselves as sleeping while they  *)
(* poll), the output queue with its lock, and the output thread with its      *)
(* termination test. CheckOrder says in which order that test reads the two   *)
(* counters of the pool. With IdleWakes an idle worker also wakes up for nothing  *)
(* (timing then has to make the quiet moment happen: no liveness is claimed).  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Workers, NGroups, CheckOrder, IdleWakes, SyncAfter   \* groups after which the producer synchronizes
NONE == 0
VARIABLES next, ppc, pool, job, asleep, lock, oq, opc, ocount, inputDone, out, done
vars == <<next, ppc, pool, job, asleep, lock, oq, opc, ocount, inputDone, out, done>>

Init == /\ next = 1 /\ ppc = "put" /\ pool = <<>> /\ job = [w \in Workers |-> NONE]
        /\ asleep = [w \in Workers |-> FALSE] /\ lock = "free" /\ oq = <<>> /\ opc = "top" /\ ocount = 0
        /\ inputDone = FALSE /\ out = {} /\ done = FALSE

\* --- the producer: submit; synchronize = block, then poll the output queue; stop = flag, block, join
Submit == /\ ppc = "put" /\ next <= NGroups
          /\ pool' = Append(pool, next) /\ next' = next + 1
          /\ ppc' = IF next \in SyncAfter THEN "sblock1" ELSE "put"
          /\ UNCHANGED <<job, asleep, lock, oq, opc, ocount, inputDone, out, done>>
Stop == /\ ppc = "put" /\ next > NGroups /\ inputDone' = TRUE /\ ppc' = "block1"
        /\ UNCHANGED <<next, pool, job, asleep, lock, oq, opc, ocount, out, done>>
Block1 == /\ ppc \in {"block1", "sblock1"} /\ pool = <<>>
          /\ ppc' = IF ppc = "block1" THEN "block2" ELSE "sblock2"
          /\ UNCHANGED <<next, pool, job, asleep, lock, oq, opc, ocount, inputDone, out, done>>
Block2 == /\ ppc \in {"block2", "sblock2"} /\ \A w \in Workers : asleep[w]
          /\ ppc' = IF ppc = "block2" THEN "join" ELSE "sempty"
          /\ UNCHANGED <<next, pool, job, asleep, lock, oq, opc, ocount, inputDone, out, done>>
SyncEmpty == /\ ppc = "sempty" /\ lock = "free" /\ oq = <<>> /\ ppc' = "synced"
             /\ UNCHANGED <<next, pool, job, asleep, lock, oq, opc, ocount, inputDone, out, done>>
Synced == /\ ppc = "synced" /\ ppc' = "put"
          /\ UNCHANGED <<next, pool, job, asleep, lock, oq, opc, ocount, inputDone, out, done>>
Join == /\ ppc = "join" /\ opc = "exit" /\ ppc' = "stopped" /\ done' = TRUE
        /\ UNCHANGED <<next, pool, job, asleep, lock, oq, opc, ocount, inputDone, out>>

\* --- the workers
Wake(w) == /\ asleep[w] /\ (IdleWakes \/ pool # <<>>) /\ asleep' = [asleep EXCEPT ![w] = FALSE]
           /\ UNCHANGED <<next, ppc, pool, job, lock, oq, opc, ocount, inputDone, out, done>>
Sleep(w) == /\ ~asleep[w] /\ job[w] = NONE /\ pool = <<>> /\ asleep' = [asleep EXCEPT ![w] = TRUE]
            /\ UNCHANGED <<next, ppc, pool, job, lock, oq, opc, ocount, inputDone, out, done>>
Pop(w) == /\ ~asleep[w] /\ job[w] = NONE /\ pool # <<>>
          /\ job' = [job EXCEPT ![w] = Head(pool)] /\ pool' = Tail(pool)
          /\ UNCHANGED <<next, ppc, asleep, lock, oq, opc, ocount, inputDone, out, done>>
Push(w) == /\ job[w] # NONE /\ lock = "free"
           /\ oq' = Append(oq, job[w]) /\ job' = [job EXCEPT ![w] = NONE]
           /\ UNCHANGED <<next, ppc, pool, asleep, lock, opc, ocount, inputDone, out, done>>

\* --- the output thread
Running == Cardinality({w \in Workers : ~asleep[w]})
OLock == /\ opc = "top" /\ lock = "free" /\ lock' = "out" /\ opc' = IF oq = <<>> THEN "wait" ELSE "drain"
         /\ UNCHANGED <<next, ppc, pool, job, asleep, oq, ocount, inputDone, out, done>>
OWait == /\ opc = "wait" /\ lock' = "free" /\ opc' = "waiting"
         /\ UNCHANGED <<next, ppc, pool, job, asleep, oq, ocount, inputDone, out, done>>
OWoken == /\ opc = "waiting" /\ lock = "free" /\ lock' = "out" /\ opc' = "drain"   \* notified or timed out
          /\ UNCHANGED <<next, ppc, pool, job, asleep, oq, ocount, inputDone, out, done>>
ODrain == /\ opc = "drain" /\ oq # <<>> /\ out' = out \cup {Head(oq)} /\ oq' = Tail(oq)
          /\ UNCHANGED <<next, ppc, pool, job, asleep, lock, opc, ocount, inputDone, done>>
OCheck0 == /\ opc = "drain" /\ oq = <<>>
           /\ IF inputDone THEN opc' = "check1" /\ lock' = lock ELSE opc' = "top" /\ lock' = "free"
           /\ UNCHANGED <<next, ppc, pool, job, asleep, oq, ocount, inputDone, out, done>>
OCheck1 == /\ opc = "check1" /\ opc' = "check2"
           /\ ocount' = IF CheckOrder = "queued_first" THEN Len(pool) ELSE Running
           /\ UNCHANGED <<next, ppc, pool, job, asleep, lock, oq, inputDone, out, done>>
OCheck2 == /\ opc = "check2" /\ lock' = "free" /\ ocount' = 0
           /\ LET second == IF CheckOrder = "queued_first" THEN Running ELSE Len(pool)
              IN opc' = IF ocount + second = 0 THEN "exit" ELSE "top"
           /\ UNCHANGED <<next, ppc, pool, job, asleep, oq, inputDone, out, done>>

Producer == Submit \/ Stop \/ Block1 \/ Block2 \/ SyncEmpty \/ Synced \/ Join
Worker(w) == Wake(w) \/ Sleep(w) \/ Pop(w) \/ Push(w)
Output == OLock \/ OWait \/ OWoken \/ ODrain \/ OCheck0 \/ OCheck1 \/ OCheck2
Finished == done /\ UNCHANGED vars
Next == Producer \/ Output \/ (\E w \in Workers : Worker(w)) \/ Finished
\* polling threads all get their turn: a worker cannot keep missing work, the two waits see the quiet moments
Spec == /\ Init /\ [][Next]_vars /\ SF_vars(Producer) /\ WF_vars(Output) /\ SF_vars(OCheck2)
        /\ \A w \in Workers : WF_vars(Worker(w)) /\ SF_vars(Pop(w)) /\ SF_vars(Push(w))

NothingLost == done => out = 1..NGroups
SyncMeansDelivered == ppc = "synced" => out = 1..(next - 1)
LockDiscipline == (lock = "out") = (opc \in {"wait", "drain", "check1", "check2"})
OnceEach == \A i \in 1..NGroups :
  Cardinality({j \in 1..Len(pool) : pool[j] = i}) + Cardinality({w \in Workers : job[w] = i})
    + Cardinality({j \in 1..Len(oq) : oq[j] = i}) + (IF i \in out THEN 1 ELSE 0) = (IF i < next THEN 1 ELSE 0)
EventuallyDone == <>done
=============================================================================
