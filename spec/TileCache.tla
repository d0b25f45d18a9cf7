----------------------------- MODULE TileCache -----------------------------
(* The tile cache: files hold tiles, the cache holds copies, a writer holds on to the tile it wrote last.  Threads: the writer
   of image 1 (it writes 1, 2, ... to tiles it chooses), a reader of image 1, and somebody loading tiles of another image,
   which only makes room.  Policy:
     "asis"    the writer keeps its tile whatever happens to the cache; eviction takes any tile
     "weak"    the writer looks its tile up again once it has left the cache, but may be interrupted before it writes
     "pinned"  as "weak", and a tile in somebody's hands is not evicted *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Tiles, MaxWrites, MaxCopies, Policy, Room
VARIABLES file, cache, copies, held, wpc, wtile, wval, rpc, rtile, rcopy, ok, reg, seen
\* copies: a sequence of [t, v, mod]; cache: tile -> index of its copy, or 0; held: the writer's copy, or 0
vars == <<file, cache, copies, held, wpc, wtile, wval, rpc, rtile, rcopy, ok, reg, seen>>
Init == /\ file = [t \in Tiles |-> 0] /\ cache = [t \in Tiles |-> 0] /\ copies = <<>> /\ held = 0
        /\ wpc = "idle" /\ wtile = 1 /\ wval = 0 /\ rpc = "idle" /\ rtile = 1
        /\ rcopy = 0 /\ ok = TRUE /\ reg = [t \in Tiles |-> 0] /\ seen = {}
Cached == {t \in Tiles : cache[t] # 0}
\* the copy of tile t after a look-up, loading it if need be
Load(t) == IF cache[t] # 0 THEN UNCHANGED <<cache, copies>>
           ELSE /\ Len(copies) < MaxCopies /\ copies' = Append(copies, [t |-> t, v |-> file[t], mod |-> FALSE])
                /\ cache' = [cache EXCEPT ![t] = Len(copies) + 1]
Attached(k) == k # 0 /\ cache[copies[k].t] = k
\* a copy that nobody refers to is destroyed, and saved if it was modified
Busy(k) == (k = held /\ (Policy = "asis" \/ wpc = "has")) \/ (rpc = "has" /\ k = rcopy)
(* the writer: look up, write, done *)
WStart == /\ wpc = "idle" /\ wval < MaxWrites /\ \E t \in Tiles :
             /\ wtile' = t /\ wval' = wval + 1 /\ wpc' = "look" /\ seen' = IF rpc # "idle" /\ rtile = t THEN seen \cup {wval + 1} ELSE seen
             /\ UNCHANGED <<file, cache, copies, held, rpc, rtile, rcopy, ok, reg>>
WLook == /\ wpc = "look" /\ wpc' = "has"
         /\ IF held # 0 /\ copies[held].t = wtile /\ (Policy = "asis" \/ Attached(held))
            THEN UNCHANGED <<cache, copies, held, file>>
            ELSE /\ Load(wtile) /\ held' = cache'[wtile]
                 \* what was in the writer's hand is let go
                 /\ file' = IF held # 0 /\ ~Attached(held) /\ copies[held].mod /\ ~(rpc = "has" /\ rcopy = held)
                            THEN [file EXCEPT ![copies[held].t] = copies[held].v] ELSE file
         /\ UNCHANGED <<wtile, wval, rpc, rtile, rcopy, ok, reg, seen>>
WWrite == /\ wpc = "has" /\ wpc' = "done"
          /\ copies' = [copies EXCEPT ![held] = [t |-> wtile, v |-> wval, mod |-> TRUE]]
          \* a copy that had left the cache is destroyed after the write, unless it is kept
          /\ file' = IF Policy # "asis" /\ ~Attached(held) /\ ~(rpc = "has" /\ rcopy = held) THEN [file EXCEPT ![wtile] = wval] ELSE file
          /\ UNCHANGED <<cache, held, wtile, wval, rpc, rtile, rcopy, ok, reg, seen>>
WDone == wpc = "done" /\ wpc' = "idle" /\ reg' = [reg EXCEPT ![wtile] = wval] /\ UNCHANGED <<file, cache, copies, held, wtile, wval, rpc, rtile, rcopy, ok, seen>>
(* the reader *)
RStart == /\ rpc = "idle" /\ \E t \in Tiles : rtile' = t /\ rpc' = "look"
             /\ seen' = {reg[t]} \cup (IF wpc # "idle" /\ wtile = t THEN {wval} ELSE {})
          /\ UNCHANGED <<file, cache, copies, held, wpc, wtile, wval, rcopy, ok, reg>>
RLook == rpc = "look" /\ rpc' = "has" /\ Load(rtile) /\ rcopy' = cache'[rtile] /\ UNCHANGED <<file, held, wpc, wtile, wval, rtile, ok, reg, seen>>
RRead == /\ rpc = "has" /\ rpc' = "idle" /\ ok' = (ok /\ copies[rcopy].v \in seen) /\ seen' = {} /\ rcopy' = 0
         /\ UNCHANGED <<file, cache, copies, held, wpc, wtile, wval, rtile, reg>>
\* somebody else needs room
Evict == \E t \in Cached :
           /\ Policy = "pinned" => ~Busy(cache[t])
           /\ Cardinality(Cached) > Room
           /\ file' = IF copies[cache[t]].mod THEN [file EXCEPT ![t] = copies[cache[t]].v] ELSE file
           /\ copies' = [copies EXCEPT ![cache[t]].mod = FALSE]
           /\ cache' = [cache EXCEPT ![t] = 0]
           /\ UNCHANGED <<held, wpc, wtile, wval, rpc, rtile, rcopy, ok, reg, seen>>
Next == WStart \/ WLook \/ WWrite \/ WDone \/ RStart \/ RLook \/ RRead \/ Evict
Spec == Init /\ [][Next]_vars
\* a read returns the value of the last finished write, or of one going on
Reads == ok
\* what the file would hold after a flush is what was written last
Flushed == wpc = "idle" => \A t \in Tiles : reg[t] = (IF cache[t] # 0 /\ copies[cache[t]].mod THEN copies[cache[t]].v ELSE file[t])
=============================================================================
