------------------------------ MODULE CheckImg ------------------------------
(* Painting a check image: several painters, each with the pixels of its own object, one pixel at a time.       *)
(* An image is kept in tiles; a pixel is set by getting its tile, changing it, and having it be the tile again,  *)
(* while tiles may be written to the file and dropped from memory at any time. `Locked`: one painter at a time   *)
(* between getting and setting (LockedWriteableImage). At the end every pixel shows an object that covers it.    *)
EXTENDS Integers, FiniteSets
CONSTANTS Painters, Pixels, Shapes, Locked
Tiles == {p \div 2 : p \in Pixels}                 \* two pixels a tile
VARIABLES shape, todo, file, mem, held, lock
vars == <<shape, todo, file, mem, held, lock>>
None == [i \in {} |-> 0]
Blank(t) == [p \in {q \in Pixels : q \div 2 = t} |-> 0]
Init == /\ shape \in [Painters -> Shapes] /\ todo = shape
        /\ file = [t \in Tiles |-> Blank(t)]       \* what the file holds
        /\ mem = None                              \* the tiles in memory, with the changes to them
        /\ held = [k \in Painters |-> <<>>]        \* what a painter got: <<pixel, tile>>
        /\ lock = 0
Get(k) == /\ held[k] = <<>> /\ todo[k] # {} /\ (Locked => lock = 0)
          /\ lock' = IF Locked THEN k ELSE lock
          /\ \E p \in todo[k] : LET t == p \div 2 IN
               /\ held' = [held EXCEPT ![k] = <<p, IF t \in DOMAIN mem THEN mem[t] ELSE file[t]>>]
          /\ UNCHANGED <<shape, todo, file, mem>>
Set(k) == /\ held[k] # <<>>
          /\ LET p == held[k][1]  t == p \div 2  new == [held[k][2] EXCEPT ![p] = k] IN
               /\ mem' = [i \in DOMAIN mem \cup {t} |-> IF i = t THEN new ELSE mem[i]]
               /\ todo' = [todo EXCEPT ![k] = @ \ {p}]
          /\ held' = [held EXCEPT ![k] = <<>>]
          /\ lock' = IF Locked THEN 0 ELSE lock
          /\ UNCHANGED <<shape, file>>
Drop(t) == /\ t \in DOMAIN mem
           /\ file' = [file EXCEPT ![t] = mem[t]]
           /\ mem' = [i \in DOMAIN mem \ {t} |-> mem[i]]
           /\ UNCHANGED <<shape, todo, held, lock>>
Next == (\E k \in Painters : Get(k) \/ Set(k)) \/ (\E t \in Tiles : Drop(t))
Spec == Init /\ [][Next]_vars
Done == \A k \in Painters : todo[k] = {}
Saved(p) == IF p \div 2 \in DOMAIN mem THEN mem[p \div 2][p] ELSE file[p \div 2][p]
Cover(p) == {k \in Painters : p \in shape[k]}
\* at the end: nothing lost, nothing invented
Shown == Done => \A p \in Pixels : IF Cover(p) = {} THEN Saved(p) = 0 ELSE Saved(p) \in Cover(p)
\* on the way: what is shown is covered
Honest == \A p \in Pixels : Saved(p) = 0 \/ Saved(p) \in Cover(p)
=============================================================================
