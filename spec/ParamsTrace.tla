---------------------------- MODULE ParamsTrace ----------------------------
EXTENDS Params, Json, IOUtils
VARIABLES c, l, nodes, base, watch, res, held
\* watch[w]: the node w watches, 0 for none; res[k]: [n, ex, we], n = 0 for none
Cases == ndJsonDeserialize(IOEnv.TRACE)
Evs == Cases[c].ev
Ev == Evs[l]
IsEv(e) == l <= Len(Evs) /\ Ev.e = e /\ l' = l + 1 /\ c' = c
TInit == l = 1 /\ c \in 1..Len(Cases) /\ nodes = <<>> /\ base = <<>> /\ watch = <<>> /\ res = <<>> /\ held = {}
Value(n) == Def(nodes, base)[n]
Living(H, R) == Alive(nodes, H \cup {R[k].n : k \in {j \in 1..Len(R) : R[j].n # 0}})
AliveIs(H, R) == {Ev.alive[i] : i \in 1..Len(Ev.alive)} = Living(H, R)
New == /\ nodes' = Append(nodes, [base |-> TRUE, in |-> <<>>, co |-> <<0>>]) /\ base' = Append(base, Ev.v) /\ held' = held \cup {Ev.n}
       /\ Ev.n = Len(nodes') /\ UNCHANGED <<watch, res>>
Dep == /\ nodes' = Append(nodes, [base |-> FALSE, in |-> Ev.in, co |-> Ev.co]) /\ base' = Append(base, 0) /\ held' = held \cup {Ev.n}
       /\ Ev.n = Len(nodes') /\ UNCHANGED <<watch, res>>
\* everyone who watches something whose value changes is told, last of all the new value; nobody who watches something else is told
Told(b) == LET new == TLCEval(Def(nodes, b))
               old == TLCEval(Def(nodes, base))
               A == TLCEval(Affected(nodes, Ev.n) \cap Living(held, res))
           IN \A w \in 1..Len(watch) :
                LET K == {i \in 1..Len(Ev.told) : Ev.told[i][1] = w} IN
                IF watch[w] \in A THEN (IF K = {} THEN old[watch[w]] = new[watch[w]] ELSE Ev.told[Max(K)][2] = new[watch[w]]) ELSE K = {}
Set == /\ base' = [base EXCEPT ![Ev.n] = Ev.v] /\ TRUE = Told([base EXCEPT ![Ev.n] = Ev.v]) /\ UNCHANGED <<nodes, watch, res, held>>
Same == UNCHANGED <<nodes, base, watch, res, held>>
TNext == \/ IsEv("New") /\ New
         \/ IsEv("Dep") /\ Dep
         \/ IsEv("Set") /\ Set
         \/ IsEv("Get") /\ Ev.v = Value(Ev.n) /\ Same
         \/ IsEv("Watch") /\ watch' = Append(watch, Ev.n) /\ UNCHANGED <<nodes, base, res, held>>
         \/ IsEv("Unwatch") /\ Ev.ret = (watch[Ev.w] # 0) /\ watch' = [watch EXCEPT ![Ev.w] = 0] /\ UNCHANGED <<nodes, base, res, held>>
         \/ IsEv("Drop") /\ held' = held \ {Ev.n} /\ AliveIs(held \ {Ev.n}, res) /\ UNCHANGED <<nodes, base, watch, res>>
         \/ IsEv("Res") /\ res' = Append(res, [n |-> Ev.n, ex |-> Ev.ex, we |-> Ev.we]) /\ UNCHANGED <<nodes, base, watch, held>>
         \/ IsEv("Read") /\ Ev.size = 1 /\ Ev.v = res[Ev.k].we * (Value(res[Ev.k].n) - res[Ev.k].ex) /\ Same
         \/ IsEv("Forget") /\ res' = [res EXCEPT ![Ev.k].n = 0] /\ AliveIs(held, [res EXCEPT ![Ev.k].n = 0]) /\ UNCHANGED <<nodes, base, watch, held>>
         \/ IsEv("End") /\ Ev.alive = <<>> /\ Same
         \/ l > Len(Evs) /\ UNCHANGED <<c, l>> /\ Same
TSpec == TInit /\ [][TNext]_<<c, l, nodes, base, watch, res, held>>
=============================================================================
