----------------------------- MODULE PyConfModel ----------------------------
(* Every script of a few steps over two files: what grouping, splitting, freezing and attaching may never do. *)
EXTENDS PyConf
CONSTANTS Depth, FirstOnly
VARIABLES st, op, n, free
vars == <<st, op, n, free>>
Kw == [gkey |-> "GAIN", gain |-> -1000, sat |-> -1000, fs |-> -1000, wtype |-> "none", abs |-> FALSE, ws |-> 1, wt |-> -1000, bg |-> -1000, norm |-> TRUE]
H(g) == [k |-> "image", dims |-> <<2, 2>>, num |-> <<>>, txt |-> IF g = "" THEN <<>> ELSE [FILTER |-> g]]
Primary == [k |-> "image", dims |-> <<>>, num |-> <<>>, txt |-> <<>>]
Table == [k |-> "table", dims |-> <<>>, num |-> <<>>, txt |-> <<>>]
Files == <<[name |-> "a", group |-> 1, hdus |-> <<Primary, H("g1"), Table, H("r1")>>], [name |-> "b", group |-> 1, hdus |-> <<H("")>>],
           [name |-> "c", group |-> 2, hdus |-> <<H("g1"), H("g2"), H("g1")>>]>>
Is(k) == {i \in 1..Len(st.obj) : st.obj[i].k = k}
NoneSuch == [k |-> "none", v |-> <<>>]
Ops ==
     {[t |-> "Load", file |-> f, hdu |-> h, psfk |-> "none", psf |-> <<>>, phdu |-> -1, wk |-> k, w |-> IF k = "one" THEN <<"c">> ELSE <<>>, whdu |-> -1, kw |-> Kw] :
        f \in {"a", "b", "c"}, h \in {-1, 1}, k \in {"none", "one"}}
  \cup {[t |-> "Super", name |-> "s", g |-> g] : g \in Is("group")}
  \cup {[t |-> "AddSub", name |-> "z", g |-> g, s |-> s] : g \in Is("group"), s \in Is("group")}
  \cup {[t |-> "Split", g |-> g, key |-> k, how |-> h] : g \in Is("group"), k \in {"FILTER", "IMAGE_FILENAME"}, h \in {"key", "pattern"}}
  \cup {[t |-> "Get", o |-> o, name |-> m, at |-> 0] : o \in Is("group") \cup Is("mg"), m \in {"g1", "s"}}
  \cup {[t |-> "MG", g |-> g] : g \in Is("group")}
  \cup {[t |-> "Aper", to |-> to, ap |-> <<1>>] : to \in {<<o>> : o \in Is("mg") \cup Is("image")} \cup {<<o, p>> : o \in Is("mg") \cup Is("image"), p \in Is("mg")}}
  \cup {[t |-> "Param", k |-> k, on |-> <<>>, a |-> 1, b |-> 1, x |-> FALSE] : k \in {"const", "free", "pos"}}
  \cup {[t |-> "Param", k |-> "dep", on |-> <<p>>, a |-> 1, b |-> 1, x |-> FALSE] : p \in Is("param")}
  \cup {[t |-> "Nth", o |-> p, k |-> 2] : p \in Is("params")}
  \cup {[t |-> "Model", k |-> "Constant", args |-> <<p>>] : p \in Is("param") \cup {0}}
  \cup {[t |-> "AddModel", g |-> g, m |-> m] : g \in Is("mg") \cup Is("group"), m \in Is("model")}
  \cup {[t |-> "Column", name |-> "x", of |-> q] : q \in {<<o>> : o \in Is("param") \cup Is("aper")} \cup {<<o, p>> : o \in Is("param"), p \in Is("param")}}
  \cup {[t |-> "Prior", p |-> p] : p \in Is("param")}
\* a group may not be put in itself
RECURSIVE Below(_, _)
Below(heap, g) == {g} \cup UNION {Below(heap, heap[g].sub[i][2]) : i \in 1..Len(heap[g].sub)}
Allowed(o) == o.t = "AddSub" => st.obj[o.g].v \notin Below(st.heap, st.obj[o.s].v)
\* a program that registers only the first parameter of a column
Taken(s, o) == IF FirstOnly /\ o.t = "Column" /\ st.obj[o.of[1]].k = "param" THEN [s EXCEPT !.need = st.need \cup {st.obj[o.of[1]].v}] ELSE s
Init == st = Empty /\ op = [t |-> "Start"] /\ n = 0 /\ free = 1
Next == /\ n < Depth
        /\ \E o \in Ops : Allowed(o) /\ \E k \in 0..3 :
             LET r == TLCEval(Apply(Files, st, o, [i \in 1..k |-> free + i - 1])) IN
             /\ r.ok /\ st' = Taken(r.val, o) /\ op' = o /\ n' = n + 1 /\ free' = free + k
Spec == Init /\ [][Next]_vars
\* ---- what holds
Count(q, x) == Cardinality({i \in 1..Len(q) : q[i] = x})
SameBag(p, q) == Len(p) = Len(q) /\ \A x \in Range2(p) \cup Range2(q) : Count(p, x) = Count(q, x)
Groups(s) == {i \in 1..Len(s.obj) : s.obj[i].k = "group"}
ImagesOf(s, i) == TreeImages(Tree(s.heap, s.obj[i].v))
\* splitting moves images into subgroups: none is lost or doubled, in any group there is
SplitKeeps == [][op'.t = "Split" => \A i \in Groups(st) : SameBag(ImagesOf(st, i), ImagesOf(st', i))]_vars
\* a subgroup holds the images of its key, in the order they had
SplitSorts == [][op'.t = "Split" => \A i \in Groups(st) : LET q == st.heap[st.obj[i].v] IN
                (i = op'.g /\ q.leaf) => LET sub == st'.heap[st.obj[i].v].sub IN
                   /\ Cardinality({sub[j][1] : j \in 1..Len(sub)}) = Len(sub)
                   /\ \A j \in 1..Len(sub) : \A x \in Range2(ImagesOf(st', i)) :
                        (x \in Range2(TreeImages(Tree(st'.heap, sub[j][2])))) <=> KeyOf(Files, st.im, op')[x] = sub[j][1]]_vars
\* whatever comes later, a measurement group is what it was when it was made
Frozen == [][\A i \in 1..Len(st.obj) : st'.obj[i] = st.obj[i]]_vars
\* images, parameters and models only come to be
Grows == [][/\ \A i \in DOMAIN st.im : i \in DOMAIN st'.im /\ st'.im[i] = st.im[i]
            /\ \A i \in DOMAIN st.par : i \in DOMAIN st'.par /\ st'.par[i] = st.par[i]
            /\ \A i \in DOMAIN st.aps : i \in DOMAIN st'.aps /\ st'.aps[i] = st.aps[i]
            /\ st.reg \subseteq st'.reg /\ st.need \subseteq st'.need]_vars
\* everything that is measured is on an image the program knows of
Registered == st.reg \subseteq DOMAIN st.im /\ DOMAIN st.aps \subseteq st.reg /\ DOMAIN st.fm \subseteq st.reg
\* everything a column, a model or a prior takes is a parameter the program knows of
Reached == LET known == Closure(st.par, st.need) IN
           /\ known \subseteq DOMAIN st.par
           /\ \A i \in 1..Len(st.cols) : Range2(st.cols[i][2]) \subseteq known
           /\ \A f \in DOMAIN st.fm : \A j \in 1..Len(st.fm[f]) : Range2(st.mod[st.fm[f][j]].args) \subseteq known
           /\ Range2(st.pri) \subseteq known
\* no parameter depends on itself, directly or not
Ordered == \A p \in DOMAIN st.par : \A i \in 1..Len(st.par[p].on) : st.par[p].on[i] \in DOMAIN st.par /\ st.par[p].on[i] < p
OneEach == /\ \A i, j \in DOMAIN st.aps : st.aps[i].id = st.aps[j].id => i = j
           /\ \A i \in 1..Len(st.acols) : \A k \in 1..Len(st.acols[i][2]) : \E a \in DOMAIN st.aps : st.aps[a].id = st.acols[i][2][k]
           /\ DOMAIN st.im \cap DOMAIN st.par = {}
=============================================================================
