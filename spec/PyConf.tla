------------------------------- MODULE PyConf -------------------------------
(* The configuration script: images are loaded from files, grouped, split and frozen into measurement groups; apertures,
   models, parameters, priors and columns are attached to them. Each step is a function of the state, to a state or to an
   error, which ends the script. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
\* A file: [name, group, hdus], an HDU: [k, dims, num (numeric keywords), txt (keywords as text)]; HDUs count from 0
IsPlane(h) == h.k = "image" /\ Len(h.dims) \in {2, 3}
RECURSIVE PlanesFrom(_, _)
PlanesFrom(f, i) == IF i > Len(f.hdus) THEN <<>> ELSE (IF IsPlane(f.hdus[i]) THEN <<i - 1>> ELSE <<>>) \o PlanesFrom(f, i + 1)
Planes(f) == PlanesFrom(f, 1)
Named(files, n) == files[CHOOSE i \in 1..Len(files) : files[i].name = n]
HasHdu(f, h) == h >= 0 /\ h < Len(f.hdus)
Of(m, k, d) == IF k \in DOMAIN m THEN m[k] ELSE d
\* ---- results
Bad(e) == [ok |-> FALSE, err |-> e]
Good(v) == [ok |-> TRUE, val |-> v]
\* ---- images
Given(kw, k) == kw[k] # -1000
Attr(f, psf, w, h, ph, wh, kw, cube, il, wl) ==
  LET num == f.hdus[h + 1].num IN
  [file |-> f.name, psf |-> psf, w |-> w, hdu |-> h, phdu |-> ph, whdu |-> wh,
   gain |-> IF Given(kw, "gain") THEN kw.gain ELSE Of(num, kw.gkey, 0),
   sat |-> IF Given(kw, "sat") THEN kw.sat ELSE Of(num, "SATURATE", 0),
   fs |-> IF Given(kw, "fs") THEN kw.fs ELSE Of(num, "FLXSCALE", 1),
   wtype |-> kw.wtype, abs |-> kw.abs, ws |-> kw.ws, hast |-> Given(kw, "wt"), wt |-> kw.wt, isbg |-> Given(kw, "bg"), bg |-> kw.bg,
   cube |-> cube, layer |-> il, wlayer |-> wl, norm |-> kw.norm]
\* one image: what can be refused of it
One(f, psf, w, h, ph, wh, kw, cube, il, wl) ==
  IF h < 0 \/ ph < 0 \/ wh < 0 THEN Bad("ValueError")
  ELSE IF ~HasHdu(f, h) THEN Bad("error")
  ELSE IF kw.wtype = "BAD" THEN Bad("TypeError")
  ELSE Good(Attr(f, psf, w, h, ph, wh, kw, cube, il, wl))
RECURSIVE All(_)
All(q) == IF q = <<>> THEN Good(<<>>) ELSE IF ~Head(q).ok THEN Head(q)
          ELSE LET t == All(Tail(q)) IN IF ~t.ok THEN t ELSE Good(<<Head(q).val>> \o t.val)
\* what goes with n images: [k: none, one or list; v: names; hdu: -1 or the one asked for]
Fits(c, n) == c.k = "list" => Len(c.v) = n
File(c, i) == IF c.k = "none" THEN "" ELSE IF c.k = "one" THEN c.v[1] ELSE c.v[i]
PsfHdu(c, i) == IF c.k = "list" THEN 0 ELSE IF c.hdu >= 0 THEN c.hdu ELSE i - 1
WeightHdus(files, c, n) == IF c.k # "one" THEN [i \in 1..n |-> 0] ELSE IF c.hdu >= 0 THEN [i \in 1..n |-> c.hdu] ELSE Planes(Named(files, c.v[1]))
LoadOne(files, name, hdu, psf, w, kw) ==
  LET f == Named(files, name) IN
  LET hs == IF hdu = -1 THEN Planes(f) ELSE <<hdu>> IN
  LET n == Len(hs) wh == WeightHdus(files, w, Len(hs)) IN
  IF ~Fits(psf, n) \/ ~Fits(w, n) THEN Bad("ValueError")
  ELSE IF Len(wh) < n THEN Bad("ValueError")     \* no weight for some of the images
  ELSE All([i \in 1..n |-> One(f, File(psf, i), File(w, i), hs[i], PsfHdu(psf, i), wh[i], kw, FALSE, 0, 0)])
Companion(k, v, hdu) == [k |-> k, v |-> v, hdu |-> hdu]
None == Companion("none", <<>>, -1)
RECURSIVE Glue(_)
Glue(q) == IF q = <<>> THEN Good(<<>>) ELSE IF ~Head(q).ok THEN Head(q)
           ELSE LET t == Glue(Tail(q)) IN IF ~t.ok THEN t ELSE Good(Head(q).val \o t.val)
EachOf(c, i) == IF c.k = "none" THEN None ELSE Companion("one", <<c.v[i]>>, -1)
LoadMany(files, names, psf0, w0, kw) ==
  LET plain(c) == IF c.k = "list" /\ c.v = <<>> THEN None ELSE c IN
  LET psf == plain(psf0) w == plain(w0) n == Len(names) IN
  IF n = 0 THEN Bad("ValueError")
  ELSE IF psf.k = "one" \/ w.k = "one" \/ ~Fits(psf, n) \/ ~Fits(w, n) THEN Bad("ValueError")
  ELSE Glue([i \in 1..n |-> LoadOne(files, names[i], -1, EachOf(psf, i), EachOf(w, i), kw)])
RECURSIVE Matching(_, _, _)
Matching(files, g, i) == IF i > Len(files) THEN <<>> ELSE (IF files[i].group = g THEN <<files[i].name>> ELSE <<>>) \o Matching(files, g, i + 1)
LoadCube(files, name, chdu, psf, w, wchdu, kw) ==
  LET f == Named(files, name) IN
  LET h == IF chdu < 0 THEN Planes(f)[1] ELSE chdu IN
  LET dims == f.hdus[h + 1].dims IN
  IF Len(dims) # 3 THEN Bad("ValueError") ELSE
  LET n == dims[3] IN
  IF ~Fits(psf, n) \/ ~Fits(w, n) THEN Bad("ValueError") ELSE
  LET image(i, wh, wl) == One(f, File(psf, i), File(w, i), h, PsfHdu(psf, i), wh, kw, TRUE, i - 1, wl) IN
  IF w.k # "one" THEN All([i \in 1..n |-> image(i, 0, 0)]) ELSE
  LET wf == Named(files, w.v[1]) IN
  LET wh == IF wchdu < 0 THEN Planes(wf)[1] ELSE wchdu IN
  LET wd == wf.hdus[wh + 1].dims IN
  IF Len(wd) = 3 THEN (IF wd[3] # n THEN Bad("ValueError") ELSE All([i \in 1..n |-> image(i, wh, i - 1)]))
  ELSE IF Len(Planes(wf)) < n THEN Bad("ValueError") ELSE All([i \in 1..n |-> image(i, Planes(wf)[i], 0)])
\* ---- groups of images: nodes of a heap, since a subgroup is shared with who asked for it
Node(im) == [leaf |-> TRUE, im |-> im, sub |-> <<>>]
RECURSIVE Tree(_, _)
Tree(heap, g) == LET n == heap[g] IN [leaf |-> n.leaf, im |-> n.im, sub |-> [i \in 1..Len(n.sub) |-> <<n.sub[i][1], Tree(heap, n.sub[i][2])>>]]
RECURSIVE TreeImages(_)
TreeImages(t) == IF t.leaf THEN t.im ELSE LET all[i \in 0..Len(t.sub)] == IF i = 0 THEN <<>> ELSE all[i - 1] \o TreeImages(t.sub[i][2]) IN all[Len(t.sub)]
\* the keys of the images, in the order they come first
RECURSIVE InOrder(_)
InOrder(q) == IF q = <<>> THEN <<>> ELSE <<Head(q)>> \o InOrder(SelectSeq(Tail(q), LAMBDA x : x # Head(q)))
RECURSIVE SplitNode(_, _, _), SplitSubs(_, _, _, _)
\* keyOf[id]: the key of an image, "" if it has none
SplitNode(heap, g, keyOf) ==
  LET n == heap[g] IN
  IF ~n.leaf THEN SplitSubs(heap, n.sub, 1, keyOf)
  ELSE IF \E i \in 1..Len(n.im) : keyOf[n.im[i]] = "" THEN Bad("KeyError")
  ELSE LET ks == TLCEval(InOrder([i \in 1..Len(n.im) |-> keyOf[n.im[i]]])) IN
       Good([heap EXCEPT ![g] = [leaf |-> FALSE, im |-> <<>>, sub |-> [i \in 1..Len(ks) |-> <<ks[i], Len(heap) + i>>]]]
            \o [i \in 1..Len(ks) |-> Node(SelectSeq(n.im, LAMBDA x : keyOf[x] = ks[i]))])
SplitSubs(heap, sub, i, keyOf) ==
  IF i > Len(sub) THEN Good(heap)
  ELSE LET r == TLCEval(SplitNode(heap, sub[i][2], keyOf)) IN IF ~r.ok THEN r ELSE SplitSubs(r.val, sub, i + 1, keyOf)
First == [g1 |-> "g", g2 |-> "g", r1 |-> "r"]
KeyOf(files, im, op) == [id \in DOMAIN im |->
  IF op.key = "IMAGE_FILENAME" THEN im[id].file
  ELSE LET t == Of(Named(files, im[id].file).hdus[im[id].hdu + 1].txt, op.key, "") IN IF t = "" \/ op.how = "key" THEN t ELSE First[t]]
SubNamed(sub, n) == {i \in 1..Len(sub) : sub[i][1] = n}
\* ---- parameters: [k: const, free or dep; on: what it depends on]
RECURSIVE Closure(_, _)
Closure(par, S) == LET more == S \cup UNION {{par[p].on[i] : i \in 1..Len(par[p].on)} : p \in S} IN IF more = S THEN S ELSE Closure(par, more)
Arity == [Constant |-> 1, Point |-> 3, Exponential |-> 6, DeVaucouleurs |-> 6, Sersic |-> 7]
Range2(q) == {q[i] : i \in 1..Len(q)}
\* ---- the state
Defaults == [engine |-> "default", max |-> 200, chi |-> 10, iterative |-> TRUE, meta |-> 5, deblend |-> 95, stop |-> 1, window |-> 1, ellipse |-> 3]
Empty == [im |-> <<>>, reg |-> {}, heap |-> <<>>, obj |-> <<>>, aps |-> <<>>, par |-> <<>>, mod |-> <<>>, added |-> {}, fm |-> <<>>,
          cols |-> <<>>, acols |-> <<>>, names |-> {}, pri |-> <<>>, need |-> {}, set |-> Defaults]
Obj(k, v) == [k |-> k, v |-> v]
Put(st, o) == [st EXCEPT !.obj = Append(@, o)]
Nothing(st) == Put(st, Obj("none", 0))
\* images get the ids `new`, in their order
Fresh(st, new) == Cardinality(Range2(new)) = Len(new) /\ Range2(new) \cap (DOMAIN st.im \cup DOMAIN st.par \cup DOMAIN st.mod) = {}
WithImages(st, attrs, new) == [st EXCEPT !.im = @ @@ [id \in Range2(new) |-> attrs[CHOOSE i \in 1..Len(new) : new[i] = id]]]
Loaded(st, r, new) == IF ~r.ok THEN r ELSE IF Len(new) # Len(r.val) \/ ~Fresh(st, new) THEN Bad("ids") ELSE
  LET s == WithImages(st, r.val, new) IN
  Good([s EXCEPT !.reg = @ \cup Range2(new), !.heap = Append(@, Node(new)), !.obj = Append(@, Obj("group", Len(st.heap) + 1))])
TargetImages(st, o) == IF o.k = "image" THEN <<o.v>> ELSE TreeImages(o.v)
RECURSIVE SetApertures(_, _, _, _)
SetApertures(st, to, ids, ap) ==
  IF to = <<>> THEN Good(st)
  ELSE LET o == st.obj[Head(to)] IN
       IF o.k = "mg" /\ (~o.v.leaf \/ Len(o.v.im) # 1) THEN Bad("error")
       ELSE LET id == TargetImages(st, o)[1] IN
            IF id \in DOMAIN st.aps THEN Bad("error")
            ELSE SetApertures([st EXCEPT !.aps = @ @@ (id :> [id |-> Head(ids), ap |-> ap]), !.reg = @ \cup {id}], Tail(to), Tail(ids), ap)
RECURSIVE ToFrames(_, _, _)
ToFrames(fm, im, m) == IF im = <<>> THEN fm ELSE ToFrames((Head(im) :> Append(Of(fm, Head(im), <<>>), m)) @@ fm, Tail(im), m)
RECURSIVE IdsOf(_, _)
IdsOf(st, os) == IF os = <<>> THEN <<>> ELSE (LET o == st.obj[Head(os)] IN IF o.k = "aper" THEN o.v ELSE <<o.v>>) \o IdsOf(st, Tail(os))
\* which of the implicit constants goes where: they come in the order of the arguments
ArgIds(st, args, new) == [i \in 1..Len(args) |-> IF args[i] > 0 THEN st.obj[args[i]].v ELSE new[Cardinality({j \in 1..i : args[j] = 0})]]
ParKind(k) == IF k \in {"const", "constf"} THEN "const" ELSE IF k = "dep" THEN "dep" ELSE "free"
Settings(s, op) == LET n == op.n IN CASE
     op.k = "engine" -> [s EXCEPT !.engine = "e" \o ToString(n)] [] op.k = "max" -> [s EXCEPT !.max = n] [] op.k = "chi" -> [s EXCEPT !.chi = n]
  [] op.k = "iterative" -> [s EXCEPT !.iterative = (n % 2 = 0)] [] op.k = "meta" -> [s EXCEPT !.meta = n] [] op.k = "deblend" -> [s EXCEPT !.deblend = 10 * n]
  [] op.k = "stop" -> [s EXCEPT !.stop = 1000 * n] [] op.k = "window" -> [s EXCEPT !.window = n] [] op.k = "ellipse" -> [s EXCEPT !.ellipse = n]
\* ---- a step of the script
Apply(files, st, op, new) == LET t == op.t IN CASE
     t = "Load" -> Loaded(st, LoadOne(files, op.file, op.hdu, Companion(op.psfk, op.psf, op.phdu), Companion(op.wk, op.w, op.whdu), op.kw), new)
  [] t = "Many" -> LET psf == Companion(op.psfk, op.psf, -1) w == Companion(op.wk, op.w, -1) IN
       Loaded(st, IF op.how = "one" THEN LoadOne(files, op.files[1], -1, psf, w, op.kw)
                  ELSE LoadMany(files, IF op.how = "files" THEN Matching(files, op.glob, 1) ELSE op.files, psf, w, op.kw), new)
  [] t = "Cube" -> Loaded(st, LoadCube(files, op.file, op.chdu, Companion(op.psfk, op.psf, -1), Companion(op.wk, op.w, -1), op.wchdu, op.kw), new)
  [] t = "Image" ->
       LET name(q) == IF q = <<>> THEN "" ELSE q[1] or(v, d) == IF v = -1 THEN d ELSE v IN
       LET h == or(op.hdu, 0) IN
       LET r == One(Named(files, op.file), name(op.psf), name(op.w), h, or(op.phdu, h), or(op.whdu, h), op.kw, FALSE, 0, 0) IN
       IF ~r.ok THEN r ELSE IF Len(new) # 1 \/ ~Fresh(st, new) THEN Bad("ids") ELSE Good(Put(WithImages(st, <<r.val>>, new), Obj("image", new[1])))
  [] t = "Group" -> Good(Put([st EXCEPT !.heap = Append(@, Node(IdsOf(st, op.im)))], Obj("group", Len(st.heap) + 1)))
  [] t = "Super" -> Good(Put([st EXCEPT !.heap = Append(@, [leaf |-> FALSE, im |-> <<>>, sub |-> <<<<op.name, st.obj[op.g].v>>>>])], Obj("group", Len(st.heap) + 1)))
  [] t = "Add" -> LET g == st.obj[op.g].v IN IF ~st.heap[g].leaf THEN Bad("ValueError") ELSE Good(Nothing([st EXCEPT !.heap[g].im = @ \o IdsOf(st, op.im)]))
  [] t = "AddSub" -> LET g == st.obj[op.g].v IN
       IF st.heap[g].leaf \/ SubNamed(st.heap[g].sub, op.name) # {} THEN Bad("error")
       ELSE Good(Nothing([st EXCEPT !.heap[g].sub = Append(@, <<op.name, st.obj[op.s].v>>)]))
  [] t = "Split" -> LET r == SplitNode(st.heap, st.obj[op.g].v, TLCEval(KeyOf(files, st.im, op))) IN IF ~r.ok THEN r ELSE Good(Nothing([st EXCEPT !.heap = r.val]))
  [] t = "Get" -> LET o == st.obj[op.o] IN
       IF o.k = "group" THEN LET n == st.heap[o.v] IN
            IF n.leaf THEN Bad("ValueError") ELSE IF SubNamed(n.sub, op.name) = {} THEN Bad("KeyError")
            ELSE Good(Put(st, Obj("group", n.sub[CHOOSE i \in SubNamed(n.sub, op.name) : TRUE][2])))
       ELSE IF o.v.leaf THEN (IF op.at >= Len(o.v.im) THEN Bad("KeyError") ELSE Good(Put(st, Obj("image", o.v.im[op.at + 1]))))
       ELSE IF SubNamed(o.v.sub, op.name) = {} THEN Bad("KeyError") ELSE Good(Put(st, Obj("mg", o.v.sub[CHOOSE i \in SubNamed(o.v.sub, op.name) : TRUE][2])))
  [] t = "MG" -> Good(Put(st, Obj("mg", TLCEval(Tree(st.heap, st.obj[op.g].v)))))
  [] t = "Aper" -> LET r == SetApertures(st, op.to, IF new = <<>> THEN [i \in 1..Len(op.to) |-> 0] ELSE new, op.ap) IN
       IF ~r.ok THEN r ELSE IF Len(new) # Len(op.to) \/ ~Fresh(st, new) THEN Bad("ids") ELSE Good(Put(r.val, Obj("aper", new)))
  [] t = "Param" -> LET n == IF op.k = "pos" THEN 2 ELSE 1 IN
       IF Len(new) # n \/ ~Fresh(st, new) THEN Bad("ids")
       ELSE Good(Put([st EXCEPT !.par = @ @@ [p \in Range2(new) |-> [k |-> ParKind(op.k), on |-> IdsOf(st, op.on)]]], IF n = 1 THEN Obj("param", new[1]) ELSE Obj("params", new)))
  [] t = "Nth" -> Good(Put(st, Obj("param", st.obj[op.o].v[op.k])))
  [] t = "Model" -> LET zeros == Cardinality({i \in 1..Len(op.args) : op.args[i] = 0}) IN
       IF Len(op.args) # Arity[op.k] \/ Len(new) # zeros + 1 \/ ~Fresh(st, new) THEN Bad("ids")
       ELSE Good(Put([st EXCEPT !.par = @ @@ [p \in Range2(SubSeq(new, 1, zeros)) |-> [k |-> "const", on |-> <<>>]],
                                !.mod = @ @@ (new[zeros + 1] :> [k |-> op.k, args |-> ArgIds(st, op.args, new)])], Obj("model", new[zeros + 1])))
  [] t = "AddModel" -> LET g == st.obj[op.g] m == st.obj[op.m].v IN
       IF g.k # "mg" THEN Bad("TypeError")
       ELSE Good(Nothing([st EXCEPT !.fm = ToFrames(@, TreeImages(g.v), m), !.reg = @ \cup Range2(TreeImages(g.v)), !.added = @ \cup {m}, !.need = @ \cup Range2(st.mod[m].args)]))
  [] t = "Column" -> LET k == st.obj[op.of[1]].k ids == IdsOf(st, op.of) IN
       IF op.name \in st.names THEN Bad("ValueError") ELSE IF k \notin {"param", "aper"} THEN Bad("TypeError")
       ELSE LET s == Nothing([st EXCEPT !.names = @ \cup {op.name}]) IN
            Good(IF k = "param" THEN [s EXCEPT !.cols = Append(@, <<op.name, ids>>), !.need = @ \cup Range2(ids)] ELSE [s EXCEPT !.acols = Append(@, <<op.name, ids>>)])
  [] t = "Prior" -> LET p == st.obj[op.p].v IN Good(Nothing([st EXCEPT !.pri = Append(@, p), !.need = @ \cup {p}]))
  [] t = "Set" -> IF op.k = "badwindow" THEN Bad("TypeError") ELSE Good(Nothing([st EXCEPT !.set = Settings(@, op)]))
  [] OTHER -> Good(Nothing(st))
\* ---- what the rest of the program gets
ImageOfAperture(st, a) == CHOOSE i \in DOMAIN st.aps : st.aps[i].id = a
OutImages(st) == {<<st.acols[i][1], [j \in 1..Len(st.acols[i][2]) |-> ImageOfAperture(st, st.acols[i][2][j])]>> : i \in 1..Len(st.acols)}
=============================================================================
