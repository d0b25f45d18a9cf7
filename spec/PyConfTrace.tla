---------------------------- MODULE PyConfTrace -----------------------------
(* Recorded scripts: every step gives what it should, or is refused for the reason given in the documentation, and the
   program ends up with the images, apertures, models and columns the script named. *)
EXTENDS PyConf, Json, IOUtils
VARIABLES c, l, st, dead
Cases == ndJsonDeserialize(IOEnv.TRACE)
Evs == Cases[c].ev
Ev == Evs[l]
Cfg == Cases[c].cfg
IsEv(e) == l <= Len(Evs) /\ Ev.e = e /\ l' = l + 1 /\ c' = c
TInit == l = 1 /\ c \in 1..Len(Cases) /\ st = Empty /\ dead = FALSE
Abs(x) == IF x < 0 THEN -x ELSE x
\* ---- what is seen of the result
S == Cfg.src
RangeKind(x) == IF x THEN "range2" ELSE "range1"
Bounds(v) == <<"range1", 1000 * v, 1000 * (v - S.radius), 1000 * (v + S.radius)>>
ParamView(op) == LET a == op.a b == op.b k == op.k IN CASE
     k = "const" -> <<<<"const", 1000 * a, 0, 0>>>>
  [] k = "constf" -> <<<<"const", 1000 * a * S.radius, 0, 0>>>>
  [] k = "free" -> <<<<RangeKind(op.x), 1000 * a, 1000 * (a - 1), 1000 * b>>>>
  [] k = "freef" -> <<<<RangeKind(op.x), 1000 * S.centroid_x, 1000 * (S.centroid_x - S.radius), 1000 * (S.centroid_x + a * S.radius)>>>>
  [] k = "unb" -> <<<<"unbounded", 1000 * a, 1000 * b, 0>>>>
  [] k = "unbf" -> <<<<"unbounded", 1000 * (S.angle + a), 1000 * (S.angle + a) * S.radius, 0>>>>
  [] k = "default" -> <<<<"unbounded", 1000 * b, 1000, 0>>>>
  [] k = "pos" -> <<Bounds(S.centroid_x), Bounds(S.centroid_y)>>
  [] k = "flux" -> LET f == S.isophotal_flux * a IN <<<<"range2", 1000 * f, f, 1000000 * f>>>>
  [] k = "dep" -> <<<<"dep", 1000 * (b + a * (IF Len(op.on) = 1 THEN 1 ELSE 11)), 0, 0>>>>
Near(a, b, t) == Abs(a - b) <= t
\* an ellipse of the image in the sky: (ux, uy) is along its major axis, in 1/20 of the unit of the radius
WorldView(op, v) ==
  LET major == IF op.ratio <= 4 THEN <<4 * op.cos, 4 * op.sin>> ELSE <<-op.ratio * op.sin, op.ratio * op.cos>>
      minor == IF op.ratio <= 4 THEN <<-op.ratio * op.sin, op.ratio * op.cos>> ELSE <<4 * op.cos, 4 * op.sin>> IN
  LET ux == op.sx * major[1] uy == op.sy * major[2] wx == op.sx * minor[1] wy == op.sy * minor[2] IN
  LET big == ux * ux + uy * uy small == wx * wx + wy * wy IN
  /\ v[1] = 100 * op.sx * (op.x - 1) /\ v[2] = 100 * op.sy * (op.y - 1)
  /\ Near(v[3] * v[3], 2500 * op.rad * op.rad * big, 3 * v[3] + 10)
  /\ v[4] >= -90001 /\ v[4] <= 90001 /\ Near(v[5] * uy, v[6] * ux, 2 * (Abs(ux) + Abs(uy)))
  /\ Near(((v[7] * v[7]) \div 10000) * big, 10000 * small, 4 * big + (v[7] \div 2000 + 2) * big)
ArgsView(op) == [i \in 1..Len(op.spec) |->
  LET n == op.spec[i][1] k == op.spec[i][2] IN
  LET given == {j \in 1..Len(op.toks) : op.toks[j][1] = n} type == IF k \in {"int", "intv"} THEN "int" ELSE "str" IN
  IF given # {} THEN <<n, type, op.toks[CHOOSE j \in given : TRUE][2]>>
  ELSE <<n, IF k \in {"int", "str"} THEN "NoneType" ELSE type, CASE k = "intv" -> "5" [] k = "strv" -> "five" [] OTHER -> "None">>]
ArgsRefused(op) ==
  IF \E i \in 1..Len(op.spec) : op.spec[i][2] \in {"int", "intv"} /\ \E j \in 1..Len(op.toks) : op.toks[j] = <<op.spec[i][1], "x=y">> THEN "ValueError"
  ELSE IF \E j \in 1..Len(op.toks) : \A i \in 1..Len(op.spec) : op.spec[i][1] # op.toks[j][1] THEN "KeyError" ELSE ""
GraphArg(s, op, n) == LET at == {i \in 1..Len(op.args) : op.args[i][1] = n} IN
  IF at = {} THEN <<n, -1, IF n = "_angle" THEN 0 ELSE 1000>>
  ELSE LET o == op.args[CHOOSE i \in at : TRUE][2] IN IF o > 0 THEN <<n, s.obj[o].v, 0>> ELSE <<n, -1, 3000>>
GraphNames(op) == <<"_angle", "_aspect_ratio", "_scale">> \o SelectSeq(<<"p", "q">>, LAMBDA n : \E i \in 1..Len(op.args) : op.args[i][1] = n)
SameArg(s, e, g) == e[1] = g[1] /\ e[2] = g[2] /\ (e[2] = -1 => e[3] = g[3])
GraphView(s, op, v) == \A k \in 1..2 : /\ Len(v[k]) = Len(GraphNames(op))
                                       /\ \A i \in 1..Len(v[k]) : SameArg(s, GraphArg(s, op, GraphNames(op)[i]), v[k][i])
Names == [Constant |-> <<"value">>, Point |-> <<"x_coord", "y_coord", "flux">>, Exponential |-> <<"x_coord", "y_coord", "flux", "effective_radius", "aspect_ratio", "angle">>,
          DeVaucouleurs |-> <<"x_coord", "y_coord", "flux", "effective_radius", "aspect_ratio", "angle">>, Sersic |-> <<"x_coord", "y_coord", "flux", "effective_radius", "aspect_ratio", "angle", "n">>]
Last(q) == q[Len(q)]
Seen(s, op, v) == LET t == op.t IN CASE
     t \in {"Load", "Many", "Cube", "Group", "Super"} -> v = Tree(s.heap, Last(s.obj).v)
  [] t \in {"Add", "AddSub", "Split"} -> v = Tree(s.heap, s.obj[op.g].v)
  [] t = "Get" -> LET o == Last(s.obj) IN v = IF o.k = "image" THEN o.v ELSE IF o.k = "mg" THEN o.v ELSE Tree(s.heap, o.v)
  [] t = "MG" -> v = Last(s.obj).v
  [] t = "Param" -> v = ParamView(op)
  [] t = "Nth" -> v = Last(s.obj).v
  [] t = "Model" -> LET m == s.mod[Last(s.obj).v] IN v = [i \in 1..Len(m.args) |-> <<Names[op.k][i], m.args[i]>>]
  [] t = "World" -> WorldView(op, v)
  [] t = "Args" -> v = ArgsView(op)
  [] t = "Graph" -> GraphView(s, op, v)
  [] OTHER -> TRUE
Result(op) == IF op.t = "Args" /\ ArgsRefused(op) # "" THEN Bad(ArgsRefused(op)) ELSE Apply(Cfg.files, st, op, Ev.new)
Op == /\ IsEv("Op") /\ ~dead
      /\ LET r == TLCEval(Result(Ev.op)) IN
           IF r.ok THEN TRUE = (Ev.r = "ok" /\ Seen(r.val, Ev.op, Ev.v)) /\ st' = r.val /\ dead' = FALSE
           ELSE TRUE = (Ev.r # "ok" /\ (r.err = "error" \/ r.err = Ev.r)) /\ st' = st /\ dead' = TRUE
Viewed == /\ IsEv("View") /\ UNCHANGED <<st, dead>>
          /\ TRUE = \A i \in 1..Len(Ev.objs) : LET o == st.obj[Ev.objs[i][1]] IN Ev.objs[i][2] = IF o.k = "mg" THEN o.v ELSE Tree(st.heap, o.v)
\* ---- what the program reads
SameImage(a, i) ==
  /\ i.own = i.id /\ i.file = a.file /\ i.psf = a.psf /\ i.w = a.w /\ i.hdu = a.hdu
  /\ a.psf # "" => i.phdu = a.phdu /\ i.norm = a.norm
  /\ a.w # "" => i.whdu = a.whdu /\ (a.cube => i.wlayer = a.wlayer)
  /\ i.gain = a.gain /\ i.sat = a.sat /\ i.fs = a.fs /\ i.wtype = a.wtype /\ i.abs = a.abs /\ i.ws = a.ws
  /\ i.hast = a.hast /\ (a.hast => i.wt = a.wt) /\ i.isbg = a.isbg /\ (a.isbg => i.bg = a.bg)
  /\ i.cube = a.cube /\ (a.cube => i.layer = a.layer)
Conf(s, e) ==
  LET required == TLCEval(Closure(s.par, s.need)) params == Range2(e.params) IN
  /\ e.ok
  /\ {e.images[i].id : i \in 1..Len(e.images)} = s.reg /\ \A i \in 1..Len(e.images) : SameImage(s.im[e.images[i].id], e.images[i])
  /\ Range2(e.apertures) = {<<i, s.aps[i].ap>> : i \in DOMAIN s.aps}
  /\ Range2(e.acols) = OutImages(s) /\ e.cols = s.cols
  /\ required \subseteq params /\ params \subseteq DOMAIN s.par
  /\ Range2(e.consts) = {p \in params : s.par[p].k = "const"} /\ Range2(e.frees) = {p \in params : s.par[p].k = "free"}
  /\ Range2(e.deps) = {<<p, s.par[p].on>> : p \in {q \in params : s.par[q].k = "dep"}}
  /\ Range2(e.models) = {[id |-> m, k |-> s.mod[m].k, args |-> s.mod[m].args] : m \in s.added} /\ Range2(e.known) = s.added
  /\ Range2(e.frames) = {<<f, s.fm[f]>> : f \in DOMAIN s.fm} /\ Range2(e.fitted) = {<<f, Len(s.fm[f])>> : f \in DOMAIN s.fm}
  /\ e.priors = s.pri /\ e.npriors = Len(s.pri)
  /\ e.set = s.set
Configured == /\ IsEv("Conf") /\ TRUE = (dead \/ Conf(st, Ev)) /\ UNCHANGED <<st, dead>>
End == IsEv("End") /\ UNCHANGED <<st, dead>>
TNext == Op \/ Viewed \/ Configured \/ End \/ (l > Len(Evs) /\ UNCHANGED <<c, l, st, dead>>)
TSpec == TInit /\ [][TNext]_<<c, l, st, dead>>
=============================================================================
