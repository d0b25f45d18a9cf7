------------------------------- MODULE Assoc -------------------------------
(* Association with a catalogue: which objects of the catalogue belong to a detection, what is copied of them,
   and the detections that are made of the catalogue when there is no detection image.
   A catalogue is a sequence of entries [x, y, ra, dec, wt, v, w, h, g]; positions in thousandths of a pixel (from 0). *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
LOCAL INSTANCE TLC
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
RECURSIVE SumOver(_, _)
SumOver(f, S) == IF S = {} THEN 0 ELSE LET i == CHOOSE i \in S : TRUE IN f[i] + SumOver(f, S \ {i})
Abs(n) == IF n < 0 THEN -n ELSE n
Modes == {"FIRST", "NEAREST", "MEAN", "MAG_MEAN", "SUM", "MAG_SUM", "MIN", "MAX"}
\* ---------------------------------------------------------------- the columns of the catalogue
Reserved == {"x", "y", "ra", "dec", "weight", "group_id", "pixel_size", "pixel_half_width", "pixel_half_height"}
\* the column of every line of the file: the one it names, or the one after the line before
RECURSIVE ColumnOf(_, _)
ColumnOf(lines, i) == IF lines[i].col # <<>> THEN lines[i].col[1] ELSE IF i = 1 THEN 1 ELSE ColumnOf(lines, i - 1) + 1
Has(lines, n) == \E i \in 1..Len(lines) : lines[i].name = n
Named(lines, n) == IF Has(lines, n) THEN ColumnOf(lines, CHOOSE i \in 1..Len(lines) : lines[i].name = n) ELSE 0
\* ---------------------------------------------------------------- the match
\* eighths of a pixel, where the positions of catalogue and detections are exact
Eighth(n) == n \div 125
Dist2(e, x, y) == LET dx == Eighth(e.x) - Eighth(x)  dy == Eighth(e.y) - Eighth(y) IN dx * dx + dy * dy
Near(cat, x, y, r) == LET r8 == Eighth(r) IN { i \in 1..Len(cat) : Dist2(cat[i], x, y) < r8 * r8 }
Least(S, f(_)) == { i \in S : \A j \in S : f(i) <= f(j) }
\* the entries the mode can choose from those that are near; none: it combines them
Chosen(mode, cat, N, x, y) ==
  CASE mode = "FIRST" -> LET Id(i) == i IN Least(N, Id)
    [] mode = "NEAREST" -> LET D(i) == Dist2(cat[i], x, y) IN Least(N, D)
    [] mode = "MIN" -> LET W(i) == cat[i].wt IN Least(N, W)
    [] mode = "MAX" -> LET W(i) == -cat[i].wt IN Least(N, W)
    [] OTHER -> {}
Combines(mode) == mode \in {"MEAN", "MAG_MEAN", "SUM", "MAG_SUM"}
\* the weight of an entry, in quarters; as a flux where it is a magnitude (here 0, 2.5 or 5)
Flux(mag) == CASE mag = -2500 -> 1000 [] mag = 0 -> 100 [] mag = 2500 -> 10 [] mag = 5000 -> 1 [] OTHER -> 1
Share(mode, e) == IF mode = "MAG_MEAN" THEN Flux(e.wt) ELSE e.wt \div 250
\* whether v is the mean of column k, in thousandths
IsMean(v, mode, cat, N, k) ==
  LET ws == TLCEval([i \in N |-> Share(mode, cat[i])])
      num == SumOver([i \in N |-> (cat[i].v[k] \div 250) * ws[i]], N)   \* quarters
      den == SumOver(ws, N)
      m == (num * 250) \div den
  IN Abs(v - m) <= 2 + Abs(m) \div 100000
IsSum(v, cat, N, k) == LET s == SumOver([i \in N |-> cat[i].v[k]], N) IN Abs(v - s) <= 1 + Abs(s) \div 100000
\* f: the value as a flux
IsMagSum(f, cat, N, k) == LET s == SumOver([i \in N |-> Flux(cat[i].v[k])], N) IN Abs(f - s) <= 1 + s \div 1000
\* ---------------------------------------------------------------- the part of an image around a position of the catalogue
\* c: position, w: half the size, thousandths; n: size of the image
Needed(c, w, n) == { p \in 0..n - 1 : Abs(p * 1000 - c) <= (w \div 1000) * 1000 }
Covers(lo, hi, c, w, n) ==
  /\ 0 <= lo /\ lo <= hi /\ hi < n
  /\ Needed(c, w, n) \subseteq lo..hi
  /\ lo * 1000 >= c - w - 1000 \/ lo = 0
  /\ hi * 1000 <= c + w + 2000
=============================================================================
