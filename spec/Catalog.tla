------------------------------- MODULE Catalog -------------------------------
(* The catalogue: which columns a configuration gives, and what the file holds. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
\* a column: [name, p (property), c (which of its values), ix (instance), t (type), unit, desc]
Without(s, n) == SelectSeq(s, LAMBDA col : col.name # n)
The(s, n) == s[CHOOSE i \in 1..Len(s) : s[i].name = n]
\* one column per instance: of every column of the property, or of one of them (which goes to the end)
Instances(s, post, ix) == FlattenSeq([i \in 1..Len(s) |-> [k \in 1..Len(post) |-> [s[i] EXCEPT !.name = @ \o "_" \o post[k], !.ix = ix[k]]]])
InstancesOf(s, n, names, ix) == Without(s, n) \o [k \in 1..Len(names) |-> [The(s, n) EXCEPT !.name = names[k], !.ix = ix[k]]]
\* the properties of a list of aliases (pairs alias, property in the order they were enabled), each once
RECURSIVE Properties(_, _, _)
Properties(al, want, acc) ==
  IF want = <<>> THEN acc
  ELSE Properties(al, Tail(want), acc \o FoldLeft(LAMBDA a, x : IF x[1] = Head(want) /\ ~Contains(acc, x[2]) /\ ~Contains(a, x[2]) THEN Append(a, x[2]) ELSE a, <<>>, al))
Columns(cols, al, want) == LET ps == Properties(al, want, <<>>) IN FlattenSeq([i \in 1..Len(ps) |-> cols[ps[i]]])
Described(s) == [i \in 1..Len(s) |-> <<s[i].name, s[i].t, s[i].unit, s[i].desc>>]
Cell(col, tag) == (((tag * 10) + col.ix) * 100) + ((col.p - 1) * 10) + col.c
RowOf(s, tag) == [i \in 1..Len(s) |-> Cell(s[i], tag)]
=============================================================================
