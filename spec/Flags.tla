------------------------------- MODULE Flags -------------------------------
(* Flags: sets of named bits.  What the combinations of flags are, what is     *)
(* printed for them, and which flags a source gets from its frames.            *)
EXTENDS Integers, Sequences, FiniteSets
Names == [b \in {0,1,2,3,4,5,6,7,10,11,12,13} |->
  CASE b = 0 -> "BIASED" [] b = 1 -> "BLENDED" [] b = 2 -> "SATURATED" [] b = 3 -> "BOUNDARY" [] b = 4 -> "NEIGHBORS" [] b = 5 -> "OUTSIDE"
    [] b = 6 -> "PARTIAL_FIT" [] b = 7 -> "INSUFFICIENT_DATA" [] b = 10 -> "ERROR" [] b = 11 -> "MEMORY" [] b = 12 -> "BAD_PROJECTION" [] b = 13 -> "DOWNSAMPLED"]
Bit == [b \in 0..30 |-> 2^b]
\* the set a number stands for
Bits(v) == {b \in 0..29 : (v \div Bit[b]) % 2 = 1}
\* the words printed: one per flag
Words(B) == {Names[b] : b \in B}
\* a source's flags in a frame: [w, h, sat, kind (0 rectangle, 1 outside, 2 bad projection), rect, px]
AtBorder(f) == f.kind = 0 /\ (f.rect[1] <= 0 \/ f.rect[2] <= 0 \/ f.rect[3] >= f.w - 1 \/ f.rect[4] >= f.h - 1)
Saturated(f) == f.kind = 0 /\ f.sat > 0 /\ \E x \in f.rect[1]..f.rect[3], y \in f.rect[2]..f.rect[4] : f.px[y * f.w + x + 1] >= f.sat
InFrame(f) == (IF Saturated(f) THEN {2} ELSE {}) \cup (IF AtBorder(f) THEN {3} ELSE {}) \cup (IF f.kind = 2 THEN {12} ELSE {})
\* a group of frames: every flag that one of its frames gives
OfGroup(fs, split) == UNION {InFrame(f) : f \in fs} \cup (IF split /\ fs # {} THEN {1} ELSE {})
\* combinations of the values an external flag image has at a source's pixels (a non empty sequence)
Ran(s) == {s[i] : i \in 1..Len(s)}
Count(s, v) == Cardinality({i \in 1..Len(s) : s[i] = v})
Ext(type, s, flag, count) ==
  CASE type = "OR" -> Bits(flag) = UNION {Bits(v) : v \in Ran(s)} /\ count = Len(s) - Count(s, 0)
    [] type = "AND" -> Bits(flag) = {b \in 0..29 : \A v \in Ran(s) : b \in Bits(v)} /\ count = Len(s)
    [] type = "MIN" -> flag \in Ran(s) /\ (\A v \in Ran(s) : flag <= v) /\ count = Count(s, flag)
    [] type = "MAX" -> flag \in Ran(s) /\ (\A v \in Ran(s) : flag >= v) /\ count = Count(s, flag)
    [] type = "MOST" -> flag \in Ran(s) /\ count = Count(s, flag) /\ \A v \in Ran(s) : Count(s, v) <= count
=============================================================================
