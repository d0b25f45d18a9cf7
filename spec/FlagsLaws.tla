----------------------------- MODULE FlagsLaws -----------------------------
(* The loop that prints flags, for every combination of them: it writes each   *)
(* flag that is set once, and finds a name for it.  With a name missing from   *)
(* the table (as SATURATED was) some combinations cannot be printed.           *)
EXTENDS Flags
CONSTANT Missing     \* bits without a name in the table
VARIABLES v, i, out, failed
vars == <<v, i, out, failed>>
Defined == DOMAIN Names
Sum(B) == LET S[k \in 0..14] == IF k = 0 THEN 0 ELSE S[k-1] + (IF (k-1) \in B THEN Bit[k-1] ELSE 0) IN S[14]
Init == /\ v \in {Sum(B) : B \in SUBSET Defined} /\ i = 1 /\ out = <<>> /\ failed = FALSE
Sentinel == Bit[14]
BitOf(n) == CHOOSE b \in 0..14 : Bit[b] = n
Step == /\ i < Sentinel /\ ~failed /\ i' = i * 2 /\ UNCHANGED v
        /\ IF (v \div i) % 2 = 0 THEN UNCHANGED <<out, failed>>
           ELSE IF BitOf(i) \in Defined \ Missing THEN out' = Append(out, Names[BitOf(i)]) /\ UNCHANGED failed
           ELSE failed' = TRUE /\ UNCHANGED out
Next == Step \/ ((i >= Sentinel \/ failed) /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
Printable == ~failed
Complete == i = Sentinel => /\ Len(out) = Cardinality(Bits(v)) /\ Ran(out) = Words(Bits(v))
Invertible == Sum(Bits(v)) = v
=============================================================================
