----------------------------- MODULE HilbertLaws -----------------------------
EXTENDS Hilbert
CONSTANT MaxN
VARIABLE n
Init == n = 0
Next == n < MaxN /\ n' = n + 1
Spec == Init /\ [][Next]_n
Visits == AllOnce(Curve(n), 2 ^ n)
Neighbours == Steps(Curve(n))
\* it can be continued: it starts and ends at the ends of one side
Ends == Curve(n)[1] = <<0, 0>> /\ Curve(n)[4 ^ n] = <<2 ^ n - 1, 0>>
=============================================================================
