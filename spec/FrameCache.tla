----------------------------- MODULE FrameCache -----------------------------
(* A frame keeps the interpolated image and variance and the filtered image and variance; every setter drops and rebuilds what
   depends on it.  Inputs are versions; a kept image is the record of the versions it was made from.
   Forget names a setter which does not rebuild (a negative control), or nothing. *)
EXTENDS Integers
CONSTANTS MaxV, Forget
VARIABLES var, vt, limited, bg, filter, interp, filtered
vars == <<var, vt, limited, bg, filter, interp, filtered>>
Interp == [var |-> var, vt |-> vt]
Filtered(i) == [i |-> i, bg |-> bg, filter |-> filter, vt |-> vt]
Init == /\ var = 0 /\ vt = 0 /\ limited \in BOOLEAN /\ bg = 0 /\ filter = 0 /\ interp = Interp /\ filtered = Filtered(Interp)
Rebuild(who, both) == IF Forget = who THEN UNCHANGED <<interp, filtered>>
                      ELSE /\ interp' = (IF both THEN [var |-> var', vt |-> vt'] ELSE interp)
                           /\ filtered' = [i |-> interp', bg |-> bg', filter |-> filter', vt |-> vt']
SetVariance == var < MaxV /\ var' = var + 1 /\ UNCHANGED <<vt, limited, bg, filter>> /\ Rebuild("variance", TRUE)
SetLimit == IF limited THEN vt < MaxV /\ vt' = vt + 1 /\ UNCHANGED <<var, limited, bg, filter>> /\ Rebuild("limit", TRUE)
            ELSE UNCHANGED vars
SetBackground == bg < MaxV /\ bg' = bg + 1 /\ UNCHANGED <<var, vt, limited, filter>> /\ Rebuild("background", FALSE)
SetFilter == filter < MaxV /\ filter' = filter + 1 /\ UNCHANGED <<var, vt, limited, bg>> /\ Rebuild("filter", FALSE)
Next == SetVariance \/ SetLimit \/ SetBackground \/ SetFilter
Spec == Init /\ [][Next]_vars
Current == interp = Interp /\ filtered = Filtered(Interp)
=============================================================================
