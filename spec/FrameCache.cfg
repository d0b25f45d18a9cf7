CONSTANTS MaxV = 3
 Forget = "nothing"
SPECIFICATION Spec
INVARIANT Current
