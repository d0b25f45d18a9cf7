CONSTANTS MaxV = 3
 Forget = "background"
SPECIFICATION Spec
INVARIANT Current
