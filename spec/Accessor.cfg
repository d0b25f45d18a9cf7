CONSTANTS MaxN = 5
 MaxR = 4
SPECIFICATION Spec
INVARIANT Serves
