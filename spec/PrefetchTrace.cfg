SPECIFICATION TSpec
INVARIANT Ordered
