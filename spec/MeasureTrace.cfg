SPECIFICATION TSpec
INVARIANT Unique
