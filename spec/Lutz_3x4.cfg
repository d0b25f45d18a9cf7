SPECIFICATION Spec
CONSTANTS W = 3 H = 4
INVARIANTS ExactlyTheComponents Published NothingTwice StacksBalanced Once
