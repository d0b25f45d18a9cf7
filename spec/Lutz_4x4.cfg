SPECIFICATION Spec
CONSTANTS W = 4 H = 4
INVARIANTS ExactlyTheComponents Published NothingTwice StacksBalanced Once
