SPECIFICATION Spec
CONSTANTS W = 4 H = 3
INVARIANTS ExactlyTheComponents Published NothingTwice StacksBalanced Once
