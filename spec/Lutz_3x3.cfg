SPECIFICATION Spec
CONSTANTS W = 3 H = 3
INVARIANTS ExactlyTheComponents Published NothingTwice StacksBalanced Once
