SPECIFICATION Spec
CONSTANTS W = 5 H = 3
INVARIANTS ExactlyTheComponents Published NothingTwice StacksBalanced Once
