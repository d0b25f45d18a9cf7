CONSTANT Missing = {2}
SPECIFICATION Spec
INVARIANT Printable
