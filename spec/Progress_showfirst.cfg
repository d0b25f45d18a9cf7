SPECIFICATION Spec
CONSTANTS Threads = {1, 2, 3}
 Reports = 2
 ShowFirst = TRUE
 ReadOutside = FALSE
 Split = FALSE
INVARIANTS FinalShown
