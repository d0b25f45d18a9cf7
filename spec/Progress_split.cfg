SPECIFICATION Spec
CONSTANTS Threads = {1, 2, 3}
 Reports = 2
 ShowFirst = FALSE
 ReadOutside = FALSE
 Split = TRUE
INVARIANTS FinalShown
