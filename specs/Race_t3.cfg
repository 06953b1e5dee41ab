SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2, 3}
  Lengths = {2}
  Kept = {FALSE}
  MaxOps = 1
  Ops = {"pop", "clone", "reverse"}
  NodeDrop = TRUE
  Emit = FALSE
INVARIANTS Fine Shows KeptShows Released Bounded
CHECK_DEADLOCK FALSE
