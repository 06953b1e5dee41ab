SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2, 3}
  Lengths = {3}
  Kept = {FALSE}
  MaxOps = 0
  Ops = {"pop"}
  NodeDrop = TRUE
  Emit = TRUE
INVARIANTS Fine Shows KeptShows Released Bounded
CHECK_DEADLOCK FALSE
