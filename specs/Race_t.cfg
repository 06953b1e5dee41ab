SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2}
  Lengths = {3}
  Kept = {TRUE, FALSE}
  MaxOps = 2
  Ops = {"pop", "push", "clone", "reverse"}
  NodeDrop = TRUE
  Emit = FALSE
INVARIANTS Fine Shows KeptShows Released Bounded
CHECK_DEADLOCK FALSE
