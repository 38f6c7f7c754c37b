SPECIFICATION Spec
CONSTANTS
  MaxLen = 7
  Alphabet = {"ru2", "ru3", "cr", "chr", "p14i", "bs", "ext"}
INVARIANTS Doubling Window BaseRow Conserved Hidden Ordered Grouped
CHECK_DEADLOCK FALSE
