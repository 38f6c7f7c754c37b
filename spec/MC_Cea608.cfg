SPECIFICATION Spec
CONSTANTS
  MaxLen = 4
  Alphabet = {"rcl", "ru2", "ru3", "rdc", "edm", "cr", "enm", "eoc", "bs", "p15", "p14i", "p1", "tab", "mid", "spc", "ext", "chr"}
INVARIANTS Doubling Window BaseRow Conserved Hidden Ordered Grouped
CHECK_DEADLOCK FALSE
