CONSTANTS
  Good = {"g1", "g2"}
  Warned = {}
  Faulty = {"f1"}
  Texts = {"t1"}
  Imports = {"both"}
SPECIFICATION Spec
PROPERTY Preserved
INVARIANT Stable Lazy
CHECK_DEADLOCK FALSE
