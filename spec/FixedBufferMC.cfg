SPECIFICATION Spec
CONSTANTS
 Cap = 4
 Vals = {1, 2}
VIEW View
INVARIANTS Refines InBounds NoOverlap
