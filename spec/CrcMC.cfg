SPECIFICATION Spec
CONSTANTS
 Alphabet = {0, 1, 127, 255}
 MaxLen = 4
INVARIANTS IncrementalIsWhole SplitAnywhere Linear DetectsOneBit OemAgrees
