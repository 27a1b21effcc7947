SPECIFICATION Spec
INVARIANT Out
CONSTANTS Len0 = 24
 MaxSeg = 3
