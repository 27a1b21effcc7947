SPECIFICATION SpecT
INVARIANT OutT
CONSTANTS Len0 = 4
 MaxSeg = 2
