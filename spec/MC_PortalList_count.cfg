INIT Init
NEXT Next
CONSTANTS
 Adders <- One
 Takers = {1,2}
 Cap = 3
 Room <- R111
 Takes = 2
 Variant = "count"
 Begin = 2
INVARIANTS Counted Filled NeverVain RefusedFull Once InRange NoStuck
CHECK_DEADLOCK FALSE
