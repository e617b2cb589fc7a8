INIT Init
NEXT Next
CONSTANTS
 Adders <- Two
 Takers = {1,2}
 Cap = 3
 Room <- R122
 Takes = 2
 Variant = "ok"
 Begin = 1
INVARIANTS Counted Filled NeverVain RefusedFull Once InRange NoStuck
CHECK_DEADLOCK FALSE
