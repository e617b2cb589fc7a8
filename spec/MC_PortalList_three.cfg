INIT Init
NEXT Next
CONSTANTS
 Adders <- Three
 Takers = {1}
 Cap = 2
 Room <- R111
 Takes = 2
 Variant = "ok"
 Begin = 0
INVARIANTS Counted Filled NeverVain RefusedFull Once InRange NoStuck
CHECK_DEADLOCK FALSE
