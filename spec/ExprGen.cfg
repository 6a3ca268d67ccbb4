CONSTANT Depth = 2
INIT Init
NEXT Next
