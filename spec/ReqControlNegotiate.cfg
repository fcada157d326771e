SPECIFICATION Spec
CONSTANT DigOf <- ModelDig
CONSTANTS
 Ops = {"init", "version", "capability", "algorithm", "digest", "challenge", "vendor"}
 Vary = {132, 225, 227, 254}
 MaxLive = 0
 RspCaps <- Full
 Deep = FALSE
VIEW View
INVARIANT Inv
CHECK_DEADLOCK FALSE
