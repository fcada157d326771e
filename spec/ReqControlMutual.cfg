SPECIFICATION Spec
CONSTANT DigOf <- ModelDig
CONSTANTS
 Ops = {"init", "certificate", "kex", "start", "mutauth", "finish", "end"}
 Vary = {228, 229, 234, 235}
 MaxLive = 1
 RspCaps <- Full
 Deep = FALSE
VIEW View
INVARIANT Inv
CHECK_DEADLOCK FALSE
