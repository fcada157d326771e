SPECIFICATION Spec
CONSTANT DigOf <- ModelDig
CONSTANTS
 Ops = {"init", "certificate", "start", "psk", "end", "digest", "measurement"}
 Vary = {228, 230, 229, 231}
 MaxLive = 1
 RspCaps <- Plain
 Deep = FALSE
VIEW View
INVARIANT Inv
CHECK_DEADLOCK FALSE
