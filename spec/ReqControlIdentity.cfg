SPECIFICATION Spec
CONSTANT DigOf <- ModelDig
CONSTANTS
 Ops = {"init", "version", "digest", "certificate", "challenge", "measurement"}
 Vary = {129, 130, 131, 224}
 MaxLive = 0
 RspCaps <- Full
 Deep = FALSE
VIEW View
INVARIANT Inv
CHECK_DEADLOCK FALSE
