SPECIFICATION Spec
CONSTANT DigOf <- ModelDig
CONSTANTS
 Ops = {"init", "certificate", "kex", "psk", "finish", "pskfinish", "keyupdate", "end", "appsend", "apprecv"}
 Vary = {229}
 MaxLive = 2
 RspCaps <- Full
 Deep = FALSE
VIEW View
INVARIANT Inv
CHECK_DEADLOCK FALSE
