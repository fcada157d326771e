SPECIFICATION Spec
CONSTANT DigOf <- ModelDig
CONSTANTS
 Ops = {"init", "certificate", "kex", "psk", "finish", "pskfinish", "heartbeat", "keyupdate", "end", "vendor", "appsend", "apprecv"}
 Vary = {228, 229, 230, 231, 232, 233, 236, 254}
 MaxLive = 1
 RspCaps <- Full
 Deep = FALSE
VIEW View
INVARIANT Inv
CHECK_DEADLOCK FALSE
