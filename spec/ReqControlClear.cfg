SPECIFICATION Spec
CONSTANT DigOf <- ModelDig
CONSTANTS
 Ops = {"init", "certificate", "kex", "start", "finish", "psk", "pskfinish", "heartbeat", "end"}
 Vary = {228, 230, 229, 231, 236}
 MaxLive = 1
 RspCaps <- InClear
 Deep = FALSE
VIEW View
INVARIANT Inv
CHECK_DEADLOCK FALSE
