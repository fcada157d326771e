SPECIFICATION Spec
CONSTANT DigOf <- ModelDig
CONSTANTS
 Actions = {"VERSION", "CAPS", "ALGS", "KEX", "PSKX", "FIN", "PSKF", "ENDS", "HBEAT"}
 Offers = {"clearnm"}
 MaxLive = 2
 Losses = FALSE
 Skip = {"flags", "order"}
VIEW View
INVARIANT Inv
CHECK_DEADLOCK FALSE
