SPECIFICATION Spec
CONSTANT DigOf <- ModelDig
CONSTANTS
 Actions = {"VERSION", "CAPS", "ALGS", "KEX", "PSKX", "FIN", "PSKF", "HBEAT", "KUPD", "ENDS", "ENCREQ", "APP"}
 Offers = {"nomut"}
 MaxLive = 2
 Losses = FALSE
 Skip = {}
VIEW View
INVARIANT Inv
CHECK_DEADLOCK FALSE
