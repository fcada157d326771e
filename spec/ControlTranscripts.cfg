SPECIFICATION Spec
CONSTANT DigOf <- ModelDig
CONSTANTS
 Actions = {"VERSION", "CAPS", "ALGS", "DIGESTS", "CERT", "CHALL", "MEAS", "KEX", "FIN", "HBEAT", "VEND", "ENDS"}
 Offers = {"nomut"}
 MaxLive = 1
 Losses = TRUE
 Skip = {}
VIEW View
INVARIANT Inv
CHECK_DEADLOCK FALSE
