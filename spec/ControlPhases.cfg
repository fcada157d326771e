SPECIFICATION Spec
CONSTANT DigOf <- ModelDig
CONSTANTS
 Actions = {"VERSION", "CAPS", "ALGS", "DIGESTS", "CERT", "CHALL", "MEAS", "KEX", "PSKX", "FIN", "PSKF", "HBEAT", "KUPD", "ENDS", "VEND", "ENCREQ", "ENCDEL", "RIR", "ODD"}
 Offers = {"v10", "v11", "nomut"}
 MaxLive = 0
 Losses = FALSE
 Skip = {}
VIEW View
INVARIANT Inv
CHECK_DEADLOCK FALSE
