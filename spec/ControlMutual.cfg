SPECIFICATION Spec
CONSTANT DigOf <- ModelDig
CONSTANTS
 Actions = {"VERSION", "CAPS", "ALGS", "CERT", "KEX", "FIN", "ENCREQ", "ENCDEL", "ENDS", "HBEAT"}
 Offers = {"full"}
 MaxLive = 1
 Losses = FALSE
 Skip = {"ms", "novers", "slot", "flags", "order", "ver", "off", "sum"}
VIEW View
INVARIANT Inv
CHECK_DEADLOCK FALSE
