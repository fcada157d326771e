import subprocess
F = [("C07", "advance a record", "a refused record consumed a sequence number"), ("C15", "do not interpret application data", "application bytes that look like a response changed session state"),
 ("C15", "dispatch application messages", "application data reached the handler before the session was established"), ("C09", "a failed session set-up", "a failed KEY_EXCHANGE/PSK_EXCHANGE left its session behind"),
 ("C22", "an error response replaces", "an error was appended to a partially built success response"), ("C21", "randomise the PSK context", "the PSK context was a constant"),
 ("C13", "fill in the digest", "DIGESTS left the digests of all slots but the first empty"), ("C06", "sign KEY_EXCHANGE_RSP", "the signature was missing when the handshake is in the clear"),
 ("C14", "refuse encapsulated requests", "encapsulated requests were processed after the capability/state refusal was written"), ("C12", "rebuild the certificate chain header", "the chain kept the root hash of an earlier negotiation's hash algorithm"),
 ("C04", "refused capability and algorithm", "a refused GET_CAPABILITIES/NEGOTIATE_ALGORITHMS left its parameters and transcript"), ("C11", "measurements that are not answered", "a refused GET_MEASUREMENTS stayed in the transcript"),
 ("C10", "a failed CHALLENGE", "a refused CHALLENGE stayed in the transcript"), ("C12", "refused GET_CERTIFICATE", "refused GET_CERTIFICATE/GET_DIGESTS stayed in the transcript; slots above 0 not served"),
 ("C08", "a failed key update derivation", "a failed derivation was answered as success"), ("C17", "a vendor-defined length", "a vendor-defined length beyond the buffer panicked"),
 ("C10", "CHALLENGE_AUTH reports", "the slot mask was a constant"), ("C11", "report a total of one", "a total of one measurement was reported as zero"),
 ("C23", "a measurement response that could not", "an unsent measurement response stayed in the transcript"), ("C22", "keep a transcript context only", "a transcript context that could not be seeded was kept"),
 ("C17", "refuse requests that need an algorithm", "a request needing an algorithm that was not negotiated panicked"), ("C24", "the DMTF specification id", "no secured-message version was ever selected below SPDM 1.2"),
 ("C22", "running out of hash contexts", "cloning a hash context panicked when the backend has none left")]
log = [l.split(" ", 1) for l in subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h %s"], text=True).splitlines()]
import os
extra = open("/verif/tools/findings_extra").read() if os.path.exists("/verif/tools/findings_extra") else ""
with open("/verif/known_findings", "w") as f:
    for p, k, w in F + [tuple(l.split("|")) for l in extra.splitlines() if l and not l.startswith("known:")]:
        h = [a for a, b in log if k in b]; assert len(h) == 1, (k, h)
        f.write("fixed: property=%s %s %s\n" % (p, h[0], w))
    for l in extra.splitlines():
        if l.startswith("known:"): f.write(l + "\n")
