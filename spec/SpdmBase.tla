------------------------------ MODULE SpdmBase ------------------------------
(* Constants, encodings and symbolic cryptography shared by all parts of the specification.

   Byte strings are strings of hex digits.  A cryptographic value is a TERM, the string that says how it was
   computed: E<hash>[salt|ikm] (HKDF extract), X<hash>[prk|len|spdm1.x |label|context] (HKDF expand),
   P<hash>[..|hint] (a secret derived from the provisioned pre-shared key), DH<group>[requester key|responder key],
   MAC<hash>[key|digest], SIG[signer|hash|asym|prefix and context|digest].  A digest is whatever DigOf makes of the
   bytes that are hashed: in trace validation a look-up among the hashes the implementation really computed, in
   model checking the injective "H<alg>(bytes)".                                                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT DigOf(_, _, _)

Rng(s) == {s[i] : i \in 1..Len(s)}
Sel(c, a, b) == IF c THEN a ELSE b
L(ok, l) == IF ok THEN {} ELSE {l}                 \* an obligation: violated -> its label
LS(ok, s) == IF ok THEN {} ELSE s
Min(a, b) == IF a < b THEN a ELSE b
Concat(s) == LET F[i \in 0..Len(s)] == IF i = 0 THEN "" ELSE F[i-1] \o s[i] IN F[Len(s)]
Upto(m, k) == IF k <= Len(m) THEN k ELSE Len(m)
Hex(m, n) == SubSeq(m, 1, Upto(m, 2 * n))                   \* the first n bytes of a message
Sub(m, a, n) == SubSeq(m, 2 * a + 1, Upto(m, 2 * (a + n)))   \* n bytes from offset a
Blen(m) == Len(m) \div 2
Bit(l) == IF Len(l) = 0 THEN 0 ELSE IF l[1] > 20 THEN -1 ELSE 2^(l[1])

\* ------------------------------------------------------------------ request and response codes
VERSION == 132  CAPS == 225  ALGS == 227  DIGESTS == 129  CERT == 130  CHALL == 131  MEAS == 224
KEX == 228  FIN == 229  PSKX == 230  PSKF == 231  HBEAT == 232  KUPD == 233  ENCREQ == 234  ENCDEL == 235
ENDS == 236  VEND == 254  RIR == 255
ERROR == 127
Requests == {VERSION, CAPS, ALGS, DIGESTS, CERT, CHALL, MEAS, KEX, FIN, PSKX, PSKF, HBEAT, KUPD, ENCREQ, ENCDEL, ENDS, VEND, RIR}
RspOf(op) == CASE op = VERSION -> 4 [] op = CAPS -> 97 [] op = ALGS -> 99 [] op = DIGESTS -> 1 [] op = CERT -> 2
               [] op = CHALL -> 3 [] op = MEAS -> 96 [] op = KEX -> 100 [] op = FIN -> 101 [] op = PSKX -> 102
               [] op = PSKF -> 103 [] op = HBEAT -> 104 [] op = KUPD -> 105 [] op = ENCREQ -> 106 [] op = ENCDEL -> 107
               [] op = ENDS -> 108 [] op = VEND -> 126 [] OTHER -> -1
\* error codes
EInvalid == 1  EBusy == 3  EUnexpected == 4  EUnspecified == 5  EDecrypt == 6  EUnsupported == 7  EInvRsp == 9
ELimit == 10  ETooLarge == 13  EVersion == 65  ENotReady == 66  EResync == 67  ESessReq == 11

\* ------------------------------------------------------------------ capability bits
qCERT == 1  qCHAL == 2  cENCRYPT == 6  cMAC == 7  cMUT == 8  cKEX == 9  cPSK == 10  cPSKX == 11  cENCAP == 12
cHB == 13  cKUPD == 14  cCLEAR == 15  cPUBKEY == 16
sCERT == 1  sCHAL == 2  sMEASNS == 3  sMEASSIG == 4  sFRESH == 5  sALIAS == 18  sSETCERT == 19  sCSR == 20  sCINST == 21

\* The capability combinations a requester may announce (for the header version v of its request)
ReqCapsOK(v, f, dts, max) ==
  \/ v = 16
  \/ /\ cPSKX \notin f                                                     \* reserved for a requester
     /\ Sel({cKEX, cPSK} \cap f # {}, cMAC \in f, {cMAC, cENCRYPT, cCLEAR, cHB, cKUPD} \cap f = {})
     /\ ~(cPSK \in f /\ cKEX \notin f /\ cCLEAR \in f)
     /\ ~({qCERT, cPUBKEY} \subseteq f)
     /\ Sel({qCERT, cPUBKEY} \cap f # {}, {qCHAL, cKEX} \cap f # {}, {qCHAL, cMUT} \cap f = {})
     /\ (v = 17 /\ cMUT \in f => cENCAP \in f)
     /\ (v >= 18 => dts >= 42 /\ max >= dts)
\* The combinations a responder may announce, as a requester has to judge them
RspCapsOK(v, f, dts, max) ==
  LET meas == {sMEASNS, sMEASSIG} \cap f # {} kx == cKEX \in f pk == {cPSK, cPSKX} \cap f # {} IN
  /\ ~({sMEASNS, sMEASSIG} \subseteq f)
  /\ (sFRESH \in f => meas)
  /\ (v < 17 => Sel(sMEASSIG \in f, sCERT \in f, (sCERT \in f) <=> (sCHAL \in f)))
  /\ (v >= 17 =>
       /\ ~({cPSK, cPSKX} \subseteq f)
       /\ Sel(kx \/ pk, cMAC \in f, {cMAC, cENCRYPT, cCLEAR, cHB, cKUPD} \cap f = {})
       /\ ~(pk /\ ~kx /\ cCLEAR \in f)
       /\ ~({sCERT, cPUBKEY} \subseteq f)
       /\ Sel({sCERT, cPUBKEY} \cap f # {}, {sCHAL, cKEX, sMEASSIG} \cap f # {}, {sCHAL, cKEX, sMEASSIG, cMUT} \cap f = {})
       /\ (v = 17 /\ cMUT \in f => cENCAP \in f))
  /\ (v >= 18 =>
       /\ ({sALIAS, sSETCERT} \cap f # {} => sCERT \in f)
       /\ (sCSR \in f => sSETCERT \in f)
       /\ (sCINST \in f => {sCSR, sSETCERT} \cap f # {})
       /\ dts >= 42 /\ max >= dts)

\* ------------------------------------------------------------------ symbolic cryptography
HSize(h) == CASE h = 1 -> 32 [] h = 2 -> 48 [] h = 4 -> 64 [] OTHER -> 0
ASize(a) == CASE a \in {1, 2} -> 256 [] a \in {4, 8} -> 384 [] a \in {32, 64} -> 512 [] a = 16 -> 64 [] a = 128 -> 96 [] OTHER -> 0
DSize(d) == CASE d = 8 -> 64 [] d = 16 -> 96 [] OTHER -> 0
VerS(v) == CASE v = 16 -> "spdm1.0 " [] v = 17 -> "spdm1.1 " [] v = 18 -> "spdm1.2 " [] OTHER -> "spdm?"
Expand(h, prk, n, v, lab, ctx) == "X" \o ToString(h) \o "[" \o prk \o "|" \o ToString(n) \o "|" \o VerS(v) \o "|" \o lab \o "|" \o ctx \o "]"
Extract(h, salt, ikm) == "E" \o ToString(h) \o "[" \o salt \o "|" \o ikm \o "]"
DhRoot(h, g, qp, sp) == Extract(h, "Z" \o ToString(HSize(h)), "DH" \o ToString(g) \o "[" \o qp \o "|" \o sp \o "]")
PskRoot(h, hint) == "P" \o ToString(h) \o "[pskh|" \o hint \o "]"
PskMaster(h, hint) == "P" \o ToString(h) \o "[pskm|" \o hint \o "]"
HsSecret(h, v, root, d, th1) == Expand(h, root, HSize(h), v, Sel(d = "q", "req hs data", "rsp hs data"), th1)
FinKey(h, v, hs) == Expand(h, hs, HSize(h), v, "finished", "")
MasterOf(h, v, root) == Extract(h, Expand(h, root, HSize(h), v, "derived", ""), "Z" \o ToString(HSize(h)))
AppSecret(h, v, ms, d, th2) == Expand(h, ms, HSize(h), v, Sel(d = "q", "req app data", "rsp app data"), th2)
UpdSecret(h, v, s) == Expand(h, s, HSize(h), v, "traffic upd", "")
Traffic(v, s) == s \o "@" \o VerS(v)               \* identity of the record key and iv derived from a traffic secret
Mac(h, key, dig) == "MAC" \o ToString(h) \o "[" \o key \o "|" \o dig \o "]"
P12 == "dmtf-spdm-v1.2.*"
SignPrefix == P12 \o P12 \o P12 \o P12
Sig(signer, h, a, ctx, dig) == "SIG[" \o signer \o "|" \o ToString(h) \o "|" \o ToString(a) \o "|" \o SignPrefix \o ctx \o "|" \o dig \o "]"
CtxChal == "0000responder-challenge_auth signing"
CtxMeas == "000000responder-measurements signing"
CtxKex == "00responder-key_exchange_rsp signing"
CtxFin == "000000000000requester-finish signing"
=============================================================================
