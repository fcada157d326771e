----------------------------- MODULE Requester -----------------------------
(* The requester: what each of its operations sends, which answers it may take for success, what it reports and what
   every outcome does to its state.

   C   the provisioned configuration     st  the state     e  one call of an operation: e.op and its arguments e.a, the
   exchanges e.ex (each: the frame sent s, could it not be sent lost, was an answer received got, the answer r), the
   faults injected, what the operation returned (e.ret, e.val) and the state reported afterwards (e.post).
   Outcome(C, st, e) = [l |-> labels of violated obligations, st |-> state afterwards].

   Transcripts whose content an earlier failure leaves open (BC, M, F) are sets of the possible contents.            *)
EXTENDS SpdmBase

NoNeg == [ver |-> 16, rqc |-> {}, rsc |-> {}, rqct |-> 0, rsct |-> 0, mspec |-> 0, mhash |-> 0, hash |-> 0, asym |-> 0,
          dhe |-> 0, aead |-> 0, rasym |-> 0, ks |-> 0, opq |-> 0, rqdts |-> 0, rqmax |-> 0, rsdts |-> 0, rsmax |-> 0]
NoPeer == [i \in 0..7 |-> ""]
\* ph: 0 nothing negotiated, 1 version, 2 capabilities, 3 algorithms, -1 an earlier negotiation step failed, -2 the caller
\* skipped or repeated a negotiation step: nothing is judged until the next VERSION
InitSt == [ph |-> 0, n |-> NoNeg, A |-> "", BC |-> {""}, M |-> {""}, sess |-> <<>>, peer |-> NoPeer, used |-> {}, pairs |-> {},
           lslot |-> 0, made |-> FALSE, last |-> ""]
MaxSess == 4
OfferedSec == {16, 17}
MaxChain == 4096

Both(n, b) == b \in n.rqc /\ b \in n.rsc
Clear(n) == Both(n, cCLEAR)
ChainOK(C, n, c) == c # "" /\ c \in DOMAIN C.qch /\ C.qch[c].ok[ToString(n.hash)]
PeerHash(C, n, c) == C.qch[c].h[ToString(n.hash)]
Signer(C, c) == C.qch[c].tag
Own(C, n, s) == IF s \in Rng(C.slots) THEN C.ch[ToString(s)][ToString(n.hash)] ELSE ""
OwnChain(C, n, s) == C.chain[ToString(s)][ToString(n.hash)]
D(C, st, s) == DigOf(C, st.n.hash, s)

NewSess(psk, mut, slot, rch, K, hsq, hss, root, ms, hb, secver) ==
  [est |-> FALSE, psk |-> psk, mut |-> mut, slot |-> slot, rch |-> rch, K |-> K, F |-> {""}, M |-> {""},
   hsq |-> hsq, hss |-> hss, root |-> root, ms |-> ms, Sq |-> hsq, Ss |-> hss, nq |-> 0, ns |-> 0, hb |-> hb, secver |-> secver, unk |-> FALSE]
Establish(C, st, x, f, qh) == LET n == st.n th2 == D(C, st, st.A \o x.rch \o x.K \o qh \o f) IN
  [x EXCEPT !.est = TRUE, !.F = {f}, !.Sq = AppSecret(n.hash, n.ver, x.ms, "q", th2), !.Ss = AppSecret(n.hash, n.ver, x.ms, "s", th2), !.nq = 0, !.ns = 0]
Updated(n, x, kop) ==
  LET u == UpdSecret(n.hash, n.ver, x.Sq) w == UpdSecret(n.hash, n.ver, x.Ss) IN
  IF kop = 1 THEN [x EXCEPT !.Sq = u, !.nq = 0]
  ELSE IF kop = 2 THEN [x EXCEPT !.Sq = u, !.nq = 0, !.Ss = w, !.ns = 0] ELSE x
Live(st, sid) == sid \in DOMAIN st.sess
Drop(st, sid) == [st EXCEPT !.sess = [s \in DOMAIN @ \ {sid} |-> @[s]]]
Fresh(st, e, v) == v # "" /\ v \in Rng(e.rands) /\ v \notin st.used

PropOf(op) == CASE op = VERSION -> "C03" [] op \in {CAPS, ALGS} -> "C04" [] op = DIGESTS -> "C13" [] op = CERT -> "C12"
                [] op = CHALL -> "C10" [] op = MEAS -> "C11" [] op = KEX -> "C06" [] op = FIN -> "C05"
                [] op \in {PSKX, PSKF} -> "C20" [] op = KUPD -> "C08" [] op \in {ENCREQ, ENCDEL} -> "C14"
                [] op = ENDS -> "C09" [] op \in {VEND, 0} -> "C15" [] OTHER -> "C07"

\* ------------------------------------------------------------------ operations
\* the request an operation begins with (0: application data)
First(C, st, e) == CASE e.op \in {"version", "init"} -> VERSION [] e.op = "capability" -> CAPS [] e.op = "algorithm" -> ALGS
    [] e.op = "digest" -> DIGESTS [] e.op = "certificate" -> CERT [] e.op = "challenge" -> CHALL [] e.op = "measurement" -> MEAS
    [] e.op = "kex" -> KEX [] e.op = "psk" -> PSKX [] e.op = "finish" -> FIN [] e.op = "pskfinish" -> PSKF
    [] e.op = "start" -> IF e.a.usepsk THEN PSKX ELSE KEX [] e.op = "heartbeat" -> HBEAT [] e.op = "keyupdate" -> KUPD
    [] e.op = "end" -> ENDS [] e.op = "vendor" -> VEND
    [] e.op = "mutauth" -> IF 2 \in st.sess[e.a.sid].mut THEN ENCDEL ELSE IF 1 \in st.sess[e.a.sid].mut THEN ENCREQ ELSE -1
    [] OTHER -> 0
InSession(op) == op \in {FIN, PSKF, HBEAT, KUPD, ENDS, ENCREQ, ENCDEL}
\* May this request be made at all?  "go": it has to be sent, "no": it must not be, "any": either
MayAsk(C, st, e, k, sid) == LET n == st.n IN
  IF (k = DIGESTS /\ st.ph < 3) \/ (k \in {CERT, CHALL, MEAS, KEX, PSKX} /\ st.ph < 3) \/ (k = CAPS /\ st.ph # 1) \/ (k = ALGS /\ st.ph # 2) THEN "any"
  ELSE IF sid # "" /\ ~Live(st, sid) THEN "no"
  ELSE IF sid # "" /\ st.sess[sid].unk THEN "any"
  ELSE IF sid # "" /\ st.sess[sid].nq = -1 /\ ~(k = FIN /\ Clear(n)) THEN "no"        \* no record number is left
  ELSE IF k \in {CERT, CHALL, MEAS, KEX} /\ e.a.slot > 7 THEN "no"
  ELSE IF k \in {CHALL, MEAS, KEX, FIN} /\ n.asym = 0 THEN "any"
  ELSE IF k \in {KEX, PSKX} THEN
       IF Cardinality(DOMAIN st.sess) >= MaxSess THEN "no"
       ELSE IF n.ver < 17 \/ (n.ver >= 18 /\ n.opq # 2) \/ (k = KEX /\ n.dhe = 0) \/ n.aead = 0 THEN "any" ELSE "go"
  ELSE IF k = KUPD /\ e.a.kop \notin {1, 2} THEN "no"
  ELSE IF k \in {HBEAT, KUPD, ENDS} /\ ~st.sess[sid].est THEN "any"
  ELSE IF k \in {FIN, PSKF} /\ (st.sess[sid].est \/ (k = PSKF) # st.sess[sid].psk) THEN "any"
  ELSE IF k = FIN /\ e.op = "finish" /\ e.a.rslot >= 0 /\ e.a.rslot \notin Rng(C.slots) THEN "no"
  ELSE IF k = FIN /\ ~st.made /\ (st.sess[sid].mut # {} \/ (e.op = "finish" /\ e.a.rslot >= 0)) THEN "any"    \* its own chain was not prepared
  ELSE IF k = FIN /\ st.sess[sid].mut # {} /\ (n.ver < 18 \/ st.lslot \notin Rng(C.slots)) THEN "any"
  ELSE IF k \in {ENCREQ, ENCDEL} THEN Sel(Both(n, cENCAP) /\ n.ver >= 17 /\ Cardinality(st.sess[sid].mut) = 1, "go", "no")
  ELSE "go"
ReqLen(C, st, e, k, sid) == LET n == st.n hs == HSize(n.hash) mo == Sel(n.ver >= 18, 12, 16) IN
  CASE k = VERSION -> 4 [] k = CAPS -> IF n.ver >= 18 THEN 20 ELSE IF n.ver = 17 THEN 12 ELSE 4
    [] k = ALGS -> IF n.ver >= 17 THEN 48 ELSE 32 [] k = CERT -> 8 [] k = CHALL -> 36
    [] k = MEAS -> IF 0 \in Rng(e.a.atb) THEN IF n.ver >= 17 THEN 37 ELSE 36 ELSE 4
    [] k = KEX -> 42 + DSize(n.dhe) + mo + 4 [] k = PSKX -> 12 + Blen(e.a.hint) + hs + mo + 4
    [] k = FIN -> 4 + hs + Sel(sid # "" /\ Live(st, sid) /\ st.sess[sid].mut # {}, ASize(n.rasym), 0) [] k = PSKF -> 4 + hs
    [] k = VEND -> 9 + Blen(e.a.data) [] OTHER -> 4

\* ------------------------------------------------------------------ what sending a request does to the transcripts
DropM(st, sid) == IF sid = "" THEN [st EXCEPT !.M = {""}] ELSE IF Live(st, sid) THEN [st EXCEPT !.sess[sid].M = {""}] ELSE st
ClearsBC == {MEAS, KEX, FIN, PSKX, PSKF, KUPD, HBEAT, ENDS}
Resets(st, sid, k) ==
  LET a == IF k # MEAS THEN DropM(st, sid) ELSE st IN
  IF k = DIGESTS \/ (k \in ClearsBC /\ st.ph < 6) THEN [a EXCEPT !.BC = {""}] ELSE a

\* ------------------------------------------------------------------ the request
\* certificate portions collected so far: R.t (hex) and the announced total R.z (-1: not known)
Want(R) == IF R.z = -1 THEN 0 ELSE R.z - Blen(R.t)
QFin(C, st, x, qh, f, s) == LET d == s.d n == st.n h0 == f \o Hex(s.m, 4) IN
  /\ d.vdt = Mac(n.hash, FinKey(n.hash, n.ver, x.hsq), D(C, st, st.A \o x.rch \o x.K \o qh \o h0 \o d.sig))
FinSig(C, st, x, qh, f, s, asym) == s.d.sigt = Sig("REQLEAF0", st.n.hash, asym, CtxFin, D(C, st, st.A \o x.rch \o x.K \o qh \o f \o Hex(s.m, 4)))
\* the answer to an encapsulated request q (decoded), given as message bytes i (decoded)
EncAnswer(C, st, q, qm, i, flt) == LET n == st.n sl == C.slots IN
  IF q.op = DIGESTS /\ q.ver = n.ver /\ q.wf /\ qCERT \in n.rqc THEN
     IF i.op = ERROR THEN L(flt, "C14.refused") ELSE L(i.op = 1 /\ i.wf /\ i.ver = n.ver, "C14.answer")
       \cup LS(i.op = 1 => Rng(i.mask) = Rng(sl) /\ i.digs = [j \in 1..Len(sl) |-> Own(C, n, sl[j])], {"C14.digest"})
  ELSE IF q.op = CERT /\ q.ver = n.ver /\ q.wf /\ qCERT \in n.rqc /\ q.slot \in Rng(sl) /\ (q.slot = 0 \/ i.op = 2) /\ q.off < Blen(OwnChain(C, n, q.slot)) /\ q.len > 0 THEN
     LET c == OwnChain(C, n, q.slot) want == Min(q.len, Min(512, Blen(c) - q.off)) IN
     IF i.op = ERROR THEN L(flt, "C14.refused") ELSE L(i.op = 2 /\ i.wf /\ i.ver = n.ver, "C14.answer")
       \cup LS(i.op = 2 => i.slot = q.slot /\ i.plen > 0 /\ i.plen <= q.len /\ i.data = Sub(c, q.off, i.plen) /\ i.rem = Blen(c) - q.off - i.plen, {"C14.certificate"})
  ELSE IF q.op = CERT /\ q.ver = n.ver /\ q.wf /\ qCERT \in n.rqc /\ q.slot \in Rng(sl) /\ i.op = 2 THEN
     LET c == OwnChain(C, n, q.slot) IN LS(i.slot = q.slot /\ i.plen <= q.len /\ i.data = Sub(c, q.off, i.plen), {"C14.certificate"})
  ELSE L(i.op = ERROR /\ i.wf /\ i.ver = n.ver, "C14.error")

SentLabels(C, st, R, e, s, k, sid) ==
  LET n == st.n d == s.d p == PropOf(k)
      x == st.sess[sid]
      insec == sid # "" /\ ~(k = FIN /\ Clear(n))
      chan == IF ~insec THEN L(s.k = "plain", p \o ".channel")
              ELSE L(s.k = "sec" /\ s.auth /\ s.sid = sid /\ s.S = Traffic(n.ver, x.Sq) /\ s.alg = n.aead, p \o ".channel")
                   \cup LS(s.k = "sec" /\ s.auth => s.S = Traffic(n.ver, x.Sq), {"C06.key"} \cup Sel(k = KUPD, {"C08.key"}, {}))
                   \cup L(s.k = "sec" /\ s.auth => s.seq = x.nq /\ s.hseq, "C07.number") \cup L(~s.app, "C15.kind")
                   \cup L(s.k = "sec" /\ s.auth => (s.S \o "#" \o ToString(s.seq)) \notin st.pairs, "C07.reuse")
      readable == s.k = "plain" \/ (s.k = "sec" /\ s.auth)
  IN IF ~readable THEN chan
     ELSE IF d.op # k THEN chan \cup {p \o ".kind"}
     ELSE chan \cup L(s.exact, "C25.frame") \cup L(d.ver = (IF k = VERSION THEN 16 ELSE n.ver), "C02.header")
     \cup L(d.wf /\ (k = ENCDEL \/ d.used = s.mlen), p \o ".form")
     \cup L(n.rsdts # 0 /\ k # VERSION => s.mlen <= n.rsdts, "C16.size")
     \cup (IF ~d.wf THEN {} ELSE CASE
          k = CAPS -> L(Rng(d.flags) = Sel(n.ver >= 17, Rng(C.reqcaps), {}) /\ (n.ver >= 17 => d.ct = C.rqct), "C04.offer")
                      \cup L(n.ver >= 18 => d.dts = C.dts /\ d.max = C.max, "C04.sizes")
       [] k = ALGS -> L(Rng(d.mspec) = Rng(C.mspecb) /\ (n.ver >= 18 => Rng(d.opq) = Rng(C.opq)) /\ Rng(d.asym) = Rng(C.asym) /\ Rng(d.hash) = Rng(C.hash), "C04.offer")
                      \cup L(d.exta = 0 /\ d.exth = 0 /\ d.len = s.mlen, "C04.form")
                      \cup LS(n.ver >= 17 => /\ Len(d.st) = 4 /\ (\A j \in 1..4 : d.st[j].t = j + 1 /\ d.st[j].n = 32)
                                             /\ Rng(d.st[1].a) = Rng(C.dhe) /\ Rng(d.st[2].a) = Rng(C.aead) /\ Rng(d.st[3].a) = Rng(C.rasym) /\ Rng(d.st[4].a) = Rng(C.ks), {"C04.offer"})
       [] k = CERT -> L(d.slot = e.a.slot, "C12.slot") \cup L(d.off = Blen(R.t), "C12.offset") \cup L(d.len > 0 /\ (R.z # -1 => d.len <= Want(R)), "C12.length")
       [] k = CHALL -> L(d.slot = e.a.slot /\ d.ms = e.a.msum, "C10.request") \cup L(Fresh(st, e, d.nonce), "C21.nonce")
       [] k = MEAS -> L(d.mop = e.a.mop /\ d.atb = e.a.atb /\ (0 \in Rng(e.a.atb) /\ n.ver >= 17 => d.slot = e.a.slot), "C11.request")
                      \cup L(0 \in Rng(d.atb) => Fresh(st, e, d.nonce), "C21.nonce")
       [] k = KEX -> L(d.slot = e.a.slot /\ d.ms = e.a.msum, "C06.request") \cup L(Fresh(st, e, d.rnd), "C21.random")
                     \cup L(d.exch \in Rng(e.pubs) /\ d.exch \notin st.used, "C21.key") \cup L(d.oplist /\ Rng(d.opvers) = OfferedSec, "C24.offer")
                     \cup L(\A q \in DOMAIN st.sess : Sub(q, 2, 2) # d.rsid, "C09.unique")
       [] k = PSKX -> L(d.hint = e.a.hint /\ d.ms = e.a.msum, "C20.request") \cup L(Fresh(st, e, d.ctx) \/ (\E v \in Rng(e.rands) : d.ctx = Hex(v, Blen(d.ctx)) /\ Blen(d.ctx) >= 32 /\ d.ctx \notin st.used), "C21.context")
                      \cup L(d.oplist /\ Rng(d.opvers) = OfferedSec, "C24.offer") \cup L(\A q \in DOMAIN st.sess : Sub(q, 2, 2) # d.rsid, "C09.unique")
       [] k = FIN -> LET m == x.mut # {} qh == IF m THEN Own(C, n, st.lslot) ELSE "" IN
            IF x.unk \/ x.psk \/ (m /\ ~st.made) THEN {} ELSE L((0 \in Rng(d.atb)) = m /\ Rng(d.atb) \subseteq {0}, "C14.signed") \cup L(d.slot = (IF e.op = "finish" THEN Sel(e.a.rslot >= 0, e.a.rslot, 0) ELSE Sel(m, st.lslot, 0)), "C14.slot")
            \cup LS(\E f \in x.F : QFin(C, st, x, qh, f, s), {"C06.finish", "C05.proof"})
            \cup LS(m => \E f \in x.F : FinSig(C, st, x, qh, f, s, n.rasym) \/ FinSig(C, st, x, qh, f, s, n.asym), {"C14.signature", "C06.signature"})
            \cup LS(m => \/ n.asym = n.rasym \/ ~(\E f \in x.F : FinSig(C, st, x, qh, f, s, n.asym)), {"C14.finalgo"})
       [] k = PSKF -> LS(x.unk \/ ~x.psk \/ \E f \in x.F : QFin(C, st, x, "", f, s), {"C06.finish", "C20.proof"})
       [] k = KUPD -> L(d.kop = Sel(R.i = 1, e.a.kop, 3), "C08.request")
       [] k = ENDS -> L(d.attr = 0, "C09.request")
       [] k = VEND -> L(d.pay = e.a.data, "C15.payload")
       [] k = ENCDEL -> L(d.rid = R.rid, "C14.rid") \cup EncAnswer(C, st, R.enc, R.encm, d.inn, e.fault # "")
       [] OTHER -> {})
\* the state once the request left (or could not be sent)
Sent(st, e, s, k, sid) ==
  LET d == s.d insec == s.k = "sec" /\ s.auth /\ sid # "" /\ Live(st, sid)
      a == IF insec THEN [st EXCEPT !.sess[sid].nq = @ + 1, !.pairs = @ \cup {s.S \o "#" \o ToString(s.seq)}] ELSE st
      u == IF (s.k = "plain" \/ s.auth) /\ d.op = k /\ d.wf THEN CASE k = CHALL -> {d.nonce} [] k = MEAS -> {d.nonce} \ {""} [] k = KEX -> {d.rnd, d.exch} [] k = PSKX -> {d.ctx} [] OTHER -> {} ELSE {}
  IN [a EXCEPT !.used = @ \cup u]

\* ------------------------------------------------------------------ the answer
Yes == [w |-> "ok", p |-> {}]
MayBe == [w |-> "any", p |-> {}]
No(p) == [w |-> "no", p |-> p]
Common(C, d) == Rng(d.vers) \cap Rng(C.vers)
Max(S) == CHOOSE v \in S : \A w \in S : w <= v
One(l) == Len(l) = 1
StSel(r, t) == LET c == {i \in 1..Len(r.st) : r.st[i].t = t} IN IF c = {} THEN <<>> ELSE r.st[CHOOSE i \in c : TRUE].a
HasMeas(n) == {sMEASNS, sMEASSIG} \cap n.rsc # {}
HasPsk(n) == {cPSK, cPSKX} \cap n.rsc # {}
\* the bits the implementation knows (others are reserved and ignored)
Known == [mspec |-> {0}, opq |-> {1}, asym |-> 0..7, hash |-> 0..2, mhash |-> 0..7, t |-> <<{}, {3, 4}, {0, 1, 2}, 0..7, {0}>>]
Only(l, s) == LET RECURSIVE F(_) F(i) == IF i > Len(l) THEN <<>> ELSE IF l[i] \in s THEN <<l[i]>> \o F(i + 1) ELSE F(i + 1) IN F(1)
Masked(r) == [r EXCEPT !.mspec = Only(@, Known.mspec), !.opq = Only(@, Known.opq), !.asym = Only(@, Known.asym), !.hash = Only(@, Known.hash), !.mhash = Only(@, Known.mhash),
                       !.st = [i \in 1..Len(@) |-> IF @[i].t \in 2..5 THEN [@[i] EXCEPT !.a = Only(@, Known.t[r.st[i].t])] ELSE @[i]]]
AlgsVerdict(C, n, r0) ==
  LET r == Masked(r0)
      ses == n.ver >= 17 /\ Both(n, cKEX) psk == n.ver >= 17 /\ HasPsk(n) /\ cPSK \in n.rqc
      within(sel, off) == Len(sel) <= 1 /\ Rng(sel) \subseteq Rng(off)
      s(t) == IF n.ver >= 17 THEN StSel(r, t) ELSE <<>>
      offer == /\ within(r.asym, C.asym) /\ within(r.hash, C.hash) /\ within(r.mspec, C.mspecb) /\ (n.ver >= 18 => within(r.opq, C.opq))
               /\ within(s(2), C.dhe) /\ within(s(3), C.aead) /\ within(s(4), C.rasym) /\ within(s(5), C.ks)
      signs == {sCERT, sCHAL, sMEASSIG} \cap n.rsc # {} \/ ses
      there == /\ (HasMeas(n) => One(r.mspec) /\ One(r.mhash)) /\ (signs => One(r.asym) /\ One(r.hash))
               /\ (ses => One(s(2))) /\ ((ses \/ psk) => One(s(3)) /\ One(s(5)) /\ One(r.hash))
      form == /\ r.exta = 0 /\ r.exth = 0 /\ r.len = 36 + 4 * r.cnt /\ r.cnt = Len(r.st) /\ (n.ver < 17 => r.cnt = 0) /\ Len(r.mhash) <= 1
              /\ r.cnt <= 4 /\ (\A i \in 1..Len(r.st) : r.st[i].n = 32 /\ r.st[i].t \in 2..5 /\ (i > 1 => r.st[i].t > r.st[i-1].t))
  IN IF ~offer THEN No({"C04"})
     ELSE IF ~form \/ r # r0 THEN MayBe
     ELSE IF ~there THEN MayBe                                        \* something needed later is missing: nothing is in force for it
     ELSE IF ~One(r.asym) \/ ~One(r.hash) \/ (HasMeas(n) /\ (~One(r.mhash))) \/ (n.ver >= 18 /\ (cKEX \in n.rsc \/ HasPsk(n)) /\ ~One(r.opq))
          \/ (n.ver >= 17 /\ (~One(s(2)) \/ ~One(s(3)) \/ ~One(s(4)) \/ ~One(s(5)))) THEN MayBe
     ELSE Yes
\* a transcript after too many failures: its content is not known
Unknown == "*"
ChalGood(C, st, e, s, r) == LET c == st.peer[e.a.slot] n == st.n IN
  IF Unknown \in st.BC THEN {Unknown} ELSE
  {b \in st.BC : r.sigt = Sig(Signer(C, c), n.hash, n.asym, CtxChal, D(C, st, st.A \o b \o Hex(s.m, s.d.used) \o Hex(r.raw, r.tbs)))}
MeasA(st) == IF st.n.ver >= 18 THEN st.A ELSE ""
MeasGood(C, st, sid, e, s, r) == LET c == st.peer[e.a.slot] n == st.n M == IF sid = "" THEN st.M ELSE st.sess[sid].M IN
  IF Unknown \in M THEN {Unknown} ELSE
  {m \in M : r.sigt = Sig(Signer(C, c), n.hash, n.asym, CtxMeas, D(C, st, MeasA(st) \o m \o Hex(s.m, s.d.used) \o Hex(r.raw, r.tbs)))}
\* session that a KEY_EXCHANGE_RSP / PSK_EXCHANGE_RSP would start
KexSess(C, st, e, s, r) == LET n == st.n h == n.hash d == s.d
    rch == IF ChainOK(C, n, st.peer[e.a.slot]) THEN PeerHash(C, n, st.peer[e.a.slot]) ELSE ""
    k1 == Hex(s.m, d.used) \o Hex(r.raw, r.tbm) root == DhRoot(h, n.dhe, d.exch, r.exch) th1 == D(C, st, st.A \o rch \o k1)
    hsq == HsSecret(h, n.ver, root, "q", th1) hss == HsSecret(h, n.ver, root, "s", th1) IN
  [x |-> NewSess(FALSE, Rng(r.mut), d.slot, rch, k1 \o r.vd, hsq, hss, root, MasterOf(h, n.ver, root), r.hb, IF r.opsel = <<>> THEN 0 ELSE r.opsel[1]), th1 |-> th1,
   tbs |-> D(C, st, st.A \o rch \o Hex(s.m, d.used) \o Hex(r.raw, r.tbs))]
PskSess(C, st, e, s, r) == LET n == st.n h == n.hash d == s.d
    k1 == Hex(s.m, d.used) \o Hex(r.raw, r.tbm) root == PskRoot(h, d.hint) th1 == D(C, st, st.A \o k1)
    hsq == HsSecret(h, n.ver, root, "q", th1) hss == HsSecret(h, n.ver, root, "s", th1) IN
  [x |-> NewSess(TRUE, {}, 0, "", k1 \o r.vd, hsq, hss, root, PskMaster(h, d.hint), r.hb, IF r.opsel = <<>> THEN 0 ELSE r.opsel[1]), th1 |-> th1]
SelOK(r) == r.opok /\ Len(r.opsel) = 1 /\ Rng(r.opsel) \subseteq OfferedSec
\* certificate portion r continues the chain collected so far
Limits(R, r) == LET off == Blen(R.t) IN r.plen <= R.len /\ off + r.plen + r.rem <= MaxChain /\ (R.z # -1 => off + r.plen + r.rem = R.z) /\ (r.rem > 0 => r.plen > 0)

Content(C, st, R, e, s, k, sid, r) == LET n == st.n IN
  CASE k = VERSION -> IF Common(C, r) = {} THEN No({"C02", "C03"}) ELSE IF Len(r.vers) > 3 \/ ~(Rng(r.vers) \subseteq {16, 17, 18}) THEN MayBe ELSE Yes
    [] k = CAPS -> IF ~RspCapsOK(n.ver, Rng(r.flags), r.dts, r.max) THEN No({"C04"}) ELSE IF ~(Rng(r.flags) \subseteq 0..21) THEN MayBe ELSE Yes
    [] k = ALGS -> AlgsVerdict(C, n, r)
    [] k = DIGESTS -> IF Rng(r.mask) = {} THEN MayBe ELSE Yes
    [] k = CERT -> IF r.slot # e.a.slot THEN No({"C12"})
                   ELSE IF ~Limits(R, r) THEN No(Sel(r.plen = 0, {"C12", "C17"}, {"C12"}))
                   ELSE IF r.rem = 0 /\ ~ChainOK(C, n, R.t \o r.data) THEN No({"C12"})
                   ELSE IF Blen(R.t) + r.plen + r.rem >= 4096 THEN MayBe ELSE Yes
    [] k = CHALL -> IF r.slot # e.a.slot THEN No({"C10.slot"})
                    ELSE IF ~ChainOK(C, n, st.peer[e.a.slot]) THEN No({"C10.chain"})
                    ELSE IF ChalGood(C, st, e, s, r) = {} THEN No({"C10.signature"})
                    ELSE IF r.ch # PeerHash(C, n, st.peer[e.a.slot]) THEN No({"C10.chainhash"})
                    ELSE IF Cardinality(st.BC) > 1 \/ Unknown \in st.BC \/ r.atb # <<>> THEN MayBe ELSE Yes
    [] k = MEAS -> IF 0 \in Rng(e.a.atb) /\ ~ChainOK(C, n, st.peer[e.a.slot]) THEN No({"C11.chain"})
                   ELSE IF 0 \in Rng(e.a.atb) /\ MeasGood(C, st, sid, e, s, r) = {} THEN No({"C11.signature"})
                   ELSE IF r.blk = <<-1>> \/ Len(r.blk) # r.nblk THEN No({"C11.record"})
                   ELSE IF ~r.dmtf \/ r.slot # e.a.slot \/ ~(Rng(e.a.atb) \subseteq {0, 1})
                        \/ (LET M == IF sid = "" THEN st.M ELSE st.sess[sid].M IN Cardinality(M) > 1 \/ Unknown \in M) THEN MayBe ELSE Yes
    [] k = KEX -> LET z == KexSess(C, st, e, s, r) x == z.x IN
         IF ~ChainOK(C, n, st.peer[e.a.slot]) THEN No({"C06.chain", "C05.chain"})
         ELSE IF r.sigt # Sig(Signer(C, st.peer[e.a.slot]), n.hash, n.asym, CtxKex, z.tbs) THEN No({"C06.signature", "C05.signature"})
         ELSE IF ~Clear(n) /\ r.vdt # Mac(n.hash, FinKey(n.hash, n.ver, x.hss), z.th1) THEN No({"C06.verify", "C05.verify"})
         ELSE IF r.opsel # <<>> /\ r.opok /\ ~(Rng(r.opsel) \subseteq OfferedSec) THEN No({"C24.selection"})
         ELSE IF Rng(r.mut) # {} /\ ~Both(n, cMUT) THEN No({"C14.unasked", "C04.mut"})
         ELSE IF ~SelOK(r) \/ ~(Rng(r.mut) \in {{}, {0}, {1}, {2}}) \/ (Rng(r.mut) # {} /\ r.rslot > 7) \/ ~Both(n, cKEX) \/ n.ver < 18 \/ (r.rsid \o s.d.rsid) \in DOMAIN st.sess THEN MayBe ELSE Yes
    [] k = PSKX -> LET z == PskSess(C, st, e, s, r) x == z.x IN
         IF r.vdt # Mac(n.hash, FinKey(n.hash, n.ver, x.hss), z.th1) THEN No({"C20.verify", "C06.verify"})
         ELSE IF r.opsel # <<>> /\ r.opok /\ ~(Rng(r.opsel) \subseteq OfferedSec) THEN No({"C24.selection"})
         ELSE IF ~SelOK(r) \/ ~HasPsk(n) \/ cPSK \notin n.rqc \/ (cPSKX \in n.rsc) # (r.ctx # "") \/ (r.rsid \o s.d.rsid) \in DOMAIN st.sess THEN MayBe ELSE Yes
    [] k = FIN -> LET x == st.sess[sid] qh == IF x.mut # {} THEN Own(C, n, st.lslot) ELSE ""
                      hv(f) == Mac(n.hash, FinKey(n.hash, n.ver, x.hss), D(C, st, st.A \o x.rch \o x.K \o qh \o f \o Hex(s.m, 4) \o s.d.sig \o s.d.vd \o Hex(r.raw, r.tbm))) IN
         IF Clear(n) /\ ~(\E f \in x.F : r.vdt = hv(f)) THEN No({"C06.verify", "C05.verify"}) ELSE Yes
    [] k = KUPD -> IF r.kop # s.d.kop \/ r.tag # s.d.tag THEN MayBe ELSE Yes
    [] k = ENCREQ -> IF r.enc.op = -1 THEN MayBe ELSE Yes
    [] k = ENCDEL -> IF r.pt > 2 THEN No({"C14"})
                     ELSE IF r.pt = 1 /\ r.enc.op = -1 THEN MayBe
                     ELSE IF r.pt = 2 /\ r.rslot > 7 THEN No({"C14"})
                     ELSE IF n.ver < 18 \/ r.ack # R.rid THEN MayBe ELSE Yes
    [] OTHER -> Yes

\* Is this frame the next one the responder sent in session sid?
Accepted(st, sid, f) == /\ f.k \in {"sec", "secbad"} /\ f.auth /\ f.sid = sid
                        /\ LET x == st.sess[sid] IN f.S = Traffic(st.n.ver, x.Ss) /\ f.seq = x.ns /\ x.ns # -1 /\ f.alg = st.n.aead /\ f.hseq
Sloppy(C, f) == f.tail > 0 \/ (f.pad > 0 /\ (f.rest \/ C.tr # "doe" \/ f.pad > 3))
Verdict(C, st, R, e, s, k, sid, f) ==
  LET n == st.n insec == sid # "" /\ ~(k = FIN /\ Clear(n)) r == f.d IN
  IF f.k \in {"none", "junk"} THEN No({"C18", "C25"})
  ELSE IF ~insec /\ f.k # "plain" THEN No({"C18", "C07"})
  ELSE IF insec /\ ~Accepted(st, sid, f) THEN No({"C07", "C18"})
  ELSE IF f.k = "secbad" THEN No({"C15", "C18"})
  ELSE IF f.app THEN No({"C15", "C18"})
  ELSE IF r.op # RspOf(k) THEN No({"C18"})
  ELSE IF r.ver # (IF k = VERSION THEN 16 ELSE n.ver) THEN No({"C02", "C18"})
  ELSE IF ~r.wf THEN No({"C18"})
  ELSE LET v == Content(C, st, R, e, s, k, sid, r) IN
       IF v.w = "ok" /\ (~r.exact \/ ~f.exact \/ (insec /\ Sloppy(C, f))) THEN MayBe ELSE v

\* ------------------------------------------------------------------ a taken answer
WithBC(st, s, r) == IF Unknown \in st.BC THEN [st EXCEPT !.BC = {Unknown}] ELSE [st EXCEPT !.BC = {b \o Hex(s.m, s.d.used) \o Hex(r.raw, r.used) : b \in @}]
Bit0(l) == IF l = <<>> THEN 0 ELSE Bit(l)
Take(C, st, R, e, s, k, sid, r) == LET n == st.n IN
  CASE k = VERSION -> [InitSt EXCEPT !.ph = 1, !.n.ver = Max(Common(C, r)), !.A = Hex(s.m, 4) \o Hex(r.raw, r.used), !.used = st.used, !.pairs = st.pairs]
    [] k = CAPS -> [st EXCEPT !.ph = 2, !.A = @ \o s.m \o Hex(r.raw, r.used),
          !.n = [n EXCEPT !.rqc = Rng(C.reqcaps), !.rqct = C.rqct, !.rsc = Rng(r.flags) \cap 0..21, !.rsct = r.ct, !.rqdts = Sel(n.ver >= 18, C.dts, 0), !.rqmax = Sel(n.ver >= 18, C.max, 0),
                          !.rsdts = Sel(n.ver >= 18, r.dts, 0), !.rsmax = Sel(n.ver >= 18, r.max, 0)]]
    [] k = ALGS -> LET m == Masked(r) t(i) == IF n.ver >= 17 THEN Bit0(StSel(m, i)) ELSE 0 IN [st EXCEPT !.ph = 3, !.A = @ \o s.m \o Hex(r.raw, r.used),
          !.n = [n EXCEPT !.mspec = Bit0(m.mspec), !.mhash = Bit0(m.mhash), !.asym = Bit0(m.asym), !.hash = Bit0(m.hash), !.opq = Sel(n.ver >= 18, Bit0(m.opq), 0),
                          !.dhe = t(2), !.aead = t(3), !.rasym = t(4), !.ks = t(5)]]
    [] k = DIGESTS -> IF sid = "" THEN WithBC(st, s, r) ELSE st
    [] k = CERT -> LET a == IF sid = "" THEN WithBC(st, s, r) ELSE st IN IF r.rem = 0 THEN [a EXCEPT !.peer[e.a.slot] = R.t \o r.data] ELSE a
    [] k = CHALL -> [st EXCEPT !.BC = {""}, !.ph = 6]
    [] k = MEAS -> LET M == IF sid = "" THEN st.M ELSE st.sess[sid].M
                       M2 == IF 0 \in Rng(e.a.atb) THEN {""} ELSE IF Unknown \in M THEN {Unknown} ELSE {m \o Hex(s.m, s.d.used) \o Hex(r.raw, r.used) : m \in M} IN
                   IF sid = "" THEN [st EXCEPT !.M = M2] ELSE [st EXCEPT !.sess[sid].M = M2]
    [] k = KEX -> [st EXCEPT !.sess = ((r.rsid \o s.d.rsid) :> KexSess(C, st, e, s, r).x) @@ @, !.lslot = Sel(r.mut # <<>>, r.rslot % 16, @), !.last = r.rsid \o s.d.rsid]
    [] k = PSKX -> LET x == PskSess(C, st, e, s, r).x y == IF cPSK \notin n.rsc THEN x ELSE Establish(C, st, x, "", "") IN
                   [st EXCEPT !.sess = ((r.rsid \o s.d.rsid) :> y) @@ @, !.last = r.rsid \o s.d.rsid]
    [] k \in {FIN, PSKF} -> LET x == st.sess[sid] qh == IF k = FIN /\ x.mut # {} THEN Own(C, n, st.lslot) ELSE ""
                       good == {f \in x.F : QFin(C, st, x, qh, f, s)} f0 == CHOOSE f \in good : TRUE
                       f1 == f0 \o Hex(s.m, 4) \o s.d.sig \o s.d.vd \o Hex(r.raw, r.used) IN
                   IF good = {} \/ x.unk \/ (x.psk # (k = PSKF)) THEN [st EXCEPT !.sess[sid].unk = TRUE, !.sess[sid].est = TRUE]
                   ELSE [st EXCEPT !.sess[sid] = Establish(C, st, [x EXCEPT !.M = {""}], f1, qh)]
    [] k = ENDS -> Drop(st, sid)
    [] k = ENCDEL -> IF r.pt = 2 THEN [st EXCEPT !.lslot = r.rslot] ELSE st
    [] OTHER -> st
\* the request that has to follow (0: none)
Then(C, st, R, e, k, sid, r) ==
  CASE e.op = "init" /\ k = VERSION -> CAPS [] e.op = "init" /\ k = CAPS -> ALGS
    [] k = CERT /\ r.rem > 0 -> CERT [] k = KUPD /\ R.i = 1 -> KUPD
    [] e.op = "start" /\ k = KEX -> IF Rng(r.mut) \subseteq {0} THEN FIN ELSE IF Rng(r.mut) = {1} THEN ENCREQ ELSE ENCDEL
    [] e.op = "start" /\ k = PSKX -> IF cPSK \notin st.n.rsc THEN PSKF ELSE 0
    [] k = ENCREQ -> ENCDEL [] k = ENCDEL /\ r.pt = 1 -> ENCDEL [] k = ENCDEL /\ e.op = "start" -> FIN
    [] OTHER -> 0
\* ------------------------------------------------------------------ a failed request
AppendMay(S, a, b) == IF Unknown \in S THEN {Unknown} ELSE LET T == S \cup {x \o a : x \in S} \cup {x \o a \o b : x \in S} IN IF Cardinality(T) > 50 THEN {Unknown} ELSE T
Failed(C, st, e, s, k, sid, got, f) ==
  LET r == f.d
      rm == IF got /\ f.k \in {"plain", "sec"} /\ f.auth /\ r.op = RspOf(k) THEN Hex(r.raw, r.used) ELSE ""
      sm == Hex(s.m, s.d.used)
      a == CASE k \in {DIGESTS, CERT} /\ sid = "" -> [st EXCEPT !.BC = AppendMay(@, sm, rm)]
             [] k = CHALL -> [st EXCEPT !.BC = @ \cup {""}]
             [] k = MEAS -> LET t == IF got /\ f.k \in {"plain", "sec"} /\ f.auth /\ r.op = RspOf(k) /\ 0 \in Rng(e.a.atb) THEN Hex(r.raw, r.tbs) ELSE rm IN
                            IF sid = "" THEN [st EXCEPT !.M = AppendMay(@, sm, t) \cup {""}]
                            ELSE IF Live(st, sid) THEN [st EXCEPT !.sess[sid].M = AppendMay(@, sm, t) \cup {""}] ELSE st
             [] k = VERSION -> LET z == [InitSt EXCEPT !.used = st.used, !.pairs = st.pairs] IN
                                IF ~(got /\ f.k = "plain" /\ r.op = 4 /\ r.ver = 16 /\ r.wf) THEN st
                                ELSE IF Len(r.vers) \notin 1..3 /\ e.haspost THEN (IF e.post.ver = NoNeg.ver /\ e.post.hash = 0 /\ e.post.sess = <<>> THEN z ELSE st) ELSE z
             [] k \in {CAPS, ALGS} -> [st EXCEPT !.ph = -1]
             [] k \in {FIN, PSKF} -> Drop(st, sid)
             [] OTHER -> st
  IN a
\* an error answer that ends the session
Ends(st, k, sid, f) == /\ sid # "" /\ Live(st, sid) /\ k \notin {ENCREQ, ENCDEL} /\ f.k = "sec" /\ f.d.op = ERROR /\ f.d.ver = st.n.ver /\ f.d.wf /\ f.d.p1 \in {EDecrypt, EResync}

Start(C, st, e, sid) == LET k == First(C, st, e) IN
  [st |-> st, l |-> {}, w |-> "go", k |-> k, i |-> 0, sid |-> sid, t |-> "", z |-> -1, len |-> 0, rid |-> 0, enc |-> [op |-> DIGESTS, ver |-> st.n.ver, wf |-> TRUE], encm |-> "", err |-> "", lastk |-> k, r |-> [op |-> -1]]
\* one exchange; took: the operation went on (or succeeded), so it took the answer for good
Exch(C, R, e, x, took) ==
  LET k == R.k n == R.st.n
      \* a portion length the request asked for
      R1 == [R EXCEPT !.i = @ + 1, !.len = IF k = CERT /\ x.s.d.op = CERT THEN x.s.d.len ELSE 0, !.lastk = k]
      sid == R.sid
      st0 == Resets(R.st, IF InSession(k) \/ k \in {VEND, DIGESTS, CERT, MEAS} THEN sid ELSE "", k)
      unk == sid # "" /\ Live(st0, sid) /\ st0.sess[sid].unk
      ask == MayAsk(C, R.st, e, k, sid)
      sl == IF unk \/ (R.st.ph = -1 /\ k # VERSION) THEN {} ELSE SentLabels(C, st0, R1, e, x.s, k, sid) \cup L(ask # "no", PropOf(k) \o ".asked")
      okform == (x.s.k = "plain" \/ (x.s.k = "sec" /\ x.s.auth)) /\ x.s.d.op = k /\ x.s.d.wf
      st1 == Sent(st0, e, x.s, k, sid)
      \* the keys are replaced as soon as the request was sent
      st2 == IF k = KUPD /\ ~x.lost /\ okform THEN IF st1.sess[sid].est THEN [st1 EXCEPT !.sess[sid] = Updated(n, @, x.s.d.kop)] ELSE [st1 EXCEPT !.sess[sid].unk = TRUE] ELSE st1
      dead == [R1 EXCEPT !.w = "fail", !.l = @ \cup sl]
  IN IF unk THEN [dead EXCEPT !.st = st2, !.w = "lost"]
     ELSE IF ~okform THEN [dead EXCEPT !.st = Failed(C, st2, e, x.s, k, sid, FALSE, x.r), !.w = "lost"]
     ELSE IF x.lost \/ ~x.got THEN [dead EXCEPT !.st = Failed(C, st2, e, x.s, k, sid, FALSE, x.r), !.l = @ \cup LS(~took, {"C23.accepted", "C18.accepted"})]
     ELSE LET v == Verdict(C, st2, R1, e, x.s, k, sid, x.r)
              used == sid # "" /\ x.r.k \in {"sec", "secbad"} /\ Live(st2, sid) /\ Accepted(st2, sid, x.r)
              st3 == IF used THEN [st2 EXCEPT !.sess[sid].ns = @ + 1] ELSE st2
              f0 == Failed(C, st3, e, x.s, k, sid, TRUE, x.r)
              f1 == IF used /\ Ends(st3, k, sid, x.r) THEN Drop(f0, sid) ELSE f0
              r == x.r.d
              err == IF x.r.k \in {"plain", "sec"} /\ x.r.auth /\ (used \/ x.r.k = "plain") /\ ~x.r.app /\ k \notin {ENCREQ, ENCDEL} /\ r.op = ERROR /\ r.ver = (IF k = VERSION THEN 16 ELSE n.ver) /\ x.r.mlen >= 4
                     THEN IF ~r.wf \/ ~r.exact THEN "loose" ELSE IF r.p1 = EBusy THEN "busy" ELSE IF r.p1 = ENotReady THEN "notready" ELSE "error" ELSE "bad"
              nost == IF used /\ Live(f1, sid) /\ ((x.r.k = "sec" /\ Sloppy(C, x.r)) \/ (k = KUPD /\ v.w # "ok"))       \* a refused key update may or may not stand
                      THEN [f1 EXCEPT !.sess[sid].unk = TRUE] ELSE f1
              acc == {IF \E j \in 1..Len(p) : SubSeq(p, j, j) = "." THEN p ELSE p \o ".accepted" : p \in v.p}
          IN IF v.w = "no" \/ (v.w = "any" /\ ~took)
             THEN [dead EXCEPT !.st = nost, !.err = err, !.l = @ \cup (IF took THEN acc ELSE {}), !.w = IF took THEN "lost" ELSE "fail"]
             ELSE LET t == Take(C, st3, R1, e, x.s, k, sid, r)
                      nk == Then(C, t, R1, e, k, sid, r)
                      ns == IF k \in {KEX, PSKX} THEN r.rsid \o x.s.d.rsid ELSE sid IN
                  [R1 EXCEPT !.st = IF took THEN t ELSE nost, !.l = @ \cup sl, !.k = IF nk = 0 THEN -2 ELSE nk, !.sid = ns, !.r = r, !.err = "",
                             !.t = IF k = CERT THEN @ \o r.data ELSE @, !.z = IF k = CERT THEN Blen(R1.t) + r.plen + r.rem ELSE @,
                             !.rid = IF k \in {ENCREQ, ENCDEL} THEN r.rid ELSE 0,
                             !.enc = IF k \in {ENCREQ, ENCDEL} /\ "enc" \in DOMAIN r THEN r.enc ELSE @]
RECURSIVE Run(_, _, _, _)
Run(C, R, e, i) ==
  IF i > Len(e.ex) THEN R
  ELSE IF R.w = "lost" THEN R
  ELSE IF R.w = "fail" \/ R.k < 0 THEN [R EXCEPT !.l = @ \cup {PropOf(R.lastk) \o ".continued", "C18.continued"}, !.w = "lost"]
  ELSE Run(C, Exch(C, R, e, e.ex[i], i < Len(e.ex) \/ e.ret = "ok"), e, i + 1)

\* what a successful operation reports
Value(C, R, e) == LET r == R.r IN
  CASE e.op = "measurement" -> L(e.val = ToString(Sel(e.a.mop = 0, r.p1, r.nblk)) \o "," \o ToString(r.nblk) \o "," \o Sel(r.rec = "", "-", r.rec), "C11.value")
    [] e.op \in {"kex", "psk", "start"} -> L(e.val = R.sid, "C09.value")
    [] e.op = "vendor" -> L(e.val = Sel(r.pay = "", "-", r.pay), "C15.value")
    [] OTHER -> {}

\* ------------------------------------------------------------------ application data
AppSend(C, st, e) == LET sid == e.a.sid x == st.sess[sid] s == e.ex[1].s n == st.n IN
  IF ~Live(st, sid) THEN [l |-> L(e.ret # "ok" /\ Len(e.ex) = 0, "C15.nosession"), st |-> st]
  ELSE IF x.unk THEN [l |-> {}, st |-> st]
  ELSE IF Len(e.ex) = 0 THEN [l |-> L(e.ret # "ok" /\ (e.fault # "" \/ ~x.est \/ x.nq = -1), "C15.silent"), st |-> st]
  ELSE LET a == [st EXCEPT !.sess[sid].nq = @ + 1, !.pairs = @ \cup {s.S \o "#" \o ToString(s.seq)}] IN
    [l |-> L(x.est, "C15.early") \cup L(s.k = "sec" /\ s.auth /\ s.sid = sid /\ s.S = Traffic(n.ver, x.Sq) /\ s.alg = n.aead, "C15.channel")
           \cup LS(s.k = "sec" /\ s.auth => s.S = Traffic(n.ver, x.Sq), {"C06.key"})
           \cup L(s.k = "sec" /\ s.auth => s.seq = x.nq /\ s.hseq, "C07.number") \cup L((s.S \o "#" \o ToString(s.seq)) \notin st.pairs, "C07.reuse")
           \cup L(s.k = "sec" /\ s.auth => s.m = e.a.data /\ (C.tr = "mctp" => s.app), "C15.payload") \cup L(s.exact, "C25.frame")
           \cup L(e.ret = "ok" \/ e.ex[1].lost, "C15.refused") \cup L(~(e.ex[1].lost /\ e.ret = "ok"), "C23.accepted") \cup L(Len(e.ex) = 1, "C15.continued"), st |-> a]
AppRecv(C, st, e) == LET sid == e.a.sid x == st.sess[sid] f == e.ex[1].r n == st.n IN
  IF ~Live(st, sid) \/ Len(e.ex) = 0 THEN [l |-> L(e.ret # "ok", "C15.nosession"), st |-> st]
  ELSE IF x.unk THEN [l |-> {}, st |-> st]
  ELSE IF ~e.ex[1].got THEN [l |-> L(e.ret # "ok", "C23.accepted"), st |-> st]
  ELSE IF f.k # "sec" \/ ~Accepted(st, sid, f) THEN
       [l |-> L(e.ret # "ok", "C07.accepted"), st |-> IF f.k = "secbad" /\ Accepted(st, sid, f) THEN [st EXCEPT !.sess[sid].ns = @ + 1] ELSE st]
  ELSE IF ~x.est THEN [l |-> L(e.ret # "ok" \/ ~f.app, "C15.early"), st |-> [st EXCEPT !.sess[sid].ns = @ + 1]]
  ELSE [l |-> IF e.fault # "" THEN L(e.ret # "ok", "C22.fault") ELSE L(e.ret = "ok" \/ Sloppy(C, f) \/ x.ns = -1, "C15.refused") \cup L(e.ret = "ok" => e.val = Sel(f.m = "", "-", f.m), "C15.value"),
        st |-> IF e.fault # "" \/ (Sloppy(C, f) /\ e.ret # "ok") THEN [st EXCEPT !.sess[sid].unk = TRUE] ELSE [st EXCEPT !.sess[sid].ns = @ + 1]]

\* ------------------------------------------------------------------ one operation
\* after an internal failure: what it left open
Widen(st, e, sid) ==
  LET a == [st EXCEPT !.BC = @ \cup {""}, !.M = @ \cup {""}]
      p == e.post
      at(s) == p.sess[CHOOSE i \in 1..Len(p.sess) : p.sess[i].sid = s]
      ss == {p.sess[i].sid : i \in 1..Len(p.sess)} IN
  IF sid # "" /\ Live(a, sid) /\ e.haspost /\ sid \in ss
  THEN LET x == a.sess[sid] y == at(sid) IN
       IF e.op = "keyupdate" \/ ~x.est THEN [a EXCEPT !.sess[sid].unk = TRUE]
       ELSE [a EXCEPT !.sess[sid].M = @ \cup {""}, !.sess[sid].nq = IF y.rq = @ + 1 THEN y.rq ELSE @, !.sess[sid].ns = IF y.rs \in {@ - 1, @ + 1} THEN y.rs ELSE @]
  ELSE a
Misuse(st, e) == e.op \notin {"version", "init"} /\ (st.ph < 0 \/ (e.op = "capability" /\ st.ph # 1) \/ (e.op = "algorithm" /\ st.ph # 2)
                                                 \/ (e.op \notin {"capability", "algorithm", "vendor"} /\ st.ph < 3) \/ (e.op = "vendor" /\ st.ph < 1))
Outcome(C, st, e) ==
  IF Misuse(st, e) THEN [l |-> {}, st |-> [st EXCEPT !.ph = -2]]
  ELSE IF e.op = "appsend" THEN AppSend(C, st, e)
  ELSE IF e.op = "apprecv" THEN AppRecv(C, st, e)
  ELSE IF e.a.sid # "" /\ ~Live(st, e.a.sid) THEN [l |-> L(e.ret # "ok", "C09.nosession") \cup L(Len(e.ex) = 0, "C09.nosession"), st |-> st]
  ELSE IF First(C, st, e) = -1 THEN [l |-> L(Len(e.ex) = 0, "C14.asked"), st |-> st]
  ELSE LET R0 == Start(C, st, e, e.a.sid)
           R == Run(C, R0, e, 1)
           fault == e.fault # ""
           told == \E j \in 1..Len(e.ex) : e.ex[j].s.d.op = ENCDEL /\ e.ex[j].s.d.wf /\ e.ex[j].s.d.inn.op = ERROR      \* the peer was told
           done == R.w = "go" /\ R.k = -2
           early == R.w = "go" /\ R.k >= 0
           ask == IF early THEN MayAsk(C, R.st, e, R.k, R.sid) ELSE "go"
           unk == R.sid # "" /\ Live(R.st, R.sid) /\ R.st.sess[R.sid].unk
           big == early /\ R.k # ENCDEL /\ R.st.n.rsdts # 0 /\ ReqLen(C, R.st, e, R.k, R.sid) > R.st.n.rsdts
           \* an operation that stopped before it asked what it had to ask
           stopped == IF ~early THEN {} ELSE IF unk THEN {}
                      ELSE L(e.ret # "ok", PropOf(R.k) \o ".incomplete") \cup L(fault \/ ask # "go" \/ big \/ (R.k = ENCDEL /\ R.st.n.rsdts # 0), PropOf(R.k) \o ".silent")
           final == IF ~done \/ unk THEN {} ELSE IF fault THEN L(e.ret # "ok" \/ e.fault = "hash_ctx_finalize" \/ told, "C22.fault")    \* (an abandoned hash is finalized, too)
                    ELSE L(e.ret = "ok", PropOf(R.lastk) \o ".refused") \cup (IF e.ret = "ok" THEN Value(C, R, e) ELSE {})
           status == IF R.w # "fail" \/ fault THEN {} ELSE L(R.err # "busy" \/ e.ret = "busy", "C18.status") \cup L(R.err # "notready" \/ e.ret = "notready", "C18.status")
                     \cup L(e.ret \in {"busy", "notready"} => R.err \in {e.ret, "loose"}, "C18.status")
           \* start releases the session it could not finish; so does any failed finish
           s1 == IF e.op = "start" /\ e.ret # "ok" /\ R.sid # "" THEN Drop(R.st, R.sid) ELSE R.st
           kept == ask = "any" /\ e.haspost /\ (\E j \in 1..Len(e.post.sess) : e.post.sess[j].sid = R.sid)
           s2 == IF early /\ R.k \in {FIN, PSKF} /\ e.ret # "ok" /\ ask # "no" /\ R.sid # "" /\ ~kept THEN Drop(s1, R.sid) ELSE s1
           s3 == IF early /\ R.k \in {CAPS, ALGS} THEN [s2 EXCEPT !.ph = -1] ELSE s2
           z4 == Resets(s3, R.sid, R.k)
           s4 == IF early THEN [z4 EXCEPT !.BC = @ \cup s3.BC, !.M = @ \cup s3.M] ELSE s3
           s5 == IF fault THEN Widen(s4, e, R.sid) ELSE s4
           s6 == IF e.op = "mutauth" \/ (e.op = "start" /\ \E j \in 1..Len(e.ex) : e.ex[j].s.d.op \in {ENCREQ, ENCDEL}) THEN [s5 EXCEPT !.made = TRUE] ELSE s5
               \* a session whose state is not known may be gone
               s7 == IF R.sid # "" /\ Live(s6, R.sid) /\ s6.sess[R.sid].unk /\ e.haspost /\ ~(\E j \in 1..Len(e.post.sess) : e.post.sess[j].sid = R.sid) THEN Drop(s6, R.sid) ELSE s6
               s8 == IF unk /\ e.haspost THEN [s7 EXCEPT !.peer = [i \in 0..7 |-> e.post.peer[i + 1]], !.BC = @ \cup {""}, !.M = @ \cup {""}] ELSE s7
       IN [l |-> R.l \cup stopped \cup final \cup status, st |-> s8]

\* ------------------------------------------------------------------ the state the implementation reports
PostLabels(st, p, more) ==
  LET n == st.n
      ss == {p.sess[i].sid : i \in 1..Len(p.sess)}
      at(s) == p.sess[CHOOSE i \in 1..Len(p.sess) : p.sess[i].sid = s]
      live == DOMAIN st.sess
      tag(c, base) == IF c THEN {} ELSE base \cup {m \o ".state" : m \in more}
  IN IF st.ph = -2 THEN {} ELSE (IF st.ph >= 1 THEN tag(p.ver = n.ver, {"C02.negotiated"}) ELSE {})
     \cup (IF st.ph >= 2 THEN tag(Rng(p.rqc) = n.rqc /\ Rng(p.rsc) = n.rsc /\ p.rsct = n.rsct /\ p.rsdts = n.rsdts /\ p.rsmax = n.rsmax, {"C04.negotiated"}) ELSE {})
     \cup (IF st.ph >= 3 THEN tag(p.mspec = n.mspec /\ p.mhash = n.mhash /\ p.hash = n.hash /\ p.asym = n.asym /\ p.dhe = n.dhe /\ p.aead = n.aead
                                  /\ p.rasym = n.rasym /\ p.ks = n.ks /\ p.opq = n.opq, {"C04.negotiated"}) ELSE {})
     \cup tag(ss \subseteq live, {"C09.extra"}) \cup tag(live \subseteq ss, {"C09.missing"})
     \cup tag(Len(p.sess) = Cardinality(ss) /\ Len(p.sess) <= MaxSess, {"C09.unique"})
     \cup tag(st.ph # 0 \/ p.sess = <<>>, {"C03.session"})
     \cup UNION {LET x == st.sess[s] y == at(s) IN
            IF x.unk THEN {} ELSE
            tag((y.state = 2) = x.est, {"C05.established"}) \cup tag((y.psk = 1) = x.psk, {"C20.kind"})
            \cup tag(x.psk \/ (y.mut # 0) = (x.mut # {}), {"C14.requested"}) \cup tag(y.hb = x.hb, {"C04.heartbeat"}) \cup tag(y.secver = x.secver, {"C24.used"})
            \cup tag(~x.est \/ y.rq = x.nq, {"C07.send"}) \cup tag(~x.est \/ y.rs = x.ns, {"C07.receive"}) : s \in ss \cap live}
     \cup UNION {tag(p.peer[i + 1] = st.peer[i], {"C12.chain"}) : i \in 0..7}

\* after a reported violation: go on from what the implementation reports
Resync(st, p) ==
  LET ss == {p.sess[i].sid : i \in 1..Len(p.sess)}
      at(s) == p.sess[CHOOSE i \in 1..Len(p.sess) : p.sess[i].sid = s] IN
  [st EXCEPT !.n = IF st.ph < 1 THEN @ ELSE [ver |-> p.ver, rqc |-> Rng(p.rqc), rsc |-> Rng(p.rsc), rqct |-> p.rqct, rsct |-> p.rsct, mspec |-> p.mspec, mhash |-> p.mhash, hash |-> p.hash,
            asym |-> p.asym, dhe |-> p.dhe, aead |-> p.aead, rasym |-> p.rasym, ks |-> p.ks, opq |-> p.opq, rqdts |-> p.rqdts, rqmax |-> p.rqmax, rsdts |-> p.rsdts, rsmax |-> p.rsmax],
     !.peer = [i \in 0..7 |-> p.peer[i + 1]],
     !.sess = [s \in ss |-> IF s \in DOMAIN st.sess /\ st.sess[s].est = (at(s).state = 2)
                            THEN IF st.sess[s].est THEN [st.sess[s] EXCEPT !.nq = at(s).rq, !.ns = at(s).rs] ELSE st.sess[s]
                            ELSE [NewSess(FALSE, {}, 0, "", "", "", "", "", "", 0, 0) EXCEPT !.unk = TRUE, !.est = at(s).state = 2]]]
=============================================================================
