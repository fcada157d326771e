"""A reference requester that talks to the real responder: builds correct messages (callers may then damage them),
follows the protocol's key schedule, and keeps its own transcripts."""
import random
import wire as W
from fc import *

class QSess:
    pass
def signctx(ver, ctx):
    z = 36 - len(ctx)
    p = ("dmtf-spdm-v1.%d.*" % (ver & 15)).encode() * 4
    return p[:64] + bytes(z) + ctx
class KS:
    """key schedule of one session, either side"""
    def __init__(s, reg, ver, h, aead): s.reg = reg; s.ver = ver; s.h = h; s.aead = aead
    def info(s, label, ctx, n): return W.u16(n) + b"spdm1.%d " % (s.ver & 15) + label.encode() + ctx
    def x(s, prk, label, ctx, n): return s.reg.exp(s.h, prk, s.info(label, ctx, n), n)
    def dhe(s, ss): s.hs = s.reg.ext(s.h, bytes(HS[s.h]), ss); s.mroot = None
    def psk(s, hint): s.hs = s.reg.pskprk("pskh", s.h, hint); s.mroot = s.reg.pskprk("pskm", s.h, hint)
    def th1(s, th):
        n = HS[s.h]; s.rq = s.x(s.hs, "req hs data", th, n); s.rs = s.x(s.hs, "rsp hs data", th, n)
        s.fq = s.x(s.rq, "finished", b"", n); s.fs = s.x(s.rs, "finished", b"", n)
        s.sec = {"q": s.rq, "s": s.rs}; s.seq = {"q": 0, "s": 0}
    def th2(s, th):
        n = HS[s.h]
        if s.mroot is None:
            salt = s.x(s.hs, "derived", b"", n); s.ms = s.reg.ext(s.h, salt, bytes(n))
        else: s.ms = s.mroot
        s.sec = {"q": s.x(s.ms, "req app data", th, n), "s": s.x(s.ms, "rsp app data", th, n)}; s.seq = {"q": 0, "s": 0}
        s.x(s.ms, "exp master", th, n)
    def upd(s, d): s.sec[d] = s.x(s.sec[d], "traffic upd", b"", HS[s.h]); s.seq[d] = 0
    def keys(s, secret): return s.x(secret, "key", b"", KL[s.aead]), s.x(secret, "iv", b"", 12)

class Req:
    def __init__(s, cfg, reg, seed=0):
        s.cfg = cfg; s.tr = cfg.get("transport", "mctp"); s.reg = reg; s.rng = random.Random(seed); s.fresh()
        s.qchain = full_chain(2, chain(b"REQLEAF0"))
        s.rsid = 0xFFFD; s.rstep = 1
    def fresh(s):
        s.A = b""; s.B = b""; s.M = {}; s.ver = 0x10; s.hash = s.asym = s.dhe = s.aead = s.rasym = s.opq = 0; s.flags = s.rflags = 0
        s.sess = {}; s.pend = None; s.rchain = {}
    def rb(s, n): return bytes(s.rng.getrandbits(8) for _ in range(n))
    # ---- plain requests
    def version(s): return W.get_version()
    def capsmsg(s, ver, flags, dts=4096, mx=4096, ct=0): s.flags = flags; return W.get_caps(ver, flags, ct, dts, mx)
    def negmsg(s, hash_=2, asym=0x80, dhe=16, aead=2, rasym=0x80, ks=1, mspec=1, opq=2, structs=None):
        st = structs if structs is not None else [(2, dhe), (3, aead), (4, rasym), (5, ks)]
        return W.negotiate(s.ver, asym, hash_, st, mspec, opq)
    def kex(s, slot=0, ms=0, vers=(0x10, 0x11), rsid=None, opq=None, policy=0):
        o = W.opaque_list(s.ver, vers) if opq is None else opq
        n = DS.get(s.dhe, (96, 48))[0]; pub = s.rb(n)
        if rsid is None: rsid = s.rsid; s.rsid -= s.rstep
        m = W.kex(s.ver, slot, ms, rsid, s.rb(32), pub, o, policy)
        s.pend = dict(kind="kex", m=m, pub=pub, slot=slot, ms=ms, rsid=rsid); return m
    def psk(s, ms=0, hint=b"", ctx=None, vers=(0x10, 0x11), rsid=None, opq=None):
        o = W.opaque_list(s.ver, vers) if opq is None else opq
        if rsid is None: rsid = s.rsid; s.rsid -= s.rstep
        m = W.pskx(s.ver, ms, rsid, hint, s.rb(32) if ctx is None else ctx, o)
        s.pend = dict(kind="psk", m=m, hint=hint, ms=ms, rsid=rsid); return m
    def clear(s): return bool(s.flags >> 15 & 1 and s.rflags >> 15 & 1)
    # ---- what the requester learns from a plain exchange
    def learn(s, q, p):
        """request q was answered by p (both plain, undamaged)"""
        if len(p) < 4 or len(q) < 4: return
        op = p[1]
        if op == 4: s.fresh(); s.A = q[:4] + p
        elif op == 0x61:
            s.ver = q[0]; s.A += q[:{0x10: 4, 0x11: 12}.get(q[0], 20)] + p; s.rflags = W.le(p[8:12])
        elif op == 0x63:
            d = W.decode_rsp(p, dict(ver=s.ver)); s.A += q[:32 + 4 * (q[2] if s.ver >= 0x11 else 0)] + p
            one = lambda l: (1 << l[0]) if l else 0
            s.hash = one(d["hash"]); s.asym = one(d["asym"]); s.opq = one(d["opq"]); s.dhe = s.aead = s.rasym = s.ks = 0
            for t in d["st"]:
                if t["t"] == 2: s.dhe = one(t["a"])
                if t["t"] == 3: s.aead = one(t["a"])
                if t["t"] == 4: s.rasym = one(t["a"])
                if t["t"] == 5: s.ks = one(t["a"])
        elif op == 0x64 and s.pend and s.pend["kind"] == "kex": s.kexrsp(p)
        elif op == 0x66 and s.pend and s.pend["kind"] == "psk": s.pskrsp(p)
    def chainhash(s, slot):
        c = s.cfg.get("chain%d" % slot)
        return fhash(s.hash, full_chain(s.hash, bytes.fromhex(c))) if c and s.hash else b""
    def th(s, x, more=b""): return s.reg.hash(s.hash, x.A + x.rch + x.K + x.qch + x.F + more)
    def kexrsp(s, p):
        if not (s.hash and s.dhe and s.aead): return
        pe = s.pend; d = W.decode_rsp(p, dict(ver=s.ver, hash=s.hash, asym=s.asym, dhe=s.dhe, msum=pe["ms"] in (1, 255) and bool(s.rflags >> 3 & 3), clear=s.clear()))
        if not d["wf"]: return
        x = QSess(); x.psk = False; x.A = s.A; x.rch = s.chainhash(pe["slot"]); x.qch = b""; x.F = b""; x.mut = d["mut"]
        x.sid = int(d["rsid"], 16) << 16 | pe["rsid"]
        x.ks = KS(s.reg, s.ver, s.hash, s.aead); x.ks.dhe(s.reg.dhs(s.dhe, pe["pub"], bytes.fromhex(d["exch"])))
        x.K = pe["m"] + p[:d["tbm"]]
        x.th1 = s.th(x); x.ks.th1(x.th1)
        x.vd = p[d["tbm"]:d["used"]]; x.K += x.vd; x.state = "hs"; s.pend = None; s.sess[x.sid] = x; s.lastsid = s.lastkex = x.sid; x.slot = pe["slot"]
    def pskrsp(s, p):
        if not (s.hash and s.aead): return
        pe = s.pend; d = W.decode_rsp(p, dict(ver=s.ver, hash=s.hash, asym=s.asym, dhe=s.dhe, msum=pe["ms"] in (1, 255) and bool(s.rflags >> 3 & 3)))
        if not d["wf"]: return
        x = QSess(); x.psk = True; x.A = s.A; x.rch = b""; x.qch = b""; x.F = b""; x.mut = []
        x.sid = int(d["rsid"], 16) << 16 | pe["rsid"]
        x.ks = KS(s.reg, s.ver, s.hash, s.aead); x.ks.psk(pe["hint"])
        x.K = pe["m"] + p[:d["tbm"]]
        x.ks.th1(s.th(x)); x.K += p[d["tbm"]:d["used"]]; x.state = "hs"; s.pend = None; s.sess[x.sid] = x; s.lastsid = x.sid
        if s.rflags >> 10 & 1:
            x.ks.th2(s.th(x)); x.state = "app"
    # ---- finish
    def finish(s, x, sig=None, vd=None):
        """builds FINISH (mutual: with signature under REQLEAF0); transcripts advance in finished()"""
        F0 = x.F; mut = bool(x.mut)
        h = W.msg(s.ver, W.FIN, 1 if mut else 0, 0)
        x.F = F0 + h; g = b""
        if mut:
            if not x.qch: x.qch = fhash(s.hash, s.qchain)
            if sig is None:
                t = s.th(x)
                if s.ver >= 0x12: tbs = signctx(s.ver, b"requester-finish signing"[:36]) + t
                else: tbs = x.A + x.rch + x.K + x.qch + x.F
                g = s.reg.sign(b"REQLEAF0", s.hash, s.rasym, tbs)
            else: g = sig
            x.F += g
        v = s.reg.hmac(s.hash, x.ks.fq, s.th(x)) if vd is None else vd
        x.F += v; return h + g + v
    def pskfinish(s, x, vd=None):
        h = W.msg(s.ver, W.PSKF); x.F += h
        v = s.reg.hmac(s.hash, x.ks.fq, s.th(x)) if vd is None else vd
        x.F += v; return h + v
    def finished(s, x, p):
        """FINISH_RSP / PSK_FINISH_RSP p was received"""
        x.F += p; x.ks.th2(s.th(x)); x.state = "app"
    # ---- records
    def seal(s, x, m, app=False, seq=None, secret=None, sid=None, pt=None, dir="q"):
        sec = secret if secret is not None else x.ks.sec[dir]; k, iv = x.ks.keys(sec); n = x.ks.seq[dir] if seq is None else seq
        b = W.app_wrap(s.tr, m, app); b = W.u16(len(b)) + b if pt is None else pt
        if seq is None: x.ks.seq[dir] += 1
        return W.record(s.tr, s.reg, s.aead, k, iv, x.sid if sid is None else sid, n, b)
    def open(s, rec):
        """plaintext of a record, by provenance"""
        n = 4 + W.seqlen(s.tr) + 2
        v = s.reg.aead.get((rec[:n], rec[n:-16], rec[-16:]))
        if not v: return None
        pt = v[3]; l = W.le(pt[:2]); u = W.app_unwrap(s.tr, pt[2:2 + l])
        return u
    def opened(s, x): x.ks.seq["s"] += 1
