"""Scenario driver for the real responder: a vocabulary of protocol steps, correct and damaged, over Rsp and Req."""
import random
import wire as W
from fc import *
from rec import Rsp, DEF
from peer_req import Req, signctx

QCAPS = 0x1f3c6 & ~(1 << 16) & ~(1 << 15) | 1 << 10   # everything but PUB_KEY and HANDSHAKE_IN_THE_CLEAR
def reqchain(leaf=b"REQLEAF0", fill=0, h=2, root=b"ROOTCA00"): return full_chain(h, chain(leaf, fill, root=root))

class RD:
    def __init__(s, proc, cfg, sc, rng):
        cfg = dict(cfg); cfg.setdefault("seed", "%08x" % rng.getrandbits(32))
        s.rng = rng; s.R = Rsp(proc, cfg, sc); s.q = Req(s.R.cfg, s.R.reg, rng.getrandbits(32)); s.tr = s.R.tr
        s.flags = QCAPS if rng.random() < .75 else QCAPS & ~(1 << 8 | 1 << 12)      # a requester without mutual authentication
        s.old = []; s.dead = []        # recorded frames; sessions the responder should have forgotten
        s.nextsid = 0x100; s.kw = {}; s.capv = 0x12; s.qch = {}
    # ------------------------------------------------------------ primitives
    def cfg(s, k): return int(str(s.R.cfg[k]), 0)
    def arm(s, **kw): s.kw = kw; return s
    def put(s, frame, note=""):
        kw, s.kw = s.kw, {}
        return s.R.step(frame, note, **kw)
    def plain(s, m, note=""):
        o = s.put(W.frame(s.tr, m, False), note); s.old.append((0, W.frame(s.tr, m, False)))
        if len(o) == 1 and o[0]["k"] == "plain" and not o[0]["lost"]:
            p = bytes.fromhex(o[0]["m"]); s.q.learn(m, p)
            if len(p) > 1 and p[1] == 4: s.dead += list(s.q.sess.values())
            return p
        return None
    def sync(s, x):
        """the record number the responder expects (known from its report once the session is established)"""
        for t in s.R.snap["sess"]:
            if int(t["sid"], 16) == x.sid and t["state"] == 2: x.ks.seq["q"] = t["rq"]; return True
        return False
    def seal(s, x, m, app=False, **k): return W.frame(s.tr, s.q.seal(x, m, app, **k), True)
    def sec(s, x, m, app=False, note="", **k):
        """one proper record in session x; the answer's message or None"""
        s.sync(x); n0 = x.ks.seq["q"]
        f = s.seal(x, m, app, **k); s.old.append((x.sid, f)); o = s.put(f, note)
        if s.R.last["fault"] == "aead_decrypt" or s.R.last["rf"]: x.ks.seq["q"] = n0
        if len(o) == 1 and o[0].get("auth") and not o[0]["lost"]: return bytes.fromhex(o[0]["m"])
        return None
    def over(s): return s.R.panic
    def sess(s, st=None):
        live = {int(t["sid"], 16): t["state"] for t in s.R.snap["sess"]} if s.R.snap else {}
        return [x for x in s.q.sess.values() if x.sid in live and (st is None or (live[x.sid] == 2) == (st == "est"))]
    # ------------------------------------------------------------ damage
    def hurt(s, m, kinds=("trunc", "ext", "flip", "zero", "byte")):
        r = s.rng; k = r.choice(kinds)
        if k == "trunc": return m[:r.randrange(len(m))] if m else m
        if k == "ext": return m + bytes(r.getrandbits(8) for _ in range(r.choice((1, 2, 4, 40))))
        if not m: return b"\x12"
        i = r.randrange(len(m)) if r.random() < .5 else r.randrange(min(len(m), 12))
        b = bytearray(m)
        if k == "flip": b[i] ^= 1 << r.randrange(8)
        elif k == "zero": b[i] = 0
        else: b[i] = r.choice((0, 1, 2, 0x7f, 0x80, 0xff, r.getrandbits(8)))
        return bytes(b)
    # ------------------------------------------------------------ building requests (correct for the current state)
    def nonce(s): return s.q.rb(32)
    def m_caps(s, v=None, flags=None, dts=4096, mx=4096, ct=0):
        v = s.capv if v is None else v
        return s.q.capsmsg(v, s.flags if flags is None else flags, dts, mx, ct)
    def m_neg(s, **k):
        for a, c, v in (("hash_", "hash", 2), ("asym", "asym", 0x80), ("dhe", "dhe", 16), ("aead", "aead", 2), ("rasym", "reqasym", 0x80)):
            m = s.cfg(c)
            if a not in k and not m & v and m: k[a] = m & -m        # a responder that does not do the usual algorithm
        return s.q.negmsg(**k)
    def m_kex(s, slot=0, ms=0, **k): return s.q.kex(slot, ms, **k)
    def up(s, v=None, flags=None, dts=4096, mx=4096, neg=None):
        """bring the connection up; True when negotiated"""
        s.plain(s.q.version()); s.plain(s.m_caps(v, flags, dts, mx)); s.plain(s.m_neg(**(neg or {})))
        return s.R.snap and s.R.snap["conn"] >= 3
    def certs(s, slot=0):
        v = s.q.ver; s.plain(W.get_digests(v)); off = 0
        while not s.over():
            p = s.plain(W.get_cert(v, slot, off, 512))
            if not p or p[1] != 2: break
            n, rem = W.le(p[4:6]), W.le(p[6:8]); off += n
            if not rem or not n: break
    def encap(s, x, leaf=b"REQLEAF0", fill=0, portion=512, qc=None):
        """let the responder retrieve the requester's chain inside session x"""
        v = s.q.ver; h = s.q.hash
        qc = reqchain(leaf, fill, h) if qc is None else qc
        p = s.sec(x, W.encap_req(v)); rid = p[2] if p else 0
        p = s.sec(x, W.encap_del(v, rid, W.msg(v, 1, 0, 1, fhash(h, qc))))
        off = 0
        while p and p[1] == 0x6B and p[3] == 1 and not s.over():
            part = qc[off:off + portion]; off += len(part)
            p = s.sec(x, W.encap_del(v, p[2], W.msg(v, 2, 0, 0, W.u16(len(part)) + W.u16(len(qc) - off) + part)))
        if p and p[1] == 0x6B and p[3] == 2: s.qch[h] = qc; return True
        return False
    def kexup(s, slot=0, ms=0, **k):
        """KEY_EXCHANGE; the session or None"""
        p = s.plain(s.m_kex(slot, ms, **k))
        return s.q.sess.get(s.q.lastsid) if p and p[1] == 0x64 else None
    def pskup(s, **k):
        p = s.plain(s.q.psk(**k))
        return s.q.sess.get(s.q.lastsid) if p and p[1] == 0x66 else None
    def m_fin(s, x, **k):
        if x.mut and s.q.hash in s.qch: x.qch = fhash(s.q.hash, s.qch[s.q.hash])
        elif x.mut: x.qch = fhash(s.q.hash, reqchain(h=s.q.hash))
        return s.q.finish(x, **k)
    def fin(s, x, **k):
        F = x.F; m = s.m_fin(x, **k)
        p = s.sec(x, m) if not s.q.clear() else s.plain(m)
        if p and p[1] == 0x65: s.q.finished(x, p); return True
        x.F = F; return False
    def pskfin(s, x, **k):
        F = x.F; p = s.sec(x, s.q.pskfinish(x, **k))
        if p and p[1] == 0x67: s.q.finished(x, p); return True
        x.F = F; return False
    def login(s, slot=0, ms=0, **k):
        """an established certificate session or None"""
        x = s.kexup(slot, ms, **k)
        if not x: return None
        if x.mut and s.q.hash not in s.qch:
            if s.R.snap["conn"] < 5: s.certs(slot)
            s.encap(x)
        return x if s.fin(x) else None
    def psklogin(s, **k):
        x = s.pskup(**k)
        if x and x.state == "hs" and not s.pskfin(x): return None
        return x
    def ku(s, x, op, tag=None):
        tag = s.rng.getrandbits(8) if tag is None else tag
        p = s.sec(x, W.keyupd(s.q.ver, op, tag))
        done = p and p[1] == 0x69
        if not done and s.R.last["post"] and op in (1, 2) and s.R.last["fault"] == "aead_encrypt":
            done = any(int(t["sid"], 16) == x.sid and t["rq"] == 0 for t in s.R.snap["sess"])
        if not done and s.R.last["o"] and s.R.last["o"][0]["lost"] and op in (1, 2): done = True
        if done and op in (1, 2): x.ks.upd("q")
        if done and op == 2: x.ks.upd("s")
        return bool(done)
    def bye(s, x):
        p = s.sec(x, W.endsess(s.q.ver))
        if p and p[1] == 0x6C: s.dead.append(x); return True
        return False
    # ------------------------------------------------------------ one request of every kind, by opcode
    def request(s, op, x=None):
        """a well-formed request of this kind for the current state"""
        v = s.q.ver; r = s.rng
        if op == W.GET_VERSION: return W.get_version()
        if op == W.GET_CAPS: return W.get_caps(s.capv, QCAPS, 0, 4096, 4096)
        if op == W.NEG: return W.negotiate(v, 0x80, 2, [(2, 16), (3, 2), (4, 0x80), (5, 1)], 1, 2)
        if op == W.DIGESTS: return W.get_digests(v)
        if op == W.CERT: return W.get_cert(v, 0, 0, 512)
        if op == W.CHALL: return W.challenge(v, 0, r.choice((0, 0, 1, 255)), s.nonce())
        if op == W.MEAS: return W.get_meas(v, r.choice((0, 1)) if v >= 0x12 else 0, r.choice((0, 1, 2, 255)), s.nonce())
        if op == W.KEX: return s.m_kex(0, r.choice((0, 1, 255)))
        if op == W.PSKX: return s.q.psk(r.choice((0, 1)), b"hint")
        if op == W.FIN:
            if x is not None and x.state == "hs" and not x.psk:
                F = x.F; m = s.m_fin(x); x.F = F; return m
            return W.finish(v, 0, 0, b"", s.q.rb(HS.get(s.q.hash, 48)))
        if op == W.PSKF:
            if x is not None and x.state == "hs" and x.psk:
                F = x.F; m = s.q.pskfinish(x); x.F = F; return m
            return W.pskfin(v, s.q.rb(HS.get(s.q.hash, 48)))
        if op == W.HB: return W.heartbeat(v)
        if op == W.KU: return W.keyupd(v, r.choice((1, 2, 3)), r.getrandbits(8))
        if op == W.END: return W.endsess(v)
        if op == W.VEND: return W.vendor(v, s.q.rb(r.choice((0, 1, 20))), r.choice((0, 3, 8)), s.q.rb(r.choice((0, 2))))
        if op == W.ENCREQ: return W.encap_req(v)
        if op == W.ENCDEL: return W.encap_del(v, 0, W.msg(v, 1, 0, 1, s.q.rb(HS.get(s.q.hash, 48))))
        if op == W.RIR: return W.msg(v, W.RIR, 0x81, 1)
        return W.msg(v, op, r.getrandbits(8), r.getrandbits(8), s.q.rb(r.choice((0, 4, 30))))
    def rawsec(s, x, m, **k):
        """a request in session x that must not (or need not) be understood; keeps the driver's view consistent"""
        p = s.sec(x, m, **k)
        if p and p[1] == 0x6C: s.dead.append(x)
        if p and p[1] == 0x69 and len(m) > 2:
            if m[2] in (1, 2): x.ks.upd("q")
            if m[2] == 2: x.ks.upd("s")
        elif m[1:2] == b"\xe9" and len(m) > 2 and m[2] in (1, 2) and s.R.last["post"]:
            if any(int(t["sid"], 16) == x.sid and t["state"] == 2 and t["rq"] == 0 and x.ks.seq["q"] != 0 for t in s.R.snap["sess"]) and s.R.last["o"]:
                x.ks.upd("q")
                if m[2] == 2: x.ks.upd("s")
        if p and p[1] == 0x65 and x.state == "hs":
            n = W.decode_req(m, dict(ver=s.q.ver, hash=s.q.hash, rasym=s.q.rasym))["used"]; x.F += m[:n]; s.q.finished(x, p)
        if p and p[1] == 0x67 and x.state == "hs":
            n = W.decode_req(m, dict(ver=s.q.ver, hash=s.q.hash))["used"]; x.F += m[:n]; s.q.finished(x, p)
        return p
OPS = [W.GET_VERSION, W.GET_CAPS, W.NEG, W.DIGESTS, W.CERT, W.CHALL, W.MEAS, W.KEX, W.FIN, W.PSKX, W.PSKF, W.HB, W.KU, W.END, W.VEND, W.ENCREQ, W.ENCDEL, W.RIR,
       0x80, 0x85, 0xE2, 0xEF, 0x04, 0x64, 0x7F, 0x00]
