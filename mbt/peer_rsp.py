"""A reference responder that answers the real requester.  It follows the protocol honestly; `t` (tweaks) overrides
single fields, and the driver may damage or withhold what it returns.  save()/load() take its state back to where it
was when an answer did not reach the requester."""
import copy, random
import wire as W
from fc import *
from peer_req import KS, QSess, Req, signctx

class Peer(Req):
    def __init__(s, cfg, reg, seed=0):
        s.cfg = cfg; s.tr = cfg.get("transport", "mctp"); s.reg = reg; s.rng = random.Random(seed)
        s.pch = {0: chain(b"RSPLEAF0", 40)}; s.vers = [0x10, 0x11, 0x12]; s.flags = 0; s.dts = 4096; s.mx = 4096; s.ct = 0
        s.want = dict(hash=2, asym=0x80, dhe=16, aead=2, rasym=0x80, ks=1, opq=2, mspec=1, mhash=2)
        s.hb = 0; s.secver = 0x11; s.portion = 512; s.nsid = 0x200; s.mut = 0; s.rslot = 0; s.blocks = 3; s.blen = 8; s.t = {}; s.encplan = "full"; s.qcap = b""
        s.fresh()
    def fresh(s):
        s.authd = False; s.A = b""; s.BC = b""; s.M = {}; s.ver = 0x10; s.hash = s.asym = s.dhe = s.aead = s.rasym = s.opq = s.ks = s.mh = 0; s.qflags = 0
        s.sess = {}; s.last = None; s.rid = 0; s.got = b""; s.qch = b""
    KEEP = "A authd BC M mh ver hash asym dhe aead rasym opq ks qflags sess last rid got qch nsid".split()
    def save(s): return copy.deepcopy({k: getattr(s, k) for k in s.KEEP}, {id(s.reg): s.reg})
    def load(s, d):
        for k, v in copy.deepcopy(d, {id(s.reg): s.reg}).items(): setattr(s, k, v)
    def tw(s, k, v): return s.t.get(k, v)
    def clear(s): return bool(s.flags >> 15 & 1 and s.qflags >> 15 & 1)
    def meas(s): return bool(s.flags >> 3 & 3)
    def chash(s, slot): return fhash(s.hash, full_chain(s.hash, s.pch[slot])) if slot in s.pch and s.hash else b""
    def leaf(s, slot): return s.tw("signer", leaf_tag(s.pch[slot]) if slot in s.pch else b"RSPLEAF0")
    def error(s, code, data=0): return W.error(s.ver if s.ver else 0x10, code, data)
    # ------------------------------------------------------------ messages
    def handle(s, m, x=None):
        """the message that answers request m, received in the clear (x is None) or in session x"""
        if len(m) < 4: return s.error(1)
        op = m[1]; d = W.decode_req(m, dict(ver=m[0] if op == W.NEG else s.ver, hash=s.hash, asym=s.asym, dhe=s.dhe, rasym=s.rasym, opq=s.opq))
        if not d["wf"]: return s.error(1)
        if op not in (W.VEND, W.ENCDEL): m = m[:d["used"]]
        if op not in (W.MEAS, W.GET_VERSION): s.M.pop(x.sid if x else None, None)
        if op == W.DIGESTS or not s.authd and op in (W.MEAS, W.KEX, W.FIN, W.PSKX, W.PSKF, W.KU, W.HB, W.END): s.BC = b""
        if op not in (W.GET_VERSION, W.GET_CAPS, W.NEG, W.VEND) and (s.hash not in HS or (op in (W.CHALL, W.KEX) or op == W.MEAS and d["attr"] & 1) and s.asym not in AS): return s.error(4)
        f = {W.GET_VERSION: s.version, W.GET_CAPS: s.caps, W.NEG: s.algs, W.DIGESTS: s.digests, W.CERT: s.cert, W.CHALL: s.chal, W.MEAS: s.measure, W.KEX: s.kexr, W.PSKX: s.pskr,
             W.FIN: s.finr, W.PSKF: s.pskfr, W.HB: s.plainr, W.KU: s.kur, W.END: s.endr, W.VEND: s.vend, W.ENCREQ: s.encr, W.ENCDEL: s.encd}.get(op)
        return f(m, d, x) if f else s.error(7, op)
    def version(s, m, d, x):
        s.fresh(); v = s.tw("vers", s.vers)
        p = W.msg(0x10, 4, 0, 0, bytes([0, len(v)]) + b"".join(bytes([0, a]) for a in v)); s.A = m + p; return p
    def caps(s, m, d, x):
        s.ver = m[0]; s.qflags = sum(1 << b for b in d["flags"]); b = bytes([0, s.tw("ct", s.ct), 0, 0]) + W.u32(s.tw("flags", s.flags))
        if s.ver >= 0x12: b += W.u32(s.tw("dts", s.dts)) + W.u32(s.tw("max", s.mx))
        p = W.msg(s.ver, 0x61, 0, 0, b); s.A += m + p; return p
    def algs(s, m, d, x):
        w = dict(s.want); w.update({k: s.t[k] for k in w if k in s.t})
        off = lambda k: sum(1 << b for b in d[k])
        st = {t["t"]: sum(1 << b for b in t["a"]) for t in d["st"]}
        def one(v, o): return v if v & o == v else (o & -o)
        s.hash = w["hash"] if "hash" in s.t else one(w["hash"], off("hash")); s.asym = w["asym"] if "asym" in s.t else one(w["asym"], off("asym"))
        z = lambda k, t: w[k] if k in s.t else one(w[k], st.get(t, 0))
        if s.ver >= 0x11: s.dhe, s.aead, s.rasym, s.ks = z("dhe", 2), z("aead", 3), z("rasym", 4), z("ks", 5)
        s.opq = (w["opq"] if "opq" in s.t else one(w["opq"], off("opq"))) if s.ver >= 0x12 else 0
        mspec = (w["mspec"] if "mspec" in s.t else one(w["mspec"], off("mspec"))); mh = w["mhash"]
        if not s.meas() and "mspec" not in s.t: mspec = 0
        if not s.meas() and "mhash" not in s.t: mh = 0
        s.mh = mh
        ss = s.tw("structs", [(2, s.dhe), (3, s.aead), (4, s.rasym), (5, s.ks)] if s.ver >= 0x11 else [])
        n = s.tw("alen", 36 + 4 * len(ss))
        p = W.msg(s.ver, 0x63, s.tw("cnt", len(ss)), 0, W.u16(n) + bytes([mspec, s.opq]) + W.u32(mh) + W.u32(s.asym) + W.u32(s.hash) + bytes(12) + bytes([s.tw("exta", 0), 0, 0, 0])
                  + b"".join(bytes([a, 0x20]) + W.u16(b) for a, b in ss))
        s.A += m + p; return p
    def digests(s, m, d, x):
        sl = s.tw("dslots", sorted(s.pch)); mask = s.tw("mask", sum(1 << i for i in sl))
        p = W.msg(s.ver, 1, 0, mask, b"".join(s.chash(i) or bytes(HS.get(s.hash, 0)) for i in sl))
        if x is None: s.BC += m + p
        return p
    def cert(s, m, d, x):
        if d["slot"] not in s.pch: return s.error(1)
        c = full_chain(s.hash, s.pch[d["slot"]]); c = s.tw("chain", c)
        if d["off"] >= len(c): return s.error(1)
        part = c[d["off"]:d["off"] + min(d["len"], s.tw("portion", s.portion))]; rem = s.tw("rem", len(c) - d["off"] - len(part))
        p = W.msg(s.ver, 2, s.tw("slot", d["slot"]), 0, W.u16(len(part)) + W.u16(rem) + part)
        if x is None: s.BC += m + p
        return p
    def sg(s, slot, ctx, data):
        if s.ver < 0x12: return s.reg.sign(s.leaf(slot), s.hash, s.asym, data)
        return s.reg.sign(s.leaf(slot), s.tw("shash", s.hash), s.tw("sasym", s.asym), signctx(s.tw("sver", s.ver), s.tw("sctx", ctx)) + s.reg.hash(s.hash, data))
    def msum(s, ms): return fmsum(s.hash, ms) if ms in (1, 255) else b""
    def chal(s, m, d, x):
        sl = d["slot"]; mask = sum(1 << i for i in s.pch)
        p = W.msg(s.ver, 3, s.tw("slot", sl) | s.tw("cattr", 0) << 4, s.tw("mask", mask), s.tw("ch", s.chash(sl)) + s.rb(32) + s.msum(d["ms"]) + W.u16(0))
        p += s.sg(sl, b"responder-challenge_auth signing", s.tw("sA", s.A) + s.tw("sBC", s.BC) + m + p); s.BC = b""; s.authd = s.authd or not s.t; return p
    def block(s, i):
        n = {2: 32, 4: 48, 8: 64}.get(s.mh, 0) if i % 2 and s.mh > 1 else s.blen
        return bytes([i, 1]) + W.u16(n + 3) + bytes([i % 5 | (0 if i % 2 and s.mh > 1 else 0x80)]) + W.u16(n) + xof("meas", [bytes([i])], n)
    def measure(s, m, d, x):
        key = x.sid if x else None; op = d["mop"]; bl = []
        if op == 255: bl = [s.block(i) for i in range(1, s.blocks + 1)]
        elif 0 < op <= s.blocks: bl = [s.block(op)]
        elif op: return s.error(1)
        rec = s.tw("rec", b"".join(bl)); n = s.tw("nblk", len(bl))
        p = W.msg(s.ver, 0x60, s.tw("total", s.blocks if op == 0 else 0), s.tw("slot", d["slot"]) | s.tw("chg", 0) << 4, bytes([n]) + W.u24(len(rec)) + rec + s.rb(32) + W.u16(0))
        t = s.M.get(key, b"") + m + p
        if d["attr"] & 1: p += s.sg(d["slot"], b"responder-measurements signing", s.tw("sM", (s.A if s.ver >= 0x12 else b"") + t)); s.M.pop(key, None)
        else: s.M[key] = t
        return p
    def opaque(s): return s.tw("opaque", W.opaque_sel(s.ver, s.tw("secver", s.secver)))
    def newsid(s):
        v = s.tw("rsid", s.nsid); s.nsid += 1; return v
    def kexr(s, m, d, x):
        if not (s.hash and s.dhe and s.aead) or d["slot"] not in s.pch: return s.error(4)
        y = QSess(); y.psk = False; y.A = s.A; y.rch = s.chash(d["slot"]); y.qch = b""; y.F = b""; y.mut = s.tw("mut", s.mut); y.slot = d["slot"]
        r = s.newsid(); pub = s.rb(DS[s.dhe][0]); o = s.opaque()
        p = W.msg(s.ver, 0x64, s.tw("hb", s.hb), 0, W.u16(r) + bytes([y.mut, s.tw("rslot", s.rslot if y.mut else 0)]) + s.rb(32) + pub + s.msum(d["ms"]) + W.u16(len(o)) + o)
        y.K = m + p; g = s.sg(d["slot"], b"responder-key_exchange_rsp signing", s.tw("sK", y.A + y.rch + y.K)); p += g; y.K += g
        y.sid = r << 16 | int(d["rsid"], 16); y.ks = KS(s.reg, s.ver, s.hash, s.aead); y.ks.dhe(s.reg.dhs(s.dhe, bytes.fromhex(d["exch"]), pub)); y.ks.th1(s.th(y))
        if not s.clear():
            v = s.tw("vd", s.reg.hmac(s.hash, s.tw("vdkey", y.ks.fs), s.th(y))); p += v; y.K += v
        y.state = "hs"; s.sess[y.sid] = y; s.last = y.sid; return p
    def pskr(s, m, d, x):
        if not (s.hash and s.aead): return s.error(4)
        y = QSess(); y.psk = True; y.A = s.A; y.rch = b""; y.qch = b""; y.F = b""; y.mut = 0; y.slot = 0
        r = s.newsid(); o = s.opaque(); ctx = s.rb(32) if s.tw("ctx", s.flags >> 11 & 1) else b""
        p = W.msg(s.ver, 0x66, s.tw("hb", s.hb), 0, W.u16(r) + W.u16(0) + W.u16(len(ctx)) + W.u16(len(o)) + s.msum(d["ms"]) + ctx + o)
        y.K = m + p; y.sid = r << 16 | int(d["rsid"], 16); y.ks = KS(s.reg, s.ver, s.hash, s.aead); y.ks.psk(s.tw("hint", bytes.fromhex(d["hint"]))); y.ks.th1(s.th(y))
        v = s.tw("vd", s.reg.hmac(s.hash, s.tw("vdkey", y.ks.fs), s.th(y))); p += v; y.K += v; y.state = "hs"; s.sess[y.sid] = y
        if not (s.flags >> 11 & 1): y.ks.th2(s.th(y)); y.state = "app"
        return p
    def finr(s, m, d, x):
        y = x if x else s.sess.get(s.last)
        if not y or y.state != "hs": return s.error(4)
        if y.mut: y.qch = fhash(s.hash, s.qch) if s.qch else s.qcap
        y.F += m[:d["used"]]; p = W.msg(s.ver, 0x65)
        if s.clear():
            y.F += p; v = s.tw("vd", s.reg.hmac(s.hash, s.tw("vdkey", y.ks.fs), s.th(y))); p += v; y.F += v
        else: y.F += p
        s.pend2 = y; return p
    def pskfr(s, m, d, x):
        if not x or x.state != "hs": return s.error(4)
        p = W.msg(s.ver, 0x67); x.F += m[:d["used"]] + p; s.pend2 = x; return p
    def plainr(s, m, d, x): return W.msg(s.ver, 0x68)
    def kur(s, m, d, x):
        if not x or x.state != "app": return s.error(4)
        op = d["kop"]
        if op in (1, 2): x.ks.upd("q")
        if op == 2: x.ks.upd("s")
        return W.msg(s.ver, 0x69, s.tw("kop", op), s.tw("tag", d["tag"]))
    def endr(s, m, d, x):
        if x: x.state = "ending"
        return W.msg(s.ver, 0x6C)
    def vend(s, m, d, x):
        pay = s.tw("pay", bytes.fromhex(d["pay"])[::-1]); return W.msg(s.ver, 0x7E, 0, 0, W.u16(0) + bytes([0]) + W.u16(len(pay)) + pay)
    # ------------------------------------------------------------ encapsulated requests
    def encr(s, m, d, x):
        s.rid = s.tw("rid", (s.rid + 1) & 255 or 1); s.got = b""
        q = W.get_digests(s.ver) if s.encplan == "full" else W.get_cert(s.ver, s.tw("eslot", 0), 0, s.tw("elen", 512))
        return W.msg(s.ver, 0x6A, s.rid, 0, s.tw("eq", q))
    def ack(s, rid, pt, body=b""):
        return W.msg(s.ver, 0x6B, s.tw("arid", s.rid), s.tw("pt", pt), (bytes([s.tw("ackid", rid), 0, 0, 0]) if s.ver >= 0x12 else b"") + body)
    def encd(s, m, d, x):
        i = d["inn"]; rid = d["rid"]; s.rid = (s.rid + 1) & 255
        if i["op"] == 1 and i["wf"]:
            s.got = b""; return s.ack(rid, 1, s.tw("eq", W.get_cert(s.ver, s.tw("eslot", 0), 0, s.tw("elen", 512))))
        if i["op"] == 2 and i["wf"] and i["plen"]:
            s.got += bytes.fromhex(i["data"])
            if i["rem"]: return s.ack(rid, 1, s.tw("eq", W.get_cert(s.ver, s.tw("eslot", 0), len(s.got), s.tw("elen", 512))))
            s.qch = s.got; return s.ack(rid, 2, bytes([s.tw("aslot", s.rslot)])) if s.tw("fin", 2) == 2 else s.ack(rid, 0)
        return s.ack(rid, 0)
    # ------------------------------------------------------------ frames
    def opened(s, p):
        n = 4 + W.seqlen(s.tr) + 2
        if len(p) < n: return None
        return s.open(p[:n + W.le(p[n-2:n])])
    def answer(s, b, hurt=None):
        """frame in, frame out (None: nothing to say); hurt: what happens to the message before it is protected"""
        k, p, _ = W.unframe(s.tr, b); s.pend2 = None; s.lastx = None; s.lastm = b""; s.lastapp = None
        f = hurt or (lambda m: m)
        if k == "plain":
            s.lastm = f(s.handle(p)); s.settle(); return W.frame(s.tr, s.lastm, False)
        if k != "sec" or len(p) < 4: return None
        x = s.sess.get(W.le(p[:4])); u = s.opened(p) if x else None
        if not x or u is None: return W.frame(s.tr, s.error(6), False)
        x.ks.seq["q"] += 1; s.lastx = x
        if u[0]: s.lastapp = u[1]; return None
        s.lastm = f(s.handle(u[1], x)); o = W.frame(s.tr, s.seal(x, s.lastm, **dict(dict(dir="s"), **s.tw("seal", {}))), True); s.settle(); return o
    def settle(s):
        """after the answer was protected"""
        y = s.pend2
        if y is not None: y.ks.th2(s.th(y)); y.state = "app"; s.pend2 = None
        for k in [k for k, z in s.sess.items() if z.state == "ending"]: del s.sess[k]
