"""The real requester against the real responder, with somebody on the wire between them.

Both ends are recorded, with one registry of cryptographic values, into one sequence of events; module PairTrace runs both
specifications over it and checks what has to hold between the two ends."""
import random
import wire as W
from fc import *
from rec import Rsp, DEF
from recq import ReqRun

from drive import QCAPS
CH = lambda tag, fill=40, root=b"ROOTCA00": chain(tag, fill, root=root).hex()
_second = None
def second():
    global _second
    import sut
    if _second is None: _second = sut.Proc()
    return _second
class Shared:
    """one end's view of the common registry"""
    def __init__(s, reg, role): s.__dict__["reg"] = reg; s.__dict__["who"] = role
    def __getattr__(s, n):
        s.reg.role = s.who; return getattr(s.reg, n)
    def __setattr__(s, n, v):
        if n != "role": setattr(s.reg, n, v)
class PD:
    def __init__(s, proc, qcfg, scfg, rng, sc, mitm=None):
        s.rng = rng; s.ev = []; s.mitm = mitm; s.old = {"q": [], "s": []}; s.n = 0; s.touched = False; s.box = []
        q = dict(qcfg); r = dict(scfg)
        for c in (q, r): c.setdefault("seed", "%08x" % rng.getrandbits(32))
        reg = Reg()
        s.Q = ReqRun(proc, q, sc); s.R = Rsp(second(), r, sc)
        s.Q.reg = s.Q.sut.reg = Shared(reg, "req"); s.R.reg = s.R.sut.reg = Shared(reg, "rsp"); s.reg = reg
        s.tr = s.Q.tr; s.kw = {}
    # ------------------------------------------------------------ the wire; the requester's runner calls these
    def deliver(s, f, **kw):
        """one frame reaches the responder"""
        outs = s.R.step(f, **kw); s.ev.append(s.R.last)
        return [o["raw"] for o in outs if not o["lost"]]
    def sent(s, b):
        s.n += 1; s.box = []; kw, s.kw = s.kw, {}
        s.old["q"].append(b)
        fs = [b] if s.mitm is None else s.mitm(s, "q", b)
        if fs != [b]: s.touched = True
        for f in fs:
            out = s.deliver(f, **kw)
            s.box = (out[-1:] or s.box) if s.mitm is None else s.box + out
        return True
    def reply(s):
        if not s.box: return None
        b = s.box[0]; s.box = s.box[1:]; s.old["s"].append(b)
        fs = [b] if s.mitm is None else s.mitm(s, "s", b)
        if fs != [b]: s.touched = True
        return fs[0] if fs else None
    def over(s): return s.Q.panic or s.R.panic
    def do(s, name, **a):
        if s.over(): return False
        ok = s.Q.op(name, s, "", **a); e = s.Q.last; e["honest"] = not s.touched; e["find"] = "mutauth in the clear" if name == "mutauth" and s.clear() else ""; s.ev.append(e)
        return ok
    def clear(s): return bool(s.Q.snap and s.Q.snap["rqc"] >> 15 & s.Q.snap["rsc"] >> 15 & 1)
    def val(s): return s.Q.last["val"]
    def sids(s, est=None): return [t["sid"] for t in s.Q.snap["sess"] if t["state"] and (est is None or (t["state"] == 2) == est)] if s.Q.snap else []
    # ------------------------------------------------------------ flows
    def up(s, single=False):
        if not single: return s.do("init")
        return s.do("version") and s.do("capability") and s.do("algorithm")
    def certs(s, slot=0, sid=""): return s.do("digest", sid=sid) and s.do("certificate", sid=sid, slot=slot)
    def login(s, slot=0, ms=0):
        if not s.do("kex", slot=slot, msum=ms): return None
        sid = s.val(); x = [t for t in s.Q.snap["sess"] if t["sid"] == sid]
        if x and x[0]["mut"]:
            if not s.do("mutauth", sid=sid): return None
        return sid if s.do("finish", sid=sid) else None
    def psklogin(s, hint="", ms=0):
        if not s.do("psk", hint=hint, msum=ms): return None
        sid = s.val()
        if sid in s.sids(True): return sid
        return sid if s.do("pskfinish", sid=sid) else None
    def app(s, sid, data):
        """application data there, the handler's answer back"""
        if s.tr != "mctp": return True                    # a DOE data object does not tell application data apart
        if not s.do("appsend", sid=sid, data=data.hex()): return False
        return s.do("apprecv", sid=sid)
    def finish(s):
        s.R.finish(); s.Q.finish(); cs = s.R.ev[0]["cfg"]; cq = s.Q.cfgd; dig = s.reg.digtab() or {"none": "none"}
        cs["dig"] = cq["dig"] = dig
        return cq, cs
TRS = ("mctp", "doe")
def cfgs(rng, **k):
    """two compatible ends"""
    tr = rng.choice(TRS); q = dict(transport=tr, reqcaps=QCAPS, chain0=CH(b"REQLEAF0", rng.choice((0, 40, 400, 700)))); r = dict(transport=tr, chain0=CH(b"RSPLEAF0", rng.choice((0, 40, 500, 900, 1300))))
    if rng.random() < .3: r["chain1"] = CH(b"RSPLEAF0", rng.choice((0, 300)))
    r["hb"] = rng.choice((0, 1, 255)); r["nmeas"] = rng.choice((1, 3, 5)); mh = rng.choice((2, 4, 8)); q["meashash"] = r["meashash"] = mh; r["measlen"] = {2: 32, 4: 48, 8: 64}[mh]
    for c in (q, r):
        if rng.random() < .5:
            c["hash"] = rng.choice((2, 6, 7, 3)); c["dhe"] = rng.choice((16, 24)); c["aead"] = rng.choice((2, 3, 6, 7))
        if rng.random() < .3: c["versions"] = rng.choice(("10,11,12", "12,11,10", "11,12,10"))
        if rng.random() < .3: c["secver"] = rng.choice(("10,11", "11,10", "11,11"))
        if rng.random() < .3: c["root"] = cert(b"ROOTCA00", b"ROOTCA00", 0).hex()
    if rng.random() < .4:
        a = rng.choice((1, 4, 0x10, 0x20, 0x80)); h = rng.choice((1, 2, 4)); e = rng.choice((1, 2, 4)); g = rng.choice((8, 16))
        for c in (q, r): c.update(asym=a, reqasym=a, hash=h, aead=e, dhe=g)
    if rng.random() < .25: r["rspcaps"] = (DEF["rspcaps"] & ~(1 << 11)) | 1 << 10                       # PSK without context
    if rng.random() < .2: q["reqcaps"] = QCAPS | 1 << 15; r["rspcaps"] = int(str(r.get("rspcaps", DEF["rspcaps"])), 0) | 1 << 15
    if rng.random() < (.6 if int(str(q["reqcaps"]), 0) >> 15 & 1 else .15): q["reqcaps"] = int(str(q["reqcaps"]), 0) & ~(1 << 8 | 1 << 12)      # no mutual authentication
    for c in (q, r): c.update(k)
    return q, r
def flow(d, rng, n):
    """operations a careful caller performs, in any sensible order"""
    for _ in range(n):
        if d.over() or not d.Q.snap["hash"]: return
        est = d.sids(True); a = rng.choices(("certs", "chal", "meas", "login", "psk", "hb", "ku", "end", "app", "smeas", "scerts", "vendor", "again"), (2, 2, 3, 2, 2, 2, 4, 1.5, 4, 3, 1, 1.5, .3))[0]
        slots = [i for i in range(2) if d.R.cfg.get("chain%d" % i)]; sl = rng.choice(slots)
        if a == "certs": d.certs(sl)
        elif a == "chal": d.certs(sl) and d.do("challenge", slot=sl, msum=rng.choice((0, 1, 255)))
        elif a == "meas": meas(d, rng, "")
        elif a == "login" and len(d.sids()) < 3: d.certs(sl) and d.login(sl, rng.choice((0, 1, 255)))
        elif a == "psk" and len(d.sids()) < 3: d.psklogin(rng.choice((b"", b"hint", b"x" * 20)).hex(), rng.choice((0, 1, 255)))
        elif a == "again": d.up(rng.random() < .5)
        elif est:
            x = rng.choice(est)
            if a == "hb": d.do("heartbeat", sid=x)
            elif a == "ku": d.do("keyupdate", sid=x, op=rng.choice((1, 2)))
            elif a == "end": d.do("end", sid=x)
            elif a == "app": d.app(x, rng.choice((b"\1", b"hello", bytes(range(100)), b"\x12\x65\0\0", rng.randbytes(rng.randrange(1, 1200)))))
            elif a == "smeas": meas(d, rng, x)
            elif a == "scerts": d.certs(sl, x)
            elif a == "vendor": d.do("vendor", sid=x, data=rng.randbytes(rng.choice((1, 20))).hex())
def meas(d, rng, sid):
    if d.Q.snap["peer"][0] in ("", ".") and not d.certs(): return
    n = int(d.R.cfg["nmeas"]); k = {} if sid == "" else dict(sid=sid)
    for _ in range(rng.choice((0, 0, 1, 2))): d.do("measurement", slot=0, attr=0, op=rng.choice((0, rng.randrange(1, n + 1), 255)), **k)
    d.do("measurement", slot=0, attr=1, op=rng.choice((rng.randrange(1, n + 1), 255)), **k)
def p_flow(D, rng, k):
    q, r = cfgs(rng); d = D(q, r); d.up(rng.random() < .5) and (d.certs() or True) and flow(d, rng, rng.choice((8, 14, 20))); return d
def p_each(D, rng, k):
    """one complete run per algorithm suite and transport"""
    tr = TRS[k % 2]; j = k // 2; h = (1, 2, 4)[j % 3]; j //= 3; e = (1, 2, 4)[j % 3]; j //= 3; g = (8, 16)[j % 2]; j //= 2; a = (0x80, 0x10, 1, 2, 4, 8, 0x20, 0x40)[(k * 5 + j) % 8]
    q, r = cfgs(rng, transport=tr, hash=h, aead=e, dhe=g, asym=a, reqasym=a); d = D(q, r)
    if not (d.up() and d.certs() and d.do("challenge", slot=0, msum=1)): return d
    meas(d, rng, ""); x = d.login(0, 255); y = d.psklogin("", 1)
    for z in (x, y):
        if not z: continue
        d.app(z, b"one"); meas(d, rng, z); d.do("heartbeat", sid=z); d.do("keyupdate", sid=z, op=1); d.app(z, b"two"); d.do("keyupdate", sid=z, op=2); d.app(z, b"three"); d.certs(0, z); d.do("end", sid=z)
    flow(d, rng, 6); return d
# ------------------------------------------------------------------ somebody on the wire
def tweak(rng, b, lo, n=None):
    f = bytearray(b); i = rng.randrange(lo, len(f)) if n is None else n
    r = rng.random()
    if r < .6: f[i] ^= 1 << rng.randrange(8)
    elif r < .8: f[i] = rng.choice((0, 1, 0xff, rng.randrange(256)))
    elif r < .9: return bytes(f[:i])
    else: return bytes(f[:i]) + rng.randbytes(rng.choice((1, 4))) + bytes(f[i:])
    return bytes(f)
def p_edit(D, rng, k):
    """exactly one message of a complete run is altered; the rest passes"""
    at = k % 40; st = dict(n=0)
    def mitm(d, side, b):
        st["n"] += 1
        if st["n"] - 1 != at: return [b]
        return [tweak(rng, b, 1 if d.tr == "mctp" else 8)] if len(b) > 12 else [b]
    q, r = cfgs(rng); d = D(q, r, mitm); d.up(rng.random() < .3); d.certs()
    for _ in range(2):
        x = d.login() if k // 40 % 2 == 0 else d.psklogin()
        if x: d.app(x, b"secret"); meas(d, rng, x); d.do("keyupdate", sid=x, op=rng.choice((1, 2))); d.app(x, b"more"); d.do("end", sid=x)
    d.mitm = None; d.up(); d.certs(); d.login(); return d
def p_offer(D, rng, k):
    """the negotiation is altered so that it still succeeds on both sides: no session may come of it"""
    pos = dict(caps=list(range(4, 20)), algs=list(range(4, 52)), vers=list(range(4, 12)))
    side, code = rng.choice((("q", W.GET_CAPS), ("q", W.NEG), ("s", 0x61), ("s", 0x63), ("s", 4)))
    def mitm(d, sd, b):
        s, p, _ = W.unframe(d.tr, b)
        if sd != side or len(p) < 2 or p[1] != code: return [b]
        f = bytearray(p)
        for _ in range(rng.choice((1, 1, 2))): i = rng.randrange(2, len(f)); f[i] ^= 1 << rng.randrange(8)
        return [W.frame(d.tr, bytes(f), False)]
    q, r = cfgs(rng, **rng.choice(({}, dict(hash=7, aead=7, dhe=24), dict(hash=7, aead=7)))); d = D(q, r, mitm); d.up(rng.random() < .3)
    d.certs(); d.do("challenge", slot=0, msum=0); d.do("measurement", slot=0, attr=1, op=1)
    for f in (d.login, d.psklogin):
        x = f()
        if x: d.app(x, b"secret"); d.do("end", sid=x)
    d.mitm = None; d.up(); d.certs(); d.login(); return d
def p_wire(D, rng, k):
    """loss, repetition, reordering, alteration at random during a long run"""
    w = rng.choice(((.02, .03, .03, .03), (.1, .02, .02, .02), (0, .15, 0, 0), (0, 0, 0, .1), (.03, .05, .05, .0)))
    def mitm(d, side, b):
        r = rng.random(); lose, rep, old, edit = w
        if d.n < 3: return [b]
        if r < lose: return []
        r -= lose
        if r < rep: return [b, b] if side == "q" else [b]
        r -= rep
        if r < old and len(d.old[side]) > 4: o = rng.choice(d.old[side][-12:]); return rng.choice(([o, b], [o], [b, o]))
        r -= old
        if r < edit and len(b) > 12: return [tweak(rng, b, 1 if d.tr == "mctp" else 8)]
        if r < edit + .02: return [rng.choice(d.old["s" if side == "q" else "q"][-8:] or [b]), b]
        return [b]
    q, r = cfgs(rng); d = D(q, r, mitm); d.up(rng.random() < .5) and flow(d, rng, rng.choice((12, 20)))
    if not d.over():
        d.mitm = None; d.touched = True; d.up() and (d.certs() or True) and flow(d, rng, 5)
    return d
FAM = dict(p_flow=p_flow, p_each=p_each, p_edit=p_edit, p_offer=p_offer, p_wire=p_wire)
def run(proc, fam, k, seed, sc):
    rng = random.Random("%s/%s/%d" % (seed, fam, k)); box = []
    def D(q, r, mitm=None):
        d = PD(proc, q, r, rng, sc, mitm); box.append(d); return d
    err = None
    try: FAM[fam](D, rng, k)
    except Exception:
        if not box: raise
        import traceback; err = traceback.format_exc()
    d = box[0]; cq, cs = d.finish()
    return dict(sc=sc, cq=cq, cs=cs, ev=d.ev, drv=err or "", fam=fam, k=k)
