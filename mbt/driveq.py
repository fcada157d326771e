"""Scenario driver for the real requester: operations answered by the reference responder, honestly or not."""
import random
import wire as W
from fc import *
from peer_rsp import Peer
from recq import ReqRun

RCAPS = 0x1fbd6 & ~(1 << 16) & ~(1 << 15)      # what a full responder announces (measurements with signature, PSK with context)
class QD:
    def __init__(s, proc, cfg, sc, rng, pflags=None):
        cfg = dict(cfg); cfg.setdefault("seed", "%08x" % rng.getrandbits(32))
        s.rng = rng; s.R = ReqRun(proc, cfg, sc); s.tr = s.R.tr
        s.p = Peer(s.R.cfg, s.R.reg, rng.getrandbits(32)); s.p.flags = RCAPS if pflags is None else pflags
        s.p.qcap = fhash(2, full_chain(2, bytes.fromhex(s.R.cfg["chain0"]))) if s.R.cfg.get("chain0") else b""
        s.old = []; s.plan = {}
    def over(s): return s.R.panic
    # ------------------------------------------------------------ what happens at the i-th exchange of an operation
    def sent(s, b):
        s.i += 1; pl = s.at(s.i); s.p.t = dict(pl.get("t", {})); s.out = None
        if pl.get("lost") and not pl.get("heard"): return False
        keep = s.p.save() if pl.get("forget") else None
        f = s.p.answer(b, pl.get("m"))
        if keep: s.p.load(keep)
        if f is not None:
            if pl.get("f"): f = pl["f"](f)
        if "raw" in pl: f = pl["raw"]() if callable(pl["raw"]) else pl["raw"]
        if f is not None and "raw" not in pl: s.old.append((s.p.lastx.sid if s.p.lastx else 0, f))
        s.out = f
        return not pl.get("lost")
    def reply(s):
        pl = s.at(max(s.i, 0)) if s.i else s.at(1)
        if pl.get("mute"): return None
        o, s.out = s.out, None
        return o
    def at(s, i): return s.plan.get(i, s.plan.get(0, {}))
    def sync(s):
        for t in s.R.snap["sess"]:
            x = s.p.sess.get(int(t["sid"], 16))
            if x and t["state"] == 2 and x.state == "app": x.ks.seq["q"] = t["rq"]; x.ks.seq["s"] = t["rs"]
    def do(s, name, plan=None, note="", **a):
        """one operation; plan: {exchange number (0: any): {t: tweaks, m: message damage, f: frame damage, raw: frame instead, lost, heard, mute, forget}}"""
        if s.over(): return False
        s.plan = plan or {}; s.i = 0; s.out = None; s.sync(); pre = s.p.save()
        ok = s.R.op(name, s, note, **a); s.p.t = {}
        f = s.R.last
        if not ok and name in ("kex", "psk", "start", "finish", "pskfinish", "capability", "algorithm", "end"):
            if name in ("kex", "psk", "start"): s.p.sess = {k: v for k, v in s.p.sess.items() if k in pre["sess"]}
            elif name in ("finish", "pskfinish"): s.p.sess.pop(int(a["sid"], 16), None)
        return ok
    def val(s): return s.R.last["val"]
    # ------------------------------------------------------------ standard moves
    def up(s, how="init"):
        if how == "init": s.do("init")
        else:
            s.do("version") and s.do("capability") and s.do("algorithm")
        return s.R.last["ret"] == "ok"
    def certs(s, slot=0, sid=""): return s.do("digest", sid=sid) and s.do("certificate", sid=sid, slot=slot)
    def kex(s, slot=0, ms=0, **k): return s.val() if s.do("kex", slot=slot, msum=ms, **k) else None
    def login(s, slot=0, ms=0):
        """an established certificate session; its id or None"""
        sid = s.kex(slot, ms)
        if not sid: return None
        x = s.p.sess.get(int(sid, 16))
        if x and x.mut & 6:
            if not s.do("mutauth", sid=sid): return None
        return sid if s.do("finish", sid=sid) else None
    def psklogin(s, hint="", ms=0):
        if not s.do("psk", hint=hint, msum=ms): return None
        sid = s.val(); x = s.p.sess.get(int(sid, 16))
        if x and x.state == "hs": return sid if s.do("pskfinish", sid=sid) else None
        return sid
    def sids(s, est=None):
        return [t["sid"] for t in s.R.snap["sess"] if t["state"] and (est is None or (t["state"] == 2) == est)] if s.R.snap else []
    def appin(s, sid, data, plan=None, **k):
        """the peer sends application data"""
        x = s.p.sess.get(int(sid, 16))
        if not x or x.state != "app": return False
        s.sync()
        f = W.frame(s.tr, s.p.seal(x, data, True, dir="s", **k), True); s.old.append((x.sid, f))
        pl = dict(plan or {}); pl.setdefault("raw", f); s.plan = {1: pl}; s.i = 0; s.out = pl["f"](pl["raw"]) if "f" in pl else pl["raw"]
        return s.R.op("apprecv", s, sid=sid) if not s.over() else False
    # ------------------------------------------------------------ damage
    def hurt(s, m, kinds=("trunc", "ext", "flip", "zero", "byte")):
        r = s.rng; k = r.choice(kinds)
        if k == "trunc": return m[:r.randrange(len(m))] if m else m
        if k == "ext": return m + bytes(r.getrandbits(8) for _ in range(r.choice((1, 2, 4, 40))))
        if not m: return b"\x12"
        i = r.randrange(len(m)) if r.random() < .5 else r.randrange(min(len(m), 12))
        b = bytearray(m)
        if k == "flip": b[i] ^= 1 << r.randrange(8)
        elif k == "zero": b[i] = 0
        else: b[i] = r.choice((0, 1, 2, 0x7f, 0x80, 0xff, r.getrandbits(8)))
        return bytes(b)
    def err(s, code, data=0): return lambda m: W.error(s.p.ver, code, data)
