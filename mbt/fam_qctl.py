"""Walks through the state graph of spec/ReqControl.tla, taken in the real requester."""
import random
import model, wire as W
from driveq import QD, RCAPS
from drive import QCAPS
from fam_ctl import Ctl
from fc import *
FAM = model.REQ
BITS = lambda *l: sum(1 << b for b in l)
CAPS = dict(Full=BITS(1, 2, 4, 6, 7, 8, 9, 11, 12, 13, 14), InClear=BITS(1, 2, 4, 6, 7, 8, 9, 11, 12, 13, 14, 15), Plain=BITS(1, 2, 4, 6, 7, 9, 10, 13, 14))
OF = dict(n_clear="InClear", n_start="Plain")
CODE = dict(inv=1, busy=3, notready=0x42, resync=0x43, decrypt=6)
FIRST = dict(version=0x84, capability=0xE1, algorithm=0xE3, digest=0x81, certificate=0x82, challenge=0x83, measurement=0xE0, kex=0xE4, psk=0xE6, finish=0xE5, pskfinish=0xE7, heartbeat=0xE8, keyupdate=0xE9, end=0xEC, vendor=0xFE)
UNAUTH = {"forged", "old", "skip", "other", "plainch", "mute", "lost"}
class QCtl(Ctl):
    def __init__(s, d, caps): s.d = d; s.place = {}; s.caps = caps; s.frames = {}; s.covered = set()
    def settle(s):
        live = s.d.sids(); s.place = {i: x for i, x in s.place.items() if x in live}
        for x in live:
            if x not in s.place.values(): s.place[min(i for i in range(1, 9) if i not in s.place)] = x
    # ------------------------------------------------------------ one exchange answered wrongly
    def wrong(s, var, first, sid):
        d = s.d; p = d.p; t = {}; pl = dict(forget=True)
        if var in CODE: pl["m"] = d.err(CODE[var])
        elif var == "ver": pl["m"] = lambda m: bytes([0x12 if m[0] == 0x11 else 0x11]) + m[1:]
        elif var == "kind": pl["m"] = lambda m: m[:1] + bytes([0x6C if m[1] == 0x68 else 0x68]) + m[2:]
        elif var == "trunc": pl["m"] = lambda m: m[:max(3, len(m) // 2)] if len(m) > 4 else m[:3]
        elif var == "mute": pl = dict(mute=1, forget=first != "keyupdate")
        elif var == "lost": pl = dict(lost=1)
        elif var == "forged": pl["f"] = lambda f: f[:-5] + bytes([f[-5] ^ 0x40]) + f[-4:]
        elif var == "old": pl["raw"] = lambda: s.frames.get(p.lastx.sid if p.lastx else 0)
        elif var in ("skip", "other", "app"):
            def m(b):
                x = p.lastx
                p.t["seal"] = dict(seq=x.ks.seq["s"] + 1) if var == "skip" else dict(secret=x.ks.sec["q"]) if var == "other" else dict(app=True)
                return b
            pl["m"] = m
        elif var == "plainch": pl["f"] = lambda f: W.frame(d.tr, p.lastm, False)
        elif var == "secch": pl["f"] = lambda f: W.frame(d.tr, p.lastm, True)
        elif var == "none": t = dict(vers=[0x13])
        elif var == "flags": t = dict(flags=BITS(2) if p.ver == 0x10 else BITS(1, 2, 9))
        elif var == "offer": t = dict(hash=4)
        elif var == "slot": t = dict(slot=1)
        elif var == "long": pl["m"] = lambda m: m[:4] + W.u16(600) + m[6:8] + m[8:] + bytes(600 - W.le(m[4:6]))
        elif var == "hollow": pl["m"] = lambda m: m[:4] + W.u16(0) + W.u16(5)
        elif var == "over": pl["m"] = lambda m: m[:6] + W.u16(W.le(m[6:8]) + 4090) + m[8:]
        elif var == "bad": pl["m"] = lambda m: m[:8] + bytes([m[8] ^ 0xFF]) + m[9:]
        elif var == "sig": t = dict(sM=b"x", sK=b"x", sA=b"x")
        elif var == "ctx": t = dict(sctx=b"responder-measurements signing")
        elif var == "hash": t = dict(ch=bytes(48))
        elif var == "rec": t = dict(nblk=7)
        elif var == "vd": t = dict(vd=p.rb(48))
        elif var == "opsel": t = dict(opaque=W.opaque_sel(p.ver, 0x12))
        elif var == "nosel": t = dict(opaque=b""); pl = {}          # whether it is taken is left open: the peer goes on either way
        elif var == "tag": pl["m"] = lambda m: m[:3] + bytes([m[3] + 1 & 255])
        elif var == "op": pl["m"] = lambda m: m[:2] + bytes([4 - m[2]]) + m[3:]
        elif var == "pt3": t = dict(pt=3)
        elif var == "odd":
            pl = {}
            t = dict(eq=W.msg(p.ver, 0xE0, 0, 1))
            if first != "req": t["pt"] = 1
        if t: pl["t"] = t
        return pl
    def args(s, op, v):
        a = {}
        if op == "certificate": a = dict(slot=8 if v == "slot8" else 0)
        if op == "challenge": a = dict(slot=0, msum=255 if v == "sum" else 0)
        if op == "measurement": a = dict(slot=0, op={"all": 255, "num": 0}.get(v, 1), attr=1 if v == "sig" else 0)
        if op == "kex": a = dict(slot=0, msum=1 if v == "sum" else 0)
        if op == "psk": a = dict(hint="68", msum=0)
        if op == "start": a = dict(slot=0, msum=0, usepsk=v == "psk")
        if op == "keyupdate": a = dict(op={"1": 1, "2": 2}.get(v, 0))
        if op == "finish" and v == "rslot": a = dict(rslot=0)
        if op in ("vendor", "appsend"): a = dict(data="7061")
        return a
    def step(s, e):
        i, op, v, res, how = e[:5]; d = s.d; p = d.p
        sid = s.place.get(i) if i else None
        if i and sid is None: return None
        at = int(how[0]); var = how[1:]
        if op in ("appsend", "apprecv"): return s.app(op, sid, var)
        if var == "hash": return "skip"                          # a known finding (C10.chainhash)
        if var == "app" and d.tr == "doe": return "skip"
        if var == "trunc" and d.tr == "doe" and not i and op in ("vendor",) : return "skip"
        plan = {}
        p.flags = BITS(1, 2, 4) if op == "capability" and d.R.snap["ver"] == 0x10 else s.caps
        if op == "vendor" and not i and d.R.snap["ver"]: p.ver = d.R.snap["ver"]      # the peer learns the version from later requests only
        if op == "version": plan[1] = dict(t=dict(vers={"v11": [0x10, 0x11], "v10": [0x10]}.get(v, [0x10, 0x11, 0x12])))
        if op in ("kex", "start") and v.startswith("mut"): plan[1] = dict(t=dict(mut={"mut0": 1, "mut1": 2, "mut2": 4}[v]))
        if v == "two": plan[1] = dict(t=dict(portion=100))
        x = p.sess.get(int(sid, 16)) if sid else None
        if at:
            mut = plan.get(1, {}).get("t", {}).get("mut") if op == "start" else x.mut if x is not None and op == "mutauth" else None
            kind = "req" if op in ("start", "mutauth") and mut == 2 and at == (2 if op == "start" else 1) else op
            w = s.wrong(var, kind, sid); z = plan.get(at, {})
            plan[at] = dict(z, **dict(w, t=dict(z.get("t", {}), **w.get("t", {}))))
        n0 = dict(x.ks.seq) if x is not None else None; hs = x is not None and x.state == "hs"
        fin = op in ("finish", "start")
        a = s.args(op, v)
        if sid is not None: a["sid"] = sid
        ok = d.do(op, plan, **a)
        if d.over(): return None
        y = p.sess.get(int(sid, 16)) if sid else None
        if hs and not ok and y is not None and y.state == "hs":
            # the numbers the requester stands at
            n = len(d.R.last["ex"]); y.ks.seq["q"] = n0["q"] + n; y.ks.seq["s"] = n0["s"] + n - (1 if n and n == at and var in UNAUTH else 0)
        # the last frame a session's peer sent (to be played again)
        for x2 in d.R.last["ex"]: pass
        if d.out is not None and not at and p.lastx is not None: s.frames[p.lastx.sid] = d.out
        if not at and d.old and d.old[-1][0]: s.frames[d.old[-1][0]] = d.old[-1][1]
        s.settle()
        return "ok" if ok else "no"
    def app(s, op, sid, var):
        d = s.d; p = d.p; x = p.sess.get(int(sid, 16))
        if op == "appsend": ok = d.do("appsend", {1: dict(lost=1)} if var == "lost" else {}, sid=sid, data="7061")
        elif x is None or x.state != "app": return "skip"
        elif var == "mute": ok = d.appin(sid, b"ap", dict(raw=None))
        elif var == "old":
            f = s.frames.get(x.sid)
            if f is None: return "skip"
            ok = d.appin(sid, b"ap", dict(raw=f)); d.sync()
        else:
            d.sync(); kw = {}
            if var == "skip": kw = dict(seq=x.ks.seq["s"] + 1)
            if var == "other": kw = dict(secret=x.ks.sec["q"])
            ok = d.appin(sid, b"ap", dict(f=lambda f: f[:-5] + bytes([f[-5] ^ 0x40]) + f[-4:]) if var == "forged" else {}, **kw)
            if ok: s.frames[x.sid] = d.old[-1][1]
        if d.over(): return None
        s.settle()
        return "ok" if ok else "no"
def run(proc, fam, k, seed, sc, walk=None):
    rng = random.Random("%s/%s/%d" % (seed, fam, k)); err = None; caps = CAPS[OF.get(fam, "Full")]
    d = QD(proc, dict(transport=("mctp", "doe")[k % 2], reqcaps=BITS(1, 2, 6, 7, 8, 9, 10, 12, 13, 14, 15)), sc, rng, pflags=caps); c = QCtl(d, caps); done = []
    try:
        if walk is None: done = c.follow(model.GRAPH[fam], model.WALKS[fam][k])
        else:
            for e in walk:
                if c.step(tuple(e)) is None: break
    except Exception:
        import traceback; err = traceback.format_exc()
    s = d.R.finish(); s["drv"] = err or ""; s["fam"] = fam; s["k"] = k; s["walk"] = [list(e) for e in done]; s["went"] = len(c.covered); s["div"] = getattr(c, "div", [])
    return s
