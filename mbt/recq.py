"""Runs the real requester against a peer, turning every operation into one event record for the trace specification."""
import wire as W
from fc import *
from rec import classify, dctx, psnap, cfgrec, chain_verdict, DEF
from sut import Sut

NOREC = dict(k="none", m="", sid="", S="", seq=0, app=False, auth=False, exact=False, len=0, mlen=0, alg=0, hseq=False, tail=0, pad=0, rest=False, d=dict(op=-1, ver=-1, wf=False, used=0, exact=False, raw=""))
ARGS = dict(sid="", slot=0, msum=0, mop=0, atb=[], kop=0, rslot=-1, hint="", data="", usepsk=False)
class ReqRun:
    """one scenario against the real requester"""
    def __init__(s, proc, cfg, sc=0):
        s.cfg = dict(DEF); s.cfg.update(cfg)
        if not any(k.startswith("chain") for k in s.cfg): s.cfg["chain0"] = chain(b"REQLEAF0", 40).hex()
        s.reg = Reg(); s.reg.role = "req"; s.sut = Sut(proc, s.reg); s.sc = sc; s.ev = []; s.tr = s.cfg["transport"]
        r = s.sut.new("req", s.cfg); s.snap = r["post"]; s.panic = False; s.acc = b""; s.full = set()
        s.cfgd = cfgrec(s.cfg)
    def rec(s, b, c, rsp):
        o = dict(NOREC)
        o.update(classify(s.tr, s.reg, b, c, rsp, "s" if rsp else "q", trim=True)); o["d"] = dict(NOREC["d"], **(o["d"]))
        if rsp: o["d"]["raw"] = o["m"]
        return o
    def op(s, name, peer, note="", fault=None, **a):
        """peer.sent(frame) -> delivered?; peer.reply() -> frame or None"""
        s.acc = b""; g = dict(ARGS); g.update({k: v for k, v in a.items() if k in g}); ex = []
        if "attr" in a: g["atb"] = W.bits(a["attr"] & 3)
        if name == "measurement": g["mop"] = a.get("op", 0)
        if name == "keyupdate": g["kop"] = a.get("op", 1)
        base = dctx(s.snap)
        def io(kind, b):
            if kind == "send":
                _, p, _ = W.unframe(s.tr, b); c = dict(base)
                if len(p) > 1 and p[1] == W.NEG: c["ver"] = p[0]
                q = s.rec(b, c, False); ok = bool(peer.sent(b)) and len(ex) < 48     # a peer that never stops asking is cut off
                ex.append(dict(s=q, lost=not ok, got=False, r=dict(NOREC))); return ok
            b = peer.reply()
            if not ex or ex[-1].get("asked"): ex.append(dict(s=dict(NOREC), lost=False, got=False, r=dict(NOREC)))
            x = ex[-1]; x["asked"] = True
            if b is None: return None
            c = dict(base); d = x["s"]["d"]
            if d["ver"] > 15 and d["op"] in (W.NEG,): c["ver"] = d["ver"]
            c["msum"] = d.get("ms") in (1, 255); c["sigreq"] = bool(d.get("attr", 0) & 1) and d["op"] == W.MEAS
            x["got"] = True; x["r"] = s.rec(b, c, True); s.track(x["r"]["d"]); return b
        kw = {k: (v if not isinstance(v, bool) else int(v)) for k, v in a.items()}
        if kw.get("rslot", 0) is None or kw.get("rslot") == -1: kw.pop("rslot")
        for k in ("hint", "data"):
            if k in kw and kw[k] == "": kw[k] = "-"
        if fault is not None: kw["fault"] = fault
        if kw.get("sid") == "": kw.pop("sid")
        r = s.sut.call(name, io, **kw)
        for x in ex: x.pop("asked", None)
        if r["ret"] == "err": r["ret"] = r["retarg"] or "other"
        e = dict(e="req", op=name, a=g, ex=ex, ret=r["ret"], val=r["retarg"] if r["ret"] == "ok" else "", fault=r.get("faulted", ""), rands=[], pubs=[], note=note,
                 broke=any(x["lost"] for x in ex) or any(not x["got"] for x in ex) and name != "appsend")
        if r["ret"] in ("panic", "crash"): e["msg"] = r["retarg"][:160]; s.panic = True
        for l in r["ops"]:
            t = l.split(" ")
            if t[0] != "op": continue
            if t[1] == "rand": e["rands"].append("" if t[2] == "-" else t[2])
            elif t[1] == "gen": e["pubs"].append("" if t[3] == "-" else t[3])
        if r["post"]: s.snap = r["post"]
        e["haspost"] = r["post"] is not None; e["post"] = psnap(s.reg, r["post"]) if r["post"] else {}
        s.ev.append(e); s.last = e; s.lastops = r["ops"]
        return r["ret"] == "ok"
    def track(s, d):
        """chains the answered portions may add up to"""
        if d["op"] == 2 and d["wf"]:
            s.acc += bytes.fromhex(d["data"])
            if d["rem"] == 0: s.full.add(s.acc.hex())
    def setseq(s, i, a, b):
        r = s.sut.setseq(i, a, b); s.snap = r["post"]; s.ev.append(dict(e="setseq", post=psnap(s.reg, r["post"])))
    def finish(s):
        c = s.cfgd; c["dig"] = s.reg.digtab() or {"none": "none"}
        c["qch"] = {"none": {"ok": {"1": False, "2": False, "4": False}, "h": {"1": "", "2": "", "4": ""}, "tag": ""}}
        seen = set(s.full)
        for e in s.ev:
            for x in (e.get("post") or {}).get("peer", []): seen.add(x)
        for x in seen:
            if x: c["qch"][x] = chain_verdict(bytes.fromhex(x), s.cfg)
        return dict(sc=s.sc, cfg=c, ev=s.ev)
