"""Runs the real responder, turning every exchange into one event record for the trace specification."""
import wire as W
from fc import *
from sut import Sut

def term_mac(reg, h):
    v = bytes.fromhex(h); return reg.mac.get(v, "raw(" + h + ")") if h else ""
def term_sig(reg, h):
    v = bytes.fromhex(h); return reg.sig.get(v, "raw(" + h + ")") if h else ""
def classify(tr, reg, b, c, rsp, dirtag, trim=False):
    """frame -> symbolic record.  c: decode context; rsp: decode as response"""
    k, p, exact = W.unframe(tr, b)
    o = dict(k="junk", m="", sid="", S="", seq=0, app=False, auth=False, exact=exact, len=len(b), mlen=0, alg=0, hseq=False, pad=0, rest=False, tail=0,
             d=dict(op=-1, wf=False, exact=False, ver=0, p1=0, p2=0, used=0))
    if k is None: return o
    dec = W.decode_rsp if rsp else W.decode_req
    if k == "plain":
        d = dec(p, c)
        if (rsp or trim) and tr == "doe" and d["wf"] and 0 < len(p) - d["used"] < 4 and not any(p[d["used"]:]): p = p[:d["used"]]; d = dec(p, c)   # transport padding
        o.update(k="plain", m=p.hex(), d=d); o["auth"] = True; o["mlen"] = len(p); terms(reg, o); return o
    o["k"] = "sec"; n = 4 + W.seqlen(tr) + 2
    if len(p) < 4: o["sid"] = "short"; return o
    o["sid"] = "%08x" % W.le(p[:4])
    if len(p) < n + 16: return o
    ln = W.le(p[n-2:n]); rec = p[:n + ln]; rest = p[n + ln:]
    o["pad"] = len(rest); o["rest"] = any(rest)
    if ln < 16 or len(p) < n + ln: return o
    v = reg.aead.get((rec[:n], rec[n:-16], rec[-16:]))
    if not v: return o
    a, key, iv, pt = v
    S, q = reg.keyinfo(a, key, iv); o["S"] = S; o["seq"] = seqint(q); o["alg"] = a
    o["hseq"] = W.seqlen(tr) == 0 or W.le(p[4:4 + W.seqlen(tr)]) == (q & 0xffff)
    if len(pt) < 2: return o
    l = W.le(pt[:2]); o["tail"] = len(pt) - 2 - l
    if l > len(pt) - 2: return o
    u = W.app_unwrap(tr, pt[2:2 + l])
    o["auth"] = True
    if u is None: o["k"] = "secbad"; return o
    o["app"] = u[0] or tr == "doe" and False; o["m"] = u[1].hex(); o["d"] = dec(u[1], c); o["mlen"] = len(u[1]); terms(reg, o)
    return o
def terms(reg, o):
    d = o["d"]
    if "attr" in d: d["atb"] = W.bits(d["attr"])
    if d["op"] == W.PSKF and "sig" not in d: d["sig"] = ""
    if "sig" in d: d["sigt"] = term_sig(reg, d["sig"])
    if "vd" in d: d["vdt"] = term_mac(reg, d["vd"])
def dctx(post):
    if not post: return {}
    return dict(ver=post["ver"], hash=post["hash"], asym=post["asym"], dhe=post["dhe"], rasym=post["rasym"], opq=post["opq"], mhash=post["mhash"],
                clear=bool(post["rqc"] >> 15 & 1 and post["rsc"] >> 15 & 1))
def psnap(reg, p):
    """snapshot for the specification"""
    return dict(conn=p["conn"], ver=p["ver"], rqc=W.bits(p["rqc"]), rsc=W.bits(p["rsc"]), rqct=p["rqct"], rsct=p["rsct"], mspec=p["mspec"], mhash=p["mhash"],
                hash=p["hash"], asym=p["asym"], dhe=p["dhe"], aead=p["aead"], rasym=p["rasym"], ks=p["ks"], opq=p["opq"], rqdts=min(p["rqdts"], 1 << 30),
                rqmax=min(p["rqmax"], (1 << 30) + 1), rsdts=min(p["rsdts"], 1 << 30), rsmax=min(p["rsmax"], (1 << 30) + 1),
                peer=["" if x == "." else x for x in p["peer"]], temp=p["temp"],
                sess=[dict(x, rq=seqint(x["rq"]), rs=seqint(x["rs"])) for x in p["sess"] if x["state"] != 0 or x["sid"] != "00000000"])
DEF = dict(transport="mctp", versions="10,11,12", secver="10,11", reqcaps=0x1f3c6, rspcaps=0x1fbd6 & ~(1 << 16) & ~(1 << 15), hash=2, asym=0x80, dhe=16, aead=2, reqasym=0x80,
           ks=1, opaque=2, measspec=1, meashash=2, rtchange=1, dts=4096, maxmsg=4096, hb=0, nmeas=3, measlen=8)
def chv(cfg, slot): return bytes.fromhex(cfg["chain%d" % slot])
def cfgrec(cfg):
    c = cfg; g = lambda k: int(str(c[k]), 0)
    slots = [i for i in range(8) if c.get("chain%d" % i)]
    hl = lambda k: [int(x, 16) for x in str(c[k]).split(",")]
    d = dict(tr=c["transport"], vers=hl("versions"), secver=hl("secver"), rspcaps=W.bits(g("rspcaps")), reqcaps=W.bits(g("reqcaps")),
             hash=W.bits(g("hash")), asym=W.bits(g("asym")), dhe=W.bits(g("dhe")), aead=W.bits(g("aead")), rasym=W.bits(g("reqasym")), ks=W.bits(g("ks")),
             opq=W.bits(g("opaque")), mspec=g("measspec"), mspecb=W.bits(g("measspec")), mhash=g("meashash"), rtc=bool(g("rtchange")), dts=g("dts"), max=g("maxmsg"), hb=g("hb"), rsct=int(c.get("rspct", 0)), rqct=int(c.get("reqct", 0)),
             slots=slots, nmeas=g("nmeas"), portion=512, seqb=W.seqlen(c["transport"]),
             chain={str(s): {str(h): full_chain(h, chv(c, s)).hex() for h in (1, 2, 4)} for s in slots},
             ch={str(s): {str(h): fhash(h, full_chain(h, chv(c, s))).hex() for h in (1, 2, 4)} for s in slots},
             dig={str(s): {str(h): fhash(h, full_chain(h, chv(c, s))).hex() for h in (1, 2, 4)} for s in slots},
             blocks=[block(i, g("measlen")).hex() for i in range(1, g("nmeas") + 1)],
             msum={str(h): {"1": fmsum(h, 1).hex(), "255": fmsum(h, 255).hex()} for h in (1, 2, 4)})
    return d
class Rsp:
    """one scenario against the real responder"""
    def __init__(s, proc, cfg, sc=0, chains=None):
        s.cfg = dict(DEF); s.cfg.update(cfg)
        if not any(k.startswith("chain") for k in s.cfg): s.cfg["chain0"] = chain(b"RSPLEAF0", 40).hex()
        s.reg = Reg(); s.sut = Sut(proc, s.reg); s.sc = sc; s.ev = []; s.qchains = {}
        r = s.sut.new("rsp", s.cfg); s.tr = s.cfg["transport"]; s.snap = r["post"]; s.panic = False
        s.ev.append(dict(e="new", role="rsp", cfg=cfgrec(s.cfg), post=psnap(s.reg, r["post"])))
        s.rq = None; s.acc = {b""}
    def step(s, frame, note="", **kw):
        """deliver one frame; returns list of classified outs"""
        pre = s.snap; c = dctx(pre)
        i = classify(s.tr, s.reg, frame, c, False, "q") if frame is not None else dict(k="none", m="", sid="", S="", seq=0, app=False, auth=False, d=dict(op=-1, wf=False))
        r = s.sut.msg(frame, **kw)
        if r["post"]: s.snap = r["post"]
        c2 = dict(dctx(s.snap)); rq = i.get("d") or {}
        c2["msum"] = rq.get("ms") in (1, 255); c2["sigreq"] = bool(rq.get("attr", 0) & 1) and rq.get("op") == W.MEAS
        outs = []
        for lost, b in r["outs"]:
            o = classify(s.tr, s.reg, b, c2, True, "s"); o["lost"] = lost; o["raw"] = b; outs.append(o)
        e = dict(e="rsp", note=note, o=[{k: v for k, v in o.items() if k != "raw"} for o in outs], ret=r["ret"], sf=bool(kw.get("sendfail")), rf=bool(kw.get("rxfail")) or frame is None,
                 fault=r.get("faulted", ""), rands=[], pubs=[], apps=[], vends=[], raweq=False)
        e["q"] = i; s.track(i)
        if r["ret"] == "raw": e["raweq"] = frame is None or bytes.fromhex(r["retarg"] if r["retarg"] not in ("-", "") else "") != b"" or True
        for l in r["ops"]:
            t = l.split(" ")
            x = lambda k: "" if t[k] == "-" else t[k]
            if t[0] != "op": continue
            if t[1] == "rand": e["rands"].append(x(2))
            elif t[1] == "gen": e["pubs"].append(x(3))
            elif t[1] == "app": e["apps"].append(dict(sid=x(2), i=x(3), aux=x(4), o=x(5)))
            elif t[1] == "vend": e["vends"].append(dict(i=x(2), fail=x(3), o=x(4)))
        if r["ret"] in ("panic", "crash"): s.panic = True; e["msg"] = r["retarg"][:160]
        e["haspost"] = r["post"] is not None
        e["post"] = psnap(s.reg, r["post"]) if r["post"] else {}
        s.ev.append(e); s.last = e
        return outs
    def track(s, i):
        """chains the delivered portions may add up to"""
        d = i.get("d") or {}
        if d.get("op") == W.ENCDEL and "inn" in d and d["inn"].get("op") == 2 and d["inn"]["wf"]:
            x = bytes.fromhex(d["inn"]["data"]); new = {a + x for a in s.acc if len(a) < 6000}
            if d["inn"]["rem"] == 0: s.qchains.update((n.hex(), 1) for n in new)
            s.acc = set(sorted(s.acc | new, key=len)[:64])
    def setseq(s, i, a, b):
        r = s.sut.setseq(i, a, b); s.snap = r["post"]
        s.ev.append(dict(e="setseq", post=psnap(s.reg, r["post"])))
    def finish(s):
        """completes the scenario: attaches the digest table and the requester-chain verdicts"""
        c = s.ev[0]["cfg"]
        c["dig"] = s.reg.digtab() or {"none": "none"}
        c["qch"] = {"none": {"ok": {"1": False, "2": False, "4": False}, "h": {"1": "", "2": "", "4": ""}, "tag": ""}}
        seen = set(s.qchains)
        for e in s.ev:
            for x in (e.get("post") or {}).get("peer", []): seen.add(x)
        for x in seen:
            if x: c["qch"][x] = chain_verdict(bytes.fromhex(x), s.cfg)
        return dict(sc=s.sc, cfg=c, ev=s.ev[1:])
def chain_verdict(b, cfg):
    """is this a requester certificate chain (with its header) that may be accepted?  h: its digest under each hash"""
    o = {"h": {str(h): fhash(h, b).hex() for h in (1, 2, 4)}, "ok": {}, "tag": ""}
    for h in (1, 2, 4):
        ok = False
        if len(b) > 4 + HS[h] and W.le(b[:2]) == len(b):
            d = b[4 + HS[h]:]; v = parse_chain(d)
            if v and chain_ok(d) and b[4:4 + HS[h]] == fhash(h, d[v[0][0]:v[0][1]]):
                ok = not cfg.get("root") or d[v[0][0]:v[0][1]].hex() == cfg["root"]
                o["tag"] = leaf_tag(d).decode("latin1")
        o["ok"][str(h)] = ok
    return o
