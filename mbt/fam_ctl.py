"""Walks through the state graph of spec/Control.tla, taken in the real responder."""
import random
import model, wire as W
from drive import RD, QCAPS, reqchain, HS
from fc import *
OFF = dict(full=(0x12, QCAPS), nomut=(0x12, QCAPS & ~(1 << 8 | 1 << 12)), clear=(0x12, QCAPS | 1 << 15), clearnm=(0x12, (QCAPS | 1 << 15) & ~(1 << 8 | 1 << 12)), v11=(0x11, QCAPS), v10=(0x10, 0), few=(0x12, QCAPS & ~(1 << 13 | 1 << 14)),
           flags=(0x12, 1 << 8), ver=(0x21, QCAPS))
FAM = model.GRAPHS
SHORT = set("VERSION DIGESTS HBEAT KUPD ENDS ENCREQ MEAS VEND".split())
SIG = {0x10: 64, 0x80: 96}
class Ctl:
    def __init__(s, d): s.d = d; s.place = {}; s.rid = {}; s.soil = {}; s.qc = reqchain()
    def settle(s):
        """sessions keep their places, a new one takes the first free place (as in the model)"""
        live = {x.sid: x for x in s.d.sess()}
        s.place = {i: x for i, x in s.place.items() if x.sid in live}
        for sid in live:
            if all(x.sid != sid for x in s.place.values()): s.place[min(i for i in range(1, 9) if i not in s.place)] = live[sid]
    def outcome(s):
        o = s.d.R.last["o"]
        if not o: return "no"
        return "no" if o[0].get("d", {}).get("op") == 0x7F and not o[0].get("app") else "ok"
    def late(s, m, x):
        """an answer that got lost on its way: its content is known all the same"""
        o = s.d.R.last["o"]
        if len(o) != 1 or not o[0]["lost"] or not o[0].get("m"): return
        p = bytes.fromhex(o[0]["m"])
        if len(p) < 2: return
        live = {int(t["sid"], 16): t["state"] for t in s.d.R.snap["sess"]}
        if p[1] in (0x64, 0x66):
            a = dict(s.d.q.sess); s.d.q.learn(m, p)
            if s.d.q.lastsid not in live: s.d.q.sess = a
        if p[1] in (0x65, 0x67) and x is not None and live.get(x.sid) == 2: s.d.q.finished(x, p)
    # ------------------------------------------------------------ one message
    def build(s, k, v, x):
        d = s.d; q = d.q; ver = q.ver; other = 0x11 if ver == 0x12 else 0x12
        if k == "VERSION": return W.get_version(0x11 if v == "ver" else 0x10)
        if k == "CAPS":
            o = OFF.get(v, OFF["nomut"]); d.capv = o[0]; return q.capsmsg(o[0], o[1])
        if k == "ALGS":
            kw = {}
            if v == "none": kw["hash_"] = 0
            if v == "order":
                kw["structs"] = [(2, 16), (2, 16), (4, 0x80), (5, 1)]
            m = d.m_neg(**kw)
            if v == "order" and ver < 0x11: m = m[:4] + W.u16(33) + m[6:]
        elif k == "DIGESTS": m = W.get_digests(ver)
        elif k == "CERT": m = W.get_cert(ver, 1 if v == "slot" else 0, 40000 if v == "off" else 0, 512)
        elif k == "CHALL": m = W.challenge(ver, 1 if v == "slot" else 0, 2 if v == "ms" else 255 if v == "sum" else 0, d.nonce())
        elif k == "MEAS":
            sig = v in ("sig", "slot"); m = W.get_meas(ver, 1 if sig else 0, 9 if v == "idx" else 255 if v == "all" else 1, d.nonce(), 1 if v == "slot" else 0)
        elif k == "KEX": m = d.m_kex(1 if v == "slot" else 0, 2 if v == "ms" else 1 if v == "sum" else 0, **(dict(opq=b"") if v == "novers" else {}))
        elif k == "PSKX": m = q.psk(2 if v == "ms" else 1 if v == "sum" else 0, b"hint")
        elif k == "FIN":
            if x is None or x.psk: m = W.finish(ver, 0, 0, b"", q.rb(HS.get(q.hash, 48)))
            else:
                F = x.F; g = SIG.get(q.rasym, 96)
                if v == "noatt":
                    # the attribute says the opposite of what was agreed; everything else fits
                    d.m_fin(x); x.F = F; h = W.msg(ver, W.FIN, 0 if x.mut else 1, 0); sg = b"" if x.mut else q.rb(g)
                    x.F = F + h + sg; m = h + sg + q.reg.hmac(q.hash, x.ks.fq, q.th(x)); x.F += m[len(h) + len(sg):]
                else: m = d.m_fin(x, **({"vd": q.rb(HS[q.hash])} if v == "mac" else {"sig": q.rb(g)} if v == "sig" else {}))
                s.newF, x.F = x.F, F
        elif k == "PSKF":
            if x is None or not x.psk or x.state != "hs": m = W.pskfin(ver, q.rb(HS.get(q.hash, 48)))
            else: F = x.F; m = q.pskfinish(x, **({"vd": q.rb(HS[q.hash])} if v == "mac" else {})); s.newF, x.F = x.F, F
        elif k == "HBEAT": m = W.heartbeat(ver)
        elif k == "KUPD": m = W.keyupd(ver, {"1": 1, "2": 2, "3": 3, "0": 0}.get(v, 2), d.rng.getrandbits(8))
        elif k == "ENDS": m = W.endsess(ver)
        elif k == "ENCREQ": m = W.encap_req(ver)
        elif k == "ENCDEL":
            h = len(s.qc) // 2; part = lambda b, rem, op=2: W.msg(ver, op, 0, 0, W.u16(len(b)) + W.u16(rem) + b)
            inn = {"dig": W.msg(ver, 1, 0, 1, fhash(q.hash, s.qc) if q.hash else b""), "first": part(s.qc[:h], len(s.qc) - h), "last": part(s.qc[h:], 0), "whole": part(s.qc, 0), "wrong": part(s.qc[:-1] + b"?", 0),
                   "hollow": part(b"", 2), "kind": part(s.qc, 0, 3), "notready": W.msg(ver, 0x7F, 0x42, 0)}.get(v, part(s.qc, 0))
            m = W.encap_del(ver, s.rid.get(x.sid if x else 0, 0), inn)
        elif k == "VEND":
            m = W.vendor(ver, d.q.rb(3), 0, b"")
        elif k == "RIR": m = W.msg(ver, W.RIR, 0x81, 1)
        else: m = W.msg(ver, 0x85, 0, 0, b"")
        if v == "bad": m = m[:3]
        if v == "ver": m = bytes([other]) + m[1:]
        return m
    def step(s, e):
        """one step of the model; what happened: "ok", "no", or None when it cannot be taken"""
        i, k, v, res, lost = e[:5]; d = s.d; s.newF = None
        x = s.place.get(i) if i else None
        if i and x is None: return None
        if lost: d.arm(sendfail=1)
        if k == "REC":
            d.sync(x); n = x.ks.seq["q"]; kw = dict(forged=dict(secret=d.q.rb(HS[d.q.hash])), old=dict(seq=n - 1), skip=dict(seq=n + 1), other=dict(secret=x.ks.sec["s"]))[v]
            if v == "old" and n == 0: return None
            d.put(d.seal(x, W.heartbeat(d.q.ver), **dict(dict(seq=n), **kw)))
        elif k == "APP":
            if d.tr == "doe": return "skip"                  # no application messages over PCI DOE
            d.arm(**(dict(appout=b"ERR".hex()) if v == "fail" else dict(noappout=1)))
            d.sec(x, d.q.rb(5), True)
        else:
            if k == "VEND" and v == "fail": d.arm(vendfail=1)
            y = x
            if not i and k == "FIN" and d.q.clear():
                y = next((z for z in s.place.values() if z.sid == getattr(d.q, "lastkex", None)), None)
            # every failed finish leaves the specification several possible transcripts: a few per session are enough
            fin = (x if i else next((z for z in s.place.values() if z.sid == getattr(d.q, "lastkex", None)), None)) if k in ("FIN", "PSKF") else None
            if fin is not None and fin.state == "hs" and s.soil.get(fin.sid, 0) >= 2: return "skip"
            m = s.build(k, v, y)
            if v == "bad" and not i and d.tr == "doe" and k in SHORT: return "skip"      # padding makes the truncated message whole
            if i: p = d.rawsec(x, m) if k == "KUPD" else d.sec(x, m)
            else: p = d.plain(m)
            if k == "KUPD" and lost and s.outcome() == "ok":
                if m[2] in (1, 2): x.ks.upd("q")
                if m[2] == 2: x.ks.upd("s")
            if p and len(p) > 3:
                if p[1] in (0x65, 0x67) and y is not None and s.newF is not None: y.F = s.newF; d.q.finished(y, p)
                if p[1] in (0x6A, 0x6B): s.rid[x.sid if x else 0] = p[2]
                if p[1] == 0x6B and p[3] == 2: d.qch[d.q.hash] = s.qc
            if lost: s.late(m, y)
            if fin is not None and s.outcome() == "no": s.soil[fin.sid] = s.soil.get(fin.sid, 0) + 1
        if d.over(): return None
        s.settle()
        return s.outcome()
    def follow(s, g, plan):
        """takes the planned edges; where the specification leaves a choice the implementation's is followed, and the way back found"""
        at = g.init; pos = 0; bad = set(); done = []; rng = random.Random(1); s.covered = set()
        while pos < len(plan) and len(done) < 2 * len(plan) + 10:
            if plan[pos] in bad: pos += 1; continue
            if plan[pos][0] != at:
                first = {}
                for j in range(len(plan) - 1, pos - 1, -1):
                    if plan[j] not in bad: first[plan[j][0]] = j
                path = g.path(at, lambda v: v in first, rng, bad)
                if path is None: break
                if path: e = path[0][1]
                else: pos = first[at]; continue
            else: e = plan[pos][1]; pos += 1
            r = s.step(e)
            if r == "skip": bad.add((at, e)); continue
            done.append(e[:5])
            if r is None: break
            same = [x for x in g.out[at] if x[:3] == e[:3] and x[3] == r and (r == "no" or x[4] == e[4])]
            if e in same: s.covered.add((at, e)); at = e[5]
            else:
                bad.add((at, e)); s.div = getattr(s, "div", []) + [(at, e, r, bool(same))]
                if not same: break
                s.covered.add((at, same[0])); at = same[0][5]
        return done
def run(proc, fam, k, seed, sc, walk=None):
    rng = random.Random("%s/%s/%d" % (seed, fam, k)); err = None
    cfg = dict(transport=("mctp", "doe")[k % 2])
    if fam == "m_clear": cfg["rspcaps"] = 0x1fbd6 & ~(1 << 16)
    d = RD(proc, cfg, sc, rng); c = Ctl(d); done = []; c.covered = set()
    try:
        if walk is None: done = c.follow(model.GRAPH[fam], model.WALKS[fam][k])
        else:
            for e in walk:
                if c.step(tuple(e)) is None: break
    except Exception:
        import traceback; err = traceback.format_exc()
    s = d.R.finish(); s["drv"] = err or ""; s["fam"] = fam; s["k"] = k; s["walk"] = [list(e) for e in done]; s["went"] = len(c.covered)
    return s
