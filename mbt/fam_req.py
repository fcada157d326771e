"""Scenario families against the real requester."""
import random
import wire as W
from fc import *
from driveq import QD, RCAPS
from drive import QCAPS

CH2 = lambda leaf=b"REQLEAF0", fill=40: chain(leaf, fill).hex()
def base(rng, **k):
    c = dict(transport=rng.choice(("mctp", "mctp", "doe")), reqcaps=QCAPS)
    if rng.random() < .3: c["chain%d" % rng.choice((1, 2, 5))] = CH2(b"REQLEAF0", rng.choice((0, 100, 700))); c["chain0"] = CH2()
    c.update(k); return c
def slots(d, rng):
    """some more chains on the responder's side"""
    if rng.random() < .4: d.p.pch[rng.choice((1, 2, 7))] = chain(b"RSPLEAF0", rng.choice((0, 300, 900)))
    if rng.random() < .3: d.p.pch[0] = chain(b"RSPLEAF0", rng.choice((0, 480, 500, 1400)), mid=rng.choice((0, 1, 2)))
def some(d, rng): return rng.choice(sorted(d.p.pch))
SIMPLE = ("heartbeat", "keyupdate", "vendor", "appsend", "appin", "measurement", "digest", "certificate")
def act(d, sid, what=None, plan=None, rng=None):
    """one operation inside an established session"""
    rng = rng or d.rng; w = what or rng.choice(SIMPLE)
    if w == "keyupdate": return d.do("keyupdate", plan, sid=sid, op=rng.choice((1, 2)))
    if w == "vendor": return d.do("vendor", plan, sid=sid, data=rb(rng, rng.choice((0, 1, 3, 40))).hex())
    if w == "appsend": return d.do("appsend", plan, sid=sid, data=rb(rng, rng.choice((1, 4, 50))).hex())
    if w == "appin": return d.appin(sid, rb(rng, rng.choice((0, 1, 5, 60))))
    if w == "measurement": return d.do("measurement", plan, sid=sid, slot=some(d, rng), attr=rng.choice((0, 0, 1)), op=rng.choice((0, 1, 2, 255)))
    if w == "certificate": return d.do("certificate", plan, sid=sid, slot=some(d, rng))
    return d.do(w, plan, sid=sid)
def rb(rng, n): return bytes(rng.getrandbits(8) for _ in range(n))
def plain(d, w, plan=None, rng=None, **k):
    """one operation outside sessions"""
    rng = rng or d.rng
    if w == "certificate": a = dict(slot=some(d, rng))
    elif w == "challenge": a = dict(slot=some(d, rng), msum=rng.choice((0, 1, 255)))
    elif w == "measurement": a = dict(slot=some(d, rng), attr=rng.choice((0, 1)), op=rng.choice((0, 1, 2, 255)))
    elif w == "kex": a = dict(slot=0, msum=rng.choice((0, 1, 255)))
    elif w == "psk": a = dict(msum=rng.choice((0, 1)), hint=rb(rng, rng.choice((0, 2, 16, 32))).hex())
    elif w == "start": a = dict(slot=0, msum=rng.choice((0, 255)), usepsk=rng.random() < .3)
    elif w == "vendor": a = dict(data=rb(rng, rng.choice((0, 3, 20))).hex())
    else: a = {}
    a.update(k); return d.do(w, plan, **a)
NEGOPS = ("version", "capability", "algorithm")
OPS = ("digest", "certificate", "challenge", "measurement", "kex", "psk", "start", "vendor")
# ------------------------------------------------------------------ honest runs
def q_walk(D, rng, k):
    d = D(base(rng)); slots(d, rng); d.up(rng.choice(("init", "steps"))); d.p.hb = rng.choice((0, 1, 60)); d.p.secver = rng.choice((0x10, 0x11))
    if rng.random() < .9: d.certs()
    for _ in range(rng.randrange(3, 14)):
        r = rng.random(); ss = d.sids(True)
        if r < .3: plain(d, rng.choice(("digest", "certificate", "challenge", "measurement", "measurement", "vendor")))
        elif r < .45 or not ss: rng.choice((d.login, d.psklogin, lambda: plain(d, "start")))()
        elif r < .52: d.do("end", sid=rng.choice(ss))
        elif r < .55: d.up(rng.choice(("init", "steps"))); d.certs()
        else: act(d, rng.choice(ss))
    return d
# ------------------------------------------------------------------ negotiation
def combo(rng):
    f = RCAPS
    for _ in range(rng.choice((0, 1, 1, 2, 3))): f ^= 1 << rng.choice((0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 30))
    return f
def q_neg(D, rng, k):
    c = base(rng, versions=rng.choice(("10,11,12", "12", "11,12", "10", "10,11", "12,10")), hash=rng.choice((2, 2, 7, 1, 4, 6)), asym=rng.choice((0x80, 0x80, 0xff, 0x90, 0x10)), dhe=rng.choice((16, 24, 8)),
             aead=rng.choice((2, 3, 7)), ks=1, opaque=2, reqcaps=rng.choice((QCAPS, QCAPS, QCAPS | 1 << 15, QCAPS & ~(1 << 10), QCAPS & ~(1 << 9))), dts=rng.choice((4096, 1024)), reqct=rng.choice((0, 9)))
    c["reqasym"] = c["asym"]
    d = D(c); t = {}; f = RCAPS
    if rng.random() < .3: f = combo(rng)
    d.p.flags = f; w = d.p.want; w["asym"] = w["rasym"] = rng.choice((0x80, 0x10, 1)); w["hash"] = rng.choice((1, 2, 4)); w["dhe"] = rng.choice((8, 16)); w["aead"] = rng.choice((1, 2, 4)); w["mhash"] = rng.choice((1, 2, 4, 8))
    d.p.vers = rng.choice(([0x10, 0x11, 0x12], [0x12], [0x12, 0x11], [0x10], [0x11], [0x10, 0x12])); d.p.dts = d.p.mx = rng.choice((4096, 2048, 600))
    plan = {}
    r = rng.random(); at = rng.choice((1, 2, 2, 3, 3, 3))
    if r < .75:
        if at == 1: t = dict(vers=rng.choice(([0x13], [], [0x10, 0x13], [0x11, 0x11], [0x12] * 4, [0x12, 0x11, 0x10, 0x12], [0x20, 0x12], [0x12])))
        elif at == 2:
            t = rng.choice((dict(flags=combo(rng)), dict(flags=combo(rng)), dict(flags=combo(rng)), dict(dts=rng.choice((0, 41, 42, 4097))), dict(max=rng.choice((0, 41, 100))), dict(flags=0), dict(ct=rng.choice((0, 31, 255)))))
        else:
            t = rng.choice((dict(hash=rng.choice((0, 1, 2, 3, 4, 6, 8))), dict(asym=rng.choice((0, 1, 0x80, 0x90, 0x100))), dict(dhe=rng.choice((0, 1, 8, 16, 24))), dict(aead=rng.choice((0, 1, 2, 3, 4, 8))),
                            dict(rasym=rng.choice((0, 1, 2, 0x80, 0x81))), dict(ks=rng.choice((0, 1, 2, 3))), dict(opq=rng.choice((0, 1, 2, 3))), dict(mspec=rng.choice((0, 1, 2, 3))), dict(mhash=rng.choice((0, 1, 2, 3, 6))),
                            dict(exta=1), dict(cnt=rng.choice((0, 3, 5))), dict(alen=rng.choice((36, 48, 50, 56))), dict(structs=[(2, 16), (3, 2), (5, 1), (4, 0x80)]), dict(structs=[(2, 16), (3, 2)]),
                            dict(structs=[(2, 16), (2, 8), (3, 2), (4, 0x80), (5, 1)]), dict(structs=[])))
        plan = {at: dict(t=t)}
    elif r < .9: plan = {at: dict(m=lambda m: d.hurt(m))}
    how = rng.choice(("init", "steps"))
    if how == "init": d.do("init", plan)
    else:
        for i, o in enumerate(NEGOPS):
            if not d.do(o, {1: plan[i + 1]} if i + 1 in plan else None) and rng.random() < .8: break
    if d.R.last["ret"] == "ok": d.certs(); plain(d, "challenge", slot=0); plain(d, "measurement"); d.login() and d.sids(True) and act(d, d.sids(True)[0])
    if rng.random() < .6: d.p.flags = RCAPS; d.up(); d.certs(); plain(d, rng.choice(("challenge", "measurement", "start", "psk")))
    return d
# ------------------------------------------------------------------ operations in the wrong phase, wrong answers
def wrongkind(d, rng):
    v = d.p.ver or 0x10
    m = rng.choice((W.error(v, rng.choice((1, 3, 4, 5, 6, 7, 0x41, 0x42, 0x43, 9, 0xff)), rng.getrandbits(8), rng.choice((b"", b"", b"\0\0\0\0"))), W.msg(v, rng.choice((4, 0x61, 0x63, 1, 2, 3, 0x60, 0x64, 0x65, 0x66, 0x67, 0x68, 0x69, 0x6C, 0x7E, 0x6A, 0x6B)), 0, 0, rb(rng, rng.choice((0, 40)))),
                    W.msg(v, rng.getrandbits(8)), b"", b"\x12", rb(rng, 60)))
    return lambda _: m
def errplan(d, rng):
    c = rng.choice((1, 3, 3, 4, 5, 6, 6, 7, 0x41, 0x42, 0x42, 0x43, 0x43, 9, 10, 0xff, 0))
    def f(m): return W.error(d.p.ver if rng.random() < .93 else 0x11, c, rng.getrandbits(8), b"\1\2\3\4" if c == 0x42 and rng.random() < .8 else b"")
    return dict(m=f)
def q_phase(D, rng, k):
    d = D(base(rng)); slots(d, rng); n = k % 4
    for o in NEGOPS[:n]: d.do(o)
    if n == 3 and rng.random() < .6: d.certs()
    for _ in range(rng.randrange(1, 5)):
        w = rng.choice(OPS + NEGOPS if n == 3 else OPS[:2] + NEGOPS); r = rng.random()
        pl = None
        if r < .35: pl = {rng.choice((0, 1, 1, 2)): errplan(d, rng)}
        elif r < .6: pl = {rng.choice((0, 1, 1, 2)): dict(m=wrongkind(d, rng))}
        elif r < .7: pl = {1: dict(raw=rng.choice((None, b"", rb(rng, 3), rb(rng, 50), W.frame(d.tr, b"", False))))}
        plain(d, w, pl)
    if rng.random() < .8: d.up(rng.choice(("init", "steps"))) and d.certs(); plain(d, rng.choice(OPS))
    return d
def q_err(D, rng, k):
    """error answers, outside and inside sessions"""
    d = D(base(rng)); d.up(); d.certs(); sid = rng.choice((d.login, d.psklogin))(); two = rng.random() < .5 and d.login()
    for _ in range(rng.randrange(2, 7)):
        if d.over(): break
        ss = d.sids(True); pl = {rng.choice((0, 1, 1, 2)): errplan(d, rng)}
        if rng.random() < .15: pl = None
        if ss and rng.random() < .7:
            if rng.random() < .15: d.do("end", pl, sid=rng.choice(ss))
            else: act(d, rng.choice(ss), rng.choice(("heartbeat", "keyupdate", "vendor", "measurement", "digest", "certificate", "appin")), pl)
        else: plain(d, rng.choice(OPS), pl)
    for s in d.sids(True)[:2]: act(d, s)
    return d
# ------------------------------------------------------------------ identity: digests, certificates, challenge
def q_auth(D, rng, k):
    c = base(rng)
    if rng.random() < .3: c["root"] = cert(rng.choice((b"ROOTCA00", b"ROOTCA00", b"OTHERCA0")), b"ROOTCA00", 0).hex()
    if "root" in c and rng.random() < .3: c["root"] = cert(b"OTHERCA0", b"OTHERCA0", 0).hex()
    d = D(c); slots(d, rng); d.up()
    for _ in range(rng.randrange(2, 7)):
        r = rng.random(); s = some(d, rng); h = d.p.hash or 2
        if r < .2:
            t = rng.choice(({}, {}, dict(mask=rng.choice((0, 3, 0xff, 0x80))), dict(dslots=[0, 1])))
            d.do("digest", {1: dict(t=t)})
        elif r < .6:
            good = full_chain(h, d.p.pch[s]); bad = bytearray(good); bad[rng.randrange(len(bad))] ^= 1 << rng.randrange(8)
            o = chain(b"RSPLEAF0", 40, root=b"OTHERCA0")
            t = rng.choice(({}, {}, {}, dict(portion=rng.choice((1, 37, 100, 256, 511))) if len(good) < 2000 else {}, dict(chain=bytes(bad)), dict(chain=full_chain(h, o)), dict(chain=good[:-3]), dict(chain=good + b"\0"),
                            dict(chain=W.u16(len(good) + 1) + good[2:]), dict(slot=s ^ 1), dict(rem=rng.choice((0, 1, 600, 5000, 65535))), dict(portion=0), dict(chain=good + bytes(rng.choice((4000, 3600)))),
                            dict(chain=full_chain(h, chain(b"EVILLEAF", 0)))))
            at = rng.choice((0, 0, 1, 2)) if "slot" in t or "rem" in t or t.get("portion") == 0 else 0
            d.do("certificate", {at: dict(t=t)}, slot=s if rng.random() < .95 else rng.choice((8, 255, 3)))
        else:
            t = rng.choice(({}, {}, dict(slot=s ^ 1), dict(signer=b"EVILLEAF"), dict(sctx=b"responder-measurements signing"), dict(sBC=b""), dict(sA=d.p.A[4:]), dict(shash=1), dict(sasym=0x10), dict(cattr=rng.choice((1, 8))), dict(mask=0)))
            pl = {1: dict(t=t)}
            if rng.random() < .15: pl = {1: dict(m=lambda m: d.hurt(m))}
            d.do("challenge", pl, slot=s if rng.random() < .95 else rng.choice((8, 9, 3)), msum=rng.choice((0, 1, 255, 2)))
    if rng.random() < .5: d.certs(); plain(d, "challenge", slot=0)
    return d
def q_chash(D, rng, k):
    """the certificate chain hash of CHALLENGE_AUTH differs from the chain that was retrieved"""
    d = D(base(rng)); d.up(); d.certs(); d.do("challenge", {1: dict(t=dict(ch=rb(rng, 48)))}, slot=0, msum=0); return d
def q_meas(D, rng, k):
    d = D(base(rng)); slots(d, rng)
    if rng.random() < .3: d.p.want["mhash"] = rng.choice((1, 4, 8))
    d.up(); rng.random() < .9 and d.certs(); sids = [None]
    if rng.random() < .6: sids.append(rng.choice((d.login, d.psklogin))())
    if rng.random() < .2: sids.append(d.login())
    d.p.blocks = rng.choice((1, 3, 5, 12)); d.p.blen = rng.choice((1, 8, 60))
    for _ in range(rng.randrange(3, 11)):
        sid = rng.choice(sids); s = 0; r = rng.random(); t = {}; pl = None
        if sid is not None and sid not in d.sids(True): continue
        if r < .45:
            good = b"".join(d.p.block(i) for i in range(1, d.p.blocks + 1)) if d.p.hash else b""
            t = rng.choice((dict(signer=b"EVILLEAF"), dict(slot=1), dict(nblk=rng.choice((0, 1, 2, 3, 255))), dict(rec=good[:-1]), dict(rec=good + b"\1"), dict(rec=b"\1\1\0"), dict(total=rng.choice((0, 1, 255))), dict(chg=rng.choice((1, 2, 3))),
                            dict(sctx=b"responder-challenge_auth signing"), dict(sM=b"x"), dict(rec=good[7:] if len(good) > 7 else good), dict(nblk=2, rec=d.p.block(2) + d.p.block(1))))
            pl = {1: dict(t=t)}
        elif r < .5: pl = {1: dict(m=lambda m: d.hurt(m))}
        elif r < .58: act(d, sid, rng.choice(("heartbeat", "vendor", "digest"))) if sid else plain(d, rng.choice(("digest", "vendor", "challenge")), slot=0); continue
        elif r < .62: pl = {1: rng.choice((errplan(d, rng), dict(lost=1), dict(mute=1), dict(forget=1)))}
        k = dict(sid=sid) if sid else {}
        d.do("measurement", pl, slot=s if rng.random() < .97 else rng.choice((8, 1)), attr=rng.choice((0, 0, 1, 1, 1, 2, 3)), op=rng.choice((0, 1, 2, 3, 255, 255)), **k)
    return d
# ------------------------------------------------------------------ session set-up
def q_kex(D, rng, k):
    c = base(rng); f = RCAPS
    if rng.random() < .25: c["reqcaps"] = QCAPS | 1 << 15; f |= 1 << 15
    d = D(c, pflags=f); slots(d, rng); d.up(); rng.random() < .95 and d.certs(); d.p.hb = rng.choice((0, 5))
    for _ in range(rng.randrange(1, 6)):
        r = rng.random(); t = {}; pl = {}
        if r < .5:
            t = rng.choice((dict(signer=b"EVILLEAF"), dict(sK=b"x"), dict(vd=rb(rng, 48)), dict(vd=bytes(48)), dict(secver=rng.choice((0x10, 0x11, 0x12, 0x13, 0))), dict(opaque=b""), dict(opaque=rb(rng, 16)), dict(hb=9),
                            dict(opaque=W.opaque_list(0x12, (0x10, 0x11))), dict(sctx=b"responder-challenge_auth signing"), dict(rsid=0), dict(rsid=0xffff), dict(rsid=d.p.nsid - 1), dict(mut=rng.choice((1, 2, 4, 3, 8))), dict(rslot=rng.choice((0, 1, 8, 15)), mut=1), dict(shash=1)))
            pl = {1: dict(t=t)}
        elif r < .6: pl = {1: dict(m=lambda m: d.hurt(m))}
        elif r < .65: pl = {rng.choice((1, 2)): rng.choice((errplan(d, rng), dict(lost=1), dict(mute=1), dict(forget=1)))}
        ms = rng.choice((0, 1, 255))
        if rng.random() < .25: d.do("start", pl, slot=0, msum=ms); continue
        if not d.do("kex", pl, slot=0 if rng.random() < .95 else rng.choice((1, 8, 3)), msum=ms): continue
        sid = d.val(); x = d.p.sess.get(int(sid, 16)); r = rng.random(); pl = {}
        if rng.random() < .15: d.do(rng.choice(("pskfinish", "heartbeat", "end", "mutauth")), None, sid=sid)
        if rng.random() < .15: plain(d, rng.choice(("digest", "certificate", "challenge", "kex", "measurement")), slot=0)
        if x and x.mut & 6: d.do("mutauth", sid=sid)
        if r < .25: pl = {1: rng.choice((dict(m=lambda m: d.hurt(m)), errplan(d, rng), dict(lost=1), dict(mute=1), dict(t=dict(vd=rb(rng, 48))), dict(m=wrongkind(d, rng))))}
        elif r < .3: pl = {1: dict(raw=W.frame(d.tr, W.msg(0x12, 0x65), False))}
        ss = d.sids(False); d.do("finish", pl, sid=rng.choice(ss) if ss and rng.random() < .1 else sid)
        if d.sids(True) and rng.random() < .6: act(d, rng.choice(d.sids(True)))
        if d.sids() and rng.random() < .25: s = rng.choice(d.sids(True) or [""]); s and d.do("end", sid=s)
    return d
def q_mut(D, rng, k):
    c = base(rng); cl = 0
    if "chain1" not in c and rng.random() < .3: c["chain1"] = CH2(b"REQLEAF0", 300); c["chain0"] = CH2()
    if rng.random() < .1: c["reqcaps"] = QCAPS & ~(1 << rng.choice((8, 12)))
    d = D(c); d.up(); d.certs(); own = [i for i in range(8) if d.R.cfg.get("chain%d" % i)]
    for _ in range(rng.randrange(1, 4)):
        d.p.mut = rng.choice((1, 2, 2, 4, 4, 4, 6, 0)); d.p.rslot = rng.choice((0, 0, 0) + tuple(own) + (3, 15)); d.p.encplan = rng.choice(("full", "cert")); t = {}; pl = {}
        own0 = bytes.fromhex(d.R.cfg["chain%d" % (d.p.rslot if d.p.rslot in own else own[0])]); d.p.qcap = fhash(d.p.hash, full_chain(d.p.hash, own0)) if d.p.hash else b""
        r = rng.random(); v = d.p.ver
        if r < .55:
            t = rng.choice((dict(eslot=rng.choice(own + [0, 1, 3, 8, 255])), dict(elen=rng.choice((1, 100, 511, 1000, 65535))), dict(elen=0), dict(eq=W.get_digests(v)), dict(eq=W.get_cert(v, 0, 65000, 512)), dict(eq=W.msg(v, 0x83, 0, 0, bytes(32))),
                            dict(eq=b""), dict(eq=b"\x12"), dict(eq=W.msg(0x11, 0x81)), dict(pt=rng.choice((0, 1, 2, 3, 9))), dict(aslot=rng.choice(own + [0, 1, 8, 255])), dict(fin=0), dict(rid=rng.choice((0, 255))), dict(arid=7), dict(ackid=99)))
            pl = {rng.choice((0, 0, 2, 3)): dict(t=t)}
        elif r < .65: pl = {rng.choice((1, 2, 3)): dict(m=lambda m: d.hurt(m))}
        elif r < .72: pl = {rng.choice((1, 2, 3)): rng.choice((errplan(d, rng), dict(lost=1), dict(mute=1), dict(m=wrongkind(d, rng))))}
        if rng.random() < .3: d.do("start", {a + 1 if a else 0: b for a, b in pl.items()}, slot=0, msum=0)
        else:
            sid = d.kex()
            if not sid: continue
            if d.p.mut & 6 and rng.random() < .95: d.do("mutauth", pl, sid=sid)
            if sid in d.sids(False):
                rs = rng.choice((-1, -1, -1) + tuple(own) + (5,))
                d.do("finish", sid=sid, **(dict(rslot=rs) if rs >= 0 else {}))
        for s in d.sids(True)[:1]:
            if rng.random() < .5: act(d, s)
        if len(d.sids()) > 2: d.up(); d.certs()
    return d
def q_algo(D, rng, k):
    """mutual authentication with different algorithms negotiated for the two sides' signatures"""
    d = D(dict(reqcaps=QCAPS, asym=1, reqasym=2)); d.p.want.update(asym=1, rasym=2); d.up(); d.certs(); d.p.mut = 4; sid = d.kex()
    if sid: d.do("mutauth", sid=sid); d.do("finish", sid=sid)
    return d
def q_psk(D, rng, k):
    f = RCAPS
    if rng.random() < .4: f = f & ~(1 << 11) | 1 << 10
    d = D(base(rng), pflags=f)
    if rng.random() < .1: d.p.flags &= ~(3 << 10)
    d.up(); rng.random() < .3 and d.certs()
    for _ in range(rng.randrange(1, 6)):
        r = rng.random(); t = {}; pl = {}
        if r < .4:
            t = rng.choice((dict(vd=rb(rng, 48)), dict(hint=b"other"), dict(secver=rng.choice((0x10, 0x12, 0))), dict(opaque=b""), dict(opaque=rb(rng, 12)), dict(ctx=0), dict(ctx=1), dict(hb=7), dict(rsid=d.p.nsid - 1), dict(rsid=0xffff)))
            pl = {1: dict(t=t)}
        elif r < .5: pl = {1: dict(m=lambda m: d.hurt(m))}
        elif r < .55: pl = {rng.choice((1, 2)): rng.choice((errplan(d, rng), dict(lost=1), dict(mute=1)))}
        if rng.random() < .25: d.do("start", pl, slot=0, msum=0, usepsk=True)
        else:
            if not plain(d, "psk", pl): continue
            sid = d.val(); x = d.p.sess.get(int(sid, 16))
            if rng.random() < .15: d.do(rng.choice(("finish", "heartbeat", "mutauth")), None, sid=sid)
            if x and x.state == "hs" and sid in d.sids(False):
                r = rng.random(); pl = {}
                if r < .3: pl = {1: rng.choice((dict(m=lambda m: d.hurt(m)), errplan(d, rng), dict(lost=1), dict(mute=1), dict(m=wrongkind(d, rng))))}
                d.do("pskfinish", pl, sid=sid)
        for s in d.sids(True)[:1]:
            if rng.random() < .6: act(d, s)
            if rng.random() < .3: d.do("end", sid=s)
    return d
# ------------------------------------------------------------------ established sessions
def many(d, rng, n=2):
    for _ in range(n): rng.choice((d.login, d.psklogin))()
    return d.sids(True)
def q_sess(D, rng, k):
    d = D(base(rng)); d.up(); d.certs(); many(d, rng, rng.choice((1, 2, 2, 3)))
    for _ in range(rng.randrange(4, 16)):
        ss = d.sids(True); r = rng.random()
        if d.over(): break
        if not ss or r < .06: many(d, rng, 1); continue
        s = rng.choice(ss); pl = None
        if r < .16: d.do("end", {1: rng.choice((errplan(d, rng), dict(m=wrongkind(d, rng))))} if rng.random() < .4 else None, sid=s); continue
        if r < .22: d.up(); d.certs(); continue
        if r < .3: d.do(rng.choice(("heartbeat", "end", "appsend", "vendor", "keyupdate")), None, sid=rng.choice(("00000000", "ffffffff", "%08x" % rng.getrandbits(32))), **({"data": "00"})); continue
        if rng.random() < .2: pl = {rng.choice((1, 2)): rng.choice((dict(m=lambda m: d.hurt(m)), dict(m=wrongkind(d, rng)), dict(lost=1), dict(mute=1)))}
        act(d, s, None, pl)
    return d
def q_ku(D, rng, k):
    d = D(base(rng)); d.up(); d.certs(); many(d, rng, rng.choice((1, 1, 2)))
    for _ in range(rng.randrange(3, 12)):
        ss = d.sids(True)
        if d.over(): break
        if not ss: many(d, rng, 1); continue
        s = rng.choice(ss); r = rng.random()
        if r < .55: d.do("keyupdate", sid=s, op=rng.choice((1, 1, 2, 2, 3, 0, 7) if rng.random() < .2 else (1, 2)))
        elif r < .65: d.do("keyupdate", {rng.choice((1, 2)): rng.choice((errplan(d, rng), dict(lost=1), dict(mute=1), dict(m=lambda m: d.hurt(m)), dict(t=dict(kop=rng.choice((1, 2, 3, 0))) if rng.random() < .5 else dict(tag=9))))}, sid=s, op=rng.choice((1, 2)))
        else: act(d, s, rng.choice(("heartbeat", "vendor", "appsend", "appin")))
    return d
def q_limit(D, rng, k):
    d = D(base(rng)); d.up(); d.certs()
    for _ in range(rng.randrange(5, 14)):
        if d.over(): break
        r = rng.random()
        if r < .6: rng.choice((d.login, d.psklogin, lambda: d.kex(), lambda: plain(d, "psk"), lambda: plain(d, "start")))()
        elif r < .75 and d.sids(True): d.do("end", sid=rng.choice(d.sids(True)))
        elif r < .85 and d.sids(False): d.do(rng.choice(("finish", "pskfinish")), {1: errplan(d, rng)} if rng.random() < .5 else None, sid=rng.choice(d.sids(False)))
        elif r < .9: rng.choice((lambda: d.do("kex", {1: dict(t=dict(vd=bytes(48)))}, slot=0), lambda: d.do("psk", {1: dict(t=dict(vd=bytes(48)))}, hint="00")))()
        elif d.sids(True): act(d, rng.choice(d.sids(True)))
    return d
# ------------------------------------------------------------------ records
def q_rec(D, rng, k):
    d = D(base(rng)); d.up(); d.certs(); ss = many(d, rng, rng.choice((1, 2, 2)))
    if not ss: return d
    for _ in range(rng.randrange(4, 14)):
        if d.over() or not d.sids(True): break
        s = rng.choice(d.sids(True)); x = d.p.sess.get(int(s, 16)); r = rng.random(); pl = None
        if not x: break
        def flip(f):
            b = bytearray(f); i = rng.randrange(len(b)) if rng.random() < .6 else rng.randrange(min(14, len(b))); b[i] ^= 1 << rng.randrange(8); return bytes(b)
        def other(f):
            """the same content protected differently"""
            y = d.p.lastx; m = d.p.lastm
            if y is None or y.state != "app": return f
            c = rng.choice(("seq", "dir", "sid", "old", "app", "pt", "hs", "tail"))
            if c == "seq": g = d.p.seal(y, m, dir="s", seq=y.ks.seq["s"] - 1 + rng.choice((-1, 1, 2, 65536)))
            elif c == "dir": g = d.p.seal(y, m, dir="q", seq=y.ks.seq["s"] - 1)
            elif c == "sid": g = d.p.seal(y, m, dir="s", seq=y.ks.seq["s"] - 1, sid=rng.choice([z for z in d.p.sess] + [0]))
            elif c == "old": g = d.p.seal(y, m, dir="s", seq=max(0, y.ks.seq["s"] - 2))
            elif c == "app": g = d.p.seal(y, m, True, dir="s", seq=y.ks.seq["s"] - 1)
            elif c == "hs": g = d.p.seal(y, m, dir="s", seq=y.ks.seq["s"] - 1, secret=y.ks.rs)
            elif c == "tail": b = W.app_wrap(d.tr, m, False); g = d.p.seal(y, m, dir="s", seq=y.ks.seq["s"] - 1, pt=W.u16(len(b)) + b + rb(rng, 3))
            else: g = d.p.seal(y, m, dir="s", seq=y.ks.seq["s"] - 1, pt=rb(rng, rng.choice((0, 1, 2, 9))))
            return W.frame(d.tr, g, True)
        if r < .35: pl = {1: dict(f=other)}
        elif r < .5: pl = {1: dict(f=flip)}
        elif r < .6: pl = {1: dict(f=lambda f: f[:rng.randrange(len(f))])}
        elif r < .65: pl = {1: dict(f=lambda f: f + rb(rng, rng.choice((1, 4))))}
        elif r < .75 and d.old: o = rng.choice(d.old)[1]; pl = {1: dict(raw=o)}
        elif r < .8: pl = {1: dict(f=lambda f: W.frame(d.tr, d.p.lastm, False))}
        w = rng.choice(("heartbeat", "heartbeat", "vendor", "appin", "appsend", "digest", "measurement", "end"))
        if w == "end": d.do("end", pl, sid=s)
        elif w == "appin" and pl and "raw" in pl[1]: d.appin(s, b"abc", {"raw": pl[1]["raw"]})
        elif w == "appin" and pl and r < .35:
            m = rb(rng, 5); f = lambda z: W.frame(d.tr, d.p.seal(x, m, rng.random() < .5, dir="s", seq=x.ks.seq["s"] - rng.choice((0, 2))), True); d.appin(s, m, dict(f=f))
        elif w == "appin" and pl: d.appin(s, b"abcd", {"f": pl[1]["f"]} if r < .65 else None)
        else: act(d, s, w, pl)
    for s in d.sids(True)[:2]: act(d, s, "heartbeat")
    return d
def q_seq(D, rng, k):
    """record numbers far along"""
    d = D(base(rng)); d.up(); d.certs(); ss = many(d, rng, 1)
    if not ss: return d
    i = [t["sid"] for t in d.R.snap["sess"]].index(ss[0])
    n = rng.choice((254, 255, 65534, 65535, 65536, (1 << 32) - 1, 1 << 32, (1 << 64) - 3, (1 << 64) - 2)); m = rng.choice((n, 5, 65535, (1 << 64) - 2))
    d.R.setseq(i, n, m)
    for _ in range(6):
        if d.over() or not d.sids(True): break
        act(d, ss[0], rng.choice(("heartbeat", "vendor", "appsend", "appin", "keyupdate")))
    return d
# ------------------------------------------------------------------ sizes, losses, faults, garbage
def q_dts(D, rng, k):
    d = D(base(rng)); d.p.dts = d.p.mx = rng.choice((42, 45, 60, 64, 100, 130, 150, 151, 200, 250, 300, 1024)); d.p.hb = 1
    d.up(rng.choice(("init", "steps"))); d.certs(); d.p.mut = rng.choice((0, 0, 4)); ss = []
    for _ in range(rng.randrange(3, 9)):
        if d.over(): break
        ss = d.sids(True); r = rng.random()
        if r < .3 or not ss:
            w = rng.choice(OPS); plain(d, w, **(dict(data=rb(rng, rng.choice((0, 20, 30, 33, 36, 60, 91, 120, 240))).hex()) if w == "vendor" else {}))
        elif r < .5: rng.choice((d.login, d.psklogin))()
        elif r < .8: d.do("vendor", sid=rng.choice(ss), data=rb(rng, rng.choice((0, 20, 30, 33, 36, 60, 91, 120, 240))).hex())
        else: act(d, rng.choice(ss))
    return d
def q_lost(D, rng, k):
    d = D(base(rng)); p0 = {}
    bad = lambda: rng.choice((dict(lost=1), dict(lost=1, heard=1), dict(mute=1), dict(mute=1, forget=1), dict(raw=None)))
    if rng.random() < .4: d.do("init", {rng.choice((1, 2, 3)): bad()})
    if rng.random() < .2: d.do(rng.choice(("capability", "algorithm", "version")), {1: bad()} if rng.random() < .5 else None)
    d.up(rng.choice(("init", "steps"))); d.certs()
    if rng.random() < .3: d.p.mut = rng.choice((2, 4))
    for _ in range(rng.randrange(3, 10)):
        if d.over(): break
        pl = {rng.choice((1, 1, 2, 3)): bad()} if rng.random() < .6 else None; ss = d.sids(True); hs = d.sids(False); r = rng.random()
        if r < .45: plain(d, rng.choice(OPS), pl)
        elif r < .55 and hs: d.do(rng.choice(("finish", "finish", "mutauth", "pskfinish")), pl, sid=rng.choice(hs))
        elif r < .65 or not ss: d.login() or d.up() and d.certs()
        elif r < .72: d.do("end", pl, sid=rng.choice(ss))
        elif r < .78: d.do("version", pl) and d.do("capability") and d.do("algorithm") and d.certs()
        else: act(d, rng.choice(ss), None, pl)
    return d
def q_fault(D, rng, k):
    d = D(base(rng), pflags=RCAPS if rng.random() < .7 else RCAPS & ~(1 << 11) | 1 << 10)
    f = lambda w: rng.randrange({"version": 3, "capability": 3, "algorithm": 4, "digest": 6, "certificate": 16, "challenge": 12, "measurement": 12, "kex": 40, "psk": 34, "finish": 40, "pskfinish": 34, "start": 70, "mutauth": 30}.get(w, 14))
    if rng.random() < .15: d.do("init", fault=rng.randrange(6))
    d.up("steps"); d.certs(); d.p.mut = rng.choice((0, 0, 2, 4))
    for _ in range(rng.randrange(2, 8)):
        if d.over(): break
        ss = d.sids(True); hs = d.sids(False); r = rng.random()
        if r < .4: w = rng.choice(OPS); plain(d, w, fault=f(w))
        elif r < .55 and hs:
            s = rng.choice(hs); x = d.p.sess.get(int(s, 16))
            if x and x.mut & 6 and rng.random() < .7: d.do("mutauth", sid=s, fault=f("mutauth") if rng.random() < .5 else None)
            if s in d.sids(False): w = "pskfinish" if x and x.psk else "finish"; d.do(w, sid=s, fault=f(w))
        elif r < .7 or not ss: rng.choice((d.login, d.psklogin, lambda: d.kex()))()
        elif r < .75: d.do("end", sid=rng.choice(ss), fault=f("end"))
        else:
            s = rng.choice(ss); w = rng.choice(("heartbeat", "keyupdate", "vendor", "measurement", "digest", "appsend"))
            a = dict(op=rng.choice((1, 2))) if w == "keyupdate" else dict(data="0011") if w in ("vendor", "appsend") else dict(slot=0, attr=rng.choice((0, 1)), op=rng.choice((0, 1))) if w == "measurement" else {}
            d.do(w, sid=s, fault=f(w), **a)
        if rng.random() < .3: d.up(); d.certs()
    return d
def q_hit(D, rng, k):
    """a new version exchange in the middle of things"""
    d = D(base(rng)); d.up(); d.certs()
    for _ in range(rng.randrange(1, 4)):
        for _ in range(rng.randrange(1, 5)):
            r = rng.random()
            if r < .4: plain(d, rng.choice(OPS))
            elif r < .6: d.login()
            elif d.sids(True): act(d, rng.choice(d.sids(True)))
        dead = d.sids(); old = list(d.old)[-6:]
        pl = {1: rng.choice((dict(lost=1), dict(mute=1), errplan(d, rng), dict(m=lambda m: d.hurt(m)), dict(t=dict(vers=[0x13]))))} if rng.random() < .3 else None
        if rng.random() < .2: d.p.vers = rng.choice(([0x10, 0x11, 0x12], [0x11], [0x12]))
        if d.do("version", pl) or rng.random() < .5: d.do("capability") and d.do("algorithm")
        for s in dead[:1]: d.do(rng.choice(("heartbeat", "end", "vendor", "finish")), sid=s, data="00") if rng.random() < .6 else None
        if rng.random() < .7: d.certs()
        if old and rng.random() < .3: plain(d, rng.choice(OPS), {1: dict(raw=rng.choice(old)[1])})
    d.up(); d.certs(); d.login(); plain(d, rng.choice(OPS)); [act(d, s) for s in d.sids(True)[:1]]
    return d
def q_fuzz(D, rng, k):
    d = D(base(rng)); n = rng.randrange(5)
    if n: d.up("steps" if n < 3 else "init")
    if n > 1: d.certs()
    if n > 2: d.p.mut = rng.choice((0, 4)); many(d, rng, 1)
    for _ in range(rng.randrange(3, 12)):
        if d.over(): break
        def bad(f):
            r = rng.random()
            if r < .3: return rb(rng, rng.randrange(0, 90))
            if r < .5: return W.frame(d.tr, rb(rng, rng.randrange(0, 300)), rng.random() < .3)
            if r < .6: return W.frame(d.tr, bytes([d.p.ver, rng.choice((4, 0x61, 0x63, 1, 2, 3, 0x60, 0x64, 0x65, 0x66, 0x67, 0x68, 0x69, 0x6C, 0x7E, 0x6A, 0x6B, 0x7F))]) + rb(rng, rng.randrange(0, 400)), False)
            if r < .65: return f * rng.choice((2, 20))
            return d.hurt(f)
        def hm(m):
            for _ in range(rng.choice((1, 1, 2, 4))): m = d.hurt(m)
            if rng.random() < .2: m = m[:2] + rb(rng, len(m))
            return m
        pl = {rng.choice((0, 1, 1, 2)): dict(f=bad) if rng.random() < .5 else dict(m=hm)}
        ss = d.sids(True); hs = d.sids(False)
        if rng.random() < .15: d.up()
        if ss and rng.random() < .5: act(d, rng.choice(ss), None, pl)
        elif hs and rng.random() < .6: d.do(rng.choice(("finish", "mutauth", "pskfinish")), pl, sid=rng.choice(hs))
        else: plain(d, rng.choice(OPS + NEGOPS if rng.random() < .3 else OPS), pl)
    d.up(); d.certs(); plain(d, "challenge", slot=0)
    return d
FAM = dict(q_walk=q_walk, q_neg=q_neg, q_phase=q_phase, q_err=q_err, q_auth=q_auth, q_chash=q_chash, q_meas=q_meas, q_kex=q_kex, q_mut=q_mut, q_algo=q_algo, q_psk=q_psk, q_sess=q_sess, q_ku=q_ku,
           q_limit=q_limit, q_rec=q_rec, q_seq=q_seq, q_dts=q_dts, q_lost=q_lost, q_fault=q_fault, q_hit=q_hit, q_fuzz=q_fuzz)
def run(proc, fam, k, seed, sc):
    rng = random.Random("%s/%s/%d" % (seed, fam, k)); box = []
    def D(cfg, **kw):
        d = QD(proc, cfg, sc, rng, **kw); box.append(d); return d
    err = None
    try: FAM[fam](D, rng, k)
    except Exception:
        if not box: raise
        import traceback; err = traceback.format_exc()
    s = box[0].R.finish(); s["drv"] = err or ""; s["fam"] = fam; s["k"] = k
    return s
