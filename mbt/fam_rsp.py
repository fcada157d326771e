"""Scenario families for the real responder.  Every family is a function (drive, rng, k) that runs one scenario."""
import random
import wire as W
from fc import *
from drive import *

TR = ("mctp", "doe")
CH = lambda tag, fill=40, root=b"ROOTCA00": chain(tag, fill, root=root).hex()
def base(rng, **k):
    c = dict(transport=rng.choice(TR))
    if rng.random() < .3: c["chain1"] = CH(b"RSPLEAF1", rng.choice((0, 300, 900)))
    c["chain0"] = CH(b"RSPLEAF0", rng.choice((0, 40, 400, 700, 1500)))
    if rng.random() < .2: c["chain%d" % rng.choice((2, 3, 5, 7))] = CH(b"RSPLEAF2", rng.choice((0, 500)))
    c["hb"] = rng.choice((0, 1, 10, 255)); c["nmeas"] = rng.choice((1, 2, 3, 5)); c["measlen"] = rng.choice((0, 1, 8, 48))
    if rng.random() < .15: c["root"] = cert(b"ROOTCA00", b"ROOTCA00", 0).hex()
    if rng.random() < .3: c["secver"] = rng.choice(("10,11", "11,10", "12,11", "10,12"))
    if rng.random() < .35: c.update(suite(rng))
    c.update(k); return c
def suite(rng):
    """other algorithms than the usual ones"""
    a = rng.choice((0x80, 0x80, 0x10, 1, 4, 0x20))
    return dict(hash=rng.choice((1, 2, 4)), asym=a, reqasym=a, dhe=rng.choice((8, 16)), aead=rng.choice((1, 2, 4)))
def tail(d, rng):
    """is everything still in order?  ends with a fresh connection"""
    if d.over(): return
    for x in d.sess("est")[:2]: d.sec(x, W.heartbeat(d.q.ver))
    if not d.over() and d.R.snap["conn"] >= 3:
        d.plain(W.challenge(d.q.ver, 0, 0, d.nonce()))
        d.plain(W.get_meas(d.q.ver, 1 if d.q.ver >= 0x12 else 0, 255, d.nonce()))
        x = d.login()
        if x and not d.over(): d.sec(x, b"ping", True); d.bye(x)
    if d.over(): return
    d.up()
    for f in d.old[-3:]:
        if f[0]: d.put(f[1], "old record")
    x = d.login()
    if x: d.sec(x, W.get_meas(d.q.ver, 1, 1, d.nonce())); d.bye(x)

# ------------------------------------------------------------------ the general walk
def act(d, rng, wild=.15):
    """one random step"""
    q = d.q; snap = d.R.snap; conn = snap["conn"]; v = q.ver
    est = d.sess("est"); hs = d.sess("hs")
    k = []
    if conn < 3:
        k += [("ver", 2), ("caps", 6 if conn == 1 else 1), ("neg", 6 if conn == 2 else 1), ("any", 1)]
    else:
        k += [("ver", .4), ("dig", 2), ("cert", 2), ("chal", 3), ("meas", 4), ("kex", 3), ("psk", 2), ("vend", 1), ("any", 2), ("caps", .2), ("neg", .2)]
        if est: k += [("s.hb", 1), ("s.meas", 3), ("s.dig", 1), ("s.cert", 1), ("s.vend", 1), ("s.app", 3), ("s.ku", 4), ("s.end", 1), ("s.any", 2), ("s.bad", 3)]
        if hs: k += [("h.fin", 5), ("h.any", 1), ("h.encap", 2), ("h.app", .5), ("h.badfin", 1), ("s.bad", 1)]
    k += [("junk", .3), ("old", .5)]
    a = rng.choices([n for n, _ in k], [w for _, w in k])[0]
    r = rng.random()
    if r < .03: d.arm(sendfail=1)
    elif r < .05: d.arm(fault=rng.randrange(0, 12))
    elif r < .06: d.arm(rxfail=1)
    def out(m):
        if rng.random() < wild: m = d.hurt(m)
        d.plain(m)
    if a == "ver": d.capv = rng.choice((0x12, 0x12, 0x12, 0x11, 0x10)) if rng.random() < .3 else 0x12; d.plain(W.get_version(0x10 if rng.random() < .9 else rng.choice((0x11, 0x12, 0))))
    elif a == "caps": out(d.m_caps(dts=rng.choice((4096, 4096, 4096, 42, 100, 300, 600))))
    elif a == "neg": out(d.m_neg(**negpick(rng)))
    elif a == "dig": out(W.get_digests(v))
    elif a == "cert": out(W.get_cert(v, rng.choice((0, 0, 0, 1, 2)), rng.choice((0, 0, 1, 100, 700)), rng.choice((512, 512, 0, 1, 100, 65535))))
    elif a == "chal": out(W.challenge(v, rng.choice((0, 0, 0, 1)), rng.choice((0, 0, 1, 255, 2)), d.nonce()))
    elif a == "meas": out(W.get_meas(v, rng.choice((0, 0, 1, 1, 2, 3)) if v >= 0x12 else 0, rng.choice((0, 1, 2, 255, 9)), d.nonce(), rng.choice((0, 0, 0, 1))))
    elif a == "kex":
        if len(hs) < 3: out(d.m_kex(rng.choice((0, 0, 0, 1)), rng.choice((0, 0, 1, 255)), vers=rng.choice(((0x10, 0x11), (0x11,), (0x10,), (0x11, 0x10), (0x12,)))))
    elif a == "psk":
        if len(hs) < 3: out(q.psk(rng.choice((0, 0, 1)), rng.choice((b"", b"hint", b"h" * 32)), vers=rng.choice(((0x10, 0x11), (0x11,), (0x12,)))))
    elif a == "vend": d.arm(**rng.choice(({}, {}, dict(vendfail=1), dict(vendout="00" * 40)))); out(d.request(W.VEND))
    elif a == "any": out(d.request(rng.choice(OPS), rng.choice(hs) if hs else None))
    elif a == "junk": d.put(rng.choice((b"", b"\x05", b"\x06", b"\x07abc", bytes(8), b"\x01\0\x02\0\3\0\0\0\1\2\3\4", d.nonce())))
    elif a == "old":
        if d.old: d.put(rng.choice(d.old[-12:])[1])
    elif a[:2] == "s." or a[:2] == "h.":
        x = rng.choice(est + (hs if a == "s.bad" else [])) if a[0] == "s" else rng.choice(hs)
        sess_act(d, rng, x, a, wild)
def sess_act(d, rng, x, a, wild=.15):
    v = d.q.ver; hurt = (lambda m: d.hurt(m)) if rng.random() < wild else (lambda m: m)
    if a == "s.hb": d.rawsec(x, hurt(W.heartbeat(v)))
    elif a == "s.meas": d.rawsec(x, hurt(W.get_meas(v, rng.choice((0, 0, 1, 1)) if v >= 0x12 else 0, rng.choice((0, 1, 2, 255, 9)), d.nonce())))
    elif a == "s.dig": d.rawsec(x, hurt(W.get_digests(v)))
    elif a == "s.cert": d.rawsec(x, hurt(W.get_cert(v, rng.choice((0, 0, 1)), rng.choice((0, 3)), rng.choice((512, 20)))))
    elif a == "s.vend": d.rawsec(x, hurt(d.request(W.VEND)))
    elif a in ("s.app", "h.app"): app(d, rng, x)
    elif a == "s.ku": d.ku(x, rng.choice((1, 2, 2, 3)))
    elif a == "s.end": d.bye(x)
    elif a in ("s.any", "h.any"): d.rawsec(x, hurt(d.request(rng.choice(OPS), x)))
    elif a == "s.bad": badrec(d, rng, x)
    elif a == "h.encap": d.encap(x, fill=rng.choice((0, 0, 600, 1200)), portion=rng.choice((512, 100, 511)))
    elif a == "h.fin":
        if x.psk: d.pskfin(x)
        else:
            if x.mut and d.q.hash not in d.qch:
                if d.R.snap["conn"] < 5: d.certs()
                d.encap(x)
            if not d.over(): d.fin(x)
    elif a == "h.badfin": badfin(d, rng, x)
APPS = (b"", b"\0", b"hello", b"\x12\x6c\0\0", b"\x12\x65\0\0", b"\x12\x67\0\0", b"\x12\x04\0\0", b"\x12\x63", b"\x12\xec\0\0", bytes(range(64)), b"\x12\x69\x01\x01", b"A" * 500)
def app(d, rng, x):
    r = rng.random()
    if r < .15: d.arm(noappout=1)
    elif r < .3: d.arm(appout=rng.choice((b"\x12\x6c\0\0", b"\x12\x65\0\0", b"\x12\x67\0\0", b"\x6c\x6c", b"", b"ERR", b"ERR", b"\x12\x02")).hex() or "-")
    elif r < .4: d.arm(aux="aabb")
    d.sec(x, rng.choice(APPS) if rng.random() < .9 else bytes([rng.randrange(256)]) * rng.choice((3900, rng.randrange(4040, 4118))), True)
def badrec(d, rng, x):
    """a record that must not be accepted (or only as what it is)"""
    v = d.q.ver; d.sync(x); seq = x.ks.seq["q"]; m = rng.choice((W.heartbeat(v), W.endsess(v), W.keyupd(v, 2, 1), W.get_digests(v)))
    k = rng.choice(("future", "past", "reflect", "cross", "flip", "hdr", "trunc", "ext", "len", "sid", "hskey", "newkey", "oldkey", "nosid", "lenlie", "appflag", "tail"))
    ap = rng.random() < .2
    def send(secret=None, n=None, sid=None, edit=None, pt=None, fr=None):
        f = d.seal(x, m, ap, seq=seq if n is None else n, secret=secret, sid=sid, pt=pt) if fr is None else fr
        d.put(edit(f) if edit else f, "bad " + k)
    off = 1 if d.tr == "mctp" else 8
    if k == "future": send(n=seq + rng.choice((1, 2, 65536, 256)))
    elif k == "past" and seq > 0: send(n=rng.randrange(seq))
    elif k == "reflect": send(secret=x.ks.sec["s"], n=rng.choice((x.ks.seq["s"], seq, 0)))
    elif k == "cross":
        y = [y for y in list(d.q.sess.values()) + d.dead if y is not x]
        if y: send(secret=rng.choice(y).ks.sec["q"])
    elif k == "flip":
        f = bytearray(d.seal(x, m, ap, seq=seq)); i = rng.randrange(off, len(f)); f[i] ^= 1 << rng.randrange(8); d.put(bytes(f), "bad flip")
    elif k == "hdr":
        f = bytearray(d.seal(x, m, ap, seq=seq)); i = rng.randrange(off, off + 8 if d.tr == "mctp" else off + 6); f[i] ^= 1 << rng.randrange(8); d.put(bytes(f), "bad hdr")
    elif k == "trunc": send(edit=lambda f: f[:rng.randrange(len(f))])
    elif k == "ext": send(edit=lambda f: f + bytes(rng.choice((1, 2, 4, 16))))
    elif k == "len": send(pt=W.u16(rng.choice((0, 1, 65535, 300))) + W.app_wrap(d.tr, m, ap))
    elif k == "lenlie": b = W.app_wrap(d.tr, m, ap); send(pt=W.u16(len(b) - 1) + b)
    elif k == "tail": b = W.app_wrap(d.tr, m, ap); send(pt=W.u16(len(b)) + b + bytes(rng.choice((1, 7))))
    elif k == "sid": send(sid=x.sid ^ 1 << rng.randrange(32))
    elif k == "hskey" and x.state == "app": send(secret=x.ks.rq, n=rng.choice((0, seq, 1)))
    elif k == "newkey": send(secret=x.ks.x(x.ks.sec["q"], "traffic upd", b"", HS[x.ks.h]), n=rng.choice((0, seq)))
    elif k == "oldkey":
        y = d.rng.choice(d.old) if d.old else None
        if y: d.put(y[1], "bad replay")
    elif k == "nosid": send(sid=rng.choice((0, 0xffffffff, 0xfffdffff)))
    elif k == "appflag" and d.tr == "mctp": b = bytes([rng.choice((0, 2, 6, 0x85))]) + m; send(pt=W.u16(len(b)) + b)
def badfin(d, rng, x):
    h = HS.get(d.q.hash, 48); v = d.q.ver; k = rng.choice(("vd", "sig", "sigvd", "other", "kind", "attr", "short", "long", "ver", "zero", "rspfin", "swap"))
    F = x.F
    ofin = lambda y, **kw: d.m_fin(y, **kw) if not y.psk else d.q.pskfinish(y, **kw)
    if x.psk: good = d.q.pskfinish(x)
    else: good = d.m_fin(x)
    x.F = F; m = good
    if k == "vd": b = bytearray(good); b[-rng.randrange(1, h + 1)] ^= 1 << rng.randrange(8); m = bytes(b)
    elif k == "zero": m = good[:-h] + bytes(h)
    elif k == "sig" and not x.psk and x.mut: b = bytearray(good); b[4 + rng.randrange(len(good) - 4 - h)] ^= 1; m = bytes(b)
    elif k == "sigvd" and not x.psk and x.mut: m = d.q.finish(x, sig=d.q.rb(AS.get(d.q.rasym, 96))); x.F = F
    elif k == "other":
        y = [y for y in d.sess("hs") if y is not x and y.psk == x.psk]
        if y: y = rng.choice(y); G = y.F; m = ofin(y); y.F = G
    elif k == "kind": m = (W.pskfin(v, good[-h:]) if not x.psk else W.finish(v, 0, 0, b"", good[-h:]))
    elif k == "attr" and not x.psk: m = good[:2] + bytes([good[2] ^ 1]) + good[3:] if rng.random() < .5 else W.finish(v, 0, 0, b"", good[-h:])
    elif k == "short": m = good[:rng.randrange(4, len(good))]
    elif k == "long": m = good + b"\0"
    elif k == "ver": m = bytes([good[0] ^ 1]) + good[1:]
    elif k == "rspfin": m = good[:-h] + d.R.reg.hmac(d.q.hash, x.ks.fs, d.q.th(x, good[:-h]))
    elif k == "swap" and not x.psk: m = good[:4] + good[-h:] + good[4:-h]
    n = x.ks.seq["q"]
    if d.q.clear() and not x.psk: d.plain(m)
    else: d.rawsec(x, m)
def negpick(rng):
    r = rng.random()
    if r < .6: return {}
    o = {}
    if rng.random() < .4: o["hash_"] = rng.choice((1, 2, 4, 7, 0, 6))
    if rng.random() < .4: o["asym"] = rng.choice((0x80, 0x10, 1, 0xff, 0x82, 0))
    if rng.random() < .4: o["dhe"] = rng.choice((8, 16, 24, 0))
    if rng.random() < .4: o["aead"] = rng.choice((1, 2, 4, 7, 0))
    if rng.random() < .3: o["opq"] = rng.choice((0, 1, 2, 3, 4))
    if rng.random() < .2: o["mspec"] = rng.choice((0, 1, 3))
    if rng.random() < .2: o["structs"] = rng.choice(([(2, 16), (3, 2), (5, 1)], [(3, 2), (2, 16), (4, 0x80), (5, 1)], [(2, 16), (2, 16)], [(2, 16, 0x21), (3, 2)], [(6, 1)], [], [(2, 16), (3, 2), (4, 0x80), (5, 1), (5, 1)]))
    return o
def f_walk(D, rng, k):
    d = D(base(rng, **rng.choice(({}, {}, dict(versions="11,12,10"), dict(versions="12,10,11")))))
    if rng.random() < .7: d.up()
    for _ in range(rng.choice((15, 25, 35))):
        if d.over(): break
        act(d, rng)
    if rng.random() < .5: tail(d, rng)
    return d
# ------------------------------------------------------------------ connection phases
def reach(d, ph):
    """bring the responder to this phase"""
    if ph >= 1: d.plain(W.get_version())
    if ph >= 2: d.plain(d.m_caps())
    if ph >= 3: d.plain(d.m_neg())
    if ph == 4: d.plain(W.get_digests(d.q.ver))
    if ph >= 5: d.certs()
PHKINDS = ("good", "ver", "trunc", "hurt", "lost", "fault")
def f_phase(D, rng, k):
    """every request kind in every phase, in six forms"""
    d = D(base(rng)); ph = k % 6; op = OPS[k // 6 % len(OPS)]; kind = PHKINDS[k // 6 // len(OPS) % len(PHKINDS)]
    reach(d, ph)
    if d.over(): return d
    y = d.login() if ph == 5 and rng.random() < .5 else None
    m = d.request(op)
    if kind == "ver": m = bytes([rng.choice([v for v in (0x10, 0x11, 0x12, 0x13, 0, 0xff) if v != m[0]])]) + m[1:]
    elif kind == "trunc": m = m[:rng.randrange(len(m))]
    elif kind == "hurt": m = d.hurt(m)
    elif kind == "lost": d.arm(sendfail=1)
    elif kind == "fault": d.arm(fault=rng.randrange(0, 6))
    d.plain(m, "phase %d op %d %s" % (ph, op, kind))
    if d.over(): return d
    if d.R.snap["conn"] == ph and ph < 3:       # carry on from here
        if ph == 0: d.plain(W.get_version())
        if ph <= 1: d.plain(d.m_caps())
        d.plain(d.m_neg())
    if y and not d.over() and y in d.sess("est"): d.sec(y, W.heartbeat(d.q.ver))
    tail(d, rng); return d
def f_sphase(D, rng, k):
    """every request kind inside a handshaking and an established session"""
    d = D(base(rng)); d.up(); hs = k % 2 == 0; op = OPS[k // 2 % len(OPS)]; kind = ("good", "ver", "trunc", "hurt", "lost", "plain")[k // 2 // len(OPS) % 6]
    psk = rng.random() < .4
    d.certs()
    z = d.login() if rng.random() < .4 else None
    if hs: x = d.pskup() if psk else d.kexup()
    else: x = d.psklogin() if psk else d.login()
    if not x or d.over(): return d
    m = d.request(op, x)
    if kind == "ver": m = bytes([rng.choice((0x10, 0x11, 0x13))]) + m[1:]
    elif kind == "trunc": m = m[:rng.randrange(len(m))]
    elif kind == "hurt": m = d.hurt(m)
    elif kind == "lost": d.arm(sendfail=1)
    if kind == "plain": d.plain(m, "plain %d" % op)
    else: d.rawsec(x, m, note="sess %s op %d %s" % (hs, op, kind))
    for y in (x, z):
        if y and not d.over() and y in d.sess("est"): d.sec(y, W.get_meas(d.q.ver, 1, 1, d.nonce())); d.sec(y, b"data", True)
    if not d.over() and x in d.sess("hs"):
        sess_act(d, rng, x, "h.fin", 0)
        if not d.over() and x in d.sess("est"): d.sec(x, b"data", True)
    tail(d, rng); return d
# ------------------------------------------------------------------ negotiation
def rndcaps(rng):
    b = [1, 2, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17]
    r = rng.random()
    if r < .3: return sum(1 << i for i in b if rng.random() < .5)
    f = QCAPS
    for _ in range(rng.choice((1, 1, 2, 3))): f ^= 1 << rng.choice(b)
    return f
def f_neg(D, rng, k):
    c = base(rng, versions=rng.choice(("10,11,12", "12,11,10", "10,11", "11,12", "12", "10", "11")), opaque=rng.choice((0, 2, 2, 2)), measspec=rng.choice((1, 1, 0)),
             meashash=rng.choice((1, 2, 4, 8)), hash=rng.choice((1, 2, 4, 7, 6)), asym=rng.choice((0x80, 0x10, 0x90, 0xff)), dhe=rng.choice((8, 16, 24)), aead=rng.choice((1, 2, 4, 7)))
    c["reqasym"] = c["asym"]
    if "," not in c["versions"]: c["versions"] = ",".join([c["versions"]] * 3)
    if len(c["versions"].split(",")) == 2: c["versions"] += "," + c["versions"].split(",")[0]
    d = D(c)
    for _ in range(rng.choice((2, 3, 4))):
        if d.over(): return d
        d.plain(W.get_version(0x10 if rng.random() < .9 else 0x12))
        for _ in range(rng.choice((1, 1, 2))):
            d.capv = rng.choice((0x12, 0x12, 0x11, 0x10, 0x13, 0x0f)) if rng.random() < .5 else 0x12
            m = d.m_caps(flags=rndcaps(rng) if rng.random() < .6 else None, dts=rng.choice((4096, 41, 42, 0, 64)), mx=rng.choice((4096, 42, 41, 0xffffffff)), ct=rng.choice((0, 8, 31, 32, 255)))
            if rng.random() < .15: m = d.hurt(m)
            if rng.random() < .08: d.arm(sendfail=1)
            d.plain(m)
            if d.over(): return d
        for _ in range(rng.choice((1, 1, 2))):
            m = d.m_neg(hash_=rng.randrange(8), asym=rng.choice((0x80, 0x90, 0xff, 0, 0x10, 3)), dhe=rng.choice((0, 8, 16, 24, 31)), aead=rng.randrange(8), rasym=rng.choice((0x80, 0xff, 0, 0x10)),
                        mspec=rng.choice((0, 1, 1, 3)), opq=rng.choice((0, 1, 2, 2, 3, 4, 8)))
            r = rng.random()
            if r < .2: m = d.hurt(m)
            elif r < .3: m = d.m_neg(**negpick(rng))
            elif r < .4: m = W.negotiate(d.q.ver, 0x80, 2, [(2, 16), (3, 2), (4, 0x80), (5, 1)], 1, 2, length=rng.choice((0, 32, 47, 49, 65535)))
            elif r < .5: m = W.negotiate(d.q.ver, 0x80, 2, [(2, 16), (3, 2), (4, 0x80), (5, 1)], 1, 2, extas=rng.choice((0, 1)), exth=rng.choice((0, 1)), count=rng.choice((0, 1, 3, 4, 5, 255)))
            if rng.random() < .08: d.arm(sendfail=1)
            d.plain(m)
            if d.over(): return d
        if d.R.snap["conn"] >= 3:
            d.plain(W.get_digests(d.q.ver)); d.plain(W.get_cert(d.q.ver, 0, 0, 512)); d.plain(W.challenge(d.q.ver, 0, rng.choice((0, 1)), d.nonce()))
            d.plain(W.get_meas(d.q.ver, 1 if d.q.ver >= 0x12 else 0, 255, d.nonce())); d.plain(W.challenge(d.q.ver, 0, 0, d.nonce()))
            if not d.over():
                x = d.kexup()
                if x and not x.mut: d.fin(x)
    tail(d, rng); return d
# ------------------------------------------------------------------ challenges, certificates and measurements
def f_auth(D, rng, k):
    d = D(base(rng)); d.up()
    for _ in range(rng.choice((8, 14, 20))):
        if d.over(): return d
        v = d.q.ver; a = rng.choices(("dig", "cert", "chal", "meas", "kex", "refuse", "other", "lost", "fault", "vend"), (4, 5, 4, 5, 1, 2, 1, 1, 1, 1))[0]
        if a == "dig": d.plain(W.get_digests(v))
        elif a == "cert": d.plain(W.get_cert(v, rng.choice((0, 0, 0, 1, 2, 8)), rng.choice((0, 0, 5, 200, 512, 1200)), rng.choice((512, 0, 1, 100, 511, 513, 65535))))
        elif a == "chal": d.plain(W.challenge(v, rng.choice((0, 0, 0, 1, 9)), rng.choice((0, 0, 1, 255, 7)), d.nonce()))
        elif a == "meas": d.plain(W.get_meas(v, rng.choice((0, 0, 1, 1, 2, 3)), rng.choice((0, 1, 2, 3, 255, 4, 6, 254)), d.nonce(), rng.choice((0, 0, 0, 1, 9))))
        elif a == "kex": d.kexup()
        elif a == "vend": d.plain(d.request(W.VEND))
        elif a == "refuse":
            m = d.request(rng.choice((W.DIGESTS, W.CERT, W.CHALL, W.MEAS))); m = bytes([rng.choice((0x10, 0x11, m[0]))]) + m[1:]; d.plain(m[:rng.randrange(2, len(m) + 1)])
        elif a == "other": d.plain(d.request(rng.choice((W.HB, W.KU, W.FIN, W.RIR, 0x85, W.GET_CAPS))))
        elif a == "lost": d.arm(sendfail=1); d.plain(d.request(rng.choice((W.DIGESTS, W.CERT, W.CHALL, W.MEAS))))
        elif a == "fault": d.arm(fault=rng.randrange(0, 8)); d.plain(d.request(rng.choice((W.DIGESTS, W.CERT, W.CHALL, W.MEAS))))
    d.plain(W.challenge(d.q.ver, 0, 1, d.nonce())); tail(d, rng); return d
def f_smeas(D, rng, k):
    """measurements in the clear and in two sessions, interleaved"""
    d = D(base(rng)); d.up(); xs = [d.login(), d.psklogin()]; xs = [x for x in xs if x]
    for _ in range(rng.choice((10, 18))):
        if d.over(): return d
        m = W.get_meas(d.q.ver, rng.choice((0, 0, 1)), rng.choice((0, 1, 2, 255, 9)), d.nonce()); x = rng.choice(xs + [None])
        r = rng.random()
        if r < .05: d.arm(sendfail=1)
        elif r < .1: d.arm(fault=rng.randrange(0, 9))
        elif r < .2: m = d.hurt(m)
        elif r < .3 and x: m = d.request(rng.choice((W.DIGESTS, W.HB, W.VEND)))
        if x and x in d.sess("est"): d.rawsec(x, m)
        else: d.plain(m)
    for x in xs:
        if not d.over() and x in d.sess("est"): d.sec(x, W.get_meas(d.q.ver, 1, 1, d.nonce()))
    tail(d, rng); return d
# ------------------------------------------------------------------ sessions
def f_sess(D, rng, k):
    """many sessions: limit, isolation, identifiers, ends, reuse"""
    d = D(base(rng)); d.q.rstep = k % 3 % 2; d.up(); d.certs()
    for _ in range(rng.choice((15, 25))):
        if d.over(): return d
        est, hs = d.sess("est"), d.sess("hs"); a = rng.choices(("kex", "psk", "fin", "end", "use", "ku", "bad", "badfin", "over", "dead", "same", "lost"), (4, 3, 6, 2, 4, 2, 1, 1, .5, 1, .5, .5))[0]
        if a == "kex": d.kexup(ms=rng.choice((0, 1)))
        elif a == "psk": d.pskup(hint=rng.choice((b"", b"a", b"hint")))
        elif a == "fin" and hs: sess_act(d, rng, rng.choice(hs), "h.fin", 0)
        elif a == "end" and est: d.bye(rng.choice(est))
        elif a == "use" and est: sess_act(d, rng, rng.choice(est), rng.choice(("s.hb", "s.app", "s.meas", "s.vend")), 0)
        elif a == "ku" and est: d.ku(rng.choice(est), rng.choice((1, 2, 3)))
        elif a == "bad" and est + hs: badrec(d, rng, rng.choice(est + hs))
        elif a == "badfin" and hs: badfin(d, rng, rng.choice(hs))
        elif a == "over":
            for _ in range(4): d.pskup()
        elif a == "dead" and d.dead: y = rng.choice(d.dead); d.put(d.seal(y, W.heartbeat(d.q.ver), seq=y.ks.seq["q"]), "dead session")
        elif a == "same" and d.q.sess: d.kexup(rsid=rng.choice(list(d.q.sess)) & 0xffff)
        elif a == "lost": d.arm(sendfail=1); d.plain(rng.choice((d.m_kex(), d.q.psk())))
    tail(d, rng); return d
def f_limit(D, rng, k):
    """fill every session slot, exceed the limit, free some, fill again"""
    d = D(base(rng)); d.q.rstep = k % 3 % 2; d.up(); d.certs()
    xs = []
    for i in range(6):
        if d.over(): return d
        x = d.pskup() if rng.random() < .5 else d.kexup()
        if x:
            xs.append(x)
            if rng.random() < .7: sess_act(d, rng, x, "h.fin", 0)
    for _ in range(rng.choice((1, 2, 3))):
        e = d.sess("est")
        if e and not d.over(): d.bye(rng.choice(e))
    for i in range(4):
        if d.over(): return d
        x = d.psklogin() if rng.random() < .5 else d.login()
        if x: d.sec(x, b"x", True)
    for x in d.sess("est"):
        if not d.over(): d.sec(x, W.heartbeat(d.q.ver))
    tail(d, rng); return d
def f_rec(D, rng, k):
    """damaged, replayed, reflected and misdirected records; numbers near every boundary"""
    d = D(base(rng)); d.up(); x = d.login() if rng.random() < .6 else d.psklogin(); y = d.psklogin()
    if d.over() or not x or not y: return d
    h = d.kexup() if rng.random() < .5 else None
    for _ in range(rng.choice((10, 16))):
        if d.over(): return d
        z = rng.choice([t for t in (x, x, y) if t in d.sess("est")] + ([h] if h and h in d.sess("hs") else []) or [None])
        if z is None: break
        r = rng.random()
        if r < .65: badrec(d, rng, z)
        elif r < .8 and z is not h: d.sec(z, b"abc", True)
        elif r < .9 and z is not h: d.ku(z, rng.choice((1, 2)))
        elif z is not h: d.rawsec(z, W.heartbeat(d.q.ver))
    if not d.over() and rng.random() < .5 and d.R.snap["sess"]:
        i = rng.randrange(len(d.R.snap["sess"])); n = rng.choice((254, 255, 65534, 65535, (1 << 16) - 2, (1 << 32) - 2, (1 << 64) - 3, (1 << 64) - 2)); m = rng.choice((0, 5, n, (1 << 64) - 2))
        sl = [i for i, t in enumerate(d.R.snap["sess"]) if t["state"] == 2]
        if sl:
            i = rng.choice(sl)
            d.R.setseq(i, n, m); sid = int(d.R.snap["sess"][i]["sid"], 16); z = d.q.sess[sid]
            for _ in range(5):
                if d.over(): return d
                d.sec(z, W.heartbeat(d.q.ver))
                if rng.random() < .3: badrec(d, rng, z)
            if not d.over() and rng.random() < .5: d.ku(z, 2); d.sec(z, W.heartbeat(d.q.ver))
    if not d.over() and h and h in d.sess("hs"): sess_act(d, rng, h, "h.fin", 0)
    tail(d, rng); return d
def f_ku(D, rng, k):
    d = D(base(rng)); d.up(); xs = [x for x in (d.login(), d.psklogin()) if x]
    for _ in range(rng.choice((12, 20))):
        if d.over() or not xs: return d
        x = rng.choice(xs); r = rng.random()
        if x not in d.sess("est"): continue
        if r < .05: d.arm(sendfail=1)
        elif r < .12: d.arm(fault=rng.randrange(0, 10))
        if r < .6: d.ku(x, rng.choice((1, 2, 3)))
        elif r < .7: d.rawsec(x, W.keyupd(d.q.ver, rng.choice((0, 4, 5, 128, 255)), 7))
        elif r < .8: badrec(d, rng, x)
        elif r < .9: d.sec(x, b"data", True)
        else: d.rawsec(x, W.heartbeat(d.q.ver))
    for x in xs:
        if not d.over() and x in d.sess("est"): d.sec(x, b"last", True)
    tail(d, rng); return d
def f_fin(D, rng, k):
    """finishing handshakes wrongly, repeatedly, across sessions; in the clear too"""
    c = base(rng); clear = k % 4 == 3
    if clear: c["rspcaps"] = DEF["rspcaps"] | 1 << 15
    d = D(c); d.up(flags=(QCAPS | 1 << 15) if clear else None); d.certs()
    for _ in range(rng.choice((2, 3, 4))):
        if d.over(): return d
        x = rng.choice((d.kexup, d.kexup, d.pskup))()
        if not x: continue
        if not x.psk and x.mut and rng.random() < .8 and not clear: d.encap(x, fill=rng.choice((0, 700)))
        for _ in range(rng.choice((0, 1, 2))):
            hs = d.sess("hs")
            if d.over(): return d
            if hs: badfin(d, rng, rng.choice(hs))
        if not d.over() and x in d.sess("hs"):
            if rng.random() < .1: d.arm(sendfail=1)
            elif rng.random() < .1: d.arm(fault=rng.randrange(0, 25))
            d.pskfin(x) if x.psk else d.fin(x)
        if d.over(): return d
        if x in d.sess("est"):
            d.sec(x, W.get_meas(d.q.ver, 1, 1, d.nonce())); d.ku(x, 2); d.sec(x, b"z", True)
        elif x in d.sess("hs") and rng.random() < .6:
            d.sec(x, b"early", True); d.rawsec(x, W.heartbeat(d.q.ver)); d.put(d.seal(x, W.endsess(d.q.ver), seq=0, secret=x.ks.sec["q"]))
    tail(d, rng); return d
def f_encap(D, rng, k):
    c = base(rng)
    if rng.random() < .3: c["root"] = cert(b"ROOTCA00", b"ROOTCA00", 0).hex()
    d = D(c); fl = QCAPS
    if rng.random() < .1: fl &= ~(1 << 12) & ~(1 << 8)
    d.up(flags=fl); v = d.q.ver; h = d.q.hash
    if rng.random() < .9: d.certs()
    x = d.kexup()
    if not x or d.over(): return d
    good = reqchain(b"REQLEAF0", rng.choice((0, 600, 1000)), h)
    bad = bytearray(good); bad[rng.randrange(len(bad))] ^= 1
    qc = rng.choice((good, good, good, bytes(bad), reqchain(b"REQLEAF0", 0, h, root=b"OTHERCA0"), good[:-1], W.u16(len(good) + 1) + good[2:], b"", good[:4 + HS[h]], good + b"\0", reqchain(b"EVILLEAF", 0, h)))
    off = 0; dg = W.msg(v, 1, 0, 1, fhash(h, qc))
    for _ in range(rng.choice((4, 8, 12))):
        if d.over() or x not in d.sess("hs"): break
        r = rng.random(); part = qc[off:off + rng.choice((512, 512, 512, 100, 1))]
        if r < .03: d.arm(sendfail=1)
        elif r < .06: d.arm(fault=rng.randrange(0, 10))
        r = rng.random()
        if r < .15: d.sec(x, W.encap_req(v))
        elif r < .3: d.sec(x, W.encap_del(v, rng.choice((0, 0, 1, 9)), dg))
        elif r < .8:
            rem = len(qc) - off - len(part) if rng.random() < .9 else rng.choice((0, 1, 65535, 4000))
            p = d.sec(x, W.encap_del(v, 0, W.msg(v, 2, 0 if rng.random() < .95 else 1, 0, W.u16(len(part)) + W.u16(rem) + part)))
            off = W.le(p[12:14]) if p and len(p) >= 16 and p[1] == 0x6B and p[3] == 1 else 0 if p and p[1] == 0x6B else off
        elif r < .86: d.sec(x, W.encap_del(v, 0, W.error(v, rng.choice((1, 5, 0x42, 7)))))
        elif r < .9: d.sec(x, W.encap_del(v, 0, rng.choice((b"", b"\x12", W.msg(v, 3), W.msg(0x11, 1), W.msg(v, 0x81)))))
        elif r < .95: d.rawsec(x, d.hurt(W.encap_del(v, 0, dg)))
        else: d.plain(rng.choice((W.encap_req(v), W.encap_del(v, 0, dg))))
    if not d.over() and x in d.sess("hs"):
        if rng.random() < .3 and d.R.snap["peer"][0] != ".": d.qch[h] = bytes.fromhex(d.R.snap["peer"][0])
        elif rng.random() < .5: d.encap(x)
        if d.R.snap and d.R.snap["peer"][0] != "." and not d.over(): d.qch[h] = bytes.fromhex(d.R.snap["peer"][0])
        if not d.over(): d.fin(x)
        if not d.over() and x in d.sess("est"): d.sec(x, b"hi", True); d.rawsec(x, W.encap_req(v))
    tail(d, rng); return d
def f_psk(D, rng, k):
    c = base(rng)
    if rng.random() < .4: c["rspcaps"] = (DEF["rspcaps"] & ~(1 << 11)) | 1 << 10
    d = D(c); d.capv = rng.choice((0x12, 0x12, 0x11)); d.up()
    for _ in range(rng.choice((3, 5))):
        if d.over(): return d
        r = rng.random()
        if r < .06: d.arm(sendfail=1)
        elif r < .12: d.arm(fault=rng.randrange(0, 14))
        hint = rng.choice((b"", b"h", b"hint", b"x" * 32, b"x" * 33)); ctx = rng.choice((None, None, b"", b"c", b"c" * 64, b"c" * 65))
        opq = rng.choice((None, None, None, b"", b"abc", W.opaque_list(d.q.ver, (0x11, 0x10, 0x11)), W.opaque_list(d.q.ver, ())))
        if rng.random() < .15: d.plain(d.hurt(d.q.psk(0, hint, ctx))); continue
        x = d.pskup(ms=rng.choice((0, 0, 1, 255, 3)), hint=hint, ctx=ctx, vers=rng.choice(((0x10, 0x11), (0x11,), (0x13,), (0x10,))), opq=opq)
        if not x or d.over(): continue
        if x.state == "hs":
            if rng.random() < .3: badfin(d, rng, x)
            if not d.over() and x in d.sess("hs"): d.pskfin(x)
        if d.over(): return d
        if x in d.sess("est"): d.sec(x, b"p", True); d.rawsec(x, d.request(rng.choice((W.PSKF, W.FIN, W.HB, W.MEAS)), x))
    tail(d, rng); return d
def f_app(D, rng, k):
    d = D(base(rng)); d.up(); xs = [x for x in (d.login(), d.psklogin()) if x]; h = d.pskup()
    for _ in range(rng.choice((10, 16))):
        if d.over(): return d
        est = d.sess("est"); r = rng.random()
        if r < .55 and est: app(d, rng, rng.choice(est))
        elif r < .65 and h and h in d.sess("hs"): app(d, rng, h)
        elif r < .8 and est: d.arm(**rng.choice(({}, dict(vendfail=1), dict(vendout="6c" * 30)))); d.rawsec(rng.choice(est), d.request(W.VEND))
        elif r < .9: d.arm(**rng.choice(({}, dict(vendfail=1), dict(vendout="")))); d.plain(d.request(W.VEND))
        elif r < .95 and est: d.arm(sendfail=1); app(d, rng, rng.choice(est)) if not d.kw else None
        elif est: badrec(d, rng, rng.choice(est))
    if h and not d.over() and h in d.sess("hs"): d.pskfin(h); d.sec(h, b"now", True)
    tail(d, rng); return d
def f_dts(D, rng, k):
    """small announced transfer sizes"""
    d = D(base(rng)); d.up(dts=rng.choice((42, 43, 51, 52, 53, 64, 100, 150, 200, 250, 300, 333, 400, 516, 519, 520, 521, 600, 0xffffffff)), mx=0xffffffff)
    if d.R.snap and d.R.snap["conn"] < 3: tail(d, rng); return d
    for _ in range(10):
        if d.over(): return d
        v = d.q.ver; r = rng.random()
        if r < .1: d.plain(W.get_digests(v))
        elif r < .3: d.plain(W.get_cert(v, 0, rng.choice((0, 5)), rng.choice((512, 20, 100, 600))))
        elif r < .45: d.plain(W.challenge(v, 0, rng.choice((0, 1)), d.nonce()))
        elif r < .65: d.plain(W.get_meas(v, rng.choice((0, 1)), rng.choice((0, 1, 255)), d.nonce()))
        elif r < .75: d.login(ms=rng.choice((0, 1)))
        elif r < .9: d.psklogin(ms=rng.choice((0, 1)))
        else: d.plain(W.vendor(v, d.q.rb(rng.choice((1, 30, 200)))))
        for x in d.sess("est")[:1]:
            if not d.over(): d.rawsec(x, rng.choice((W.get_meas(v, 1, 255, d.nonce()), W.get_cert(v, 0, 0, 512), W.get_digests(v), W.vendor(v, d.q.rb(90)), W.heartbeat(v)))); d.sec(x, b"A" * 300, True)
    tail(d, rng); return d
# ------------------------------------------------------------------ faults and lost answers, systematically
def script(d, rng, j):
    """a fixed succession of steps; before step j the pending fault or loss is armed by the caller's hook"""
    q = d.q
    st = [lambda: d.plain(q.version()), lambda: d.plain(d.m_caps()), lambda: d.plain(d.m_neg()), lambda: d.plain(W.get_digests(q.ver)),
          lambda: d.plain(W.get_cert(q.ver, 0, 0, 512)), lambda: d.plain(W.challenge(q.ver, 0, 1, d.nonce())), lambda: d.plain(W.get_meas(q.ver, 0, 1, d.nonce())), lambda: d.plain(W.get_meas(q.ver, 1, 255, d.nonce())),
          lambda: setattr(d, "x", d.kexup(ms=1)), lambda: d.x and d.sec(d.x, W.encap_req(q.ver)),
          lambda: d.x and d.sec(d.x, W.encap_del(q.ver, 0, W.msg(q.ver, 1, 0, 1, fhash(q.hash, reqchain(h=q.hash))))),
          lambda: d.x and encert(d), lambda: d.x and d.fin(d.x), lambda: d.x and d.sec(d.x, W.get_meas(q.ver, 1, 1, d.nonce())), lambda: d.x and d.sec(d.x, b"app", True), lambda: d.x and d.ku(d.x, 2), lambda: d.x and d.ku(d.x, 1),
          lambda: d.x and d.rawsec(d.x, W.heartbeat(q.ver)), lambda: setattr(d, "y", d.pskup(ms=255, hint=b"k")), lambda: d.y and d.pskfin(d.y), lambda: d.y and d.rawsec(d.y, W.vendor(q.ver, b"v")), lambda: d.y and d.bye(d.y), lambda: d.x and d.bye(d.x)]
    return st
def encert(d):
    qc = reqchain(h=d.q.hash); v = d.q.ver
    p = d.sec(d.x, W.encap_del(v, 1, W.msg(v, 2, 0, 0, W.u16(len(qc)) + W.u16(0) + qc)))
    if p and p[1] == 0x6B and p[3] == 2: d.qch[d.q.hash] = qc
NSTEP = 23
def f_hit(D, rng, k):
    """one lost answer (k even) or one failing cryptographic operation (k odd) at step j of a complete run, then the step again and the rest"""
    d = D(base(rng)); d.x = d.y = None; j = k // 2 % NSTEP; st = script(d, rng, j)
    for i, f in enumerate(st):
        if d.over(): return d
        if i == j:
            d.arm(**(dict(sendfail=1) if k % 2 == 0 else dict(fault=rng.choice((k // 2 // NSTEP, rng.randrange(0, 26))))))
            f(); d.kw = {}
            if d.over(): return d
            if rng.random() < .7: f()
        else: f()
    tail(d, rng); return d
def f_fault(D, rng, k):
    """the n-th cryptographic operation of step j fails: (j, n) enumerated"""
    d = D(base(rng, transport=TR[k % 2])); d.x = d.y = None; j = k % NSTEP; n = k // NSTEP; st = script(d, rng, j)
    for i, f in enumerate(st):
        if d.over(): return d
        if i == j:
            d.arm(fault=n); f(); d.kw = {}
            if d.over(): return d
            if j in (12, 19) and d.sess("hs"):
                d.sec(d.sess("hs")[0], b"early", True)
            f()
        else: f()
    tail(d, rng); return d
# ------------------------------------------------------------------ garbage
def f_fuzz(D, rng, k):
    d = D(base(rng)); reach(d, rng.choice((0, 1, 2, 3, 5, 5, 5)))
    xs = []
    if d.R.snap and d.R.snap["conn"] >= 3 and rng.random() < .7: xs = [x for x in (d.login(), d.pskup()) if x]
    for _ in range(rng.choice((20, 35))):
        if d.over(): return d
        r = rng.random(); xs = [x for x in xs if x in d.sess()]
        m = d.hurt(d.request(rng.choice(OPS), xs[-1] if xs else None)) if rng.random() < .75 else d.q.rb(rng.choice((0, 1, 2, 3, 4, 8, 40, 300, 1400)))
        for _ in range(rng.choice((0, 0, 1, 3))): m = d.hurt(m)
        if r < .1: d.put(m)
        elif r < .55 or not xs: d.plain(m)
        elif r < .9: d.rawsec(rng.choice(xs), m)
        else: d.put(d.hurt(d.seal(xs[0], m, seq=xs[0].ks.seq["q"])))
    tail(d, rng); return d
def f_algo(D, rng, k):
    """mutual authentication with different algorithms negotiated for the two sides' signatures"""
    d = D(dict(asym=1, reqasym=2)); d.up(flags=QCAPS, neg=dict(asym=1, rasym=2)); d.certs(); x = d.kexup()
    if not x or not d.encap(x): return d
    if k % 2: d.q.rasym = 1          # sign with the responder's algorithm
    d.fin(x); return d
FAM = dict(algo=f_algo, walk=f_walk, phase=f_phase, sphase=f_sphase, neg=f_neg, auth=f_auth, smeas=f_smeas, sess=f_sess, limit=f_limit, rec=f_rec, ku=f_ku, fin=f_fin, encap=f_encap, psk=f_psk, app=f_app, dts=f_dts,
           hit=f_hit, fault=f_fault, fuzz=f_fuzz)
def run(proc, fam, k, seed, sc):
    rng = random.Random("%s/%s/%d" % (seed, fam, k)); box = []
    def D(cfg):
        d = RD(proc, cfg, sc, rng); box.append(d); return d
    err = None
    try: FAM[fam](D, rng, k)
    except Exception:                      # the implementation did something the driver cannot follow: judge what happened so far
        if not box: raise
        import traceback; err = traceback.format_exc()
    s = box[0].R.finish(); s["drv"] = err or ""; s["fam"] = fam; s["k"] = k
    return s
