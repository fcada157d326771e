"""Framing operations of the two transports: enumerated headers, lengths and buffer sizes, then random ones."""
import glob, random
class FD:
    def __init__(s, proc, sc):
        from sut import Sut
        from fc import Reg
        s.sut = Sut(proc, Reg()); s.ev = []
    def op(s, tr, what, flag, room, data):
        r = s.sut.frame(tr, what, flag, room, data)
        s.ev.append(dict(e="frm", tr=tr, what=what, flag=flag, room=room, data=data.hex(), ret=r["ret"], n=r.get("n", 0), out=r.get("out", ""), oflag=r.get("flag", 0)))
        return r
TRS = ("mctp", "doe")
LENS = sorted(set(list(range(0, 70)) + [127, 128, 252, 255, 256, 257, 511, 512, 1000, 1023, 1024, 1025, 2047, 4080, 4088, 4092, 4095, 4096, 4097, 4100, 4104, 4159, 4160, 4161, 8192, 65531, 65535, 65536]))
def size(tr, what, n):
    if tr == "mctp": return n + 1
    return (n + 3) // 4 * 4 + 8 if what == "encap" else n
def hdr(typ=1, dw=2, vend=1, res=0): return vend.to_bytes(2, "little") + bytes([typ, res]) + dw.to_bytes(4, "little")
def f_len(d, rng, k):
    """every length around the interesting ones, buffers exactly fitting, one short, larger; there and back"""
    for n in LENS[k::24]:
        m = rng.randbytes(n)
        for tr in TRS:
            for what in ("encap", "encapapp"):
                for flag in (0, 1):
                    z = size(tr, what, n)
                    for room in {max(0, z - 1), z, z + 3, max(0, z - 4), 0, n}:
                        r = d.op(tr, what, flag, room, m)
                        if r["ret"] == "ok" and room == z:
                            b = bytes.fromhex(r["out"])
                            for q in (n, z, max(0, n - 1), 8192): d.op(tr, "decap" if what == "encap" else "decapapp", 0, q, b)
def f_type(d, rng, k):
    """every value of the type byte, of the vendor and of the reserved byte"""
    for t in range(k, 256, 16):
        for n in (0, 1, 4, 33):
            m = rng.randbytes(n); d.op("mctp", "decap", 0, 64, bytes([t]) + m); d.op("mctp", "decapapp", 0, 64, bytes([t]) + m)
            z = n + (-n % 4); b = m + bytes(z - n)
            d.op("doe", "decap", 0, 64, hdr(t, 2 + z // 4) + b)
            for v in (t, t << 8, 256 + t, 1 + (t << 8)): d.op("doe", "decap", 0, 64, hdr(1 + n % 2, 2 + z // 4, v) + b)
            d.op("doe", "decap", 0, 64, hdr(1, 2 + z // 4, 1, t) + b)
def f_dlen(d, rng, k):
    """announced against real lengths"""
    for n in range(k, 80, 8):
        m = rng.randbytes(n)
        for dw in {0, 1, 2, 3, (n + 8) // 4 - 1, (n + 8) // 4, (n + 8) // 4 + 1, (n + 11) // 4, 0x3ffff, 0x40000, 0x40000 + (n + 8) // 4, 0x80000002, 0xffffffff, 0x3fffe}:
            if dw >= 0:
                for room in (0, n, n + 3, 64, 200): d.op("doe", "decap", 0, room, hdr(1 + n % 2, dw) + m)
    for n in range(0, 9):
        b = hdr(1, 2) + b"abcd"; d.op("doe", "decap", 0, 64, b[:n]); d.op("mctp", "decap", 0, 64, b[:n]); d.op("mctp", "decapapp", 0, 64, b[:n]); d.op("doe", "decapapp", 0, n, b)
def f_big(d, rng, k):
    """data objects up to the largest the length field can express"""
    n = (0x100000 - 8, 0x100000 - 9, 0x100000 - 12, 0x100000 - 7, 0x100000 - 4, 0x100000)[k % 6]
    m = bytes([k]) * n
    r = d.op("doe", "encap", k % 2, n + 16, m)
    if r["ret"] == "ok":
        b = bytes.fromhex(r["out"]); d.op("doe", "decap", 0, n + 8, b); d.op("doe", "decap", 0, n - 16, b)
def f_rand(d, rng, k):
    for _ in range(40):
        tr = rng.choice(TRS); what = rng.choice(("encap", "decap", "encapapp", "decapapp", "decap")); n = rng.choice((rng.randrange(0, 24), rng.randrange(0, 300), rng.randrange(0, 4200)))
        b = rng.randbytes(n)
        if what == "decap" and rng.random() < .8:
            if tr == "mctp": b = bytes([rng.choice((5, 6, 5, 6, rng.randrange(256)))]) + b
            else:
                dw = (n + 8) // 4 + rng.choice((0, 0, 0, 1, -1, rng.randrange(-2, 40))); b = hdr(rng.choice((1, 2, 1, 2, rng.randrange(256))), max(0, dw) | rng.choice((0, 0, 0, 1 << rng.randrange(18, 32))), rng.choice((1, 1, 1, 1, rng.randrange(65536))), rng.choice((0, 0, 0, rng.randrange(256)))) + b
        if what == "decapapp" and tr == "mctp": b = bytes([rng.choice((1, 5, 1, 5, rng.randrange(256)))]) + b
        d.op(tr, what, rng.randrange(2), max(0, rng.choice((len(b), len(b) + rng.randrange(-12, 13), 4096, 4160, rng.randrange(0, 5000)))), b)
# ------------------------------------------------------------------ certificate chains
OIDS = {1: b"\x2a\x86\x48\x86\xf7\x0d\x01\x01\x0b", 4: b"\x2a\x86\x48\x86\xf7\x0d\x01\x01\x0c", 32: b"\x2a\x86\x48\x86\xf7\x0d\x01\x01\x0d",
        16: b"\x2a\x86\x48\xce\x3d\x04\x03\x02", 128: b"\x2a\x86\x48\xce\x3d\x04\x03\x03"}
OIDS[2] = OIDS[1]; OIDS[8] = OIDS[4]; OIDS[64] = OIDS[32]
ALGOS = (1, 2, 4, 8, 16, 32, 64, 128, 256, 0, 16 | 128)
def dlen(n, form=0):
    if form == 0 and n < 128: return bytes([n])
    k = max(form, (n.bit_length() + 7) // 8, 1); return bytes([128 + k]) + n.to_bytes(k, "big")
class Der:
    """an element: bytes, or a list of elements; its length can be made to lie"""
    def __init__(s, tag, body, **k): s.tag = tag; s.body = body; s.form = k.get("form", 0); s.lie = 0; s.len = None
    def enc(s):
        b = s.body if isinstance(s.body, bytes) else b"".join(x.enc() for x in s.body)
        return bytes([s.tag]) + (s.len if s.len is not None else dlen(max(0, len(b) + s.lie), s.form)) + b
    def all(s): return [s] + ([] if isinstance(s.body, bytes) else [y for x in s.body for y in x.all()])
def dcert(rng, algo, oid=None):
    o = oid if oid is not None else OIDS.get(algo, OIDS[128]); z = lambda: rng.randbytes(rng.choice((0, 1, 3, 9, 20)))
    alg = lambda: Der(0x30, [Der(6, o)] + ([Der(5, b"")] if rng.random() < .4 else []))
    name = lambda: Der(0x30, z() if rng.random() < .3 else rng.randbytes(rng.choice((126, 127, 128, 130, 200, 256, 300)) if rng.random() < .2 else 5))
    tbs = Der(0x30, [Der(0xa0, [Der(2, b"\2")]), Der(2, rng.randbytes(rng.choice((0, 1, 8, 20)))), alg(), name(), name(), name(), Der(0x30, [alg(), Der(3, z())])] + ([Der(0xa3, z())] if rng.random() < .5 else []))
    return Der(0x30, [tbs, alg(), Der(3, z())])
def put(d, algo, b):
    r = d.sut.x509(algo, b); d.ev.append(dict(e="frm", what="x509", algo=algo, b=list(b), ret=r["ret"], n=r.get("n", 0)))
def c_good(d, rng, k):
    """well-formed chains, every algorithm for the leaf against every negotiated one; leaf and issuers with different ones"""
    for a in ALGOS:
        leaf = ALGOS[k % 9]; n = rng.choice((0, 0, 1, 2))
        cs = [dcert(rng, rng.choice(ALGOS)) for _ in range(n)] + [dcert(rng, leaf)]
        put(d, a, b"".join(c.enc() for c in cs)); put(d, leaf, b"".join(c.enc() for c in cs)); put(d, a, b"".join(c.enc() for c in reversed(cs)))
    put(d, 128, b"")
def c_edit(d, rng, k):
    """one element of one certificate damaged: tag, length, length form, content, omission, repetition, order"""
    for _ in range(30):
        a = rng.choice(ALGOS[:8]); cs = [dcert(rng, rng.choice((a, 16))) for _ in range(rng.choice((0, 0, 1, 2)))] + [dcert(rng, a)]
        c = rng.choice(cs); x = rng.choice(c.all()); r = rng.choice(("tag", "lie", "form", "len", "drop", "dup", "swap", "ver", "oid", "body"))
        if r == "tag": x.tag = rng.choice((0x30, 0x31, 2, 6, 0xa0, 0x10, x.tag ^ 0x20, rng.randrange(256)))
        elif r == "lie": x.lie = rng.choice((-1, 1, 2, 7, 100, -3, 128, 65536))
        elif r == "form": x.form = rng.choice((1, 2, 3, 4, 5, 7, 8))
        elif r == "len": x.len = rng.choice((b"\x80", b"\x89" + bytes(9), b"\xff", b"\x88" + b"\xff" * 8, b"\x88" + b"\xff" * 7 + bytes([rng.randrange(224, 256)]), b"\x84\xff\xff\xff\xff", b"\x84\x7f\xff\xff\xff", b"\x88\x7f" + b"\xff" * 7,
                                         b"\x82\xff", b"\x81", b"", b"\x8a" + bytes(10), b"\xff" + bytes(127), b"\x88\0\0\0\1\0\0\0\0", b"\x85\1\0\0\0\0"))
        elif r in ("drop", "dup", "swap"):
            p = [y for y in c.all() if not isinstance(y.body, bytes) and y.body]; y = rng.choice(p); i = rng.randrange(len(y.body))
            if r == "drop": del y.body[i]
            elif r == "dup": y.body.insert(i, y.body[i])
            else: j = rng.randrange(len(y.body)); y.body[i], y.body[j] = y.body[j], y.body[i]
        elif r == "ver": c.body[0].body[0].body[0].body = rng.choice((b"\0", b"\1", b"\3", b"", b"\2\2", b"\0\2")) if isinstance(c.body[0].body[0].body, list) else b""
        elif r == "oid":
            o = [y for y in c.all() if y.tag == 6]; y = rng.choice(o); b = bytearray(y.body); i = rng.randrange(len(b)); b[i] ^= 1 << rng.randrange(8); y.body = rng.choice((bytes(b), bytes(b), y.body[:-1], y.body + b"\0", b"", bytes(130)))
        elif isinstance(x.body, bytes): x.body += rng.randbytes(rng.choice((1, 2, 120)))
        try: put(d, a, b"".join(c.enc() for c in cs))
        except OverflowError: pass
def c_cut(d, rng, k):
    """cut off, extended, bits flipped, concatenated"""
    a = ALGOS[k % 8]; b = b"".join(c.enc() for c in [dcert(rng, rng.choice((a, 4))) for _ in range(k % 3)] + [dcert(rng, a)])
    for i in range(0, len(b), 1 + len(b) // 60): put(d, a, b[:i])
    for e in (b"\0", b"\x30", b"\x30\0", b"\x30\x80", b"\x30\x82\1", b): put(d, a, b + e); put(d, a, e + b)
    for _ in range(60):
        f = bytearray(b); i = rng.randrange(min(len(f), rng.choice((8, 60, 9999)))); f[i] ^= 1 << rng.randrange(8); put(d, a, bytes(f))
    for _ in range(10): put(d, a, rng.randbytes(rng.choice((1, 2, 5, 30))))
REAL = sorted(glob.glob("/repo/test_key/*/*.der"))
def c_real(d, rng, k):
    """the repository's own certificates and bundles, whole and damaged"""
    for f in [f for f in REAL if ".cert" in f][k::12]:
        b = open(f, "rb").read()
        if len(b) > 6000: continue
        a = dict(ecp256=16, ecp384=128, rsa2048=1, rsa3072=4, rsa4096=32).get(f.split("/")[-2], 16)
        for x in {a, rng.choice(ALGOS)}: put(d, x, b)
        for _ in range(8):
            g = bytearray(b); i = rng.randrange(min(len(g), rng.choice((24, 200, 9999)))); g[i] ^= 1 << rng.randrange(8); put(d, a, bytes(g))
        put(d, a, b[:rng.randrange(len(b))]); put(d, a, b + b[:rng.randrange(40)])
FAM = dict(c_real=c_real, c_good=c_good, c_edit=c_edit, c_cut=c_cut, x_len=f_len, x_type=f_type, x_dlen=f_dlen, x_big=f_big, x_rand=f_rand)
SIZE = dict(x_len=24, x_type=16, x_dlen=8, x_big=6, c_good=9, c_real=12)          # enumerated families have that many members
def run(proc, fam, k, seed, sc):
    d = FD(proc, sc); FAM[fam](d, random.Random("%s/%s/%d" % (seed, fam, k)), k)
    return dict(sc=sc, cfg={}, ev=d.ev, drv="", fam=fam, k=k)
