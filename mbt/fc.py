"""Deterministic stand-in cryptography (the same functions as harness/src/crypto.rs) and the provenance
registry that turns bytes back into the terms they were computed from."""
import hashlib

def sha(b): return hashlib.sha256(b).digest()
def xof(tag, parts, n):
    h = tag.encode() + b"|"
    for p in parts: h += len(p).to_bytes(4, "big") + p
    base = sha(h); o = b""; c = 0
    while len(o) < n:
        o += sha(base + c.to_bytes(4, "big")); c += 1
    return o[:n]
HS = {1: 32, 2: 48, 4: 64}
AS = {1: 256, 2: 256, 4: 384, 8: 384, 0x20: 512, 0x40: 512, 0x10: 64, 0x80: 96}
DS = {8: (64, 32), 16: (96, 48)}
KL = {1: 16, 2: 32, 4: 32}
def fhash(a, d): return xof("hash", [bytes([a]), d], HS[a])
def fmsum(h, ty): return xof("msum", [bytes([h]), bytes([ty])], HS[h])
def block(i, ln): return bytes([i, 1]) + (ln+3).to_bytes(2, "little") + b"\x01" + ln.to_bytes(2, "little") + xof("meas", [bytes([i])], ln)
def cert(subject, issuer, fill=0):
    body = subject + issuer + bytes((7*i) & 0xff for i in range(fill))
    l = len(body) + 16
    c = bytes([0x30, 0x82, l >> 8, l & 255]) + body
    return c + xof("certsig", [issuer, c], 16)
def chain(leaf, fill=0, mid=1, root=b"ROOTCA00"):
    """root, mid intermediates, leaf"""
    o = cert(root, root, 0); prev = root
    for i in range(mid):
        n = b"MIDCA%03d" % i
        o += cert(n, prev, fill // 2); prev = n
    return o + cert(leaf, prev, fill - fill // 2)
def parse_chain(c):
    v = []; i = 0
    while i < len(c):
        if len(c) - i < 4 or c[i] != 0x30 or c[i+1] != 0x82: return None
        l = (c[i+2] << 8) + c[i+3]
        if i + 4 + l > len(c) or l < 32: return None
        v.append((i, i+4+l)); i += 4 + l
    return v or None
def chain_ok(c):
    v = parse_chain(c)
    if not v: return False
    prev = c[v[0][0]+4:v[0][0]+12]
    for b, e in v:
        iss = c[b+12:b+20]
        if iss != prev or xof("certsig", [iss, c[b:e-16]], 16) != c[e-16:e]: return False
        prev = c[b+4:b+12]
    return True
def leaf_tag(c):
    v = parse_chain(c)
    return c[v[-1][0]+4:v[-1][0]+12] if v else b"????????"
def full_chain(hash_alg, data):
    """length(2) reserved(2) root hash chain"""
    v = parse_chain(data); root = data[v[0][0]:v[0][1]]
    return (4 + HS[hash_alg] + len(data)).to_bytes(2, "little") + b"\0\0" + fhash(hash_alg, root) + data

def hx(b): return b.hex() if b else ""

class Reg:
    """value -> term; filled from the recorded operations of the code under test and from the peer's own operations"""
    role = "rsp"
    def __init__(s):
        s.dig = {}; s.sec = {}; s.mac = {}; s.sig = {}; s.aead = {}; s.iv = {}; s.rand = set(); s.dh = {}; s.pub = set()
        s.secinfo = {}; s.digid = {}; s.msum = {}
        for h in (1, 2, 4):
            for t in (1, 255): s.msum[fmsum(h, t)] = "msum(%d,%d)" % (h, t)
    # ---- rendering
    def rdig(s, v):
        if not v: return ""
        if v in s.dig:
            if v not in s.digid: s.digid[v] = "#%d" % (len(s.digid) + 1)
            return s.digid[v]
        return "raw(%s)" % hx(v)
    def digtab(s):
        """digest table of the scenario: '<alg>:<preimage hex>' -> '#n', only those that occur in rendered terms"""
        return {"%d:%s" % s.dig[v]: i for v, i in s.digid.items()}
    def rsec(s, v):
        if v in s.sec: return s.sec[v]
        if not any(v): return "Z%d" % len(v)
        return "raw(%s)" % hx(v)
    # ---- operations
    def hash(s, a, d):
        o = fhash(a, d); s.dig[o] = (a, hx(d)); return o
    def hmac(s, a, k, d):
        o = xof("hmac", [bytes([a]), k, d], HS[a]); s.mac[o] = "MAC%d[%s|%s]" % (a, s.rsec(k), s.rdig(d)); return o
    def ext(s, a, salt, ikm):
        o = xof("ext", [bytes([a]), salt, ikm], HS[a]); s.sec[o] = "E%d[%s|%s]" % (a, s.rsec(salt), s.rsec(ikm)); return o
    def exp(s, a, prk, info, n):
        o = xof("exp", [bytes([a]), prk, info], n); t = s.info(info); s.sec[o] = "X%d[%s|%s]" % (a, s.rsec(prk), t); s.secinfo[o] = (a, prk, info)
        lab = info[10:] if len(info) > 10 else b""
        if lab[:2] == b"iv": s.iv.setdefault((a, prk), []).append((o, info))
        return o
    def info(s, i):
        """len(2 LE) 'spdm1.x ' label ctx"""
        n = int.from_bytes(i[:2], "little"); r = i[2:]
        try:
            ver = r[:8].decode("ascii")
        except UnicodeDecodeError: return "badinfo(%s)" % hx(i)
        r = r[8:]
        for k in (48, 32, 64):
            if len(r) > k and r[-k:] in s.dig:
                return "%d|%s|%s|%s" % (n, ver, lab(r[:-k]), s.rdig(r[-k:]))
        return "%d|%s|%s|" % (n, ver, lab(r))
    def pskprk(s, what, a, hint):
        o = xof(what, [bytes([a]), hint], HS[a]); s.sec[o] = "P%d[%s|%s]" % (a, what, hx(hint)); return o
    def dhs(s, a, req, rsp):
        """shared secret; the term names the requester's public key first"""
        x, y = sorted((req, rsp)); o = xof("dh", [bytes([a]), x, y], DS[a][1])
        if o not in s.sec: s.sec[o] = "DH%d[%s|%s]" % (a, hx(req), hx(rsp))
        return o
    def sign(s, tag, h, a, data):
        o = xof("sig", [tag, bytes([h]), bytes([a & 255]), data], AS.get(a, 0)); s.sig[o] = "SIG[%s|%d|%d|%s]" % (tag.decode("latin1"), h, a, s.tbs(data)); return o
    def tbs(s, d):
        """1.2 to-be-signed: 64-byte prefix, zero padding, context, digest"""
        for k in (48, 32, 64):
            if len(d) == 100 + k and d[-k:] in s.dig:
                return "%s|%s" % (d[:100].decode("latin1").replace("\0", "0"), s.rdig(d[-k:]))
        return "badtbs(%s)" % hx(d)
    def enc(s, a, key, iv, aad, pt):
        ks = xof("stream", [bytes([a]), key, iv], len(pt)); ct = bytes(x ^ y for x, y in zip(pt, ks))
        tag = xof("tag", [bytes([a]), key, iv, aad, pt], 16); s.aead[(aad, ct, tag)] = (a, key, iv, pt); return ct, tag
    def keyinfo(s, a, key, iv):
        """(traffic secret term, sequence number) of a key/iv pair; '?' when they are not a proper pair"""
        if key not in s.secinfo: return "?", -1
        h, prk, info = s.secinfo[key]
        if info[10:] != b"key" or int.from_bytes(info[:2], "little") != len(key): return "?", -1
        for (v, i2) in s.iv.get((h, prk), []):
            if i2[2:10] != info[2:10] or i2[10:] != b"iv" or len(v) != 12: continue
            x = bytes(p ^ q for p, q in zip(v, iv))
            if not any(x[8:]):
                n = int.from_bytes(x[:8], "little"); return s.rsec(prk) + "@" + info[2:10].decode("latin1"), n
        return "?", -1
    def feed(s, line):
        """one recorded operation line of the harness; returns (name, args) """
        t = line.split(" ")
        if t[0] != "op": return
        b = lambda i: bytes.fromhex(t[i]) if t[i] != "-" else b""
        k = t[1]
        if k in ("hash", "hfin"): s.dig[b(4)] = (int(t[2]), hx(b(3)))
        elif k == "hmac": s.hmac(int(t[2]), b(3), b(4))
        elif k == "hmacv":
            s.hmac(int(t[2]), b(3), b(4))
        elif k == "sign": s.sign(b(4), int(t[2]), int(t[3]), b(5))
        elif k == "ext": s.ext(int(t[2]), b(3), b(4))
        elif k == "exp": s.exp(int(t[2]), b(3), b(4), int(t[5]))
        elif k in ("pskh", "pskm"):
            p = s.pskprk(k, int(t[2]), b(3)); s.exp(int(t[2]), p, b(5), HS[int(t[2])])
        elif k == "dh":
            if s.role == "rsp": s.dhs(int(t[2]), b(4), b(3))
            else: s.dhs(int(t[2]), b(3), b(4))
        elif k == "enc": s.enc(int(t[2]), b(3), b(4), b(5), b(6))
        elif k == "rand": s.rand.add(b(2))
        elif k == "gen": s.pub.add(b(3))
def lab(b):
    try: return b.decode("ascii")
    except UnicodeDecodeError: return "x" + b.hex()
def seqint(n):
    """keep numbers inside TLC's 32-bit range; close to 2^64 becomes negative"""
    if n < 1 << 30: return n
    if n >= (1 << 64) - (1 << 20): return n - (1 << 64)
    if abs(n - (1 << 32)) < 1 << 20: return 1200000000 + n - (1 << 32)
    return 1 << 30
