"""SPDM / secured message / transport encodings: builders, and decoders into the field records the specification reads.

decode_req / decode_rsp return a dict with at least op, ver (ints), wf (structurally complete for its kind), used
(number of bytes the message occupies).  ctx: what the decoding depends on (negotiated version, hash, asym, ...).
All byte strings are rendered as hex, flag words as lists of set bit numbers."""
from fc import HS, AS, DS
GET_VERSION, GET_CAPS, NEG, DIGESTS, CERT, CHALL, MEAS, KEX, FIN, PSKX, PSKF, HB, KU, END, VEND = \
    0x84, 0xE1, 0xE3, 0x81, 0x82, 0x83, 0xE0, 0xE4, 0xE5, 0xE6, 0xE7, 0xE8, 0xE9, 0xEC, 0xFE
ENCREQ, ENCDEL, RIR = 0xEA, 0xEB, 0xFF
ERR = 0x7F
RSP = {GET_VERSION: 4, GET_CAPS: 0x61, NEG: 0x63, DIGESTS: 1, CERT: 2, CHALL: 3, MEAS: 0x60, KEX: 0x64, FIN: 0x65, PSKX: 0x66,
       PSKF: 0x67, HB: 0x68, KU: 0x69, END: 0x6C, VEND: 0x7E, ENCREQ: 0x6A, ENCDEL: 0x6B}
KNOWN = {0x81, 0x82, 0x83, 0x84, 0xE0, 0xE1, 0xE3, 0xE4, 0xE5, 0xE6, 0xE7, 0xE8, 0xE9, 0xEA, 0xEB, 0xEC, 0xFE, 0xFF}
# capability bits
QC = dict(CERT=1, CHAL=2, ENCRYPT=6, MAC=7, MUT=8, KEY_EX=9, PSK=10, PSKR=11, ENCAP=12, HBEAT=13, KEY_UPD=14, CLEAR=15, PUBKEY=16, CHUNK=17)
SC = dict(CACHE=0, CERT=1, CHAL=2, MEAS_NS=3, MEAS_SIG=4, FRESH=5, ENCRYPT=6, MAC=7, MUT=8, KEY_EX=9, PSK=10, PSKC=11, ENCAP=12, HBEAT=13,
          KEY_UPD=14, CLEAR=15, PUBKEY=16, CHUNK=17, ALIAS=18, SETCERT=19, CSR=20, CINST=21)
def caps(tab, names): return sum(1 << tab[n] for n in names.split())
def bits(n): return [i for i in range(32) if n >> i & 1]
def u16(n): return (n & 0xffff).to_bytes(2, "little")
def u24(n): return (n & 0xffffff).to_bytes(3, "little")
def u32(n): return (n & 0xffffffff).to_bytes(4, "little")
def le(b): return int.from_bytes(b, "little")

# ------------------------------------------------------------------ builders
def msg(ver, code, p1=0, p2=0, body=b""): return bytes([ver, code, p1 & 255, p2 & 255]) + body
def get_version(ver=0x10): return msg(ver, GET_VERSION)
def get_caps(ver, flags=0, ct=0, dts=4096, mx=4096):
    b = b""
    if ver >= 0x11: b += bytes([0, ct, 0, 0]) + u32(flags)
    if ver >= 0x12: b += u32(dts) + u32(mx)
    return msg(ver, GET_CAPS, 0, 0, b)
def negotiate(ver, asym, hash_, structs, mspec=1, opq=2, length=None, extas=0, exth=0, count=None):
    """structs: list of (type, alg) or (type, alg, countbyte)"""
    s = b""
    if ver >= 0x11:
        for t in structs: s += bytes([t[0], t[2] if len(t) > 2 else 0x20]) + u16(t[1])
    n = 32 + len(s) if length is None else length
    b = u16(n) + bytes([mspec, opq if ver >= 0x12 else 0]) + u32(asym) + u32(hash_) + bytes(12) + bytes([extas, exth, 0, 0]) + s
    c = (len(structs) if ver >= 0x11 else 0) if count is None else count
    return msg(ver, NEG, c, 0, b)
def get_digests(ver): return msg(ver, DIGESTS)
def get_cert(ver, slot, off, ln): return msg(ver, CERT, slot, 0, u16(off) + u16(ln))
def challenge(ver, slot, ms, nonce): return msg(ver, CHALL, slot, ms, nonce)
def get_meas(ver, attr, op, nonce=b"", slot=0):
    b = b""
    if attr & 1:
        b = nonce + (bytes([slot]) if ver >= 0x11 else b"")
    return msg(ver, MEAS, attr, op, b)
def opaque_list(ver, vers):
    el = bytes([1, 1, len(vers)]) + b"".join(bytes([0, v]) for v in vers)
    el = bytes([0, 0]) + u16(len(el)) + el
    el += bytes(-len(el) % 4)
    return (bytes.fromhex("46544d44") + bytes([1, 1, 0, 0]) if ver < 0x12 else bytes([1, 0, 0, 0])) + el
def opaque_sel(ver, v):
    el = bytes([1, 0]) + bytes([0, v])
    el = bytes([0, 0]) + u16(len(el)) + el
    el += bytes(-len(el) % 4)
    return (bytes.fromhex("46544d44") + bytes([1, 1, 0, 0]) if ver < 0x12 else bytes([1, 0, 0, 0])) + el
def kex(ver, slot, ms, rsid, rnd, exch, opq, policy=0): return msg(ver, KEX, ms, slot, u16(rsid) + bytes([policy, 0]) + rnd + exch + u16(len(opq)) + opq)
def pskx(ver, ms, rsid, hint, ctx, opq, p2=0): return msg(ver, PSKX, ms, p2, u16(rsid) + u16(len(hint)) + u16(len(ctx)) + u16(len(opq)) + hint + ctx + opq)
def finish(ver, attr, slot, sig, vd): return msg(ver, FIN, attr, slot, sig + vd)
def pskfin(ver, vd): return msg(ver, PSKF, 0, 0, vd)
def heartbeat(ver): return msg(ver, HB)
def keyupd(ver, op, tag): return msg(ver, KU, op, tag)
def endsess(ver, attr=0): return msg(ver, END, attr)
def vendor(ver, payload, std=0, vid=b"", code=VEND): return msg(ver, code, 0, 0, u16(std) + bytes([len(vid)]) + vid + u16(len(payload)) + payload)
def encap_req(ver): return msg(ver, ENCREQ)
def encap_del(ver, rid, m): return msg(ver, ENCDEL, rid, 0, m)
def error(ver, code, data=0, ext=b""): return msg(ver, ERR, code, data, ext)

# ------------------------------------------------------------------ transport
def frame(tr, payload, secured):
    if tr == "mctp": return bytes([6 if secured else 5]) + payload
    p = payload + bytes(-len(payload) % 4)
    return u16(1) + bytes([2 if secured else 1, 0]) + u32((len(p) + 8) // 4) + p
def unframe(tr, b):
    """(kind, payload, exact) kind 'plain' | 'sec' | None"""
    if tr == "mctp":
        if len(b) < 1 or b[0] not in (5, 6): return None, b"", False
        return ("sec" if b[0] == 6 else "plain"), b[1:], True
    if len(b) < 8 or b[:2] != b"\1\0" or b[2] not in (1, 2): return None, b"", False
    n = le(b[4:8]) & 0x3ffff
    n = (n or 0x40000) * 4
    if n < 8 or n > len(b): return None, b"", False
    return ("sec" if b[2] == 2 else "plain"), b[8:n], (len(b) == n and not b[3] and le(b[4:8]) < 0x40000)
def seqlen(tr): return 2 if tr == "mctp" else 0
def app_wrap(tr, m, app): return (bytes([1 if app else 5]) + m) if tr == "mctp" else m
def app_unwrap(tr, b):
    """(app?, message) or None"""
    if tr != "mctp": return (False, b)
    if len(b) < 1 or b[0] not in (5, 1): return None
    return (b[0] == 1, b[1:])
def record(tr, reg, aead, key, iv, sid, seq, plaintext):
    """plaintext: already with its 2-byte length"""
    hdr = u32(sid) + (seq & 0xffff).to_bytes(2, "little")[:seqlen(tr)] + u16(len(plaintext) + 16)
    n = bytes(x ^ y for x, y in zip(iv, (seq & (1 << 64) - 1).to_bytes(8, "little") + bytes(4)))
    ct, tag = reg.enc(aead, key, n, hdr, plaintext)
    return hdr + ct + tag

# ------------------------------------------------------------------ decoders
class R:
    def __init__(s, b): s.b = b; s.i = 0; s.bad = False
    def take(s, n):
        if s.i + n > len(s.b): s.bad = True; return bytes(min(n, 256))
        r = s.b[s.i:s.i + n]; s.i += n; return r
    def u(s, n): return le(s.take(n))
    def h(s, n): return s.take(n).hex()
def head(b):
    r = R(b)
    d = {"ver": r.u(1), "op": r.u(1), "p1": 0, "p2": 0}
    if len(b) < 2: d["ver"] = d["ver"] if b else -1; d["op"] = -1
    return r, d
def fin(r, d):
    d["wf"] = not r.bad; d["used"] = r.i if not r.bad else 0
    return d
def oplist(ver, opq, fmt1=True):
    """secured message versions offered in requester opaque data: (parsed?, [versions])"""
    r = R(opq)
    if ver < 0x12:
        if r.take(4).hex() != "46544d44" or r.u(1) != 1: return False, []
        tot = r.u(1); r.take(2)
    else:
        if not fmt1: return False, []
        tot = r.u(1); r.take(3)
    if r.bad or tot > 3: return False, []
    # only the canonical single element is judged; anything else: [-1]
    i0, vl, ln, dv, dt, n = r.u(1), r.u(1), r.u(2), r.u(1), r.u(1), r.u(1)
    v = []
    for _ in range(min(n, 2)): r.u(1); v.append(r.u(1))
    if tot != 1 or r.bad or i0 or vl or dv != 1 or dt != 1 or n > 2 or ln != 3 + 2 * n: return tot >= 1, [-1]
    vs = v
    return tot >= 1, vs
def decode_req(b, c):
    """c: ver, hash, asym, dhe, rasym, opq, rmut (size for the finish signature)"""
    r, d = head(b); op = d["op"]; v = c.get("ver", 0x10)
    if op == GET_VERSION: r.take(2)
    elif op == GET_CAPS:
        r.take(2); d.update(ct=0, flags=[], dts=0, max=0); hv = d["ver"]
        if hv >= 0x11: r.u(1); d["ct"] = r.u(1); r.u(2); d["flags"] = bits(r.u(4) & 0x3FFC6 | 0)
        if hv >= 0x12: d["dts"] = min(r.u(4), 1 << 30); d["max"] = min(r.u(4), (1 << 30) + 1)
    elif op == NEG:
        d["cnt"] = r.u(1); r.u(1); d["len"] = r.u(2); d["mspec"] = bits(r.u(1) & 1); o = r.u(1); d["opq"] = bits(o) if v >= 0x12 else []
        d["asym"] = bits(r.u(4) & 0xff); d["hash"] = bits(r.u(4) & 7); r.take(12); d["exta"] = r.u(1); d["exth"] = r.u(1); r.u(2); d["st"] = []
        if v >= 0x11:
            for _ in range(min(d["cnt"], 4)):
                t = r.u(1); n = r.u(1); a = r.u(2)
                m = {2: 0x18, 3: 7, 4: 0xff, 5: 1}.get(t, 0xffff)
                d["st"].append({"t": t, "n": n, "a": bits(a & m)})
    elif op == DIGESTS: r.take(2)
    elif op == CERT: d["slot"] = r.u(1); r.u(1); d["off"] = r.u(2); d["len"] = r.u(2)
    elif op == CHALL: d["slot"] = r.u(1); d["ms"] = r.u(1); d["nonce"] = r.h(32)
    elif op == MEAS:
        d["attr"] = r.u(1); d["mop"] = r.u(1); d["slot"] = 0; d["nonce"] = ""
        if d["attr"] & 1:
            d["nonce"] = r.h(32)
            if v >= 0x11: d["slot"] = r.u(1)
    elif op == KEX:
        d["ms"] = r.u(1); d["slot"] = r.u(1); d["rsid"] = "%04x" % r.u(2); d["pol"] = r.u(1); r.u(1); d["rnd"] = r.h(32)
        d["exch"] = r.h(DS.get(c.get("dhe", 0), (0, 0))[0]); n = r.u(2); o = r.take(n)
        if n > 1024: r.bad = True
        d["oplist"], d["opvers"] = oplist(v, o, c.get("opq", 0) == 2)
    elif op == PSKX:
        d["ms"] = r.u(1); d["slot"] = r.u(1); d["rsid"] = "%04x" % r.u(2); a = r.u(2); e = r.u(2); n = r.u(2)
        if a > 32 or e > 64 or n > 1024: r.bad = True
        d["hint"] = r.h(a); d["ctx"] = r.h(e); o = r.take(n)
        d["oplist"], d["opvers"] = oplist(v, o, c.get("opq", 0) == 2)
    elif op == FIN:
        d["attr"] = r.u(1); d["slot"] = r.u(1); d["sig"] = r.h(AS.get(c.get("rasym", 0), 0)) if d["attr"] & 1 else ""
        d["vd"] = r.h(HS.get(c.get("hash", 0), 0))
    elif op == PSKF: r.take(2); d["vd"] = r.h(HS.get(c.get("hash", 0), 0))
    elif op == HB: r.take(2)
    elif op == KU: d["kop"] = r.u(1); d["tag"] = r.u(1)
    elif op == END: d["attr"] = r.u(1); r.u(1)
    elif op == VEND:
        r.take(2); d["std"] = r.u(2); n = r.u(1); d["vid"] = r.h(n); n = r.u(2); d["pay"] = r.h(n)
    elif op == ENCREQ: r.take(2)
    elif op == ENCDEL: d["rid"] = r.u(1); r.u(1); d["pay"] = b[4:].hex(); d["inn"] = decode_rsp(b[4:], c)
    elif op == RIR: r.take(2)
    else:
        r.take(min(2, max(0, len(b) - 2)))
    return fin(r, d)

def meas_blocks(rec):
    """list of (index, content hex) or None"""
    o = []; i = 0
    while i < len(rec):
        if i + 4 > len(rec): return None
        ln = le(rec[i+2:i+4])
        if i + 4 + ln > len(rec): return None
        o.append((rec[i], rec[i:i+4+ln])); i += 4 + ln
    return o
def dmtf(rec, mhash):
    """is the record a sequence of DMTF measurement blocks, as far as a requester is able to tell?"""
    bl = meas_blocks(rec)
    if bl is None: return False
    last = 0
    for i, b in bl:
        if i <= last or b[1] != 1 or len(b) < 7 or le(b[2:4]) != 3 + le(b[5:7]): return False
        last = i; k = b[4] & 0x7f; raw = b[4] & 0x80
        if k > 4 or (not raw and le(b[5:7]) != {2: 32, 4: 48, 8: 64}.get(mhash)) or le(b[5:7]) > 512: return False
    return True
def opsel(ver, o):
    """selected secured message versions in responder opaque data; (parsed exactly?, [v])"""
    if not o: return True, []
    for n in range(256):
        if opaque_sel(ver, n) == o: return True, [n]
    # tolerate the alpha byte / other padding layouts: decode structurally
    r = R(o)
    if ver < 0x12: r.take(4); r.u(1); tot = r.u(1); r.take(2)
    else: tot = r.u(1); r.take(3)
    if tot < 1: return False, []
    r.u(1); vl = r.u(1); r.take(vl); n = r.u(2); sv = r.u(1); sid = r.u(1); r.u(1); v = r.u(1)
    if r.bad or sv != 1 or sid != 0: return False, []
    return True, [v]
def decode_rsp(b, c):
    """c: ver, hash, asym, dhe, msum (summary expected in this answer), clear (handshake in the clear), rq (decoded request)"""
    r, d = head(b); op = d["op"]; v = c.get("ver", 0x10); hs = HS.get(c.get("hash", 0), 0); a = AS.get(c.get("asym", 0), 0)
    if op == 4:
        d["p1"] = r.u(1); d["p2"] = r.u(1); r.u(1); n = r.u(1); d["vers"] = []
        for _ in range(n): r.u(1); d["vers"].append(r.u(1))
    elif op == 0x61:
        r.take(3); d["ct"] = r.u(1); r.u(2); d["flags"] = bits(r.u(4)); d["dts"] = d["max"] = 0
        if d["ver"] >= 0x12: d["dts"] = min(r.u(4), 1 << 30); d["max"] = min(r.u(4), (1 << 30) + 1)
    elif op == 0x63:
        d["cnt"] = r.u(1); r.u(1); d["len"] = r.u(2); d["mspec"] = bits(r.u(1)); o = r.u(1); d["opq"] = bits(o)
        d["mhash"] = bits(r.u(4)); d["asym"] = bits(r.u(4)); d["hash"] = bits(r.u(4)); r.take(12); d["exta"] = r.u(1); d["exth"] = r.u(1); r.u(2); d["st"] = []
        for _ in range(min(d["cnt"], 8) if d["ver"] >= 0x11 else 0):
            t = r.u(1); n = r.u(1); d["st"].append({"t": t, "n": n, "a": bits(r.u(2))})
    elif op == 1:
        r.u(1); d["mask"] = bits(r.u(1)); d["digs"] = [r.h(hs) for _ in d["mask"]]
    elif op == 2:
        d["slot"] = r.u(1); r.u(1); n = r.u(2); d["rem"] = r.u(2); d["data"] = r.h(n); d["plen"] = n
    elif op == 3:
        x = r.u(1); d["slot"] = x & 15; d["attr"] = x >> 4; d["mask"] = bits(r.u(1)); d["ch"] = r.h(hs); d["nonce"] = r.h(32)
        d["msh"] = r.h(hs) if c.get("msum") else ""; n = r.u(2); d["opq"] = r.h(n); d["tbs"] = r.i; d["sig"] = r.h(a)
    elif op == 0x60:
        d["p1"] = r.u(1); x = r.u(1); d["slot"] = x & 15; d["chg"] = x >> 4; d["nblk"] = r.u(1); n = r.u(3); rec = r.take(n); d["rec"] = rec.hex()
        bl = meas_blocks(rec); d["blk"] = [i for i, _ in bl] if bl is not None else [-1]; d["dmtf"] = dmtf(rec, c.get("mhash", 0))
        # the nonce is present in every response the implementation builds
        d["nonce"] = r.h(32); n = r.u(2); d["opq"] = r.h(n); d["tbs"] = r.i; d["sig"] = r.h(a) if c.get("sigreq") else ""
    elif op == 0x64:
        d["hb"] = r.u(1); r.u(1); d["rsid"] = "%04x" % r.u(2); d["mut"] = bits(r.u(1)); d["rslot"] = r.u(1); d["rnd"] = r.h(32)
        d["exch"] = r.h(DS.get(c.get("dhe", 0), (0, 0))[0]); d["msh"] = r.h(hs) if c.get("msum") else ""; n = r.u(2); o = r.take(n)
        d["opok"], d["opsel"] = opsel(v, o); d["tbs"] = r.i; d["sig"] = r.h(a); d["tbm"] = r.i; d["vd"] = "" if c.get("clear") else r.h(hs)
    elif op == 0x66:
        d["hb"] = r.u(1); r.u(1); d["rsid"] = "%04x" % r.u(2); r.u(2); n = r.u(2); m = r.u(2)
        d["msh"] = r.h(hs) if c.get("msum") else ""; d["ctx"] = r.h(n); o = r.take(m); d["opok"], d["opsel"] = opsel(v, o); d["tbm"] = r.i; d["vd"] = r.h(hs)
    elif op == 0x65: r.take(2); d["tbm"] = r.i; d["vd"] = r.h(hs) if c.get("clear") else ""
    elif op in (0x67, 0x68, 0x6C): r.take(2)
    elif op == 0x69: d["kop"] = r.u(1); d["tag"] = r.u(1)
    elif op == 0x7E: r.take(2); d["std"] = r.u(2); n = r.u(1); d["vid"] = r.h(n); n = r.u(2); d["pay"] = r.h(n)
    elif op == 0x6A: d["rid"] = r.u(1); r.u(1); d["pay"] = b[4:].hex(); r.i = len(b); d["enc"] = decode_encreq(b[4:])
    elif op == 0x6B:
        d["rid"] = r.u(1); d["pt"] = r.u(1); d["ack"] = -1
        if v >= 0x12: d["ack"] = r.u(1); r.take(3)
        p = b[r.i:]; d["pay"] = p.hex(); d["enc"] = {"op": -1}
        if d["pt"] == 1: d["enc"] = decode_encreq(p); r.i += len(p)
        elif d["pt"] == 2: d["rslot"] = r.u(1)
    elif op == ERR:
        d["p1"] = r.u(1); d["p2"] = r.u(1)
        if d["p1"] == 0x42: r.take(4)
        elif d["p1"] == 0xff: r.i = len(b)
    else: r.i = len(b)
    fin(r, d); d["exact"] = (not r.bad) and r.i == len(b)
    return d
def decode_encreq(p):
    r, d = head(p)
    if d["op"] == DIGESTS: r.take(2)
    elif d["op"] == CERT: d["slot"] = r.u(1); r.u(1); d["off"] = r.u(2); d["len"] = r.u(2)
    else: d["op"] = -1 if r.bad else d["op"]
    fin(r, d); d["exact"] = (not r.bad) and r.i == len(p)
    return d
