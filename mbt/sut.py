"""Talks to the harness process that holds the real ResponderContext / RequesterContext."""
import os, select, subprocess, sys
BIN = os.environ.get("VHARNESS", "/tmp/hb/debug/vharness")
class Dead(Exception): pass
class Proc:
    def __init__(s, binary=None):
        s.bin = binary or BIN; s.p = None; s.start()
    def start(s):
        s.kill()
        s.p = subprocess.Popen([s.bin], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, bufsize=0)
        s.buf = b""
    def kill(s):
        if s.p:
            try: s.p.kill()
            except OSError: pass
            s.p.stdin.close(); s.p.stdout.close(); s.p.wait(); s.p = None
    def put(s, line):
        try: s.p.stdin.write(line.encode() + b"\n")
        except (BrokenPipeError, OSError): raise Dead("exit")
    def line(s, timeout=8):
        while b"\n" not in s.buf:
            r, _, _ = select.select([s.p.stdout], [], [], timeout)
            if not r: raise Dead("hang")
            d = os.read(s.p.stdout.fileno(), 1 << 16)
            if not d: raise Dead("exit")
            s.buf += d
        l, s.buf = s.buf.split(b"\n", 1)
        return l.decode("latin1")
def post(l):
    d = {}
    for kv in l.split()[1:]:
        k, v = kv.split("=", 1); d[k] = v
    for k in "conn ver rqct rsct mspec mhash hash asym dhe aead rasym ks opq rqdts rqmax rsdts rsmax temp hctx".split(): d[k] = int(d[k])
    d["rqc"] = int(d["rqc"], 16); d["rsc"] = int(d["rsc"], 16)
    d["peer"] = d["peer"].split("/")
    d["encap"] = [int(x) for x in d["encap"].split(",")]
    ss = []
    for t in d["sess"].split(";"):
        f = t.split(",")
        ss.append(dict(sid=f[0], state=int(f[1]), psk=int(f[2]), mut=int(f[3]), slot=int(f[4]), hb=int(f[5]), secver=int(f[6]), rq=int(f[7]), rs=int(f[8])))
    d["sess"] = ss
    return d
def argline(a): return " ".join("%s=%s" % (k, v) for k, v in a.items() if v is not None)
class Sut:
    """one context (responder or requester)"""
    def __init__(s, proc, reg): s.proc = proc; s.reg = reg; s.dead = None; s.post = None; s.hb = None
    def new(s, role, cfg):
        s.role = role; s.dead = None
        r = s._run("new %s %s" % (role, argline(cfg)))
        return r
    def _run(s, line):
        """non interactive command; returns dict(ops, outs[(lost, bytes)], ret, post)"""
        res = dict(ops=[], outs=[], ret=None, retarg="", post=None, seq=[])
        if s.dead: res["ret"] = "dead"; return res
        try:
            s.proc.put(line)
            while True:
                l = s.proc.line()
                if l == "end": break
                s.take(l, res)
        except Dead as e:
            res["ret"] = "crash"; res["retarg"] = str(e); s.dead = str(e); s.proc.start()
        return res
    def take(s, l, res):
        k = l.split(" ", 1)[0]
        if k == "op": res["ops"].append(l); s.reg.feed(l)
        elif k in ("out", "lost"):
            b = l.split(" ")[1]; res["outs"].append((k == "lost", bytes.fromhex(b) if b != "-" else b""))
        elif k == "ret":
            t = l.split(" ", 2); res["ret"] = t[1]; res["retarg"] = t[2] if len(t) > 2 else ""
            if t[1] == "panic": s.dead = "panic"
        elif k == "post": res["post"] = s.post = post(l)
        elif k == "fault": res["ops"].append(l); res["faulted"] = l.split(" ")[2] if len(l.split(" ")) > 2 else "?"
        else: raise RuntimeError("harness: " + l)
    def msg(s, data, **kw):
        a = dict(kw)
        if data is not None: a["data"] = data.hex() or "-"
        return s._run("msg " + argline(a))
    def setseq(s, i, a, b): return s._run("setseq %d %d %d" % (i, a, b))
    def call(s, opname, io, **kw):
        """requester operation; io(kind, payload): kind 'send' -> True/False, 'recv' -> bytes/None"""
        res = dict(ops=[], outs=[], ret=None, retarg="", post=None)
        if s.dead: res["ret"] = "dead"; return res
        try:
            s.proc.put("call %s %s" % (opname, argline(kw)))
            while True:
                l = s.proc.line()
                if l == "end": break
                k = l.split(" ")
                if k[0] == "send":
                    ok = io("send", bytes.fromhex(k[1]) if k[1] != "-" else b""); s.proc.put("ok" if ok else "fail")
                elif k[0] == "recv":
                    b = io("recv", None); s.proc.put("fail" if b is None else "data " + (b.hex() or "-"))
                else: s.take(l, res)
        except Dead as e:
            res["ret"] = "crash"; res["retarg"] = str(e); s.dead = str(e); s.proc.start()
        return res
    def x509(s, algo, data): return s.frame(None, None, 0, 0, None, "x509 %d %s" % (algo, data.hex() or "-"))
    def frame(s, tr, what, flag, outlen, data, line=None):
        r = dict(ret=None)
        s.proc.put(line or "frame %s %s %d %d %s" % (tr, what, flag, outlen, data.hex() or "-"))
        while True:
            l = s.proc.line()
            if l == "end": return r
            t = l.split(" ")
            if t[0] == "ret":
                r["ret"] = t[1]
                if t[1] == "ok": r["n"] = int(t[2]); r["out"] = t[3] if t[3] != "-" else ""; r["flag"] = int(t[4])
