"""Running TLC."""
import json, os, re, subprocess, tempfile, shutil
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")
class TlcError(Exception):
    full = ""
def run(module, cfg=None, env=None, workers=4, heap="3g", timeout=800, extra=(), meta=None):
    """returns TLC's output; raises TlcError when it could not finish"""
    d = meta or tempfile.mkdtemp(prefix="tlc")
    try:
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-XX:CICompilerCount=2", "-cp", CP, "-DTLA-Library=" + SPEC, "tlc2.TLC", "-workers", str(workers), "-nowarning", "-noGenerateSpecTE",
               "-metadir", d, "-config", cfg or module + ".cfg"] + list(extra) + [module]
        e = dict(os.environ); e.update(env or {})
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        return p.returncode, p.stdout.decode("utf8", "replace")
    except subprocess.TimeoutExpired as x:
        raise TlcError("TLC ran out of time: " + module)
    finally:
        if not meta: shutil.rmtree(d, ignore_errors=True)
def unwrap(out):
    """TLC breaks long printed values over lines; join them"""
    r = []; cur = ""
    for l in out.splitlines():
        if l.startswith("<<") or cur:
            cur += (" " if cur else "") + l.strip()
            if cur.count("<<") <= cur.count(">>"): r.append(cur); cur = ""
        else: r.append(l)
    if cur: r.append(cur)
    return r
def validate(module, scenarios, workers=4, heap="3g", timeout=800, keep=None):
    """checks recorded scenarios; returns ({sc: [(event index, {labels})]}, {states})"""
    d = tempfile.mkdtemp(prefix="trace")
    try:
        f = keep or os.path.join(d, "t.ndjson")
        with open(f, "w") as h:
            for s in scenarios: h.write(json.dumps(s) + "\n")
        rc, out = run(module, env={"TRACE": f}, workers=workers, heap=heap, timeout=timeout)
        v = {}; done = {}
        for l in unwrap(out):
            if l.startswith("<<"):
                m = re.match(r'<<\s*"DONE", (\d+), (\d+)\s*>>', l)
                if m: done[int(m[1])] = int(m[2]); continue
                m = re.match(r'<<\s*"VIOL", (\d+), (\d+), \{(.*)\}\s*>>', l)
                if m:
                    ev = (int(m[2]), tuple(sorted(re.findall(r'"([^"]*)"', m[3]))))
                    if ev not in v.setdefault(int(m[1]), []): v[int(m[1])].append(ev)
        exp = {s["sc"]: len(s["ev"]) for s in scenarios if s["ev"]}
        if rc != 0 or done != exp:
            x = TlcError("rc %d, %d of %d scenarios finished\n%s" % (rc, len(done), len(exp), out[-4000:])); x.full = out
            raise x
        m = re.search(r"(\d+) states generated, (\d+) distinct", out)
        return v, int(m[2]) if m else 0
    finally: shutil.rmtree(d, ignore_errors=True)
