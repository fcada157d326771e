#!/usr/bin/env python3
"""Mutation study of the checks (development only; no check uses this).
  mutate.py OUT.jsonl WORKERS COUNT SEED [path-regex]
Makes one-line changes in scratch copies of /repo, rebuilds the harness, records the scenario families and has TLC judge every scenario
whose recording differs from the clean tree's.  Writes one line per mutant: killed (labels), equal (no recording differs), quiet (differs, accepted), nobuild."""
import collections, hashlib, json, multiprocessing as mp, os, random, re, shutil, subprocess, sys, time
V = "/verif"; sys.path[:0] = [V, V + "/mbt"]
SCRATCH = "/tmp/mut"
FAMN = int(os.environ.get("MUTN", "10"))
def sources(rx):
    r = []
    for top in ("spdmlib/src", "codec/src", "mctp_transport/src", "pcidoe_transport/src"):
        for d, _, fs in os.walk("/repo/" + top):
            for f in fs:
                p = os.path.join(d, f)[6:]
                if f.endswith(".rs") and "test" not in f and "spdm_ring" not in p and "/td_" not in p and re.search(rx, p): r.append(p)
    return sorted(r)
def sites(p):
    """(line number, replacement, kind)"""
    L = open("/repo/" + p).read().split("\n"); out = []; 
    end = next((i for i, l in enumerate(L) if re.match(r"#\[cfg\((all\()?test", l)), len(L))
    for i, l in enumerate(L[:end]):
        c = l.split("//")[0]; s = c.strip()
        if not s or re.match(r"(use|pub use|mod|pub mod|#|extern|debug!|info!|error!|trace!|warn!|pub const|const|impl|fn|pub fn|pub\(crate\) fn|pub struct|struct|type|pub type|pub trait|static|log::)", s): 
            if not re.match(r"(pub )?const", s): continue
        def add(n, k): out.append((i, n, k))
        if re.match(r"[a-z_.\[\]*&() A-Z0-9:!?,|{}\"<>=+-]*;$", s) and not re.match(r"(let|return|\}|\)|break|continue)", s) and s.count("(") == s.count(")"): add("", "drop")
        if re.match(r"return Err", s): add("", "drop")
        m = re.match(r"(\s*(?:\} else )?if )(?!let)(.*)( \{)$", c)
        if m: add(m[1] + "!(" + m[2] + ")" + m[3], "neg"); add(m[1] + "false && (" + m[2] + ")" + m[3], "never"); add(m[1] + "true || (" + m[2] + ")" + m[3], "always")
        for a, b in ((" == ", " != "), (" < ", " <= "), (" > ", " >= "), (" <= ", " < "), (" >= ", " > "), (" && ", " || "), (" || ", " && "), (" + ", " - "), (" - ", " + "), (" & ", " | "), (" << ", " >> "), ("is_some()", "is_none()"), ("is_none()", "is_some()"), ("is_err()", "is_ok()"), ("true", "false"), ("false", "true")):
            for x in re.finditer(re.escape(a), c): add(c[:x.start()] + b + c[x.end():], "op" + a.strip())
        for x in re.finditer(r"(?<![\w.#])(\d+)(?![\w.])", c): add(c[:x.start()] + str(int(x[1]) + 1) + c[x.end():], "num")
        if re.match(r"\s*\|?\|? ?(&& |\|\| )", c): add("", "dropcond")
    return out
def mkworker(w):
    d = "%s/w%d" % (SCRATCH, w)
    if not os.path.isdir(d):
        os.makedirs(d); subprocess.run(["git", "clone", "-q", "/repo", d + "/repo"], check=True)
        shutil.copytree(V + "/harness", d + "/harness", ignore=shutil.ignore_patterns("target"))
    else: subprocess.run("git fetch -q origin && git reset -q --hard origin/HEAD", shell=True, cwd=d + "/repo", check=True); shutil.copytree(V + "/harness", d + "/harness", dirs_exist_ok=True)
    t = open(d + "/harness/Cargo.toml").read().replace('"/repo/', '"%s/repo/' % d); open(d + "/harness/Cargo.toml", "w").write(t)
    return d
def build(d):
    return subprocess.run(["bash", d + "/harness/build.sh", d + "/target"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
def jobs():
    import plan
    n = lambda f: min(FAMN, plan.fam_frm.SIZE.get(f, FAMN)) if f not in ("limit",) else 4
    r = []; sc = 0
    import model
    for f in sorted(plan.SIDE):
        for k in range(min(len(model.WALKS.get(f, [])), 2 * FAMN) if f in model.GRAPHS else n(f)): sc += 1; r.append((f, k, 7, sc))
    return r
def hsh(s): return hashlib.sha1(re.sub(r"panicked at [^\"]*", "", json.dumps(s.get("ev"), sort_keys=True)).encode()).hexdigest() + ("!" if "error" in s else "")
def record(d, js):
    import check
    import sut; sut.BIN = d + "/target/debug/vharness"
    check._proc = None; check._bad = 0
    out = []
    for j in js:
        s = check.job(j)
        if s: out.append(s)
    if check._proc:
        try: check._proc.kill()
        except Exception: pass
        check._proc = None
    return out
def evaluate(a):
    d, mut, base = a
    p, i, new, kind = mut; f = "%s/repo/%s" % (d, p); src = open(f).read(); L = src.split("\n"); old = L[i]; L[i] = new
    r = dict(path=p, line=i + 1, kind=kind, old=old.strip(), new=new.strip(), t=time.time())
    open(f, "w").write("\n".join(L))
    try:
        b = build(d)
        if b.returncode: r["res"] = "nobuild"; return r
        import check, plan; KN = check.known()
        js = jobs(); random.Random(3).shuffle(js); diff = []; n = 0
        for c in range(0, len(js), 120):
            for s in record(d, js[c:c + 120]):
                s["side"] = plan.SIDE[s["fam"]]
                if hsh(s) != base["%s/%d" % (s["fam"], s["k"])]: diff.append(s)
            if len(diff) >= 24: break
        r["ndiff"] = len(diff)
        if not diff: r["res"] = "equal"; return r
        bad = [s for s in diff if "error" in s]
        diff = [s for s in diff if "error" not in s][:40]
        if bad: r["drv"] = bad[0]["error"][-200:]
        check.CORES = 2
        for q, s in enumerate(diff): s["sc"] = q + 1
        v, _ = check.judge(diff) if diff else ({}, 0)
        if not v: r["res"] = "quiet" if not bad else "driver"; r["sc"] = sorted({"%s/%d" % (s["fam"], s["k"]) for s in diff})[:6]; return r
        C = collections.Counter()
        for sc, l in v.items():
            s = diff[sc - 1]
            at = check.attribute(s, *l[0])
            for pr in at:
                if not check.listed(KN, pr, at[pr], s["ev"][l[0][0] - 1]): C[pr] += 1; r.setdefault("first", list(l[0][1]))
        r["res"] = "killed" if C else "quiet"; r["props"] = dict(C); r["sc"] = sorted({"%s/%d" % (s["fam"], s["k"]) for s in diff})[:6]
        return r
    except Exception as x: r["res"] = "error"; r["err"] = repr(x)[:300]; return r
    finally: open(f, "w").write(src)
def worker(w, q, o, base):
    d = mkworker(w); build(d)
    while True:
        m = q.get()
        if m is None: return
        o.put(evaluate((d, m, base)))
def main():
    out, nw, count, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4]); rx = sys.argv[5] if len(sys.argv) > 5 else "."
    rng = random.Random(seed); done = set()
    if os.path.exists(out):
        for l in open(out): x = json.loads(l); done.add((x["path"], x["line"], x["new"]))
    A = [(p, i, n, k) for p in sources(rx) for i, n, k in sites(p)]
    A = [m for m in A if (m[0], m[1] + 1, m[2].strip()) not in done]
    if os.environ.get("RECHECK"):
        # the survivors of an earlier study, by the text of their line
        A = []
        for l in open(os.environ["RECHECK"]):
            x = json.loads(l)
            if x["res"] in ("equal", "quiet", "driver", "error") and re.search(rx, x["path"]):
                L = open("/repo/" + x["path"]).read().split("\n"); c = [i for i, t in enumerate(L) if t.strip() == x["old"]]
                if c: i = min(c, key=lambda i: abs(i + 1 - x["line"])); A.append((x["path"], i, x["new"], x["kind"]))
    # spread over files and lines: one mutant per line first
    rng.shuffle(A); seen = collections.Counter(); A.sort(key=lambda m: 0)
    key = []
    for m in A: seen[(m[0], m[1])] += 1; key.append(seen[(m[0], m[1])])
    A = [m for _, m in sorted(zip(key, A), key=lambda z: z[0])][:count]
    print(len(A), "mutants of", len(key)); sys.stdout.flush()
    import model
    m = model.Check("ALL", "quick", 7); m.join(); assert not m.err, m.err
    d = mkworker(99); b = build(d); assert b.returncode == 0, b.stdout[-2000:]
    with mp.Pool(4) as P: js = jobs(); rec = [s for c in P.starmap(record, [(d, js[k::4]) for k in range(4)]) for s in c]
    base = {"%s/%d" % (s["fam"], s["k"]): hsh(s) for s in rec}; print(len(base), "scenarios"); sys.stdout.flush()
    q, o = mp.Queue(), mp.Queue()
    for m in A: q.put(m)
    ws = []
    for w in range(nw): q.put(None)
    for w in range(nw): x = mp.Process(target=worker, args=(w, q, o, base)); x.start(); ws.append(x)
    C = collections.Counter()
    for n in range(len(A)):
        r = o.get(); C[r["res"]] += 1
        with open(out, "a") as h: h.write(json.dumps(r) + "\n")
        if n % 20 == 19: print(n + 1, dict(C)); sys.stdout.flush()
if __name__ == "__main__": main()
