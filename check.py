#!/usr/bin/env python3
"""Decides one property on /repo's working tree.

  check.py --property C07 --tier quick|thorough      exit 0: held; exit 1: VIOLATION line; exit 2: the check itself failed
  check.py --replay FILE                              runs one recorded violation again

Scenario families drive the real responder / requester (built from /repo's working tree); every exchange is recorded and
TLC decides whether the recorded behaviour is a behaviour of the TLA+ specification in spec/."""
import argparse, json, multiprocessing as mp, os, re, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, os.path.join(HERE, "mbt"))
BUILD = os.environ.get("VERIF_BUILD", os.path.join(HERE, "build"))
os.environ["VHARNESS"] = os.path.join(BUILD, "debug", "vharness")
CORES = min(8, os.cpu_count() or 1)
LEVEL = "model_checking"

def build():
    r = subprocess.run(["bash", os.path.join(HERE, "harness", "build.sh"), BUILD], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode: print(r.stdout.decode("utf8", "replace")[-3000:]); print("the harness does not build"); sys.exit(2)
# ------------------------------------------------------------------ recording runs of the real code
_proc = None; _bad = 0
def job(a):
    global _proc, _bad
    import sut, plan
    fam, k, seed, sc = a
    if _bad >= 4: return None                    # this worker has seen enough crashes
    if _proc is None: _proc = sut.Proc()
    try: s = plan.run(_proc, fam, k, seed, sc)
    except Exception:
        import traceback
        try: _proc.kill()
        except Exception: pass
        _proc = None
        return dict(sc=sc, fam=fam, k=k, error=traceback.format_exc())
    if any(e.get("ret") == "crash" for e in s["ev"]): _bad += 1
    return s
# ------------------------------------------------------------------ judging them
def judge(scs):
    """{sc: [(event, labels)]}, states, events; by trace module"""
    import plan, tlc
    V = {}; states = 0
    for side in sorted({plan.SIDE[s["fam"]] for s in scs}):
        part = [s for s in scs if plan.SIDE[s["fam"]] == side and s["ev"]]
        for left in range(11, -1, -1):
            try:
                v, n = tlc.validate(plan.MODULE[side], part, workers=CORES, heap="6g", timeout=850); break
            except tlc.TlcError as x:
                # the specification cannot make sense of what was observed: that scenario is reported, the others judged
                m = re.findall(r"^/\\ sc = (\d+)", str(x.full), re.M); i = re.findall(r"^/\\ i = (\d+)", str(x.full), re.M)
                if not m: raise
                s = part.pop(int(m[-1]) - 1); V[s["sc"]] = [(int(i[-1]) + 1, ("unreadable",))]; v, n = {}, 0
                if not left: print("TLC cannot make sense of many scenarios; the rest is not judged")
        V.update(v); states += n
    return V, states
OPPROP = {0x84: "C03", 0xE1: "C04", 0xE3: "C04", 0x81: "C13", 0x82: "C12", 0x83: "C10", 0xE0: "C11", 0xE4: "C06", 0xE5: "C05", 0xE6: "C20", 0xE7: "C20",
          0xE8: "C07", 0xE9: "C08", 0xEA: "C14", 0xEB: "C14", 0xEC: "C09", 0xFE: "C15"}
OPNAME = dict(init="C04", version="C03", capability="C04", algorithm="C04", digest="C13", certificate="C12", challenge="C10", measurement="C11", kex="C06", finish="C05", psk="C20",
          pskfinish="C20", start="C06", heartbeat="C07", keyupdate="C08", end="C09", vendor="C15", appsend="C15", apprecv="C15", mutauth="C14")
STATEFUL = re.compile(r"\.(signature|verify|key|keys|state|phase|served|refused|silent|number|chain|established|negotiated|missing|extra)$")
def attribute(s, idx, labels):
    """the properties the first violation of a scenario speaks about: {property: label}"""
    ev = s["ev"]; e = ev[idx - 1]; out = {}
    for l in labels:
        if l == "unreadable":
            out["C19" if s.get("side") != "req" else "C18"] = l
            if s.get("side") == "pair": out["C27"] = l
            op = (e.get("q") or {}).get("d", {}).get("op") if e.get("e") != "req" else (e["ex"] or [{"s": {"d": {"op": 0}}}])[-1]["s"]["d"]["op"]
            if op in OPPROP: out[OPPROP[op]] = l
        else: out.setdefault(l.split(".")[0], l)
    first = sorted(labels)[0]
    def add(p): out.setdefault(p, first)
    if e.get("fault"): add("C22")
    # whatever goes wrong at a message is also a violation of the property that says what happens at such a message
    if e.get("e") == "req": add(OPNAME.get(e["op"], "C18"))
    elif e.get("e") == "rsp":
        op = (e.get("q") or {}).get("d", {}).get("op")
        if op in OPPROP: add(OPPROP[op])
        if e["q"].get("app"): add("C15")
    state = any(STATEFUL.search(l) for l in labels)
    sess = (e.get("post") or {}).get("sess", [])
    if e.get("e") == "req":
        if e.get("broke"): add("C23")
        start = 0
        for j in range(idx - 1):
            if ev[j].get("e") == "req" and any(x["r"]["d"]["op"] == 4 and x["got"] for x in ev[j]["ex"]): start = j + 1
        before = [x for x in ev[start:idx - 1] if x.get("e") == "req"]
        if state and start > 1: add("C03")
        if state and any(x["fault"] for x in before): add("C22")
        if state and any(x["broke"] for x in before): add("C23")
        if state and any(x["ret"] != "ok" for x in before): add("C18")
        if state and e["a"]["sid"] and len(sess) > 1: add("C09")
        return out
    if e.get("sf"): add("C23")
    start = 0
    for j in range(idx - 1):
        x = ev[j]
        if x.get("o") and x["o"][0].get("d", {}).get("op") == 4 and not x["o"][0].get("lost"): start = j + 1
    before = [x for x in ev[start:idx - 1] if x.get("e") == "rsp"]
    if state and start > 1 and ev[start - 1] is not e: add("C03")          # wrong only after a new version exchange
    if state and any(x["fault"] for x in before): add("C22")
    if state and any(x["sf"] for x in before): add("C23")
    if state and any(x["o"] and x["o"][0].get("d", {}).get("op") == 0x7F for x in before): add("C19")
    if (e.get("q") or {}).get("k") == "sec" and state and len(sess) > 1: add("C09")
    return out
def known():
    r = []
    p = os.path.join(HERE, "known_findings")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("known:"):
                d = dict(re.findall(r'(\w+)=("[^"]*"|\S+)', l)); r.append({k: v.strip('"') for k, v in d.items()})
    return r
def listed(kn, prop, label, e):
    for d in kn:
        if label in d.get("label", "").split("|"):
            if all(str(e.get(k, "")) == v or v in str(e.get(k, "")) for k, v in d.items() if k in ("fault", "msg", "note", "find")): return d
    return None
def sample(s):
    def short(x):
        if isinstance(x, dict): return {k: short(v) for k, v in x.items()}
        if isinstance(x, list): return [short(v) for v in x]
        return x[:60] + "..." if isinstance(x, str) and len(x) > 64 else x
    return dict(family=s["fam"], k=s["k"], events=[short({k: v for k, v in e.items() if k != "post"}) for e in s["ev"][:6]], length=len(s["ev"]))
def main():
    a = argparse.ArgumentParser(); a.add_argument("--property"); a.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a.add_argument("--replay"); a.add_argument("--scale", type=float, default=1); a = a.parse_args()
    t0 = time.time(); seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True); os.makedirs(os.path.join(HERE, "replay"), exist_ok=True)
    import model
    # the model is checked in the background
    mc = None if a.replay else model.Check(a.property, a.tier, seed, a.scale)
    build()
    import plan, tlc, sut
    if a.replay:
        d = json.load(open(a.replay)); s = plan.run(sut.Proc(), d["fam"], d["k"], d["seed"], 1, **({"walk": d["walk"]} if "walk" in d else {}))
        v, _ = judge([s]); print(json.dumps(sample(s), indent=1)); print("violations:", v.get(1, []))
        for i, l in v.get(1, [])[:1]: print(json.dumps(s["ev"][i - 1], indent=1)[:6000])
        sys.exit(1 if v else 0)
    prop = a.property; fams = {f: max(1, int(n * a.scale)) for f, n in plan.families(prop, a.tier).items()}
    kn = known(); rep = []; finds = {}; covered = 0; states = events = total = 0; samples = []
    # thorough runs go in batches, so that memory stays bounded
    base = {f: 0 for f in fams}; walks = None
    allbad = []; lostdrv = []
    batch = {f: min(n, max(1, 1500 * n // sum(fams.values()))) for f, n in fams.items()} if sum(fams.values()) > 2000 else fams
    limit = 600 if a.tier == "thorough" else 1e9
    off = 0
    while True:
        jobs = {f: range(base[f], min(fams[f], base[f] + batch[f])) for f in fams}
        if not any(len(r) for r in jobs.values()):
            # at last, the walks through the model's state graph
            if walks is not None: break
            walks = mc.result()["fams"]
            if not walks: break
            fams.update(walks); base.update({f: 0 for f in walks}); batch = dict(batch, **{f: 1 << 30 for f in walks})
            jobs = {f: range(0, n) for f, n in walks.items()}
        scs, bad = record_ranges(jobs, seed); allbad += bad
        for s in scs: s["side"] = plan.SIDE[s["fam"]]
        V, n = judge(scs); states += n; total += len(scs); events += sum(len(s["ev"]) for s in scs)
        by = {s["sc"]: s for s in scs}
        for sc in sorted(V):
            s = by[sc]; idx, labels = V[sc][0]
            for idx, labels in V[sc]:
                at = attribute(s, idx, labels)
                if prop not in at: break
                k = listed(kn, prop, at[prop], s["ev"][idx - 1])
                if not k: rep.append((s, idx, labels, at[prop])); break
                if k["property"] == prop: finds.setdefault(k.get("id", k["label"]), (k, s, idx))
        lostdrv += [s["drv"] for s in scs if s.get("drv")]
        if not samples: samples = [sample(s) for s in scs[:: max(1, len(scs) // 2)][:2]]
        for f in base: base[f] += batch[f]
        covered += sum(s.get("went", 0) for s in scs)
        if rep: break
        if time.time() - t0 > limit and walks is None: base = dict(fams)
    if lostdrv: print("%d scenarios ended early; first:\n%s" % (len(lostdrv), lostdrv[0]))
    if allbad:
        print(allbad[0]["error"]); print("%d scenarios could not be driven" % len(allbad))
    for i, (k, s, idx) in sorted(finds.items()): print("KNOWN-FINDING: property=%s %s (scenario %s/%d event %d)" % (prop, k.get("what", i), s["fam"], s["k"], idx))
    rc = 0; seen = set()
    for s, idx, labels, l in rep:
        if l in seen: continue
        seen.add(l); rc = 1
        p = os.path.join(HERE, "replay", "%s_%s_%d.json" % (prop, s["fam"], s["k"]))
        json.dump(dict({"walk": s["walk"]} if "walk" in s else {}, property=prop, fam=s["fam"], k=s["k"], seed=seed, event=idx, labels=list(labels), ev=s["ev"][:idx]), open(p, "w"))
        print("VIOLATION property=%s replay=%s" % (prop, p)); print("  %s in scenario %s/%d event %d" % (", ".join(labels), s["fam"], s["k"], idx))
    m = mc.r if walks is not None else dict(states=0, transitions=0, what="")
    cov = dict(states=states + m["states"], transitions=events + m["transitions"], traces_validated_against_impl=total, samples=samples, families=fams, model=m["what"], model_edges_replayed=covered)
    ev = dict(property=prop, tier=a.tier, seed=seed, level=LEVEL, coverage=cov, wall_s=round(time.time() - t0, 1), violations=len(rep),
              assumptions=["cryptographic primitives are injective symbolic terms (recorded stand-ins registered with the library's own interface)", "single connection per context, one message at a time"])
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    if allbad and rc == 0: rc = 2
    if rc == 0: print("OK property=%s scenarios=%d events=%d states=%d wall=%.0fs" % (prop, total, events, states, time.time() - t0))
    sys.exit(rc)
def record_ranges(ranges, seed):
    jobs = []; sc = 0
    for f in sorted(ranges):
        for k in ranges[f]: sc += 1; jobs.append((f, k, seed, sc))
    with mp.Pool(CORES) as p: r = p.map(job, jobs, chunksize=max(1, len(jobs) // (CORES * 12)))
    r = [s for s in r if s]
    return [s for s in r if "error" not in s], [s for s in r if "error" in s]
if __name__ == "__main__":
    try: main()
    except SystemExit: raise
    except BaseException as x:
        import traceback; traceback.print_exc(); sys.exit(2)
