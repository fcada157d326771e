"""Model checking of the specification itself, and the walks through its state graph that are replayed into the implementation."""
import concurrent.futures, os, random, re, shutil, tempfile, threading
import tlc
# the state graphs: spec/Control<name>.cfg
GRAPHS = {"m_phase": "Phases", "m_sess": "Sessions", "m_trans": "Transcripts", "m_mut": "Mutual", "m_clear": "Clear"}
# and of the requester: spec/ReqControl<name>.cfg
REQ = {"n_neg": "Negotiate", "n_auth": "Identity", "n_rec": "Records", "n_sess": "Sessions", "n_mut": "Mutual", "n_clear": "Clear", "n_start": "Start"}
RUSES = dict(C02=["n_neg"], C03=["n_neg", "n_auth"], C04=["n_neg"], C05=["n_clear", "n_rec"], C06=["n_clear", "n_start"], C07=["n_rec"], C08=["n_rec"], C09=["n_sess"], C10=["n_auth"], C11=["n_auth"], C12=["n_auth"],
             C13=["n_auth"], C14=["n_mut"], C15=["n_rec", "n_sess"], C17=["n_rec"], C18=["n_neg", "n_auth", "n_rec", "n_mut"], C20=["n_start", "n_clear"], C21=["n_clear"], C23=["n_rec", "n_start"], C24=["n_rec"])
USES = dict(C01=["m_phase"], C02=["m_phase", "m_sess"], C03=["m_sess"], C04=["m_phase"], C05=["m_clear", "m_mut"], C06=["m_clear", "m_sess"], C07=["m_sess"], C08=["m_sess"], C09=["m_sess"],
            C10=["m_trans"], C11=["m_trans"], C12=["m_phase", "m_trans"], C13=["m_phase", "m_trans"], C14=["m_mut"], C15=["m_sess", "m_phase"], C17=["m_phase"], C19=["m_phase", "m_mut"], C20=["m_sess", "m_clear"],
            C21=["m_clear"], C23=["m_trans"])
# the messages a property is about: their edges come first when there is no time for all
KINDS = dict(C02="KEX PSKX FIN PSKF HBEAT KUPD ENDS APP", C03="VERSION", C04="CAPS ALGS", C05="FIN", C06="KEX FIN PSKX PSKF", C07="REC APP KUPD", C08="KUPD REC APP", C09="ENDS KEX PSKX FIN PSKF",
             C10="CHALL CERT DIGESTS", C11="MEAS", C12="CERT", C13="DIGESTS", C14="ENCREQ ENCDEL FIN", C15="APP VEND", C20="PSKX PSKF")
RKINDS = dict(C03="init version", C04="init capability algorithm", C05="finish kex", C06="kex start finish pskfinish psk", C07="heartbeat keyupdate vendor appsend apprecv", C08="keyupdate appsend apprecv", C09="end kex psk finish pskfinish",
              C10="challenge", C11="measurement", C12="certificate", C13="digest", C14="mutauth start finish", C15="appsend apprecv vendor", C20="psk pskfinish start", C24="kex psk start")
# how an exchange goes wrong, for properties about that
RHOW = dict(C02={"ver", "none"}, C23={"lost", "mute"}, C17={"trunc", "hollow", "long", "over"})
WALKS = {}; GRAPH = {}                       # family -> list of walks; filled before the workers are forked
class Graph:
    def __init__(s, name, out):
        s.name = name; s.out = {}; s.init = None; s.edges = 0
        for l in tlc.unwrap(out):
            m = re.match(r'<<\s*"E", "(.*)", (\d+), "(\w+)", "(\w+)", "(\w+)", (TRUE|FALSE|"\w+"), "(.*)"\s*>>$', l)
            if not m: continue
            pre, post = m[1], m[7]; s.edges += 1
            # an error and silence are both a refusal: which one the implementation chooses is its own business
            if name in REQ: e = (int(m[2]), m[3], m[4], "ok" if m[6] == '"ok"' else "no", m[5], post)
            else: e = (int(m[2]), m[3], m[4], "ok" if m[5] == "ok" else "no", m[6] == "TRUE", post)
            s.out.setdefault(pre, set()).add(e); s.out.setdefault(post, set())
            if pre.startswith("<<0,") and s.init is None: s.init = pre
        s.out = {k: sorted(v) for k, v in s.out.items()}
        m = re.search(r"(\d+) states generated, (\d+) distinct", out)
        s.states = int(m[2]) if m else 0; s.n = sum(len(v) for v in s.out.values())
    def walks(s, rng, budget, want=None, length=70):
        """walks from the initial state that together take every edge (those of the wanted kinds first) within a number of steps"""
        if want is not None and not callable(want): kinds = want; want = lambda e: e[1] in kinds
        left = {p: [e for e in v if not want or want(e)] for p, v in s.out.items()}
        for v in left.values(): rng.shuffle(v)
        todo = sum(map(len, left.values())); res = []; steps = 0; second = want is not None; done = set()
        while steps < budget:
            if not todo:
                if not second: break
                second = False; left = {p: [e for e in v if not want(e)] for p, v in s.out.items()}
                for v in left.values(): rng.shuffle(v)
                todo = sum(map(len, left.values())); continue
            at = s.init; w = []
            while len(w) < length and todo:
                if left[at]:
                    # refusals and other steps that lead nowhere first: they cost one step each
                    l = left[at]; i = next((j for j, e in enumerate(l) if e[5] == at), len(l) - 1)
                    e = l.pop(i); todo -= 1
                else:
                    path = s.path(at, lambda v: left[v] and v != at, rng)
                    if path is None: break
                    w += path; at = path[-1][1][5]
                    continue
                w.append((at, e)); at = e[5]
            if not w: break
            res.append(w); steps += len(w)
        return res
    def path(s, at, goal, rng, bad=()):
        """the shortest way to a goal"""
        seen = {at: None}; q = [at]
        for v in q:
            if goal(v):
                p = []
                while seen[v] is not None: e, v0 = seen[v]; p.append((v0, e)); v = v0
                return p[::-1]
            es = list(s.out[v]); rng.shuffle(es)
            for e in es:
                if e[5] not in seen and (v, e) not in bad: seen[e[5]] = (e, v); q.append(e[5])
        return None
def explore(fam, workers, deep=False):
    mod, name = ("ReqControl", REQ[fam]) if fam in REQ else ("Control", GRAPHS[fam])
    d = tempfile.mkdtemp(prefix="model")
    try:
        cfg = open(os.path.join(tlc.SPEC, mod + name + ".cfg")).read()
        if deep: cfg = cfg.replace("Deep = FALSE", "Deep = TRUE")
        f = os.path.join(d, mod + name + ".cfg"); open(f, "w").write(cfg)
        rc, out = tlc.run(mod, cfg=f, workers=workers, heap="6g", timeout=800)
    finally: shutil.rmtree(d)
    if rc: raise tlc.TlcError("the model %s does not hold:\n%s" % (mod + name, out[out.find("Error:"):][:3000]))
    return Graph(fam, out)
class Check(threading.Thread):
    """model checking in the background (while the harness is built)"""
    def __init__(s, prop, tier, seed, scale=1):
        super().__init__(daemon=True); s.prop = prop; s.tier = tier; s.seed = seed; s.scale = scale; s.err = None; s.r = dict(states=0, transitions=0, what="", fams={}); s.start()
    def run(s):
        try:
            fams = list(GRAPHS) if s.prop == "ALL" else list(REQ) if s.prop == "REQ" else USES.get(s.prop, []) + RUSES.get(s.prop, []); budget = 20000 if s.prop in ("ALL", "REQ") else 5000 if s.tier == "quick" else 60000; what = []
            with concurrent.futures.ThreadPoolExecutor(4) as ex: got = dict(zip(fams, ex.map(lambda f: explore(f, 1, s.tier == "thorough"), fams)))      # one worker each: the same graph every time
            for f in fams:
                g = got[f]; GRAPH[f] = g; WALKS[f] = g.walks(random.Random("%s/%s/%s" % (s.seed, s.prop, f)), budget / len(fams) * s.scale, s.want(f))
                s.r["states"] += g.states; s.r["transitions"] += g.edges; s.r["fams"][f] = len(WALKS[f])
                cov = len({x for w in WALKS[f] for x in w})
                what.append("%s: %d states, %d transitions; %d walks over %d of %d edges" % ("ReqControl" + REQ[f] if f in REQ else "Control" + GRAPHS[f], g.states, g.edges, len(WALKS[f]), cov, g.n))
            s.r["what"] = "; ".join(what)
        except Exception as x: s.err = x
    def want(s, f):
        """the edges a property is about"""
        if f in REQ:
            how = RHOW.get(s.prop)
            if how: return lambda e: e[4].lstrip("0123456789") in how
            return set(RKINDS[s.prop].split()) if s.prop in RKINDS else None
        return set(KINDS[s.prop].split()) if s.prop in KINDS else None
    def result(s):
        s.join()
        if s.err: raise s.err
        return s.r
