"""Shared machinery: run the driver, project its logs onto the specification's
alphabet, run TLC, confirm and report violations, write evidence."""
import json, os, random, re, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B

VERIF = B.VERIF
SPEC = os.path.join(VERIF, "spec")
JAR = "/opt/veriftools/tla/tla2tools.jar"
NCPU = os.cpu_count() or 4
SEED = int(os.environ.get("VERIF_SEED", "1"))
DRVFLAGS = (["-D_GNU_SOURCE"], ["-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free"])


def drv(variant="plain"):
    return B.Build(variant).harness("drv", *DRVFLAGS)


class Work:
    """A scratch directory under /verif/work, removed on success."""
    def __init__(self, tag):
        os.makedirs(os.path.join(VERIF, "work"), exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix=tag + "-", dir=os.path.join(VERIF, "work"))

    def path(self, name):
        return os.path.join(self.dir, name)

    def done(self):
        shutil.rmtree(self.dir, ignore_errors=True)


# ---------------------------------------------------------------- driver
def _run_chunk(exe, text, tmo, env):
    p = subprocess.run([exe, str(tmo)], input=text.encode(), stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, env=env)
    return p.stdout, p.stderr


RAN = []        # (scripts, answers) of the runs of the plain driver, for the sanitised pass


def run_driver(exe, cases, tmo=20, jobs=None, env_extra=None, want_stderr=False):
    out = _run_driver(exe, cases, tmo, jobs, env_extra, want_stderr)
    if os.path.dirname(exe).endswith("-plain") and os.path.basename(exe).startswith("drv"):
        RAN.append((cases, out[0] if want_stderr else out))
    return out


def _run_driver(exe, cases, tmo=20, jobs=None, env_extra=None, want_stderr=False):
    """cases: {id: [command lines]} -> {id: [values]}; last value is "END" or {"crash":..}."""
    jobs = jobs or NCPU
    env = dict(os.environ)
    env.update(B.RUNTIME_ENV)
    env.update(env_extra or {})
    ids = list(cases)
    chunks = [ids[i::jobs * 4] for i in range(jobs * 4)]
    chunks = [c for c in chunks if c]

    def one(c):
        text = "".join("case %d\n%s\nend\n" % (i, "\n".join(cases[i])) for i in c)
        return _run_chunk(exe, text, tmo, env)
    out = {i: [] for i in ids}
    errs = []
    with ThreadPoolExecutor(max_workers=jobs) as ex:
        for o, e in ex.map(one, chunks):
            for ln in o.decode("latin-1").split("\n"):
                if not ln:
                    continue
                n, _, v = ln.partition(" ")
                try:
                    i = int(n)
                except ValueError:
                    continue
                try:
                    val = json.loads(v)
                except ValueError:
                    val = {"garbled": v[:200]}
                if i in out:
                    out[i].append(val)
            if e:
                errs.append(e.decode("latin-1"))
    # a case that ran out of time is run again, alone and with time to spare
    late = [i for i in ids if crashed(out[i]) == signal.SIGALRM]
    for i in late[:6]:
        text = "case %d\n%s\nend\n" % (i, "\n".join(cases[i]))
        o, e = _run_chunk(exe, text, tmo * 3, env)
        out[i] = [json.loads(ln.partition(" ")[2]) for ln in o.decode("latin-1").split("\n")
                  if ln.startswith("%d " % i)]
    if want_stderr:
        return out, "".join(errs)
    return out


def crashed(vals):
    if not vals:
        return 999
    v = vals[-1]
    if v == "END":
        return 0
    if isinstance(v, dict) and "crash" in v:
        return v["crash"]
    return 998


SILENT = {"words", "moreword", "opts", "poison", "churn", "count", "failat", "alloclimit", "null", "track"}


ENV_CMDS = {"failat", "alloclimit", "track", "live", "poison", "churn", "count"}


class Script:
    """A driver script that knows where each command's result will be in the log."""
    def __init__(self):
        self.lines, self.n = [], 0

    def __call__(self, line):
        self.lines.append(line)
        if line.split(" ", 1)[0] in SILENT:
            return None
        self.n += 1
        return self.n - 1

    def aut(self, a, r):
        for l in a.cmds(r):
            self(l)


# ---------------------------------------------------------------- projection
def cuts_of(dumps, sets=()):
    cuts = {0, 256}
    for d in dumps:
        for f, t, lo, hi in d["t"]:
            cuts.add(lo)
            cuts.add(hi + 1)
    for s in sets:
        for b in s:
            cuts.add(b)
            cuts.add(b + 1)
    return sorted(cuts)


def classes(dumps, sets=()):
    """Partition of the 256 bytes such that no automaton (and no given set)
    tells two bytes of a class apart.  Returns list of sorted byte lists."""
    cuts = cuts_of(dumps, sets)
    starts = cuts[:-1]
    sig = {}
    pos = {c: i for i, c in enumerate(cuts)}
    cov = [[] for _ in starts]
    for k, d in enumerate(dumps):
        for f, t, lo, hi in d["t"]:
            for x in range(pos[lo], pos[hi + 1]):
                cov[x].append((k, f, t))
    for x, b in enumerate(starts):
        key = (tuple(sorted(cov[x])), tuple(b in s for s in sets))
        sig.setdefault(key, []).extend(range(b, cuts[x + 1]))
    return sorted(sig.values())


def project(d, cls):
    """A driver dump as the specification's record over the given classes."""
    n = d["n"]
    k = len(cls)
    rep = [c[0] for c in cls]
    idx = {}
    for c, b in enumerate(rep):
        idx[b] = c
    t = [[[] for _ in range(k)] for _ in range(n)]
    reps = sorted(rep)
    import bisect
    for f, to, lo, hi in d["t"]:
        i = bisect.bisect_left(reps, lo)
        while i < len(reps) and reps[i] <= hi:
            t[f][idx[reps[i]]].append(to + 1)
            i += 1
    e = [[] for _ in range(n)]
    for f, to in d["e"]:
        e[f].append(to + 1)
    ids = [[] for _ in range(n)]
    for row in d["ids"]:
        ids[row[0]] = row[1:]
    g = [[] for _ in range(n)]
    for row in d["eag"]:
        g[row[0]] = row[1:]
    return {"n": n, "s": d["s"] + 1, "f": [x + 1 for x in d["f"]], "e": e, "t": t, "i": ids, "g": g}


def witness(A, B):
    """A renumbering of projected automaton A's states onto B's (1-based list), found by
    colour refinement; only a hint -- the specification checks it."""
    if A["n"] != B["n"]:
        return None
    n = A["n"]

    def base(X):
        return [(q + 1 == X["s"], q + 1 in X["f"], tuple(sorted(set(X["i"][q]))), tuple(sorted(set(X["g"][q])))) for q in range(n)]

    def nbrs(X):
        out = [[] for _ in range(n)]
        for q in range(n):
            for p in X["e"][q]:
                out[q].append((0, p - 1))
                out[p - 1].append((1, q))
            for c, ps in enumerate(X["t"][q]):
                for p in ps:
                    out[q].append((2 * c + 2, p - 1))
                    out[p - 1].append((2 * c + 3, q))
        return out
    na, nb = nbrs(A), nbrs(B)

    def refine(ca, cb):
        k = 0
        while True:
            sa = [(ca[q], tuple(sorted((l, ca[p]) for l, p in na[q]))) for q in range(n)]
            sb = [(cb[q], tuple(sorted((l, cb[p]) for l, p in nb[q]))) for q in range(n)]
            names = {x: j for j, x in enumerate(sorted(set(sa) | set(sb)))}
            ca, cb = [names[x] for x in sa], [names[x] for x in sb]
            if sorted(ca) != sorted(cb):
                return None
            if len(set(ca)) == k:
                return ca, cb
            k = len(set(ca))
    names = {x: j for j, x in enumerate(sorted(set(base(A)) | set(base(B))))}
    r = refine([names[x] for x in base(A)], [names[x] for x in base(B)])
    while r:
        ca, cb = r
        dup = [c for c in set(ca) if ca.count(c) > 1]
        if not dup:
            return [cb.index(c) + 1 for c in ca]
        c = dup[0]          # tell one state of a class apart, the same in both
        q = ca.index(c)
        r = None
        for x in range(n):
            if cb[x] == c:
                a2, b2 = list(ca), list(cb)
                a2[q] = b2[x] = max(ca) + 1
                r = refine(a2, b2)
                if r:
                    break
    return None


# ---------------------------------------------------------------- TLC
class Misbehaves(Exception):
    """What the code under test produced cannot be read as a behaviour at all."""


class TlcError(Exception):
    pass


def tlc(module, cfg, env=None, workers=2, timeout=800, heap="3g", args=(), cwd=SPEC):
    w = tempfile.mkdtemp(prefix="tlc-", dir=os.path.join(VERIF, "work"))
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC", "-cp", JAR + ":/opt/veriftools/tla/CommunityModules-deps.jar",
           "tlc2.TLC", "-metadir", w, "-workers", str(workers), "-noGenerateSpecTE", "-config", cfg] + list(args) + [module]
    try:
        p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, timeout=timeout)
        out = p.stdout.decode("utf-8", "replace")
        rc = p.returncode
    except subprocess.TimeoutExpired as x:
        out = (x.stdout or b"").decode("utf-8", "replace")
        rc = -1
    finally:
        shutil.rmtree(w, ignore_errors=True)
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    gen, dist = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
    return rc, out, gen, dist


def tlc_shards(module, cfg, cases, work, tag, shards=4, workers=2, env=None, timeout=800):
    """Split the cases over several TLC processes; returns (outputs, generated, distinct)."""
    shards = max(1, min(shards, len(cases)))
    jobs = []
    weights = sorted(range(len(cases)), key=lambda i: -len(json.dumps(cases[i])))
    for s in range(shards):
        part = [cases[i] for i in weights[s::shards]]
        f = work.path("%s-%d.json" % (tag, s))
        with open(f, "w") as h:
            json.dump(part, h)
        jobs.append(f)

    def one(f):
        e = {"CASES": f}
        e.update(env or {})
        return tlc(module, cfg, e, workers=workers, timeout=timeout)
    outs, gen, dist = [], 0, 0
    with ThreadPoolExecutor(max_workers=shards) as ex:
        for rc, out, g, d in ex.map(one, jobs):
            if rc != 0:
                raise TlcError("TLC exit %d in %s: %s" % (rc, module, tail(out)))
            outs.append(out)
            gen += g
            dist += d
    return outs, gen, dist


def tail(out, n=1500):
    lines = [l for l in out.split("\n") if not l.startswith(("Progress", "Parsing", "Semantic", "@!@"))]
    return "\n".join(lines)[-n:]


def bad_lines(outs):
    """PrintT(<<"BAD", id, {..}, <<..>> >>) lines -> {id: [(claims, word)]}."""
    res = {}
    for o in outs:
        o = re.sub(r"\s*\n\s+", " ", o)
        for m in re.finditer(r'<<\s*"BAD", (-?\d+), \{([^}]*)\}, <<([^>]*)>>\s*>>', o):
            claims = [int(x) for x in m.group(2).split(",") if x.strip()]
            word = [int(x) for x in m.group(3).split(",") if x.strip()]
            res.setdefault(int(m.group(1)), []).append((claims, word))
    return res


# ---------------------------------------------------------------- findings
def load_findings():
    p = os.path.join(VERIF, "known_findings.json")
    if os.path.exists(p):
        return json.load(open(p))["findings"]
    return []


# ---------------------------------------------------------------- reporting
class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = SEED
        self.level = level
        self.rng = random.Random("%s-%d" % (pid, SEED))
        self.t0 = time.time()
        self.states = 0
        self.trans = 0
        self.traces = 0
        self.evals = 0
        self.samples = []
        self.extra = {}
        self.violations = []
        self.known = []
        self.assumptions = []
        self.work = Work(pid)
        self.findings = [f for f in load_findings() if f["property"] == pid]

    def thorough(self):
        return self.tier == "thorough"

    def left(self):
        return (1700 if self.thorough() else 850) - (time.time() - self.t0)

    def guard(self, what, script):
        """The log of a case does not have the shape the specification's action has:
        some operation refused or returned something else."""
        chk = self

        class G:
            def __enter__(self):
                pass

            def __exit__(self, t, v, tb):
                if t is not None and issubclass(t, (IndexError, KeyError, TypeError, ValueError, AttributeError)):
                    if os.environ.get("VERIF_DEBUG"):
                        import traceback
                        traceback.print_exception(t, v, tb)
                    chk.violation("%s: not a behaviour of the specification (%s: %s)" % (what, t.__name__, v),
                                  {"script": script})
                    return True
                return False
        return G()

    def sample(self, s):
        if len(self.samples) < 6:
            self.samples.append(s)

    def violation(self, what, replay, key=None):
        """replay: dict written next to the evidence; key identifies a known finding."""
        for f in self.findings:
            if key is not None and f.get("key") == key:
                if key not in self.known:
                    self.known.append(key)
                return
        self.violations.append((what, replay))

    def sanitised(self):
        """A sample of the histories once more, against the library built with address and
        undefined-behaviour sanitisers: a history the specification allows has no step in
        which memory the library does not own is read or written."""
        if not RAN or self.violations or self.left() < 120 or os.environ.get("NOSAN"):
            return
        pool = [(k, i) for k, (c, _) in enumerate(RAN) for i in c
                if not any(l.split(" ", 1)[0] in ENV_CMDS for l in c[i])]
        rng = random.Random("san-%s-%d" % (self.pid, self.seed))
        rng.shuffle(pool)
        exe = drv("asan")
        stop = time.time() + (120 if self.thorough() else 12)
        done = 0
        while pool and time.time() < stop:
            part, pool = pool[:160], pool[160:]
            cases = {n: RAN[k][0][i] for n, (k, i) in enumerate(part)}
            res = _run_driver(exe, cases, 60)
            done += len(part)
            for n, (k, i) in enumerate(part):
                was = RAN[k][1].get(i) or []
                if crashed(was) or not crashed(res[n]) or crashed(res[n]) == signal.SIGALRM:
                    continue
                self.violation("a memory error (signal %s) at step %d of a history whose steps are all allowed"
                               % (crashed(res[n]), len(res[n]) - 1), {"script": cases[n], "variant": "asan"})
            if self.violations:
                break
        self.extra["histories_rerun_sanitised"] = done

    def finish(self):
        self.sanitised()
        for f in self.findings:
            if f["key"] in self.known:
                print("KNOWN-FINDING: property=%s %s" % (self.pid, f["what"]))
        rc = 0
        seen = 0
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        for what, replay in self.violations[:int(os.environ.get("VERIF_MAXV","5"))]:
            rp = os.path.join(VERIF, "evidence", "replay-%s-%d.json" % (self.pid, seen))
            with open(rp, "w") as f:
                json.dump({"property": self.pid, "what": what, "replay": replay}, f, indent=1)
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            print("  " + what[:600].replace("\n", "\n  "))
            seen += 1
            rc = 1
        cov = {"samples": [str(s)[:1500] for s in self.samples] or ["none"]}
        if self.level == "model_checking":
            cov.update(states=self.states, transitions=self.trans, traces_validated_against_impl=self.traces)
        cov.update(self.extra)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": cov, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        if self.assumptions:
            ev["assumptions"] = self.assumptions
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        self.work.done()
        print("%s %s: %d traces, %d states, %d transitions, %.1fs, %d violation(s)" % (
            self.pid, self.tier, self.traces, self.states, self.trans, time.time() - self.t0, len(self.violations)))
        sys.exit(rc)


# ---------------------------------------------------------------- language cases
class LangCases:
    """Collects cases for LangCheck.tla and judges them."""
    def __init__(self, chk, shards=4, workers=2):
        self.chk = chk
        self.cases = []
        self.meta = {}
        self.shards, self.workers = shards, workers

    def add(self, dumps, claims, script, virtuals=(), sets=(), cls=None, label=""):
        """dumps: driver dumps; virtuals: spec-defined automata (1-based refs);
        claims: list of dicts.  "restrict" virtuals carry bytes in 'bytes'."""
        sets = list(sets) + [set(v["bytes"]) for v in virtuals if "bytes" in v]
        cls = cls or classes(dumps, sets)
        a = [project(d, cls) for d in dumps]
        for v in virtuals:
            v = dict(v)
            if "bytes" in v:
                bs = set(v.pop("bytes"))
                v["keep"] = [i + 1 for i, c in enumerate(cls) if c[0] in bs]
            a.append(v)
        for w in claims:
            if w["c"] == "iso" and "p" not in w:
                p = witness(a[w["x"] - 1], a[w["y"] - 1])
                if p and not os.environ.get("NOWIT"):
                    w["p"] = p
        if self.chk.pid in ("P05", "P06", "P07", "P34"):     # the lists of ids of what the library made
            claims = claims + [{"c": "ordered", "x": j + 1} for j, d in enumerate(dumps) if "rawe" in d]
        cid = len(self.cases) + 1
        case = {"id": cid, "k": len(cls), "a": a, "w": claims}
        if any(w["c"] in ("outputs", "report") for w in claims):
            case["hist"] = 1
        if any(v.get("v") in ("re", "lit", "str") for v in virtuals):
            case["rep"] = [c[0] for c in cls]
            of = {b: i + 1 for i, c in enumerate(cls) for b in c}
            case["cls"] = [of.get(b, 1) for b in range(256)]
        self.cases.append(case)
        self.meta[cid] = {"script": script, "cls": cls, "label": label, "claims": claims}
        return cid

    def judge(self, limit=40):
        chk = self.chk
        if not self.cases:
            return {}
        outs, gen, dist = tlc_shards("LangCheck", "LangReport.cfg", self.cases, chk.work, "lang",
                                     self.shards, self.workers)
        chk.states += dist
        chk.trans += gen
        chk.traces += len(self.cases)
        return bad_lines(outs)

    def word(self, cid, w):
        cls = self.meta[cid]["cls"]
        return "".join("%02x" % cls[c - 1][0] for c in w)

    def describe(self, cid, bads):
        bads = sorted(bads, key=lambda b: len(b[1]))
        claims, w = bads[0]
        m = self.meta[cid]
        return "%s: claim %s fails after word %s (hex)" % (
            m["label"], "; ".join(json.dumps(m["claims"][c - 1]) for c in claims), self.word(cid, w) or "(empty)")
