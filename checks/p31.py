"""P31: results depend only on the inputs."""
TECHNIQUE = 'TLA+ (TLC): spec/Rerun.tla, the library as a function of the calls made; several recorded runs of each program followed together, each operation allowed one answer'
NOTE = ("Random programs over the whole library (building, compiling, determinising, minimising, combining, renumbering, printing in every language, executing, generating), each run "
        "in a fresh process, over fresh memory filled with several patterns and padded to other sizes, after other programs, after itself, and with the heap disturbed between "
        "calls; addresses differ in every run. Answers are compared by digest.")

from core import *
import hashlib, ops


def digest(v):
    return hashlib.sha256(json.dumps(v, sort_keys=True).encode()).hexdigest()[:20]


def run(chk):
    rng, deep = chk.rng, chk.thorough()
    progs = [ops.program(rng, rng.choice((4, 8, 14, 25)), size=rng.choice((3, 5, 8))) for _ in range(25000 if deep else 2600)]
    exe = drv()
    base = run_driver(exe, {k: p.s for k, p in enumerate(progs)})
    dead = {k: crashed(v) for k, v in base.items()}
    good = [k for k in base if not dead[k]]
    chk.extra["programs that die in every run"] = len(dead) - len(good)
    scripts, where = {}, {}

    def variant(k, before, lines, skip):
        i = len(scripts)
        scripts[i] = before + lines
        where[i] = (k, skip)
    clean = ["free %d" % a for a in range(8)]
    for k, p in enumerate(progs):
        if dead[k] == 14:
            continue
        h1, h2 = rng.choice(good), rng.choice(good)
        n = lambda h: len(base[h]) - 1 + 8
        variant(k, ["poison 0 0"], p.s, 0)
        variant(k, ["poison 255 24"], p.s, 0)
        variant(k, ["poison 165 104"] + progs[h1].s + clean + ["churn %d" % rng.randrange(9999)], p.s, n(h1))
        variant(k, progs[h2].s + clean + progs[h1].s + clean, p.s, n(h1) + n(h2))
        variant(k, ["poison 1 0"], [x for l in p.s for x in (l, "churn %d" % rng.randrange(9999))], 0)
        if not dead[k]:
            variant(k, p.s + clean, p.s, n(k))
    res = run_driver(exe, scripts)
    runs = {}
    for i, v in sorted(res.items()):
        k, skip = where[i]
        runs.setdefault(k, [[digest(x) for x in base[k]]]).append([digest(x) for x in v[skip:]])
        if crashed(v) and not dead[k]:
            chk.extra["deaths"] = chk.extra.get("deaths", 0) + 1
    cases = [{"id": k, "runs": r} for k, r in runs.items()]
    for k in (1, 2):
        chk.sample("; ".join(progs[k].s[:9])[:400])
    outs, g, d = tlc_shards("Rerun", "Rerun.cfg", cases, chk.work, "rerun", 8, 1)
    chk.states += d
    chk.trans += g
    chk.traces += sum(len(r) for r in runs.values())
    of = {}
    for i in sorted(res):
        of.setdefault(where[i][0], []).append(i)
    for k, b in sorted(bad_lines(outs).items()):
        at, other = min(b[0][0]), b[0][1][0]
        i = of[k][max(other - 2, 0)]
        line = [l for l in progs[k].s if l.split(" ", 1)[0] not in SILENT]
        chk.violation("program %d: operation %d (%s) answers differently in another run" % (k, at, line[at - 1] if at <= len(line) else "end"),
                      {"script": progs[k].s, "other": scripts[i]}, key=None)
    chk.extra.update(programs=len(progs))
