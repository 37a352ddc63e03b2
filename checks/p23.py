"""P23: pattern groups and eager outputs."""
TECHNIQUE = 'TLA+ (TLC): the combined automaton recorded after determinising and minimising, in product with one automaton per pattern as the specification reads it; the outputs emitted along the way are part of the product\'s state (spec/LangCheck.tla, claims "report" and "outputs"), compared for all subjects'
NOTE = ("Which patterns are reported is compared at every accepted subject of every group, not on samples; eager outputs placed by hand on generated automata are followed "
        "through determinisation, minimisation, epsilon removal and their compositions.")

from core import *
from regex import *
import gen, regen

SAVE = 512
FAMILY = [b"a", b"b", b"ab", b"^a", b"a$", b"^a$", b"^ab", b"ab$", b"^", b"$", b"^$", b"", b".", b"a.b", b"a*", b"a+$", b"^a*", b"(a|b)", b"a(?:b|$)",
          b"(?:^|b)a", b"(?:^a|b)", b"(?:a|^b)$", b"^a|b$", b"^a|^b", b"a$|b$", b"a|b$", b"a{2}", b"a?b", b"^a?b", b"a.*b", b"^a.*b$", b"(?:^|a)(?:b|$)",
          b"\\n", b"a\\n", b"^\\n$", b"b?$", b"a+b+", b"(?:ab)+$", b"^(?:ab)*$", b"[ab]c", b"[^a]", b"a[^b]$", b"c", b"^c*$", b"(a|^)b(c|$)", b"a\\z", b"^\\z"]


def groups(chk):
    rng, deep = chk.rng, chk.thorough()
    out = [[p] for p in FAMILY]
    pairs = [[p, q] for p in FAMILY for q in FAMILY]
    out += pairs if deep else rng.sample(pairs, 700)
    for _ in range(3000 if deep else 500):
        out.append([rng.choice(FAMILY) for _ in range(3)])
    for _ in range(600 if deep else 60):
        out.append([rng.choice(FAMILY) for _ in range(4)])
    g = regen.Gen(rng, "pcre", letters=b"aab", anchors=.3, comments=False)
    for _ in range(5000 if deep else 1200):
        m = []
        for _ in range(rng.choice((1, 2, 2, 2, 3))):
            t = g.pattern(rng.choice((0, 1, 1)))
            if len(t) < 20:
                m.append(t)
        if m:
            out.append(m)
    return out


def run(chk):
    rng, deep = chk.rng, chk.thorough()
    lc = LangCases(chk, shards=8, workers=1)
    todo = [[p.encode("latin1") for p in f["patterns"]] for f in chk.findings]
    todo += groups(chk)
    scripts, info = {}, {}
    for k, m in enumerate(todo):
        base = rng.choice((1, 1, 0, 5, 1000))
        n = len(m)
        s = ["re %d pcre %d %s" % (j, SAVE, p.hex() or "-") for j, p in enumerate(m)]
        s += ["group 20 %d %d %s" % (base, n, " ".join(map(str, range(n)))), "det 20", "dump 20", "min 20", "dump 20"]
        scripts[k], info[k] = s, base
    res = run_driver(drv(), scripts)
    unsup = 0
    for k, vals in res.items():
        m, base = todo[k], info[k]
        what = "group %s" % " ".join("%r" % p.decode("latin1") for p in m)
        if crashed(vals):
            chk.violation("%s: the process died (%s)" % (what, crashed(vals)), {"script": scripts[k], "log": vals[-2:]}, key=what)
            continue
        n = len(m)
        if any(isinstance(v, dict) and v.get("re") == 0 for v in vals[:n]):
            unsup += 1
            continue
        with chk.guard("building " + what, scripts[k]):
            if not vals[n]["ok"] or vals[n + 1] != 1 or vals[n + 3] != 1:
                raise ValueError("not built")
            d, e = vals[n + 2], vals[n + 4]
            for x in (d, e):
                for f in ("ids", "eag"):
                    x[f] = [[q] + [i - base + 1 if base <= i < base + n else 99 for i in l] for q, *l in x[f]]
            if len(d["t"]) > 3000:
                continue
            virts = [{"v": "re", "text": list(p), "d": "pcre", "fl": [], "only": 0} for p in m]
            r = [[3 + j, j + 1] for j in range(n)]
            iff = {"if": [3 + j for j in range(n)]}
            claims = [{"c": "sat", "x": 3 + j} for j in range(n)] + [{"c": "isdfa", "x": 1}, {"c": "isdfa", "x": 2},
                      dict({"c": "report", "x": 1, "m": r}, **iff), dict({"c": "report", "x": 2, "m": r}, **iff)]
            sets = [s for p in m for s in interest(p)] if isinstance(interest(b"a"), list) else interest(b"|".join(m))
            lc.add([d, e], claims, scripts[k], virts, sets=sets, label=what)
            if k in (60, 700):
                chk.sample(what)
    # outputs placed by hand
    n = 4000 if deep else 1200
    scripts, plans = {}, {}
    for k in range(n):
        al = gen.alphabet(rng, rng.choice((1, 2, 2, 3)))
        a = gen.nfa(rng, rng.choice((2, 3, 4, 5, 6)), al, eps=rng.choice((0, 1, 2)), ids=rng.choice((0, 0, 2)), eager=rng.choice((1, 2, 3)), nmin=2)
        plan = rng.choice((["det"], ["det", "min"], ["rmeps"], ["rmeps", "det", "min"], ["det", "trim", "min"], ["clone"]))
        s = a.cmds(0) + ["dump 0"]
        for op in plan:
            s.append({"clone": "clone 1 0", "trim": "trim 0 1"}.get(op, op + " 0"))
        s.append("dump 1" if plan == ["clone"] else "dump 0")
        scripts[k], plans[k] = s, plan
    res = run_driver(drv(), scripts)
    for k, vals in res.items():
        what = "hand-placed outputs, " + " ".join(plans[k])
        if crashed(vals):
            chk.violation("%s: the process died (%s)" % (what, crashed(vals)), {"script": scripts[k], "log": vals[-2:]})
            continue
        with chk.guard(what, scripts[k]):
            a, b = [v for v in vals if isinstance(v, dict) and "t" in v]
            if any(v == 0 for v in vals if isinstance(v, int)):
                raise ValueError("an operation failed")
            lc.add([a, b], [{"c": "outputs", "x": 1, "y": 2}], scripts[k], label=what)
    bads = lc.judge()
    for cid, b in sorted(bads.items(), key=lambda kv: len(lc.meta[kv[0]]["label"])):
        m = lc.meta[cid]
        if any(m["claims"][c - 1]["c"] == "sat" for x in b for c in x[0]):
            raise RuntimeError("byte classes too coarse for " + m["label"])
        chk.violation(lc.describe(cid, b)[:1200], {"script": m["script"], "case": lc.cases[cid - 1]}, key=m["label"])
    chk.extra.update(groups=len(todo), unsupported=unsup)
