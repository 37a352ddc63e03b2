"""P04: epsilon removal and reversal."""
TECHNIQUE = 'TLA+ (TLC): trace validation of recorded operations against the automata semantics, exhaustive product walk'
NOTE = "Product walk of the automaton against the recorded result or the specification's own mirror image, over all words."

from core import *
import gen


def run(chk):
    exe = drv()
    n = 5000 if not chk.thorough() else 60000
    scripts, info = {}, {}

    def add(a, kind):
        i = len(scripts)
        if kind == "rmeps":
            scripts[i] = a.cmds(0) + ["dump 0", "rmeps 0", "dump 0"]
        elif kind == "rev":
            scripts[i] = a.cmds(0) + ["dump 0", "rev 0", "dump 0"]
        else:
            scripts[i] = a.cmds(0) + ["dump 0", "rev 0", "rev 0", "dump 0"]
        info[i] = kind
    for i in range(n):
        kind = ["rmeps", "rmeps", "rev", "rev", "revrev"][i % 5]
        al = gen.any_alphabet(chk.rng, chk.rng.choice([1, 2, 3]))
        ids = chk.rng.choice([0, 1, 3]) if kind == "rmeps" else 0
        a = gen.nfa(chk.rng, chk.rng.choice([2, 4, 6, 9]), al, ids=ids,
                    eager=chk.rng.choice([0, 1, 3]) if kind == "rmeps" else 0)
        if kind == "rmeps" and chk.rng.random() < 0.4:       # chains and cycles of epsilons
            p = chk.rng.sample(range(a.n), a.n)
            a.e += list(zip(p, p[1:])) + ([(p[-1], p[0])] if chk.rng.random() < 0.4 else [])
        if kind != "rmeps" and chk.rng.random() < 0.3:
            a.f = []
            if chk.rng.random() < 0.5:
                a.f = [chk.rng.randrange(a.n)]
        add(a, kind)
    for k in range(24 if not chk.thorough() else 200):      # closures of a hundred states
        al = gen.alphabet(chk.rng, 2)
        m = chk.rng.choice([17, 33, 65, 100])
        kind = ["rmeps", "rev", "rmeps", "revrev"][k % 4]
        perm = chk.rng.sample(range(m), m)
        a = gen.A(m, perm[0])
        a.e = list(zip(perm, perm[1:]))
        chk.rng.shuffle(a.e)
        a.t = [(chk.rng.randrange(m), chk.rng.randrange(m), chk.rng.choice(al)) for _ in range(chk.rng.choice([3, 10, m]))]
        a.f = [q for q in range(m) if chk.rng.random() < chk.rng.choice([.05, .3])]
        if not a.f:
            a.f = [perm[-1]]
        if kind == "rmeps":
            a.i = [(q, chk.rng.randrange(50)) for q in a.f for _ in range(chk.rng.choice([0, 1, 2]))]
            a.g = [(q, chk.rng.randrange(40)) for q in range(m) if chk.rng.random() < .3]
        add(a, kind)
    ex = list(gen.all_nfas(2, [[97]], eps=True, startall=True))
    for a in ex:
        for kind in ("rmeps", "rev", "revrev"):
            add(a, kind)
    res = run_driver(exe, scripts)
    lc = LangCases(chk, shards=4)
    for i, vals in res.items():
        kind = info[i]
        if crashed(vals):
            chk.violation("%s: the process died (%s)" % (kind, crashed(vals)), {"script": scripts[i], "log": vals[-3:]})
            continue
        d = [v for v in vals if isinstance(v, dict) and "n" in v]
        if vals[vals.index(d[0]) + 1] != 1:
            chk.violation("%s failed" % kind, {"script": scripts[i]})
            continue
        if kind == "rmeps":
            lc.add(d, [{"c": "ids", "x": 1, "y": 2}, {"c": "noeps", "x": 2}, {"c": "eager", "x": 1, "y": 2}], scripts[i], label=kind)
        elif kind == "rev":
            lc.add(d, [{"c": "eq", "x": 2, "y": 3}], scripts[i], [{"v": "mirror", "x": 1}], label=kind)
        else:
            lc.add(d, [{"c": "eq", "x": 1, "y": 2}], scripts[i], label=kind)
    bads = lc.judge()
    for cid, b in sorted(bads.items()):
        chk.violation(lc.describe(cid, b), {"script": lc.meta[cid]["script"], "case": lc.cases[cid - 1]})
    for cid in list(lc.meta)[:3]:
        chk.sample(" ; ".join(lc.meta[cid]["script"]))
    chk.extra["exhaustive_small_automata"] = len(ex)
