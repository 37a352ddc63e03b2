"""P02: determinisation."""
TECHNIQUE = 'TLA+ (TLC): trace validation of recorded operations against the automata semantics, exhaustive product walk'
NOTE = 'Result and operand are walked together over all words; DFA-ness and reachability are evaluated on the recorded result. Covers generated automata incl. all 2-state NFAs with epsilons over one letter.'

from core import *
import gen


def make(rng, i):
    k = rng.choice([1, 2, 2, 3, 4])
    al = gen.any_alphabet(rng, k)
    r = rng.random()
    if r < 0.08:
        al = [[b] for b in rng.sample(range(256), 12)]
        a = gen.nfa(rng, 5, al, ids=2)
    elif r < 0.2:
        a = gen.nfa(rng, 10, al[:2], ids=3)
    else:
        a = gen.nfa(rng, rng.choice([3, 4, 5, 6]), al, ids=rng.choice([0, 1, 2, 3]), start_none=0.01)
    lim = None
    if rng.random() < 0.3:
        lim = rng.choice([1, 2, 3, 4, 5, 6, 8, 12])
    return a, lim


def wide(rng, j):
    """A few states with edges to very many others, so that the sets of states to determinise are large: sets spanning
    0, 63, 64, 65 … more than their least member, gathered in order or out of it, near and far apart."""
    span = rng.choice([256, 257, 319, 320, 321, 384, 512, 640]) if j % 6 else rng.choice([576, 704])
    fan, lo = rng.randint(2, 3), rng.randint(4, 80)
    hi = lo + span
    a, b = rng.sample(range(256), 2)
    near = range(lo, hi + 1)
    toks = ["t:0,%d,%d,%d" % (k + 1, a, a) for k in range(fan)]
    for k in range(fan):
        toks += ["t:%d,%d,%d,%d" % (k + 1, t, b, b) for t in (near if k == 0 else rng.sample(near, rng.randint(1, 60)))]
    ends = {hi} if rng.random() < .6 else {lo}
    if rng.random() < .5:
        ends.add(rng.choice(near))
    toks += ["f:%d" % e for e in sorted(ends)] + ["i:%d,%d" % (e, rng.randint(0, 3)) for e in sorted(ends)]
    if rng.random() < .5:
        toks.append("t:%d,%d,%d,%d" % (rng.choice(sorted(ends)), rng.choice(near), a, a))
    out = ["fa 0 %d 0" % (hi + 1)] + ["build 0 " + " ".join(toks[j:j + 400]) for j in range(0, len(toks), 400)]
    return out


def run(chk):
    exe = drv()
    n = 4000 if not chk.thorough() else 60000
    scripts, info = {}, {}
    for i in range(n):
        a, lim = make(chk.rng, i)
        scripts[i] = a.cmds(0) + ["dump 0", "clone 1 0", "det 0" if lim is None else "detlimit 0 %d" % lim, "dump 0",
                                  "rmeps 1", "dump 1", "det 1", "dump 1"]
        info[i] = (lim, a.s)
    ex = list(gen.all_nfas(2, [[97]], eps=True, startall=True))
    ex += list(gen.all_nfas(2, [[97], [98]], eps=True))[::(4 if not chk.thorough() else 1)]
    if chk.thorough():
        ex += list(gen.all_nfas(3, [[97]], eps=False))
    for a in ex:
        i = len(scripts)
        scripts[i] = a.cmds(0) + ["dump 0", "clone 1 0", "det 0", "dump 0", "rmeps 1", "dump 1", "det 1", "dump 1"]
        info[i] = (None, a.s)
    for j in range(24 if not chk.thorough() else 200):
        i = len(scripts)
        scripts[i] = wide(chk.rng, j) + ["dump 0", "clone 1 0", "det 0", "dump 0", "rmeps 1", "dump 1", "det 1", "dump 1"]
        info[i] = (None, 0)
    res = run_driver(exe, scripts)
    lc = LangCases(chk, shards=4)
    limited = 0
    for i, vals in res.items():
        lim, s = info[i]
        if crashed(vals):
            chk.violation("determinise: the process died (%s)" % crashed(vals), {"script": scripts[i], "log": vals[-3:]})
            continue
        d = [v for v in vals if isinstance(v, dict) and "n" in v]
        ok = vals[vals.index(d[0]) + 2]
        if s is None:
            continue
        claims = [{"c": "ids", "x": 1, "y": 2}]
        if lim is None:
            if ok != 1:
                chk.violation("determinise failed", {"script": scripts[i]})
                continue
            good = True
        else:
            need = max(d[2]["n"], d[3]["n"])
            if ok == 2 or (ok == 1 and need <= lim):
                chk.violation("determinise with limit %d returned %d, %d states needed" % (lim, ok, need), {"script": scripts[i]})
                continue
            if ok == 0 and d[1]["n"] > lim + 1:
                chk.violation("determinise with limit %d made %d states" % (lim, d[1]["n"]), {"script": scripts[i]})
                continue
            good = ok == 0
            limited += ok == 1
        if good:
            claims += [{"c": "isdfa", "x": 2}, {"c": "reach", "x": 2}]
        lc.add(d[:2], claims, scripts[i], label="determinise" + ("" if lim is None else " limit %d" % lim))
    bads = lc.judge()
    for cid, b in sorted(bads.items()):
        chk.violation(lc.describe(cid, b), {"script": lc.meta[cid]["script"], "case": lc.cases[cid - 1]})
    for cid in list(lc.meta)[:3]:
        chk.sample(" ; ".join(lc.meta[cid]["script"]))
    chk.extra["limit_reached_cases"] = limited
    chk.extra["exhaustive_small_automata"] = len(ex)
