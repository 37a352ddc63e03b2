"""P03: minimisation."""
TECHNIQUE = 'TLA+ (TLC): trace validation of recorded operations against the automata semantics, exhaustive product walk'
NOTE = "Word-for-word equality of acceptance and ids by product walk, and minimality by TLC's own partition refinement of the recorded result; exhaustive over all small partial DFAs."

from core import *
import gen


def make(rng, i):
    k = rng.choice([1, 2, 2, 3, 4])
    al = gen.alphabet(rng, k)
    r = rng.random()
    ids = rng.choice([0, 0, 1, 2, 3])
    if r < 0.25:
        return gen.dfa(rng, rng.choice([3, 5, 8]), al, ids=ids), False
    if r < 0.5:
        return gen.blown_dfa(rng, rng.choice([3, 5, 7]), al, copies=rng.choice([2, 3, 8]), ids=ids), False
    if r < 0.65:
        return gen.near_equal_dfa(rng, al, ids), False
    if r < 0.75:
        al = [[b] for b in rng.sample(range(256), rng.choice([10, 25, 40]))]
        return gen.blown_dfa(rng, 5, al, copies=3, ids=ids), False
    return gen.nfa(rng, rng.choice([4, 5]), gen.any_alphabet(rng, 2), ids=ids), True


def run(chk):
    exe = drv()
    n = 3000 if not chk.thorough() else 40000
    scripts, label = {}, {}

    def add(a, det, rev=True):
        i = len(scripts)
        # a variant with the same language: determinised, minimised, then
        # shuffled and doubled up by a union with itself
        v = a.cmds(1) + a.cmds(2) + ["shuffle 1 %d" % (i % 7 + 1), "union 3 1 2", "det 3", "min 3", "dump 3"]
        noids = rev and i % 3 == 1 and a.nonempty()     # (the reverse of nothing has no start state)
        if noids:
            v = a.cmds(1) + ["det 1", "rev 1", "det 1", "rev 1", "det 1", "min 1", "dump 1"]
        elif i % 3 == 2 or not rev:      # (reversal would blow up)
            v = a.cmds(1) + ["det 1", "min 1", "shuffle 1 %d" % (i % 5 + 2), "min 1", "dump 1"]
        scripts[i] = a.cmds(0) + (["det 0"] if det else []) + ["dump 0", "min 0", "dump 0"] + v
        label[i] = noids
    for i in range(n):
        add(*make(chk.rng, i))
    for k in range(24 if not chk.thorough() else 300):      # many classes, split one after another
        add(gen.big(chk.rng, chk.rng.choice([17, 20, 33, 50, 70]), gen.alphabet(chk.rng, chk.rng.choice([1, 2, 3])), ids=k % 3), False, rev=False)
    # every DFA of 3 states over one letter, of 2 over two letters (partial functions)
    ex = []
    import itertools
    for nn, ls in ((3, [[97]]), (2, [[97], [98]])) + (((3, [[97], [98]]),) if chk.thorough() else ()):
        for fm in range(1, 1 << nn):
            for ds in itertools.product(range(nn + 1), repeat=nn * len(ls)):
                a = gen.A(nn, 0)
                a.f = [q for q in range(nn) if fm >> q & 1]
                for q in range(nn):
                    for j, l in enumerate(ls):
                        d = ds[q * len(ls) + j]
                        if d < nn:
                            a.t.append((q, d, l))
                ex.append(a)
    for a in ex:
        add(a, False)
    res = run_driver(exe, scripts)
    lc = LangCases(chk, shards=6, workers=1)
    for i, vals in res.items():
        if crashed(vals):
            chk.violation("minimise: the process died (%s)" % crashed(vals), {"script": scripts[i], "log": vals[-3:]})
            continue
        d = [v for v in vals if isinstance(v, dict) and "n" in v]
        claims = [{"c": "ids", "x": 1, "y": 2}, {"c": "isdfa", "x": 2}, {"c": "minimal", "x": 2}, {"c": "live", "x": 2}]
        j = vals.index(d[0])
        if vals[j + 1] != 1:
            chk.violation("minimise failed", {"script": scripts[i]})
            continue
        if not label[i]:
            claims += [{"c": "ids", "x": 2, "y": 3}, {"c": "size", "x": 2, "y": 3}]
        else:
            claims += [{"c": "eq", "x": 2, "y": 3}, {"c": "minimal", "x": 3}]
        lc.add(d, claims, scripts[i], label="minimise")
    bads = lc.judge()
    for cid, b in sorted(bads.items()):
        chk.violation(lc.describe(cid, b), {"script": lc.meta[cid]["script"], "case": lc.cases[cid - 1]})
    for cid in list(lc.meta)[:3]:
        chk.sample(" ; ".join(lc.meta[cid]["script"]))
    chk.extra["exhaustive_small_dfas"] = len(ex)
