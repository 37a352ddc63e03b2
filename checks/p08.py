"""P08: predicates, counts, emptiness, equality, reachability queries."""
TECHNIQUE = 'TLA+ (TLC): every answer recorded from the library compared with its definition in spec/Preds.tla'
NOTE = ("Every predicate on every state, its count/has/all and any/all-reachable forms, modes, state and edge counts, emptiness and pairwise "
        "equality (decided in the specification over the whole product) on generated automata (seeded), near-equal pairs, and every "
        "2-state NFA with epsilons. Automata without a start count as accepting nothing for equality, and give -1 for emptiness.")

from core import *
import gen

NAMES = ["isany", "isend", "iscomplete", "isdfa", "hasepsilons", "epsilonsonly", "hasoutgoing", "hasincoming", "hasnondeterminism"]


def fill(rng, a, al):
    """Give a state an edge for every byte, in pieces."""
    q = rng.randrange(a.n)
    cuts = sorted(set([0, 256] + [rng.choice([rng.randrange(257), 64, 128, 192, 1, 255]) for _ in range(rng.randint(0, 4))]))
    for lo, hi in zip(cuts, cuts[1:]):
        if rng.random() < .95:
            a.t.append((q, rng.randrange(a.n), list(range(lo, hi))))


def variant(rng, a):
    """The same automaton, or one a little different."""
    import copy
    b = copy.deepcopy(a)
    r = rng.random()
    if r < .3:
        return b
    if r < .5 and b.t:
        k = rng.randrange(len(b.t))
        f, t, bs = b.t[k]
        b.t[k] = (f, rng.randrange(b.n), bs) if rng.random() < .5 else (f, t, bs[:-1] or bs)
    elif r < .7:
        q = rng.randrange(b.n)
        b.f = [x for x in b.f if x != q] if q in b.f else b.f + [q]
    elif r < .85:
        p = list(range(b.n))
        rng.shuffle(p)
        b.s = p[b.s] if b.s is not None else None
        b.f = [p[x] for x in b.f]
        b.e = [(p[x], p[y]) for x, y in b.e]
        b.t = [(p[x], p[y], bs) for x, y, bs in b.t]
    else:
        b.s = rng.randrange(b.n)
    return b


def run(chk):
    exe = drv()
    rng = chk.rng
    n = 5000 if not chk.thorough() else 60000
    scripts, info = {}, {}

    def add(a, b=None):
        i = len(scripts)
        sc = a.cmds(0) + ["dump 0", "preds 0", "empty 0"]
        if b is not None:
            sc += b.cmds(1) + ["dump 1", "equal 0 1", "equal 1 0", "dump 0", "dump 1"]
        scripts[i], info[i] = sc, (len(a.cmds(0)), b is not None, len(b.cmds(1)) if b else 0)
    for i in range(n):
        al = gen.any_alphabet(rng, rng.choice([1, 2, 3]))
        a = rng.choice([gen.nfa, gen.dfa])(rng, rng.choice([1, 2, 4, 6, 8]), al, start_none=.06)
        if rng.random() < .3:
            fill(rng, a, al)
        if rng.random() < .1:
            a.f = []
        if rng.random() < .1:           # an edge set with many groups
            q = rng.randrange(a.n)
            a.t = [x for x in a.t if x[0] != q]
            m = a.n
            a.n += rng.choice([10, 20])
            for b in rng.sample(range(256), rng.choice([9, 17, 33, 64])):
                a.t.append((q, rng.randrange(m, a.n), [b]))
        b = None
        if rng.random() < .6 and a.n <= 8:
            b = variant(rng, a) if rng.random() < .7 else gen.nfa(rng, 4, al, start_none=.06)
        add(a, b)
    # a state with 256 destinations, complete but without a mode
    w = gen.A(257, 0)
    for x in range(256):
        w.t.append((0, x + 1, [x]))
    w.f = [5]
    add(w)
    for a in gen.all_nfas(2, [[97]], eps=True, startall=True):
        add(a)
    small = list(gen.all_nfas(2, [[97]], eps=False))
    for a in small:
        for b in rng.sample(small, 8 if not chk.thorough() else 40):
            add(a, b)
    res = run_driver(exe, scripts)
    lc = LangCases(chk, shards=7, workers=1)
    nq = 0
    for i, vals in res.items():
        if crashed(vals):
            chk.violation("queries: the process died (%s)" % crashed(vals), {"script": scripts[i], "log": vals[-2:]})
            continue
        with chk.guard("queries", scripts[i]):
            k, pair, kb = info[i]
            d, pr, em = vals[k:k + 3]
            dumps = [d]
            cl = []
            if pair:
                d2, e1, e2, x1, x2 = vals[k + 3 + kb:k + 8 + kb]
                dumps.append(d2)
                if x1 != d or x2 != d2:
                    chk.violation("fsm_equal changed its operands", {"script": scripts[i]})
                cl += [{"c": "equal", "x": 1, "y": 2, "r": e1}, {"c": "equal", "x": 2, "y": 1, "r": e2}]
            cls = classes(dumps)
            z = [len(c) for c in cls]
            if d["n"] <= 40:
                for name in NAMES:
                    cl.append({"c": "pred", "x": 1, "p": name, "o": {"p": pr[name], "n": pr["n_" + name], "r": pr["r_" + name]}})
                    nq += 3 * d["n"] + 3
                cl.append({"c": "counts", "x": 1, "n": pr["states"], "e": pr["edges"], "z": z})
            cl.append({"c": "mode", "x": 1, "z": z, "o": pr["mode"]}) if d["n"] <= 40 else None
            cl.append({"c": "empty", "x": 1, "r": em})
            lc.add(dumps, cl, scripts[i], cls=cls, label="queries")
    bads = lc.judge()
    for cid, b in sorted(bads.items()):
        chk.violation(lc.describe(cid, b), {"script": lc.meta[cid]["script"], "case": lc.cases[cid - 1]})
    for cid in list(lc.meta)[:3]:
        chk.sample(" ; ".join(lc.meta[cid]["script"]))
    chk.extra["answers_compared"] = nq
