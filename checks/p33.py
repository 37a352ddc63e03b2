"""P33: capture positions."""
TECHNIQUE = ('TLA+ (TLC): spec/Capture.tla, capture paths over automata and what the states of an automaton made from another stand for; the positions recorded '
             'from execution, as built and after every operation, compared with those of the specification\'s run')
NOTE = ("Random and hand-shaped automata (chains, tries, loops, joins; with and without epsilons) with up to four capture paths, joined by union, array union and concatenation, cloned, "
        "determinised, trimmed and minimised, executed over word suites after each step. Where merging states leaves it open what a path's states stand for, only that the "
        "positions are well-formed is required.")

from core import *
import gen, words


def chains(rng):
    """Words sharing beginnings, as a trie, sometimes with loops back and self-loops."""
    a = gen.A(1, 0)
    al = [[97 + i] for i in range(rng.choice([2, 3, 4]))]
    nxt = {}
    for _ in range(rng.choice([1, 1, 2, 3])):
        q = 0
        for _ in range(rng.randint(1, 6)):
            c = rng.randrange(len(al))
            if (q, c) not in nxt:
                nxt[q, c] = a.n
                a.n += 1
            q = nxt[q, c]
        a.f.append(q)
    for _ in range(rng.choice([0, 0, 1, 2])):
        q, c = rng.randrange(a.n), rng.randrange(len(al))
        nxt.setdefault((q, c), rng.choice([q, rng.randrange(a.n)]))
    a.t = [(q, t, al[c]) for (q, c), t in nxt.items()]
    a.f = sorted(set(a.f + ([rng.randrange(a.n)] if rng.random() < .3 else [])))
    return a


def operand(rng):
    r = rng.random()
    al = [[97 + i] for i in range(rng.choice([1, 2, 2, 3]))]
    if r < .5:
        a = chains(rng)
    elif r < .7:
        a = gen.dfa(rng, 6, al)
    else:
        a = gen.nfa(rng, 5, al, eps=r > .85)
    a.i, a.g, a.c = [], [], []
    ids = rng.choice([[0], [0, 1], [0, 1, 2], [0, 0, 1], [3], [1, 2]])
    for i in ids:
        s, e = rng.randrange(a.n), rng.randrange(a.n)
        if r < .5 and rng.random() < .5:
            s, e = rng.choice([0, s]), rng.choice(a.f + [e])
        a.c.append((i, s, e))
    if rng.random() < .15:
        a.c = []
    if rng.random() < .1:       # many, so that the table of actions grows
        a.c += [(rng.randrange(5), rng.randrange(a.n), rng.randrange(a.n)) for _ in range(12)]
    return a


def prepare(rng):
    """-> (operands, lines up to the combined automaton, how to find the paths in it)"""
    k = rng.choice([1, 1, 2, 2, 2, 3, 4])
    aa = [operand(rng) for _ in range(k)]
    ls = []
    for r, a in enumerate(aa):
        ls += a.cmds(r)
    if k == 1:
        return aa, ls, None
    if k == 2 and rng.random() < .7:
        return aa, ls + ["%s 0 0 1" % rng.choice(["union", "concat", "merge" if False else "concat"])], "pair"
    return aa, ls + ["unionarr 0 %d %s" % (k, " ".join(map(str, range(k))))], "array"


def tails(rng, dfa):
    out = []
    if dfa and rng.random() < .6:
        out.append("")
    out.append("det 0")
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        out.append(rng.choice(["min 0", "min 0", "trim 0 0", "clone", "det 0"]))
    return out


def run(chk):
    rng, exe = chk.rng, drv()
    n = 40000 if chk.thorough() else 3000
    pre, info = {}, {}
    for i in range(n):
        aa, ls, how = prepare(rng)
        tl = tails(rng, len(aa) == 1)
        info[i] = (aa, ls, how, tl)
        s = list(ls) + ["dump 0"]
        for t in tl:
            s += (["clone 5 0", "free 0", "clone 0 5", "free 5"] if t == "clone" else [t] if t else []) + ["dump 0"]
        pre[i] = s
    res = run_driver(exe, pre)
    scripts, dumps = {}, {}
    for i, v in sorted(res.items()):
        if crashed(v):
            chk.violation("crashed: %s" % crashed(v), "\n".join(pre[i]) + "\n")
            continue
        aa, ls, how, tl = info[i]
        ds = [x for x in v if isinstance(x, dict) and "t" in x]
        comb = v[len(ls) - 1]
        if how == "pair":
            bases = [(comb[1], comb[3]), (comb[2], comb[4])]
        elif how == "array":
            bases = [tuple(x) for x in comb["b"]]
        else:
            bases = [(0, 0)]
        if len(ds) != len(tl) + 1:
            chk.violation("an operation failed: %r" % [x for x in v if not isinstance(x, dict)][-6:], "\n".join(pre[i]) + "\n")
            continue
        ws = sorted({bytes(w[:14]) for w in words.suite(ds[-1], rng, 14)})
        lang = max(ds[1:], key=lambda d: d["n"])
        s, k = list(ls), 0
        s.append("words " + " ".join(w.hex() or "-" for w in ws))
        for t in tl:
            s += (["clone 5 0", "free 0", "clone 0 5", "free 5"] if t == "clone" else [t] if t else []) + ["exec 0 0 1"]
        scripts[i] = s
        dumps[i] = (ds, bases, ws)
    out = run_driver(exe, scripts)
    cases, open_ = [], 0
    for i, v in sorted(out.items()):
        if crashed(v):
            chk.violation("crashed: %s" % crashed(v), "\n".join(scripts[i]) + "\n")
            continue
        aa, ls, how, tl = info[i]
        ds, bases, ws = dumps[i]
        cls = classes(ds)
        of = {b: c + 1 for c, bs in enumerate(cls) for b in bs}
        ex = [x for x in v if isinstance(x, list) and x and isinstance(x[0], list)]
        if len(ex) != len(tl):
            chk.violation("an operation failed: %r" % v[len(ls):][:8], "\n".join(scripts[i]) + "\n")
            continue
        g = []
        for d, o, t in zip(ds[1:], ex, tl):
            if o[0][0] == -1 and t == "":
                continue                    # not deterministic as built
            g.append({"m": project(d, cls), "o": [[x[0], x[4]] for x in o]})
        p = [[c + bc, s + bs + 1, e + bs + 1] for a, (bs, bc) in zip(aa, bases) for c, s, e in a.c]
        cases.append({"id": i, "k": len(cls), "a": project(ds[0], cls), "p": p, "w": [[of[b] for b in w] for w in ws], "g": g})
    chk.sample("; ".join(scripts[max(scripts)])[:400])
    outs, gen_, dis = tlc_shards("Capture", "Capture.cfg", cases, chk.work, "capture", 8, 1)
    chk.states += dis
    chk.trans += gen_
    chk.traces += sum(len(c["g"]) * len(c["w"]) for c in cases)
    for i, bads in sorted(bad_lines(outs).items()):
        ds, bases, ws = dumps[i]
        at, stage = bads[0]
        w = ws[at[0] - 1]
        what = "captures %r, bases %r: after %r, wrong positions over %r" % ([a.c for a in info[i][0]], bases, info[i][3][:stage[0]], w)
        chk.violation(what, "\n".join(scripts[i]) + "\n")
