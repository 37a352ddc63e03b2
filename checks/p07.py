"""P07: clone, move, shuffle, vacuum, trim, complete, merge."""
TECHNIQUE = ('TLA+ (TLC): trace validation of recorded operations against the specified resulting automaton, state by state, '
             'and exhaustive product walk for every word')
NOTE = ("The specification computes the automaton each operation must leave (trim: exactly the reachable and co-reachable states in order, "
        "with the count and distances returned; merge: both side by side at the reported offsets; complete: missing edges to one sink) and "
        "TLC compares it with the recorded one; shuffles are checked for isomorphism, and all of them for every word's acceptance and ids. "
        "Automata are generated (seeded) plus every 2-state NFA.")

from core import *
import gen


def touch(rng, sc, r, n):
    """Change automaton r, of n states, in several ways."""
    for _ in range(rng.randint(2, 6)):
        q, p = rng.randrange(n), rng.randrange(n)
        op = rng.choice(["lit", "eps", "setend", "endid", "eager", "addstate", "det", "rmstate", "clearstart", "mapids", "setendid", "rmeps"])
        if op == "lit":
            sc("lit %d %d %d %d %d" % (r, q, p, rng.randrange(100), rng.randrange(100, 256)))
        elif op == "eps":
            sc("eps %d %d %d" % (r, q, p))
        elif op == "setend":
            sc("setend %d %d %d" % (r, q, rng.randrange(2)))
        elif op in ("endid", "eager"):
            if op == "endid":
                sc("setend %d %d 1" % (r, q))
            for _ in range(rng.choice([1, 9])):
                sc("%s %d %d %d" % (op, r, q, rng.randrange(500)))
        elif op == "setendid":
            sc("setendid %d %d" % (r, rng.randrange(500)))
        elif op == "mapids":
            sc("mapids %d 0 1" % r)
        elif op == "rmstate" and n > 1:
            sc("rmstate %d %d" % (r, q))
            n -= 1
        elif op in ("addstate", "clearstart"):
            sc("%s %d" % (op, r))
            n += op == "addstate"
        elif op in ("det", "rmeps"):
            sc("%s %d" % (op, r))
            return


def some(rng, big=True):
    al = gen.any_alphabet(rng, rng.choice([1, 2, 3]))
    f = rng.choice([gen.nfa, gen.nfa, gen.dfa])
    m = rng.choice([1, 3, 5, 8, 8, 20 if big else 6])
    a = f(rng, m, al, ids=rng.choice([0, 2]), eager=rng.choice([0, 0, 2]))
    if rng.random() < .15:
        a.f = []
        a.i = []
    if rng.random() < .2:
        for q in a.f:
            for _ in range(rng.choice([1, 12])):
                a.i.append((q, rng.randrange(1000)))
    if rng.random() < .25:        # tails that go nowhere, and unreachable stretches
        n0 = a.n
        a.n += rng.choice([1, 2, 5, 40 if big else 3])
        for q in range(n0, a.n):
            a.t.append((rng.randrange(q), q, al[0]) if rng.random() < .5 else (q, rng.randrange(a.n), al[0]))
    return a


def make(rng, kind):
    sc = Script()
    a = some(rng, kind != "complete")
    sc.aut(a, 0)
    d0 = sc("dump 0")
    if kind in ("clone", "move"):
        if kind == "clone":
            ok = sc("clone 1 0")
        else:
            sc("new 1")
            ok = sc("move 1 0")
        d1 = sc("dump 1")
        pairs = [(d0, d1)]
        if kind == "clone":
            touch(rng, sc, 1, a.n)
            pairs.append((d0, sc("dump 0")))
            x = sc("clone 2 0")
            touch(rng, sc, 0, a.n)
            sc("free 0")
            sc("churn 50")
            pairs.append((d0, sc("dump 2")))
        return sc, (kind, ok, pairs)
    if kind == "trim":
        both = rng.choice([0, 1, 1])
        dist = both and rng.random() < .6
        if rng.random() < .3:          # trimming again removes nothing
            sc("trim 0 %d" % both)
            d0 = sc("dump 0")
        ok = sc("trim 0 %d%s" % (both, " 1" if dist else ""))
        return sc, (kind, ok, d0, sc("dump 0"), both)
    if kind == "merge":
        b = some(rng)
        sc.aut(b, 1)
        d1 = sc("dump 1")
        if rng.random() < .3:
            sc("vacuum 0")
        ok = sc("merge 2 0 1")
        return sc, (kind, ok, d0, d1, sc("dump 2"))
    if kind == "shuffle":
        ok = sc("shuffle 0 %d" % rng.choice([0, 1, 2, 3, 7, rng.randrange(1 << 31)]))
    elif kind == "vacuum":
        for _ in range(rng.choice([0, 30, 200])):
            sc("addstate 0")
        if len(sc.lines) > 20:
            sc("trim 0 0")
            d0 = sc("dump 0")
        ok = sc("vacuum 0")
    elif kind == "complete":
        ok = sc("complete 0 isdfa")
    return sc, (kind, ok, d0, sc("dump 0"))


KINDS = ["clone", "move", "trim", "trim", "trim", "merge", "merge", "shuffle", "shuffle", "vacuum", "complete", "complete"]


def run(chk):
    exe = drv()
    n = 6000 if not chk.thorough() else 60000
    scripts, info = {}, {}
    for i in range(n):
        sc, st = make(chk.rng, KINDS[i % len(KINDS)])
        scripts[i], info[i] = sc.lines, st
    for a in gen.all_nfas(2, [[97]], eps=True, startall=True):
        for kind in (0, 1):
            sc = Script()
            sc.aut(a, 0)
            d0 = sc("dump 0")
            ok = sc("trim 0 %d%s" % (kind, " 1" if kind else ""))
            i = len(scripts)
            scripts[i], info[i] = sc.lines, None
            info[i] = ("trim", ok, d0, sc("dump 0"), kind)
    res = run_driver(exe, scripts)
    lc = LangCases(chk, shards=6, workers=1)
    count = {}
    for i, vals in res.items():
        kind = info[i][0]
        if crashed(vals):
            chk.violation("%s: the process died (%s)" % (kind, crashed(vals)), {"script": scripts[i], "log": vals[-2:]})
            continue
        count[kind] = count.get(kind, 0) + 1
        with chk.guard(kind, scripts[i]):
            ok = vals[info[i][1]]
            good = ok["trim"] >= 0 if kind == "trim" else ok[0] if kind == "merge" else ok
            if not good:
                chk.violation("%s failed" % kind, {"script": scripts[i]})
                continue
            if kind in ("clone", "move"):
                ix = sorted(set(x for p in info[i][2] for x in p))
                lc.add([vals[x] for x in ix], [{"c": "same", "x": ix.index(p) + 1, "y": ix.index(q) + 1} for p, q in info[i][2]],
                       scripts[i], label=kind)
                for p, q in info[i][2]:
                    if vals[p]["ne"] != vals[q]["ne"]:
                        chk.violation("%s: edge count %d became %d" % (kind, vals[p]["ne"], vals[q]["ne"]), {"script": scripts[i]})
            elif kind == "trim":
                d0, d1, both = vals[info[i][2]], vals[info[i][3]], info[i][4]
                cl = [{"c": "same", "x": 2, "y": 3}, {"c": "removed", "x": 1, "y": 2, "r": ok["trim"]}]
                if 0 <= d0["s"] and d0["n"] <= 9:
                    cl.append({"c": "ids", "x": 1, "y": 2})
                if "dist" in ok:
                    cl.append({"c": "enddist", "x": 2, "d": ok["dist"]})
                lc.add([d0, d1], cl, scripts[i], [{"v": "trim", "x": 1, "both": both}], label="trim %d" % both)
            elif kind == "merge":
                d0, d1, r = (vals[x] for x in info[i][2:5])
                first, second = (1, 2) if ok[1] == 0 else (2, 1)
                if sorted(ok[1:3]) != [0, (d0, d1)[first - 1]["n"]] and d0["n"] and d1["n"]:
                    chk.violation("merge reports offsets %s for automata of %d and %d states" % (ok[1:3], d0["n"], d1["n"]), {"script": scripts[i]})
                    continue
                r = dict(r)
                r["s"] = -1
                lc.add([d0, d1, r], [{"c": "same", "x": 3, "y": 4}], scripts[i], [{"v": "side", "x": first, "y": second}], label="merge")
            elif kind == "complete":
                d0, d1 = vals[info[i][2]], vals[info[i][3]]
                if d0["s"] < 0:
                    continue
                cl = [{"c": "ids", "x": 1, "y": 2}, {"c": "isdfa", "x": 2}]
                if d1["n"]:
                    cl.append({"c": "complete", "x": 2})
                    isdfa = not d0["e"] and len(set((f, b) for f, t, lo, hi in d0["t"] for b in range(lo, hi + 1))) == \
                        len(set((f, t, b) for f, t, lo, hi in d0["t"] for b in range(lo, hi + 1)))
                    if isdfa:
                        cl.append({"c": "completes", "x": 1, "y": 2})
                lc.add([d0, d1], cl, scripts[i], label="complete")
            else:
                d0, d1 = vals[info[i][2]], vals[info[i][3]]
                cl = [{"c": "same" if kind == "vacuum" else "iso", "x": 1, "y": 2}] + [{"c": "ids", "x": 1, "y": 2}] * (d0["n"] <= 9)
                lc.add([d0, d1], cl, scripts[i], label=kind)
    bads = lc.judge()
    for cid, b in sorted(bads.items()):
        chk.violation(lc.describe(cid, b), {"script": lc.meta[cid]["script"], "case": lc.cases[cid - 1]}, key=lc.meta[cid]["label"])
    for cid in list(lc.meta)[:3]:
        chk.sample(" ; ".join(lc.meta[cid]["script"]))
    chk.extra["cases_by_operation"] = count
