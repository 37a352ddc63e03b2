"""P01: boolean operations, concatenation, character-set intersection."""
TECHNIQUE = 'TLA+ (TLC): trace validation of recorded operations against the automata semantics, exhaustive product walk'
NOTE = "Each recorded operation's operands and result are walked together by TLC over every word of every length (exact symbol classes over all 256 bytes). Covers the generated operands (seeded, plus exhaustive small families in the thorough tier); operands without a start state are outside the property. Trusts the driver's projection through the public API."

from core import *
import gen

OPS = ["union", "inter", "sub", "concat", "compl", "charset"]


def make(rng, op):
    k = rng.choice([1, 2, 2, 3])
    al = gen.alphabet(rng, k)
    al2 = al if rng.random() < 0.7 else gen.alphabet(rng, rng.choice([1, 2]))
    mk = lambda a_: (gen.dfa if rng.random() < 0.35 else gen.nfa)(rng, rng.choice([2, 3, 4, 5]), a_)
    sc, steps = [], None
    if op == "charset":
        a = gen.dfa(rng, 6, al)
        cs = set()
        for bs in al:
            r = rng.random()
            if r < 0.5:
                cs |= set(bs)
            elif r < 0.75:
                cs |= set(rng.sample(bs, max(1, len(bs) // 2)))
        if rng.random() < 0.2:
            cs |= {rng.randrange(256)}
        cs = sorted(cs)
        rng.shuffle(cs)
        sc = a.cmds(0) + ["dump 0", "charset 1 0 %s" % (bytes(cs).hex() or "-"), "dump 1"]
        return sc, {"bytes": sorted(cs)}
    if op == "compl":
        a = mk(al)
        if rng.random() < 0.25:      # already complete, perhaps nondeterministic
            a = gen.dfa(rng, 4, al, complete=True)
            if rng.random() < 0.5:
                a.e.append((rng.randrange(a.n), rng.randrange(a.n)))
            if rng.random() < 0.5:
                a.t.append((rng.randrange(a.n), rng.randrange(a.n), rng.choice(al)))
        return a.cmds(0) + ["dump 0", "compl 0", "dump 0"], {"start": a.s}
    a, b = mk(al), mk(al2)
    sc = a.cmds(0) + b.cmds(1) + ["dump 0", "dump 1", "%s 2 0 1" % op, "dump 2"]
    return sc, {"start": None if a.s is None or b.s is None else 1, "aends": bool(a.f)}


def run(chk):
    n = 1500 if not chk.thorough() else 16000
    exe = drv()
    scripts, info = {}, {}
    for i in range(n):
        op = OPS[i % len(OPS)]
        sc, inf = make(chk.rng, op)
        scripts[i], info[i] = sc, (op, inf)
    for k in range(12 if not chk.thorough() else 40):     # products of well over a thousand states
        al = [[97], [98], [99]]
        x, y = gen.big(chk.rng, chk.rng.choice([37, 41, 43]), al), gen.big(chk.rng, chk.rng.choice([36, 40, 47]), al)
        op = ["inter", "sub", "union"][k % 3]
        i = len(scripts)
        scripts[i] = x.cmds(0) + y.cmds(1) + ["dump 0", "dump 1", "%s 2 0 1" % op, "dump 2"]
        info[i] = (op, {"start": 1, "aends": True})
    if chk.thorough():       # every ordered pair of 2-state NFAs over one letter
        al = [[97]]
        small = list(gen.all_nfas(2, al, eps=True))
        for x in small:
            for y in small[::3]:
                op = OPS[len(scripts) % 4]
                i = len(scripts)
                scripts[i] = x.cmds(0) + y.cmds(1) + ["dump 0", "dump 1", "%s 2 0 1" % op, "dump 2"]
                info[i] = (op, {"start": 1, "aends": bool(x.f)})
    res = run_driver(exe, scripts)
    lc = LangCases(chk, shards=4)
    refused = {}
    for i, vals in res.items():
        op, inf = info[i]
        if crashed(vals):
            chk.violation("%s: the process died (%s)" % (op, crashed(vals)), {"script": scripts[i], "log": vals[-3:]},
                          key=op + "-crash")
            continue
        dumps = [v for v in vals if isinstance(v, dict) and "n" in v]
        if op == "charset":
            if vals[-2] is None:
                chk.violation("charset refused", {"script": scripts[i]})
                continue
            lc.add([dumps[1], dumps[0]], [{"c": "eq", "x": 1, "y": 3}], scripts[i],
                   [{"v": "restrict", "x": 2, "bytes": inf["bytes"]}], label="charset")
        elif op == "compl":
            if inf["start"] is None:
                continue
            if vals[-3] != 1:
                chk.violation("complement refused", {"script": scripts[i]})
                continue
            lc.add(dumps, [{"c": "compl", "x": 1, "y": 2}], scripts[i], label=op)
        else:
            if vals[-2] is None:
                refused[op] = refused.get(op, 0) + 1
                if inf["start"] is not None and not (op == "concat" and not inf["aends"]):
                    chk.violation("%s refused two automata with start states" % op, {"script": scripts[i]})
                continue
            if inf["start"] is None and op != "concat":
                pass
            if op == "concat":
                lc.add(dumps, [{"c": "eq", "x": 3, "y": 4}], scripts[i], [{"v": "concat", "x": 1, "y": 2}], label=op)
            else:
                c = {"union": "union", "inter": "inter", "sub": "minus"}[op]
                lc.add(dumps, [{"c": c, "x": 1, "y": 2, "z": 3}], scripts[i], label=op)
    bads = lc.judge()
    for cid, b in sorted(bads.items()):
        m = lc.meta[cid]
        chk.violation(lc.describe(cid, b), {"script": m["script"], "spec": "LangCheck.tla", "case": lc.cases[cid - 1]},
                      key=m["label"])
    for cid in list(lc.meta)[:3]:
        chk.sample(" ; ".join(lc.meta[cid]["script"]))
    chk.extra["refused"] = refused
    chk.extra["cases_by_operation"] = {o: sum(1 for x in info.values() if x[0] == o) for o in OPS}
