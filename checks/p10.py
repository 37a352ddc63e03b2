"""P10: required characters."""
TECHNIQUE = ('TLA+ (TLC): the reported set and count compared with the set of bytes occurring in every accepted word, computed in '
             'spec/Preds.tla by removing each byte and asking whether any word is left')
NOTE = ("Generated DFAs (seeded), trimmed as the interface requires, with joins, bypasses, loops, long chains, characters required only "
        "through several paths at once, and empty languages; step limits from none to ample. A reported limit must leave no answer "
        "and any answer must be exact.")

from core import *
import gen


def joins(rng):
    """Chains of forced characters with alternative stretches between."""
    a = gen.A(1, 0)
    q = 0
    for _ in range(rng.choice([1, 2, 3, 5])):
        if rng.random() < .5:
            a.t.append((q, a.n, [rng.randrange(256) if rng.random() < .3 else rng.choice([97, 98, 99, 0, 255, 64, 128])]))
            q = a.n
            a.n += 1
        else:                   # branches which meet again
            k = rng.choice([2, 2, 3])
            heads = rng.sample(range(256), k)
            common = rng.choice([97, 98, 120])
            end = a.n
            a.n += 1
            for h in heads:
                x = q
                word = [h] + [rng.choice([97, 98, 99, 120]) for _ in range(rng.choice([0, 1, 3]))] + ([common] if rng.random() < .8 else [])
                for c in word[:-1]:
                    a.t.append((x, a.n, [c]))
                    x = a.n
                    a.n += 1
                a.t.append((x, end, [word[-1]]))
            q = end
        if rng.random() < .2:
            free = [b for b in range(256) if not any(f == q and b in bs for f, t, bs in a.t)]
            a.t.append((q, rng.randrange(a.n), [rng.choice(free)]))
    a.f = [q] + ([rng.randrange(a.n)] if rng.random() < .15 else [])
    # keep it deterministic
    seen, t = set(), []
    for f, to, bs in a.t:
        bs = [b for b in bs if (f, b) not in seen]
        seen |= set((f, b) for b in bs)
        if bs:
            t.append((f, to, bs))
    a.t = t
    return a


def run(chk):
    exe = drv()
    rng = chk.rng
    n = 4000 if not chk.thorough() else 60000
    scripts, info = {}, {}
    for i in range(n):
        if i % 3:
            a = joins(rng)
        else:
            al = gen.alphabet(rng, rng.choice([1, 2, 3]))
            a = gen.dfa(rng, rng.choice([1, 2, 4, 6, 9]), al)
            if rng.random() < .05:
                a.f = []
        sc = Script()
        sc.aut(a, 0)
        if rng.random() < .8:
            sc("trim 0 1")
        d0 = sc("dump 0")
        lims = [0] + ([rng.choice([1, 2, 3, 5, 9, 20, 60])] if rng.random() < .6 else [])
        xs = [(l, sc("required 0 %d%s" % (l, " x" if l and rng.random() < .2 else ""))) for l in lims]
        scripts[i], info[i] = sc.lines, (d0, xs, sc("dump 0"))
    res = run_driver(exe, scripts)
    lc = LangCases(chk, shards=7, workers=1)
    limited = 0
    for i, vals in res.items():
        if crashed(vals):
            chk.violation("required characters: the process died (%s)" % crashed(vals), {"script": scripts[i], "log": vals[-2:]})
            continue
        with chk.guard("required characters", scripts[i]):
            d0, xs, d1 = info[i]
            cl = []
            if vals[d0] != vals[d1]:
                chk.violation("fsm_detect_required_characters changed the automaton", {"script": scripts[i]})
            sets = [set(vals[x]["set"]) for l, x in xs if vals[x]["rc"] == 0] + [set([b]) for l, x in xs for b in vals[x]["set"]]
            cls = classes([vals[d0]], sets)
            at = {b: k + 1 for k, c in enumerate(cls) for b in c}
            for l, x in xs:
                r = vals[x]
                if vals[d0]["s"] < 0 and r["rc"] == -1:
                    continue            # without a start the question is refused
                if r["rc"] == 1 and l:
                    limited += 1
                    if r["set"]:
                        chk.violation("the step limit was reported along with a set", {"script": scripts[i], "got": r})
                    continue
                if r["rc"] != 0:
                    chk.violation("fsm_detect_required_characters returned %s with limit %d" % (r["rc"], l), {"script": scripts[i], "got": r})
                    continue
                cl.append({"c": "required", "x": 1, "set": sorted(at[b] for b in r["set"]), "n": [len(c) for c in cls]})
                if r["count"] not in (9999, len(r["set"])):
                    chk.violation("required count %d for a set of %d" % (r["count"], len(r["set"])), {"script": scripts[i], "got": r})
            if cl:
                lc.add([vals[d0]], cl, scripts[i], cls=cls, label="required characters")
    bads = lc.judge()
    for cid, b in sorted(bads.items()):
        chk.violation(lc.describe(cid, b), {"script": lc.meta[cid]["script"], "case": lc.cases[cid - 1], "classes": lc.meta[cid]["cls"]})
    for cid in list(lc.meta)[:3]:
        chk.sample(" ; ".join(lc.meta[cid]["script"]))
    chk.extra["step_limits_reported"] = limited
