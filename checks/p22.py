"""P22: automata of string sets."""
TECHNIQUE = 'TLA+ (TLC): the automaton recorded from re_strings(), in product with the union of the members\' automata built by the specification (StrPart in spec/LangCheck.tla), compared on acceptance and ids for all subjects'
NOTE = ("Every set is built twice (array and incremental API, with repeats and in shuffled order). Where the end is unanchored and members carry ids the library cannot keep ids "
        "past the member (known finding); there the language and ids are bounded above and below rather than compared exactly.")

from core import *
import gen

AL = (b"ab", b"ab", b"ab", b"abc", b"abcd", b"a\n", bytes([0, 255]), bytes([0, 1, 128]), b"a*", b"aA")
LEFT, RIGHT, AC = 1, 2, 4


def string_sets(chk):
    rng, deep = chk.rng, chk.thorough()
    out = []
    import itertools
    short = [bytes(w) for n in range(4) for w in itertools.product(b"ab", repeat=n)]
    pairs = [[x, y] for x in short for y in short if x <= y]
    out += pairs if deep else rng.sample(pairs, 80)
    for _ in range(9000 if deep else 1600):
        al = rng.choice(AL)
        n = rng.choice((1, 2, 2, 3, 3, 4, 5, 6, 8))
        base = bytes(rng.choice(al) for _ in range(rng.randint(2, 7)))
        m = []
        for _ in range(n):
            r = rng.random()
            if r < .45:      # a factor of one word: prefixes, suffixes and infixes of each other
                i, j = sorted((rng.randint(0, len(base)), rng.randint(0, len(base))))
                w = base[i:j]
            elif r < .6:
                i = rng.randint(0, len(base))
                w = base[i:] + bytes(rng.choice(al) for _ in range(rng.randint(0, 3)))
            else:
                w = bytes(rng.choice(al) for _ in range(rng.choice((0, 1, 1, 2, 2, 3, 4, 5))))
            if not w and rng.random() < .7:
                w = bytes([rng.choice(al)])
            m.append(w)
        out.append(m)
    # wide and deep tries: more nodes than the pool's block, all bytes, long members
    for _ in range(12 if deep else 3):
        out.append([bytes([b]) for b in rng.sample(range(256), 60)])
        out.append([bytes(rng.choice(b"ab") for _ in range(rng.randint(60, 120))) for _ in range(5)])
        out.append([b"a" * k + b"b" for k in range(rng.randint(12, 24))])
    out.append([])
    return out


def case(rng, members, flags, ids):
    ms = [{"s": list(w), "id": i} for w, i in zip(members, ids)]
    ins = list(zip(members, ids))
    ins += rng.sample(ins, min(len(ins), rng.choice((0, 0, 1, 2))))
    rng.shuffle(ins)
    toks = ["%s:%s" % ("n" if i < 0 else i, w.hex()) for w, i in ins]
    toks = [("s" + t[1:] if t[0] == "n" and b"\0" not in w and rng.random() < .5 else t) for t, (w, i) in zip(toks, ins)]
    script = ["strings 0 %d %s" % (flags, " ".join(toks)), "dump 0"]
    if all(i < 0 for i in ids) and not any(b"\0" in w for w in members):
        script += ["stringsv 1 %d %s" % (flags, " ".join(w.hex() or "-" for w, i in ins)), "dump 1"]
    return ms, [s.rstrip() for s in script]


def run(chk):
    rng = chk.rng
    lc = LangCases(chk, shards=8, workers=1)
    todo = []
    for f in chk.findings:
        todo.append(([w.encode("latin1") for w in f["members"]], f["flags"], f["ids"], f["key"]))
    for m in string_sets(chk):
        # sets of seen members grow too large when many of them may come in any order
        for flags in rng.sample(range(8) if len(m) < 10 else range(1, 8), 3):
            r = rng.random()
            if flags & (RIGHT | AC) or r < .2:
                ids = [k if r < .6 else rng.randint(0, 3) if r < .7 else rng.choice((-1, k, 7)) if r < .85 else -1 for k in range(len(m))]
                if rng.random() < .05:
                    ids = [i if i < 0 else 4294967295 - i for i in ids]
            else:
                ids = [-1] * len(m)
            todo.append((m, flags, ids, None))
    scripts, info = {}, {}
    for k, (m, flags, ids, key) in enumerate(todo):
        info[k], scripts[k] = case(rng, m, flags, ids)
    res = run_driver(drv(), scripts)
    for k, vals in res.items():
        m, flags, ids, key = todo[k]
        what = "strings flags %d %s" % (flags, " ".join("%r%s" % (w.decode("latin1"), "" if i < 0 else "=%d" % i) for w, i in zip(m, ids)))
        if crashed(vals):
            chk.violation("%s: the process died (%s)" % (what[:300], crashed(vals)), {"script": scripts[k], "log": vals[-2:]}, key=key or what)
            continue
        with chk.guard("building " + what[:300], scripts[k]):
            if not vals[0] or (len(vals) > 2 and not vals[2]):
                raise ValueError("not built")
            dumps = [vals[1]] + vals[3:4]
            pre, suf = flags & LEFT, 1 if flags & (RIGHT | AC) else 0
            n = len(dumps)
            known = sorted({i for i in ids if i >= 0})
            num = {i: j + 1 for j, i in enumerate(known)}          # ids as the specification's small numbers
            for d in dumps:
                d["ids"] = [[q] + [num.get(i, 0) for i in l] for q, *l in d["ids"]]
            virts = [{"v": "str", "m": [{"s": list(w), "id": num.get(i, -1)} for w, i in zip(m, ids)], "pre": 1 if pre else 0, "suf": suf}]
            claims = [{"c": "sat", "x": n + 1}] + [{"c": "isdfa", "x": j + 1} for j in range(n)]
            if suf or not known or key:
                claims += [{"c": "ids", "x": n + 1, "y": j + 1} for j in range(n)]
            else:
                virts.append(dict(virts[0], suf=1))
                # between "ends with a member" and "contains a member", and so its ids
                claims += [{"c": "sub", "x": 3, "y": 1}, {"c": "unionids", "z": 2, "x": [1, 2]}]
                if -1 not in ids:
                    claims += [{"c": "unionids", "z": 1, "x": [3, 1]}]
            lc.add(dumps, claims, scripts[k], virts, sets=[[b] for b in sorted(set(b"".join(m)))], label=what)
            lc.meta[len(lc.cases)]["key"] = key
            if k in (30, 500):
                chk.sample(what[:300])
    bads = lc.judge()
    for cid, b in sorted(bads.items(), key=lambda kv: len(lc.meta[kv[0]]["label"])):
        m = lc.meta[cid]
        if any(m["claims"][c - 1]["c"] == "sat" for x in b for c in x[0]):
            raise RuntimeError("byte classes too coarse for " + m["label"])
        chk.violation(lc.describe(cid, b)[:1500], {"script": m["script"], "case": lc.cases[cid - 1]}, key=m["key"] or m["label"])
    chk.extra.update(sets=len(todo))
