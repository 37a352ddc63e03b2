"""P09: examples, shortest paths, enumerated matches."""
TECHNIQUE = 'TLA+ (TLC): recorded paths, examples and enumerations compared with the least-cost paths and path sets computed by spec/PathCheck.tla'
NOTE = ("Shortest paths for unit, legible and byte-valued costs between any two states of generated epsilon-free automata; examples for every "
        "state with ample and tight buffers; enumerations (plain, randomised, pruned, halted) of generated DFAs, including those with "
        "unreachable and dead states, against the set of accepting state paths up to the limit.")

from core import *
import gen


def npaths(a, L):
    v = {a.s: 1}
    tot = 0
    succ = {}
    for f, t, bs in a.t:
        succ.setdefault(f, set()).add(t)
    for _ in range(L + 1):
        tot += sum(v.values())
        w = {}
        for q, c in v.items():
            for t in succ.get(q, ()):
                w[t] = w.get(t, 0) + c
        v = w
    return tot


def run(chk):
    exe = drv()
    rng = chk.rng
    n = 3000 if not chk.thorough() else 40000
    scripts, info = {}, {}
    for i in range(n):
        al = gen.any_alphabet(rng, rng.choice([1, 2, 3]))
        sc = Script()
        kind = ["path", "example", "gen", "gen"][i % 4]
        if kind == "gen":
            al = gen.alphabet(rng, rng.choice([1, 2, 3]))
            a = gen.dfa(rng, rng.choice([2, 3, 5, 7]), al)
            if rng.random() < .3:       # dead and unreachable states about it
                p = list(range(a.n + 2))
                rng.shuffle(p)
                q, x = a.n, a.n + 1
                a.n += 2
                a.t.append((q, rng.randrange(a.n), al[0]))
                taken = set((f, b) for f, t, bs in a.t for b in bs)
                y = rng.randrange(a.n - 2)
                free = [b for b in range(256) if (y, b) not in taken]
                if free:
                    a.t.append((y, x, [free[0]]))
                a.s, a.f = p[a.s], sorted(p[f] for f in a.f)
                a.t = [(p[f], p[t], bs) for f, t, bs in a.t]
            L = rng.choice([1, 2, 3, 4, 6, 9, 12])
            while L > 1 and npaths(a, L) > 300:
                L -= 1
            mode = rng.choice([0, 0, 1])
            cap = rng.choice([1, 2, 5, 100000, 100000, 100000])
            sc.aut(a, 0)
            d0 = sc("dump 0")
            g = sc("gen 0 %d %d %d" % (L, mode, cap) if rng.random() < .7 else
                   "genrand 0 %d %d %d %d" % (L, mode, cap, rng.randrange(1000)))
            st = (kind, d0, g, sc("dump 0"), L, mode, cap)
        else:
            a = (gen.nfa(rng, rng.choice([2, 4, 6]), al, eps=False) if rng.random() < .5 else gen.dfa(rng, rng.choice([2, 5, 8]), al))
            sc.aut(a, 0)
            d0 = sc("dump 0")
            if kind == "path":
                ps = []
                for _ in range(4):
                    s, g, c = (a.s if rng.random() < .6 else rng.randrange(a.n)), rng.randrange(a.n), rng.randrange(3)
                    ps.append((s, g, c, sc("shortest 0 %d %d %d" % (s, g, c))))
                st = (kind, d0, ps)
            else:
                bs = rng.choice([200, 200, 1, 4, 5, 6, 8, 0])
                st = (kind, d0, sc("example 0 %d" % bs), bs)
        scripts[i], info[i] = sc.lines, st
    res = run_driver(exe, scripts)
    cases = []
    nm = 0
    for i, vals in res.items():
        st = info[i]
        if crashed(vals):
            chk.violation("%s: the process died (%s)" % (st[0], crashed(vals)), {"script": scripts[i], "log": vals[-2:]})
            continue
        with chk.guard(st[0], scripts[i]):
            d = vals[st[1]]
            if st[0] == "path":
                w = []
                for s, g, c, x in st[2]:
                    if vals[x] is None:
                        chk.violation("fsm_shortest failed", {"script": scripts[i]})
                        continue
                    w.append({"c": "path", "te": d["t"], "n": d["n"], "s": s, "g": g, "cost": c, "p": vals[x]})
                cases.append({"id": i, "w": w})
            elif st[0] == "example":
                o = [[r[0], list(bytes.fromhex(r[1])), r[2], r[3]] for r in vals[st[2]]]
                cases.append({"id": i, "w": [{"c": "examples", "te": d["t"], "n": d["n"], "s": d["s"], "buf": st[3], "o": o}]})
            else:
                y = vals[st[3]]
                m = vals[st[2]]
                if m["rc"] != 1:
                    chk.violation("fsm_generate_matches failed", {"script": scripts[i]})
                    continue
                cls = classes([d, y])
                at = {b: k + 1 for k, c in enumerate(cls) for b in c}
                words = [[at[b] for b in bytes.fromhex(x[0])] for x in m["m"]]
                nm += len(words)
                for j, x in enumerate(m["m"]):
                    if x[2] != j or x[3] != 1:
                        chk.violation("match %d was reported as number %s, terminated: %s" % (j, x[2], x[3]), {"script": scripts[i]})
                cases.append({"id": i, "a": [project(d, cls), project(y, cls)],
                              "w": [{"c": "matches", "len": st[4], "prune": st[5], "cap": st[6], "m": words, "b": [x[1] + 1 for x in m["m"]]}]})
    outs, g, ds = tlc_shards("PathCheck", "PathCheck.cfg", cases, chk.work, "path", shards=7, workers=1)
    chk.states += ds
    chk.trans += g
    chk.traces += len(cases)
    for i, b in sorted(bad_lines(outs).items()):
        case = [c for c in cases if c["id"] == i][0]
        chk.violation("%s: %s is not what the specification allows" % (
            info[i][0], json.dumps(case["w"][b[0][0][0] - 1])[:400]), {"script": scripts[i]})
    for i in list(scripts)[:4]:
        chk.sample(" ; ".join(scripts[i]))
    chk.extra["matches_checked"] = nm
