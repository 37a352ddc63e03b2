"""P05: end ids through any pipeline."""
TECHNIQUE = 'TLA+ (TLC): trace validation of recorded pipelines, each step judged by an exhaustive product walk carrying id sets'
NOTE = ("Every step of each generated pipeline (union, array union, concatenation, clone, renumber, trim, epsilon removal, "
        "determinise, minimise, tag, remap, increment) is judged on its own against the recorded state before it, for every word; "
        "id lists read back are checked sorted, unique and complete. Pipelines are generated (seeded); ids below 2^31.")

from core import *
import gen

MAPS = {0: lambda k, i: i + k, 1: lambda k, i: i // k, 2: lambda k, i: i % k,
        3: lambda k, i: k - i}


def leaf(rng, al, big=False):
    a = (gen.dfa if rng.random() < 0.4 else gen.nfa)(rng, rng.choice([2, 3, 4]), al, ids=rng.choice([0, 1, 2, 3]))
    if not a.f:
        a.f = [rng.randrange(a.n)]
    if rng.random() < 0.3:         # long id lists, inserted out of order and repeatedly
        q = rng.choice(a.f)
        pool = rng.sample(range(0, 5000), rng.choice([8, 9, 17, 33, 70, 140]))
        pool += rng.sample(pool, len(pool) // 3)
        rng.shuffle(pool)
        a.i += [(q, i) for i in pool]
    return a


def chain(rng):
    """Many end states with ids: the id table grows."""
    n = rng.choice([20, 33, 70, 150])
    a = gen.A(n, 0)
    for q in range(n - 1):
        a.t.append((q, q + 1, [97]))
        if rng.random() < 0.1:
            a.t.append((q, rng.randrange(n), [98]))
    a.f = [q for q in range(n) if rng.random() < 0.85]
    for q in a.f:
        for _ in range(rng.choice([0, 1, 1, 2, 5])):
            a.i.append((q, rng.randrange(300)))
    rng.shuffle(a.i)
    return a


def dense(rng, al):
    """A few end states with very many ids each: a state's own list of ids grows."""
    a = gen.nfa(rng, 4, al)
    for q in a.f:
        k = rng.choice([0, 1, 15, 16, 17, 31, 33, 64, 65, 100])
        ids = rng.sample(range(rng.choice([k + 1, 200, 100000])), k)
        a.i += [(q, x) for x in ids] + [(q, x) for x in ids[:3]]
    rng.shuffle(a.i)
    return a


def make(rng):
    """-> Script, steps: (label, operand value indices, result index, op, data, ok index)"""
    sc = Script()
    steps = []
    al = gen.alphabet(rng, rng.choice([1, 2, 2]))
    live = {}
    nreg = 0
    for _ in range(rng.choice([1, 2, 2, 3, 3, 4])):
        k = rng.random()
        a = chain(rng) if k < 0.06 else dense(rng, al) if k < 0.12 else leaf(rng, al if rng.random() < 0.8 else gen.any_alphabet(rng, 2))
        sc.aut(a, nreg)
        live[nreg] = [sc("dump %d" % nreg), a.f]
        nreg += 1
    dfa = set()
    made = dict((r, False) for r in live)
    for _ in range(rng.randint(2, 7)):
        rs = sorted(live)
        r = rng.choice(rs)
        op = rng.choice(["union", "union", "unionarr", "concat", "clone", "shuffle", "vacuum", "trim", "rmeps", "det", "det",
                         "min", "min", "setendid", "mapids", "incr", "complete", "move"])
        if op in ("union", "concat", "unionarr") and len(rs) < 2:
            op = "det"
        if op == "union" or op == "concat":
            a, b = rng.sample(rs, 2)
            pre = [live[a][0], live[b][0]]
            ok = sc("%s %d %d %d" % (op, nreg, a, b))
            del live[a], live[b]
            live[nreg] = [sc("dump %d" % nreg)]
            steps.append((op, pre, live[nreg][0], None, ok))
            nreg += 1
        elif op == "unionarr":
            k = rng.randint(2, len(rs))
            xs = rng.sample(rs, k)
            pre = [live[x][0] for x in xs]
            ok = sc("unionarr %d %d %s" % (nreg, k, " ".join(map(str, xs))))
            for x in xs:
                del live[x]
            live[nreg] = [sc("dump %d" % nreg)]
            steps.append((op, pre, live[nreg][0], None, ok))
            nreg += 1
        elif op == "clone":
            ok = sc("clone %d %d" % (nreg, r))
            steps.append((op, [live[r][0]], sc("dump %d" % nreg), None, ok))
            steps.append((op, [live[r][0]], sc("dump %d" % r), None, ok))
            live[nreg] = [steps[-2][2]]
            nreg += 1
        elif op == "move":
            sc("new %d" % nreg)
            ok = sc("move %d %d" % (nreg, r))
            steps.append((op, [live[r][0]], sc("dump %d" % nreg), None, ok))
            del live[r]
            live[nreg] = [steps[-1][2]]
            nreg += 1
        else:
            data = None
            if op == "min":
                d0 = sc("det %d" % r)
                x = sc("dump %d" % r)
                steps.append(("det", [live[r][0]], x, None, d0))
                live[r] = [x]
                cmd = "min %d" % r
            elif op == "shuffle":
                cmd = "shuffle %d %d" % (r, rng.randrange(100))
            elif op == "trim":
                cmd = "trim %d %d" % (r, rng.randrange(2))
            elif op == "setendid":
                data = rng.choice([0, 1, 2, 77, 4999, 1 << 30])
                cmd = "setendid %d %d" % (r, data)
            elif op == "mapids":
                m = rng.choice([0, 1, 1, 2, 3, 3])
                k = {0: rng.choice([1, 1000]), 1: rng.choice([2, 3, 100]), 2: rng.choice([2, 3, 50]), 3: (1 << 30) + 10000}[m]
                data = (m, k)
                cmd = "mapids %d %d %d" % (r, m, k)
            elif op == "incr":
                data = (0, rng.choice([1, 5, 1000]))
                cmd = "incr %d %d" % (r, data[1])
            elif op == "complete":
                cmd = "complete %d isdfa" % r
                op = "det"
                cmd = "det %d" % r
            else:
                cmd = "%s %d" % (op, r)
            ok = sc(cmd)
            x = sc("dump %d" % r)
            steps.append((op, [live[r][0]], x, data, ok))
            live[r] = [x]
    return sc, steps


def run(chk):
    exe = drv()
    n = 1500 if not chk.thorough() else 25000
    scripts, info = {}, {}
    for i in range(n):
        sc, st = make(chk.rng)
        scripts[i], info[i] = sc.lines, st
    res = run_driver(exe, scripts)
    lc = LangCases(chk, shards=6, workers=1)
    ops = {}
    seen_ends = {}
    for i, vals in res.items():
        if crashed(vals):
            chk.violation("pipeline: the process died (%s)" % crashed(vals), {"script": scripts[i], "log": vals[-3:]})
            continue
        with chk.guard("pipeline", scripts[i]):
            for op, pre, post, data, ok in info[i]:
                good = vals[ok] if not isinstance(vals[ok], list) else vals[ok][0]
                if isinstance(good, dict):
                    good = good.get("ok", good.get("trim", -1) >= 0)
                ds = [vals[p] for p in pre]
                if op == "concat" and good == 0 and not ds[0]["f"]:
                    break                      # documented refusal: nothing to follow on from
                if any(d["s"] < 0 for d in ds):
                    break                      # the language went empty and with it the start state
                if op not in ("mapids", "incr", "setendid", "move") and good != 1:
                    chk.violation("%s failed" % op, {"script": scripts[i]})
                    break
                r = vals[post]
                if r["n"] > 250 or sum(d["n"] for d in ds) > 400:
                    break
                ops[op] = ops.get(op, 0) + 1
                z = len(ds) + 1
                virt = []
                if op in ("union", "unionarr"):
                    cl = [{"c": "unionids", "x": list(range(1, z)), "z": z}]
                elif op == "concat":
                    virt = [{"v": "concat", "x": 1, "y": 2}]
                    cl = [{"c": "ids", "x": 3, "y": 4}]
                elif op == "setendid":
                    cl = [{"c": "tagged", "x": 1, "y": 2, "id": data}]
                elif op in ("mapids", "incr"):
                    f = MAPS[data[0]]
                    allids = sorted(set(x for row in ds[0]["ids"] for x in row[1:]))
                    m = [[x, f(data[1], x)] for x in allids if f(data[1], x) is not None]
                    cl = [{"c": "mapids", "x": 1, "y": 2, "m": m}]
                elif op in ("clone", "move", "vacuum"):
                    cl = [{"c": "same", "x": 1, "y": 2}]
                else:
                    cl = [{"c": "ids", "x": 1, "y": 2}]
                cl.append({"c": "idsorted", "x": z})
                lc.add(ds + [r], cl, scripts[i], virt, label="pipeline step " + op)
    bads = lc.judge()
    for cid, b in sorted(bads.items()):
        chk.violation(lc.describe(cid, b), {"script": lc.meta[cid]["script"], "case": lc.cases[cid - 1]},
                      key=lc.meta[cid]["label"])
    for cid in list(lc.meta)[:3]:
        chk.sample(" ; ".join(lc.meta[cid]["script"]))
    chk.extra["steps_by_operation"] = ops
