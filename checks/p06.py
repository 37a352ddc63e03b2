"""P06: the automaton-building interface."""
TECHNIQUE = ('TLA+ (TLC): behaviours of spec/Api.tla generated by TLC simulation and replayed call by call into the library; every recorded '
             'state and return value checked against the specification by TLC trace validation')
NOTE = ("Api.tla gives one exact outcome per public call (states, edges, epsilons, marks, end ids, eager outputs, return values). "
        "Behaviours come from TLC's simulator (small automata, all calls interleaved) and from longer seeded histories over larger ones; "
        "after every call the whole automaton read back through the library must be the specification's. Letters stand for byte sets "
        "including 0, 255 and 64-bit word boundaries.")

import re, json
from concurrent.futures import ThreadPoolExecutor
from core import *
import gen


def generate(chk, procs, num, depth, nmax):
    """TLC walks ApiGen and prints the histories."""
    def one(k):
        rc, out, g, d = tlc("ApiGen", "ApiGen.cfg", {"DEPTH": str(depth[k % len(depth)]), "NMAX": str(nmax[k % len(nmax)])},
                            workers=1, args=["-simulate", "num=%d" % num, "-depth", str(depth[k % len(depth)] + 1),
                                             "-seed", str(chk.seed * 1000 + k)])
        if rc != 0:
            raise TlcError("ApiGen: " + tail(out))
        hs = []
        for ln in out.split("\n"):
            if ln.startswith('"HIST '):
                hs.append(json.loads(json.loads(ln)[5:]))
        m = re.search(r"number of states generated: (\d+)", out)
        chk.trans += int(m.group(1)) if m else 0
        # the walk's last step is printed once per alternative: keep a few of each
        return hs
    with ThreadPoolExecutor(max_workers=procs) as ex:
        out = []
        for hs in ex.map(one, range(procs)):
            out += hs
    return out


def long_history(rng):
    """Bigger automata than the simulator's walks: chosen with the state count alone."""
    h = []
    n = 0
    ends = set()
    wide = rng.random() < .06            # past the states allocated at first
    for _ in range(60 if wide else rng.choice([40, 80, 160])):
        op = rng.choice(["addstate", "addstates", "addstates", "rmstate", "rmstate", "setstart", "setend", "setend", "lit", "lit", "lit",
                         "lit", "any", "eps", "eps", "endid", "endid", "eager", "setendid", "incr", "mapids", "compact", "mergestates",
                         "subgraph", "clone", "vacuum", "eagerends", "collate"])
        S = lambda: rng.choice([rng.randrange(n), n - 1, 0]) + 1
        if n == 0 and op not in ("addstate", "addstates"):
            continue
        if op == "addstate":
            h.append({"op": op})
            n += 1
        elif op == "addstates":
            if n > (200 if wide else 60):
                continue
            k = rng.choice([1, 2, 5, 30] if not wide else [1, 30, 64, 127, 130])
            h.append({"op": op, "k": k})
            n += k
        elif op == "rmstate":
            a = S()
            h.append({"op": op, "a": a})
            ends = {a if q == n else q for q in ends if q != a}
            n -= 1
        elif op == "setstart":
            h.append({"op": op, "a": S()})
        elif op == "setend":
            a, k = S(), rng.choice([0, 1, 1, 1, 5, -1])
            h.append({"op": op, "a": a, "k": k})
            (ends.add if k else ends.discard)(a)
        elif op == "lit":
            for _ in range(rng.choice([1, 1, 6])):
                h.append({"op": op, "a": S(), "b": S(), "k": rng.randint(1, 3)})
        elif op in ("any", "eps"):
            h.append({"op": op, "a": S(), "b": S()})
        elif op == "endid":
            if not ends:
                continue
            a = rng.choice(sorted(ends))
            for _ in range(rng.choice([1, 2, 12])):
                h.append({"op": op, "a": a if rng.random() < .6 else rng.choice(sorted(ends)), "k": rng.choice([rng.randrange(10), rng.randrange(1 << 20)])})
        elif op == "eager":
            for _ in range(rng.choice([1, 2, 12])):
                h.append({"op": op, "a": S(), "k": rng.randrange(40)})
        elif op in ("setendid", "eagerends"):
            if not ends:
                continue
            h.append({"op": op, "k": rng.randrange(50)})
        elif op == "incr":
            h.append({"op": op, "k": rng.choice([1, 3])})
        elif op == "mapids":
            a = rng.randrange(4)
            h.append({"op": op, "a": a, "k": {0: 3, 1: rng.choice([2, 7]), 2: rng.choice([2, 40]), 3: 1 << 29}[a]})
            if a == 3:
                h.append({"op": op, "a": 1, "k": 1000})
        elif op == "compact":
            if n < 4:
                continue
            ks = [1 if rng.random() < .85 else 0 for _ in range(n)]
            if not any(ks):
                continue
            h.append({"op": op, "ks": ks})
            new = {}
            for q in range(1, n + 1):
                if ks[q - 1]:
                    new[q] = len(new) + 1
            ends = {new[q] for q in ends if q in new}
            n = len(new)
        elif op == "mergestates":
            if n < 3:
                continue
            a, b = S(), S()
            h.append({"op": op, "a": a, "b": b})
            if a != b:
                ends = {a if q == b else q for q in ends}
                ends = {b if q == n else q for q in ends}
                n -= 1
        elif op == "subgraph":
            a = rng.randrange(n) + 1
            b = rng.randint(a + 1, n + 1)
            if n + b - a > 90:
                continue
            h.append({"op": op, "a": a, "b": b, "k": rng.randint(a, b - 1)})
            ends |= {q + n + 1 - a for q in ends if a <= q < b}
            n += b - a
        elif op == "collate":
            h.append({"op": op})
            if len(ends) > 1:
                n += 1
        else:
            h.append({"op": op})
    return h


def alphabets(rng):
    al = gen.alphabet(rng, 3)
    used = set(b for bs in al for b in bs)
    rest = [b for b in range(256) if b not in used]
    return al + ([rest] if rest else [])


def render(h, cls, rng):
    """history -> Script, [(op record, result index, dump index)]"""
    sc = Script()
    ev = []
    r = 0
    x = sc("new 0" if rng.random() < .6 else "new 0 %d" % rng.choice([0, 1, 2, 500]))
    ev.append(({"op": "new"}, x, sc("dump 0")))
    for o in h:
        op = o["op"]
        a, b, k = o.get("a", 1) - 1, o.get("b", 1) - 1, o.get("k", 0)
        if op == "lit":
            xs = [sc("lit %d %d %d %d %d" % (r, a, b, lo, hi)) for lo, hi in gen.ranges(cls[k - 1])]
            x = xs[-1]
        elif op in ("addstate", "addstatenull", "vacuum", "clearstart"):
            x = sc("%s %d" % (op, r))
        elif op in ("addstates", "setendid", "eagerends", "incr"):
            x = sc("%s %d %d" % (op, r, k))
        elif op in ("rmstate", "setstart"):
            x = sc("%s %d %d" % (op, r, a))
        elif op in ("setend", "endid", "eager"):
            x = sc("%s %d %d %d" % (op, r, a, k))
        elif op in ("any", "eps", "mergestates"):
            x = sc("%s %d %d %d" % (op, r, a, b))
        elif op == "mapids":
            x = sc("mapids %d %d %d" % (r, o["a"], k))
        elif op == "compact":
            x = sc("compact %d %s" % (r, "".join(map(str, o["ks"]))))
        elif op == "trim":
            x = sc("trim %d %d" % (r, k))
        elif op == "subgraph":
            x = sc("subgraph %d %d %d %d" % (r, a, b, k - 1))
        elif op == "collate":
            x = sc("collate %d isend" % r)
        elif op == "clone":
            x = sc("clone %d %d" % (1 - r, r))
            if rng.random() < .5:
                # go on with the copy; the original is changed, then checked, then dropped
                r = 1 - r
            sc("null %d" % (1 - r)) if rng.random() < .3 else sc("free %d" % (1 - r))
        elif op == "move":
            sc("new %d" % (1 - r))
            x = sc("move %d %d" % (1 - r, r))
            r = 1 - r
        ev.append((o, x, sc("dump %d" % r)))
    return sc, ev


def returned(o, v):
    op = o["op"]
    if op in ("addstate", "mergestates"):
        return [v[0], v[1] + 1] if v[0] == 1 else [v[0]]
    if op == "collate":
        return [1, v[1] + 1] if v[0] == 1 else [0]
    if op == "subgraph":
        return [v[0], v[1] + 1, v[2] + 1]
    if op == "trim":
        return [v["trim"]]
    if op == "compact":
        return v
    return [v]


def run(chk):
    exe = drv()
    if chk.thorough():
        hist = generate(chk, 16, 1500, [30, 12, 60, 20], [7, 4, 12, 6])
        keep, nlong = 24000, 1500
    else:
        hist = generate(chk, 8, 200, [25, 12, 40, 18], [7, 4, 10, 5])
        keep, nlong = 2400, 120
    chk.rng.shuffle(hist)
    hist = hist[:keep] + [long_history(chk.rng) for _ in range(nlong)]
    scripts, info = {}, {}
    for i, h in enumerate(hist):
        cls = alphabets(chk.rng)
        sc, ev = render(h, cls, chk.rng)
        scripts[i], info[i] = sc.lines, (cls, ev)
    res = run_driver(exe, scripts)
    cases = []
    ops = {}
    for i, vals in res.items():
        if crashed(vals):
            chk.violation("history: the process died (%s)" % crashed(vals), {"script": scripts[i], "log": vals[-2:]})
            continue
        cls, ev = info[i]
        with chk.guard("history", scripts[i]):
            tr = []
            for o, x, d in ev:
                dump = vals[d]
                p = project(dump, cls)
                p["dup"], p["ne"], p["rawe"] = dump["dup"], dump["ne"], dump["rawe"]
                e = dict(o)
                e["d"], e["r"] = p, returned(o, vals[x])
                tr.append(e)
                ops[o["op"]] = ops.get(o["op"], 0) + 1
            cases.append({"id": i, "k": len(cls), "bytes": cls, "tr": tr})
    outs, g, d = tlc_shards("ApiTrace", "ApiTrace.cfg", cases, chk.work, "api", shards=8, workers=1)
    chk.states += d
    chk.trans += g
    chk.traces += len(cases)
    NAMES = {1: "the automaton", 2: "the returned value", 3: "the order of end ids", 4: "the edge counts"}
    for i, b in sorted(bad_lines(outs).items()):
        c, w = min(b, key=lambda x: x[1])
        o, x, dd = info[i][1][w[0] - 1]
        chk.violation("after call %d (%s): %s differ(s) from the specification's" % (
            w[0], json.dumps(o), ", ".join(NAMES[k] for k in c)),
            {"script": scripts[i], "call": o, "returned": res[i][x], "dump": res[i][dd]}, key=o["op"])
    for i in list(scripts)[:3]:
        chk.sample(" ; ".join(l for l in scripts[i] if not l.startswith("dump")))
    chk.extra["calls_by_operation"] = ops
