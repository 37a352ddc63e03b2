"""P34: operations compose: what one operation returns is, to every other, an automaton like any other."""
TECHNIQUE = 'TLA+ (TLC): trace validation of recorded programs of library operations, every step judged on its own by an exhaustive product walk'
NOTE = ("Programs of up to 16 operations (boolean operations, concatenation, array union, character-set intersection, reversal, complement, completion, "
        "determinise, minimise, epsilon removal, trim, clone, move, shuffle, vacuum, merging of states, parsing patterns) act directly on the results of each other; the "
        "automaton is recorded after each, and each record must follow from the record before it for every word, as the specification of that operation says "
        "(spec/LangCheck.tla). In between, queries are asked (emptiness, equality, predicates, examples, execution, generation, printing, required characters) "
        "whose answers are judged too and which must leave the automaton as it was. Seeded programs; automata of more than 60 states are followed but not judged.")

from core import *
import gen, regen

LANGS = ["api", "c", "dot", "fsm", "json", "irjson", "rust", "vmc", "awk", "go"]


def leaf(rng, sc, r, al):
    k = rng.random()
    if k < .2:
        t = regen.Gen(rng, "pcre", letters=b"aabbc").pattern(rng.choice((1, 2, 2)))
        return sc("re %d pcre %d %s" % (r, rng.choice((0, 64)), t.hex() or "-"))
    if k < .28:
        w = ["n:%s" % (bytes(rng.choice(b"abc") for _ in range(rng.randint(0, 3))).hex() or "-") for _ in range(rng.randint(1, 3))]
        return sc("strings %d %d %s" % (r, rng.randrange(4), " ".join(w)))
    a = (gen.dfa if rng.random() < .35 else gen.nfa)(rng, rng.choice((1, 2, 3, 4)), al if rng.random() < .8 else gen.any_alphabet(rng, 2), ids=rng.choice((0, 0, 2)))
    if not a.f and rng.random() < .8:
        a.f = [rng.randrange(a.n)]
    sc.aut(a, r)


def make(rng):
    """-> script, steps: (op, operand values, result value, data, answer)"""
    sc, steps, live, n = Script(), [], {}, 0
    al = gen.alphabet(rng, rng.choice((1, 2, 2, 3)))

    def new():
        nonlocal n
        leaf(rng, sc, n, al)
        live[n] = sc("dump %d" % n)
        n += 1
    for _ in range(rng.choice((1, 2, 2, 3))):
        new()
    for _ in range(rng.randint(4, 16)):
        if n > 28:
            break
        r = rng.choice(sorted(live))
        op = rng.choice(("union", "inter", "inter", "sub", "sub", "concat", "unionarr", "charset", "rev", "compl", "compl", "complete", "det", "det", "min", "min",
                         "rmeps", "trim", "trim", "clone", "move", "shuffle", "vacuum", "query", "query", "query"))
        if op in ("union", "inter", "sub", "concat", "unionarr"):
            while len(live) < 2:
                new()
            xs = rng.sample(sorted(live), 2 if op != "unionarr" else rng.randint(2, len(live)))
            pre = [live.pop(x) for x in xs]
            ok = sc("%s %d %s" % (op, n, " ".join(map(str, ([len(xs)] if op == "unionarr" else []) + xs))))
            live[n] = sc("dump %d" % n)
            steps.append((op, pre, live[n], None, ok))
            n += 1
            continue
        if op in ("clone", "move"):
            if op == "move":
                sc("new %d" % n)
            ok = sc("%s %d %d" % (op, n, r))
            x = sc("dump %d" % n)
            steps.append((op, [live[r]], x, None, ok))
            if op == "clone":
                steps.append((op, [live[r]], sc("dump %d" % r), None, ok))
            else:
                del live[r]
            live[n] = x
            n += 1
            continue
        if op in ("min", "charset") or op == "query" and rng.random() < .4:
            ok = sc("det %d" % r)
            x = sc("dump %d" % r)
            steps.append(("det", [live[r]], x, None, ok))
            live[r] = x
            dfa = True
        else:
            dfa = False
        data = None
        if op == "charset":
            data = sorted({b for bs in al for b in rng.sample(bs, rng.randint(0, len(bs)))} | set(rng.sample(range(256), rng.choice((0, 0, 1, 40)))))
            ok = sc("charset %d %d %s" % (n, r, bytes(data).hex() or "-"))
            del live[r]
            r = n
            n += 1
            steps.append((op, [x], sc("dump %d" % r), data, ok))
            live[r] = steps[-1][2]
            continue
        if op == "query":
            q = rng.choice(("empty", "equal", "preds", "print", "shortest", "example", "required", "exec", "gen") if dfa else ("empty", "equal", "preds", "print"))
            pre = [live[r]]
            if q == "equal":
                b = rng.choice(sorted(live))
                pre.append(live[b])
                ok = sc("equal %d %d" % (r, b))
            elif q == "print":
                ok = sc("print %d %s - -" % (r, rng.choice(LANGS if dfa else ("api", "dot", "fsm", "json"))))
            elif q == "exec":
                sc("words " + " ".join(bytes(rng.choice(b"abc") for _ in range(rng.randint(0, 5))).hex() or "-" for _ in range(3)))
                ok = sc("exec %d 0" % r)
            else:
                ok = sc({"empty": "empty %d", "preds": "preds %d", "shortest": "shortest %d 0 0 1", "example": "example %d 20", "required": "required %d 1000",
                         "gen": "gen %d 2 0 10"}[q] % r)
            steps.append((q, pre, sc("dump %d" % r), None, ok))
            live[r] = steps[-1][2]
            continue
        if op == "trim":
            data = rng.randrange(2)
        ok = sc({"complete": "complete %d isdfa", "shuffle": "shuffle %%d %d" % rng.randrange(100), "trim": "trim %%d %s" % data}.get(op, op + " %d") % r)
        x = sc("dump %d" % r)
        steps.append((op, [live[r]], x, data, ok))
        live[r] = x
    return sc, steps


def isdfa(d):
    edges = [(f, b, t) for f, t, lo, hi in d["t"] for b in range(lo, hi + 1)]
    return not d["e"] and len({e[:2] for e in edges}) == len(set(edges))


def claims(op, ds, r, data, ans):
    z, virt, n = len(ds) + 1, [], ds[0]["n"]
    if op == "union":
        cl = [{"c": "union", "x": 1, "y": 2, "z": 3}]
    elif op == "unionarr":
        cl = [{"c": "unionids", "x": list(range(1, z)), "z": z}]
    elif op in ("inter", "sub"):
        cl = [{"c": {"inter": "inter", "sub": "minus"}[op], "x": 1, "y": 2, "z": 3}]
    elif op == "concat":
        virt, cl = [{"v": "concat", "x": 1, "y": 2}], [{"c": "ids", "x": 3, "y": 4}]
    elif op == "charset":
        virt, cl = [{"v": "restrict", "x": 1, "bytes": data}], [{"c": "eq", "x": 2, "y": 3}]
    elif op == "rev":
        virt, cl = [{"v": "mirror", "x": 1}], [{"c": "eq", "x": 2, "y": 3}]
    elif op == "compl":
        cl = [{"c": "compl", "x": 1, "y": 2}]
    elif op == "complete":
        cl = [{"c": "ids", "x": 1, "y": 2}]
        if r["n"]:
            cl.append({"c": "complete", "x": 2})
            if isdfa(ds[0]):
                cl += [{"c": "isdfa", "x": 2}, {"c": "completes", "x": 1, "y": 2}]
    elif op == "det":
        cl = [{"c": "ids", "x": 1, "y": 2}, {"c": "isdfa", "x": 2}]
    elif op == "min":
        cl = [{"c": "ids", "x": 1, "y": 2}, {"c": "isdfa", "x": 2}, {"c": "minimal", "x": 2}, {"c": "live", "x": 2}]
    elif op == "rmeps":
        cl = [{"c": "ids", "x": 1, "y": 2}, {"c": "noeps", "x": 2}]
    elif op == "trim":
        virt = [{"v": "trim", "x": 1, "both": data}]
        cl = [{"c": "same", "x": 2, "y": 3}]
        if isinstance(ans, dict):
            cl.append({"c": "removed", "x": 1, "y": 2, "r": ans["trim"]})
    elif op == "shuffle":
        cl = [{"c": "iso", "x": 1, "y": 2}] + [{"c": "ids", "x": 1, "y": 2}] * (n <= 9)
    elif op == "gen":     # which trims
        cl = [{"c": "ids", "x": 1, "y": 2}] if r["s"] >= 0 else []
    else:       # clone, move, vacuum and the questions
        cl = [{"c": "same", "x": 1, "y": z}]
        if op == "empty":
            cl.append({"c": "empty", "x": 1, "r": ans})
        elif op == "equal":
            cl.append({"c": "equal", "x": 1, "y": 2, "r": ans})
        elif op == "preds":
            cl.append({"c": "counts", "x": 1, "n": ans["states"], "e": ans["edges"], "z": [len(c) for c in classes(ds + [r])]})
            cl += [{"c": "pred", "x": 1, "p": p, "o": {"p": ans[p], "n": ans["n_" + p], "r": ans["r_" + p]}} for p in ("isdfa", "iscomplete", "isend", "hasepsilons")]
    # reversal and complement leave ids on states which are ends no longer; what becomes of those is left open
    if any(row[0] not in d["f"] for d in ds for row in d["ids"]):
        cl = [dict(c, c="eq") if c["c"] == "ids" else {"c": "anyof", "x": c["z"], "of": c["x"]} if c["c"] == "unionids" else c for c in cl]
    return cl, virt


def run(chk):
    n = 2200 if not chk.thorough() else 24000
    exe, rng = drv(), chk.rng
    scripts, info = {}, {}
    for i in range(n):
        sc, info[i] = make(rng)
        scripts[i] = sc.lines
    res = run_driver(exe, scripts)
    lc = LangCases(chk, shards=8, workers=1)
    ops, depth, big, startless = {}, {}, 0, 0
    for i, vals in res.items():
        if crashed(vals):
            # the first step whose result is missing: without a start state nothing is asked of it
            bad = next((st for st in info[i] if max(st[2], st[4]) >= len(vals) - 1), None)
            if bad and any(p < len(vals) - 1 and isinstance(vals[p], dict) and vals[p].get("s", 0) < 0 for p in bad[1]):
                startless += 1
                continue
            chk.violation("program: the process died (%s)" % crashed(vals), {"script": scripts[i], "log": vals[-3:]})
            continue
        with chk.guard("program", scripts[i]):
            gone, deep = set(), {}
            for op, pre, post, data, ok in info[i]:
                ds, r, ans = [vals[p] for p in pre], vals[post], vals[ok]
                # nothing is asked of what a refused operation leaves, nor of automata without a start
                if any(p in gone for p in pre):
                    gone.add(post)
                    continue
                if any(not isinstance(d, dict) or d["s"] < 0 for d in ds):
                    gone.add(post)
                    continue
                good = ans[0] if isinstance(ans, list) and op in ("union", "inter", "sub", "concat", "unionarr") else ans
                if op in ("union", "inter", "sub", "concat", "unionarr", "charset", "rev", "compl", "complete", "det", "min", "rmeps", "clone", "move", "shuffle", "vacuum") and good in (0, None) \
                        or op == "trim" and ans["trim"] < 0:
                    if not (op == "concat" and not ds[0]["f"]):
                        chk.violation("%s refused automata with start states" % op, {"script": scripts[i], "answer": ans})
                    gone.add(post)
                    continue
                if r["n"] > 60 or sum(d["n"] for d in ds) > 90:
                    big += 1
                    continue
                cl, virt = claims(op, ds, r, data, ans)
                ops[op] = ops.get(op, 0) + 1
                deep[post] = 1 + max(deep.get(p, 0) for p in pre)
                lc.add(ds + [r], cl, scripts[i], virt, label="step " + op)
            for x in deep.values():
                depth[x] = depth.get(x, 0) + 1
    bads = lc.judge()
    for cid, b in sorted(bads.items()):
        chk.violation(lc.describe(cid, b), {"script": lc.meta[cid]["script"], "case": lc.cases[cid - 1]}, key=lc.meta[cid]["label"])
    for cid in list(lc.meta)[:3]:
        chk.sample(" ; ".join(lc.meta[cid]["script"]))
    chk.extra["steps_by_operation"], chk.extra["too_big"] = ops, big
    chk.extra["ended_without_a_start"] = startless
    chk.extra["operations_behind_a_step"] = {str(k): v for k, v in sorted(depth.items())}
