"""P15: structured dumps."""
TECHNIQUE = 'TLA+ (TLC): the dumps read back and compared with the automaton, edge by edge over all 256 bytes, by spec/DumpCheck.tla'
NOTE = ("JSON, Graphviz, IR-JSON, IR and API-call output of generated automata, for the options those have, is read back into the specification's "
        "records; TLC compares states, transitions (for the IR, through the meaning of each strategy), start, ends and ids. The API output is compiled "
        "and run. Consolidated labels are for people and leave '-', '^' and ']' unescaped: such a label must have the automaton's byte set among its readings.")

import collections, re as _re
from core import *
import gen, dumps
from p12 import shapes

PRE = ["", "", "p_", "Ab9_"]


def plain(d):
    n = d["n"]
    t, e, i = [[] for _ in range(n)], [[] for _ in range(n)], [[] for _ in range(n)]
    for a, b, lo, hi in d["t"]:
        t[a].append([b + 1, lo, hi])
    for a, b in d["e"]:
        e[a].append(b + 1)
    for r in d["ids"]:
        i[r[0]] = [min(x, 2147483647) for x in r[1:]]
    return {"n": n, "s": d["s"] + 1, "f": [x + 1 for x in d["f"]], "t": t, "e": e, "i": i}


def automaton(rng, j, thorough):
    """(automaton, is a DFA with a start)"""
    r = rng.random()
    if r < 0.4:
        a = shapes(rng, j, thorough)
        while a.n > 80:
            a = shapes(rng, rng.randrange(1 << 20), thorough)
        gen._ids(rng, a, rng.choice([0, 1, 3]))
        return a, True
    if r < 0.45:        # every byte by itself, each its own way
        a = gen.A(rng.choice([2, 5, 17, 130]), 0)
        for b in range(256):
            a.t.append((rng.randrange(min(a.n, 3)), rng.randrange(a.n), [b]))
        a.f = [rng.randrange(a.n)]
        gen._ids(rng, a, rng.choice([0, 2]))
        return a, False
    if r < 0.6:         # one edge, one awkward set
        a = gen.A(2, 0)
        s = set()
        for _ in range(rng.choice([1, 1, 2, 3, 5])):
            b = rng.choice([0, 9, 10, 32, 34, 38, 39, 42, 43, 44, 45, 46, 47, 48, 57, 58, 60, 62, 64, 65, 90, 91, 92, 93, 94, 95, 96, 97, 110, 120, 122, 123,
                            124, 125, 126, 127, 128, 160, 254, 255, rng.randrange(256)])
            s |= set(range(b, min(256, b + rng.choice([1, 1, 2, 3, 4, 5, 12, 30]))))
        if rng.random() < 0.3:
            s = set(range(256)) - s
        if s:
            a.t.append((0, 1, sorted(s)))
        a.f = [1]
        gen._ids(rng, a, rng.choice([0, 2]))
        return a, True
    if r < 0.62:
        return gen.A(rng.choice([0, 1, 120]), None), False
    return gen.nfa(rng, rng.choice([3, 5, 9]), gen.any_alphabet(rng, rng.choice([1, 3, 6])), ids=rng.choice([0, 3]), start_none=0.05), False


def run_api(chk, units):
    """units: [(no, text, same, swap, fragment, prefix)] -> {no: (rc, dump)}, and those which do not compile"""
    b = B.Build("plain")
    res, broken = {}, []

    def compile_(part, tag):
        src = ['#include <stddef.h>\n#include <assert.h>\n#include <fsm/fsm.h>\n']
        for no, text, same, swap, frag, pre in part:
            if frag:
                src.append("static int u%d(struct fsm *fsm, fsm_state_t *x, fsm_state_t *y)\n{\n%s\nreturn 1;\n}\n" % (no, text.decode("latin-1")))
            else:
                src.append("#undef fsm_addstate_\n#define %sfsm u%d_fsm\n%s\n#undef %sfsm\n" % (pre or "", no, text.decode("latin-1"), pre or "")
                           if pre else
                           _re.sub(r"(?m)^fsm\(struct fsm \*fsm", "u%d_fsm(struct fsm *fsm" % no, text.decode("latin-1")))
        src.append('struct api_unit { int no, same, swap; int (*f)(struct fsm *, fsm_state_t *, fsm_state_t *); };\nconst struct api_unit api_units[] = {\n%s};\nconst unsigned api_n = %d;\n' % (
            "".join("\t{ %d, %d, %d, %s },\n" % (no, same, swap, "u%d" % no if frag else "u%d_fsm" % no)
                    for no, text, same, swap, frag, pre in part), len(part)))
        f = chk.work.path("api-%s.c" % tag)
        with open(f, "wb") as h:
            h.write("".join(src).encode("latin-1"))
        p = subprocess.run(["gcc", "-std=gnu99", "-w", "-Werror=implicit-function-declaration", "-DLF_HEADER=<stddef.h>", "-I", B.REPO + "/include",
                            "-c", f, "-o", f[:-2] + ".o"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode == 0:
            p = subprocess.run(["gcc", "-pthread", main, f[:-2] + ".o", b.lib, "-o", f[:-2], "-lm"] + list(DRVFLAGS[1]), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode != 0:
            if len(part) == 1:
                broken.append((part[0][0], p.stdout.decode("latin-1")[:600]))
                return
            h = len(part) // 2
            if len(broken) < 3:
                compile_(part[:h], tag + "a")
                compile_(part[h:], tag + "b")
            return
        p = subprocess.run([f[:-2]], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60)
        for ln in p.stdout.decode().split("\n"):
            m = _re.match(r"(\d+) (\d+) -?\d+ (\{.*\})$", ln)
            if m:
                res[int(m.group(1))] = (int(m.group(2)), json.loads(m.group(3)))
    main = chk.work.path("apirun.o")
    B.run(["gcc", "-std=gnu99", "-w", "-I", "include", "-I", "src", "-I", "src/libfsm", "-I", "src/libre", "-c", os.path.join(B.VERIF, "harness", "apirun.c"),
               "-o", main])
    parts = [units[k:k + 60] for k in range(0, len(units), 60)]
    with ThreadPoolExecutor(max_workers=8) as ex:
        list(ex.map(lambda k: compile_(parts[k], str(k)), range(len(parts))))
    return res, broken


def run(chk):
    exe = drv()
    rng = chk.rng
    n = 1500 if not chk.thorough() else 20000
    scripts, info = {}, {}
    for i in range(n):
        a, det = automaton(rng, i, chk.thorough())
        sc = Script()
        sc.aut(a, 0)
        k0 = sc("dump 0")
        asks = []
        for fmt in ("json", "dot"):
            o = dict(a=rng.randrange(2), c=rng.randrange(2), f=int(rng.random() < .2), m=rng.randrange(2), h=int(rng.random() < .3), r=rng.randrange(2))
            pre = rng.choice(PRE)
            asks.append((fmt, o, pre, sc("print 0 %s %sp%s -" % (fmt, "".join("%s%d" % x for x in o.items()), pre))))
        if det:
            for fmt in ("irjson", "ir"):
                o = dict(m=rng.randrange(2), h=int(rng.random() < .3), r=rng.randrange(2))
                asks.append((fmt, o, "", sc("print 0 %s %s -" % (fmt, "".join("%s%d" % x for x in o.items())))))
        k1 = None
        if a.s is not None and a.f and i % 2 == 0:
            o = dict(m=rng.randrange(2), h=int(rng.random() < .3), f=rng.randrange(2))
            pre = rng.choice(PRE)
            asks.append(("api", o, pre, sc("print 0 api %sp%s -" % ("".join("%s%d" % x for x in o.items()), pre))))
            sc("clone 1 0")
            k1 = sc("collate 1 isend")
            sc("dump 1")
        scripts[i] = sc.lines
        info[i] = (k0, asks, k1, det)
    # the dumps of the automata P12 and others cover come from the same function; here only what is printed is judged
    res = run_driver(exe, scripts)
    cases, meta, units = [], {}, []
    count = collections.Counter()

    def case(kind, a, b, what, script, **kw):
        cid = len(cases) + 1
        cases.append(dict(id=cid, c=kind, a=a, b=b, **kw))
        meta[cid] = (what, script)
    apis = {}
    for i, vals in res.items():
        k0, asks, k1, det = info[i]
        if crashed(vals):
            chk.violation("printing: the process died (%s)" % crashed(vals), {"script": scripts[i]})
            continue
        d = vals[k0]
        for fmt, o, pre, k in asks:
            what = "%s (options %s, prefix %r)" % (fmt, " ".join("%s%d" % x for x in o.items()), pre)
            v = vals[k]
            if v["print"] != 0:
                chk.violation("%s: printing failed" % what, {"script": scripts[i]})
                continue
            text = bytes.fromhex(v["text"])
            count[fmt] += 1
            try:
                if fmt == "json":
                    case("plain", plain(d), plain(dumps.read_json(text, d, o["h"], o["c"]).dump()), what, scripts[i], ids=False)
                elif fmt == "dot":
                    case("plain", plain(d), plain(dumps.read_dot(text, d, pre, o["a"], o["f"], o["c"]).dump()), what, scripts[i], ids=True)
                elif fmt == "irjson":
                    case("ir", plain(d), dumps.read_irjson(text), what, scripts[i], ex=True)
                elif fmt == "ir":
                    case("ir", plain(d), dumps.read_ir(text), what, scripts[i], ex=not o["h"])
                elif fmt == "api":
                    # the caller marks the state the ends are collated to
                    end = vals[k1][1]
                    c = dict(vals[k1 + 1], f=[end])
                    c["ids"] = [r for r in c["ids"] if r[0] == end]
                    swap = rng.randrange(2)
                    apis[i] = (c, end, swap, what)
                    units.append((i, text, int(c["s"] == end), swap, o["f"], pre))
            except dumps.Unreadable as e:
                chk.violation("%s cannot be read back: %s" % (what, e), {"script": scripts[i]})
            except (KeyError, ValueError, TypeError, IndexError) as e:
                chk.violation("%s cannot be read back: %r" % (what, e), {"script": scripts[i]})
    got, broken = run_api(chk, units)
    for no, err in broken:
        chk.violation("API output does not compile: " + err, {"script": scripts[no]})
    for i, (c, end, swap, what) in apis.items():
        if i not in got:
            if not broken:
                chk.violation("%s: no result from running it" % what, {"script": scripts[i]})
            continue
        rc, b = got[i]
        # x and y were made first, then the others in order
        order = [c["s"]] + ([end] if end != c["s"] else [])
        if swap:
            order.reverse()
        order += [q for q in range(c["n"]) if q not in order]
        if rc != 1 or b["n"] != c["n"]:
            chk.violation("%s: run, it returned %d with %d states" % (what, rc, b["n"]), {"script": scripts[i]})
            continue
        b = dict(b, s=order[b["s"]], f=[order[q] for q in b["f"]], e=[[order[x], order[y]] for x, y in b["e"]],
                 t=[[order[x], order[y], lo, hi] for x, y, lo, hi in b["t"]], ids=[[order[r[0]]] + r[1:] for r in b["ids"]])
        case("plain", plain(c), plain(b), what, scripts[i], ids=True)
    outs, g, ds = tlc_shards("DumpCheck", "DumpCheck.cfg", cases, chk.work, "dump", shards=8, workers=1)
    chk.states += ds
    chk.trans += g
    chk.traces += len(cases)
    for cid in sorted(bad_lines(outs)):
        what, s = meta[cid]
        chk.violation("%s does not describe the automaton" % what, {"script": s})
    chk.extra["dumps"] = dict(count)
