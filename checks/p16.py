"""P16: the textual format."""
TECHNIQUE = 'TLA+ (TLC): automata printed, parsed and compared edge by edge; texts of the grammar read by the specification\'s own reader (spec/DumpCheck.tla) and compared with what the parser built'
NOTE = ("Generated automata over all 256 byte values are printed with each option fsm(5) has a reading for, parsed back and compared exactly (with "
        "anonymous states, whose numbers are not written, by language and ids). Texts of the grammar, in every way of writing a label, are "
        "parsed and compared with the automaton the specification reads from their items. The group_edges option prints for people; it has no reading in the grammar.")

from core import *
import gen
from p15 import automaton, plain

NAMES = ["0", "1", "2", "10", "a", "b", "A", "start", "end", "S0", "s_1", "_", "x", "00", "zz9", "99999999999", "f", "q" * 40]
ESC = b'\\"' + b"'fnrtv"
WS = [b" ", b"\n", b"\t", b"\r\n", b"  ", b" # note; -> \"x\" start: end\n", b"#\n"]


def ws(rng, must=False):
    r = rng.random()
    if r < .5:
        return b" " if must or rng.random() < .7 else b""
    return b"".join(rng.choice(WS) for _ in range(rng.choice([1, 1, 2])))


def label(rng):
    """(token for the specification, text)"""
    k = rng.choice(["char", "char", "lit", "esc", "oct", "hex", "any", "eps"])
    if k in ("any", "eps"):
        return [k, []], (b"?" if k == "any" else b"")
    if k in ("char", "lit"):
        b = rng.choice([x for x in range(1, 256) if x not in (10, 34, 92) and x != 39]) if k == "char" else rng.choice([x for x in range(1, 256) if x not in (10, 39)])
        q = b'"' if k == "char" else b"'"
        if k == "char" and rng.random() < .1:
            b = 39
        return ["char", [b]], q + bytes([b]) + q
    if k == "esc":
        b = rng.choice(ESC.replace(b"'", b""))
        t = bytes([b])
    elif k == "oct":
        b = rng.randrange(256)
        t = b"%0*o" % (rng.choice([1, 2, 3, 4, 5]), b)
    else:
        b = rng.randrange(256)
        t = b"%0*x" % (rng.choice([1, 2, 3, 4]), b)
        if rng.random() < .4:
            t = t.upper()
    return [k, list(t)], b'"\\' + (b"x" if k == "hex" else b"") + t + b'"'


def text(rng):
    names = rng.sample(NAMES, rng.choice([1, 2, 3, 5]))
    if rng.random() < .05:
        names = ["n%d" % j for j in range(rng.choice([70, 1200, 3000]))]
    items, out = [], []
    for _ in range(rng.choice([0, 1, 3, 6, 12]) if len(names) < 20 else 2 * len(names)):
        if rng.random() < .2:
            a = rng.choice(names)
            items.append({"k": "decl", "a": a})
            out.append([a.encode(), b";"])
        else:
            a, b = rng.choice(names), rng.choice(names)
            l, t = label(rng)
            if len(names) > 20 and l[0] == "any":
                continue
            items.append({"k": "edge", "a": a, "b": b, "l": l})
            out.append([a.encode(), b"->", b.encode(), t, b";"])
    if rng.random() < .9:
        a = rng.choice(names)
        items.append({"k": "start", "a": a})
        out.append([b"start:", a.encode(), b";"])
    if rng.random() < .9:
        toks = [b"end:"]
        for j in range(rng.choice([1, 1, 2, 3])):
            a = rng.choice(names)
            ids = [rng.choice([0, 1, 2, 9, 10, 15, 16, 31, 64, 100, 1234567890]) for _ in range(rng.choice([0, 0, 1, 2, 3]))]
            items.append({"k": "end", "a": a, "ids": ids})
            if j:
                toks.append(b",")
            toks.append(a.encode())
            if ids or rng.random() < .1:
                toks += [b"=", b"["]
                for k, x in enumerate(ids):
                    toks += ([b","] if k else []) + [b"%d" % x]
                toks.append(b"]")
        out.append(toks + [b";"])
    s = b""
    for st in out:
        for t in st:
            if not t:
                continue
            word = lambda c: chr(c).isalnum() or c == 95
            sep = ws(rng)
            if s and (word(s[-1]) and (word(t[0]) or t[:1] == b":")) and not sep:
                sep = b" "
            s += sep + t
    return items, s + ws(rng)


def run(chk):
    exe = drv()
    rng = chk.rng
    n = 2500 if not chk.thorough() else 25000
    scripts, info = {}, {}
    for i in range(n):
        sc = Script()
        if i % 3:
            a, _ = automaton(rng, i, chk.thorough())
            if rng.random() < .15:
                # more states than the parser's table has buckets, more than a chain
                a = gen.nfa(rng, 1, [[97]])
                m = rng.choice([64, 65, 300, 1500])
                a = gen.A(m, rng.randrange(m))
                for q in range(m):
                    a.t.append((q, rng.randrange(m), [rng.randrange(256)]))
                a.f = rng.sample(range(m), rng.choice([0, 1, 30]))
                gen._ids(rng, a, 3)
            anon = int(rng.random() < .2 and a.n < 8)
            opts = "a%dc%dm%dh%dr%df%dg0" % (anon, rng.randrange(2), int(rng.random() < .4 and a.n < 30), int(rng.random() < .3), rng.randrange(2), rng.randrange(2))
            sc.aut(a, 0)
            k = sc("dump 0")
            sc("roundtrip 1 0 " + opts)
            sc("dump 1")
            # and again: what was parsed prints the same
            if rng.random() < .2:
                sc("roundtrip 2 1 " + opts)
                sc("dump 2")
            info[i] = ("rt", k, anon, opts)
        else:
            items, t = text(rng)
            k = sc("parse 0 " + t.hex())
            sc("dump 0")
            info[i] = ("text", k, items, t)
        scripts[i] = sc.lines
    res = run_driver(exe, scripts)
    cases, meta = [], {}
    lc = LangCases(chk, shards=4)

    def case(kind, a, b, what, script, **kw):
        cid = len(cases) + 1
        cases.append(dict(id=cid, c=kind, a=a, b=b, **kw))
        meta[cid] = (what, script)
    for i, vals in res.items():
        inf = info[i]
        k = inf[1]
        if crashed(vals):
            chk.violation("%s: the process ended (%s)" % ("printing or parsing" if inf[0] == "rt" else "parsing %r" % inf[3][:200], crashed(vals)), {"script": scripts[i]})
            continue
        if inf[0] == "text":
            if vals[k] != 1:
                chk.violation("parsing failed: %r" % inf[3][:200], {"script": scripts[i]})
                continue
            case("text", inf[2], plain(vals[k + 1]), "text %r" % inf[3][:200], scripts[i])
            continue
        d = vals[k]
        for j in range(k + 1, len(vals) - 1, 2):
            if vals[j] != [0, 1]:
                chk.violation("printing or parsing failed: %s" % vals[j], {"script": scripts[i]})
                break
            b = vals[j + 1]
            if not inf[2]:
                case("plain", plain(d), plain(b), "round trip, options " + inf[3], scripts[i], ids=True)
            elif d["s"] >= 0 and d["n"] > 0:
                lc.add([d, b], [{"c": "eq", "x": 1, "y": 2}, {"c": "ids", "x": 1, "y": 2}], scripts[i], label="round trip, options " + inf[3])
    for cid, b in sorted(lc.judge().items()):
        chk.violation(lc.describe(cid, b), {"script": lc.meta[cid]["script"]})
    outs, g, ds = tlc_shards("DumpCheck", "DumpCheck.cfg", cases, chk.work, "dump", shards=8, workers=1)
    chk.states += ds
    chk.trans += g
    chk.traces += len(cases)
    for cid in sorted(bad_lines(outs)):
        what, s = meta[cid]
        chk.violation("%s: not the same automaton" % what, {"script": s})
