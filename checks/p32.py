"""P32: patterns and automata printed as patterns."""
TECHNIQUE = 'TLA+ (TLC): the printed pattern, read and given an automaton by the specification (spec/ReSyntax.tla, spec/ReLang.tla), compared for all subjects with the original pattern as the specification reads it, or with the recorded automaton'
NOTE = ("Every printed text is read by the specification, not by the implementation's own parser, and compared with the original for all subjects. "
        "Negated classes are not implemented in the printer (known finding).")

from core import *
from regex import *
import gen, regen

NEG = re.compile(rb"\[\^|\[:\^")


def patterns(chk):
    rng, deep = chk.rng, chk.thorough()
    out = []
    for toks, n, m in (("a b . * | ( )", 4, 7), ("a ^ $ \\z | ( ) *", 4, 6), ("a B (?i) (?-i) (?i: ( ) | *", 4, 7), ("a . (?s) (?-s) (?s: ( ) [\\x00-\\xff] *", 4, 6),
                       ("a {2} {1,3} {0} {0,1} {2,} ( ) | b", 3, 6), ("( ) * + ? a | (?:", 4, 7), ("a [b-d] ( ) {0,2} ^ | + \\n", 4, 6),
                       ("(?:(?i)a|bc) (?:(?-i)a|bc) (?i) (?-i) d (?: ) |d", 4, 6), ("(?:(?s).|bc) (?:(?-s).|bc) (?s) (?-s) . (?: ) |d", 4, 6)):
        ts = [t.encode() for t in toks.split(" ")]
        whole = regen.tokens(ts, n)
        cap = 6000 if deep else 350
        out += [(t, "pcre", ()) for t in (whole if len(whole) <= cap else rng.sample(whole, cap)) + regen.tokens(ts, m, rng, 3000 if deep else 120)]
    for b in range(1, 256):
        c = b"\\x%02x" % b
        out += [(t, "pcre", ()) for t in (c, b"a" + c + b"*", b"[" + c + b"-\\xff]", b"(" + c + b"|a)")]
        out += [(bytes([b]), d, ()) for d in ("literal", "like", "glob", "sql", "native")]
    for fl in ((), (), ("i",), ("s",), ("s", "i"), ("anch",)):
        g = regen.Gen(rng, "pcre", letters=b"aabbB\n.*(", anchors=.2)
        for _ in range(5000 if deep else 250):
            out.append((g.pattern(2), "pcre", fl))
    for d in ("native", "sql"):
        g = regen.Gen(rng, d, letters=b"aabbB", anchors=.2)
        for _ in range(3000 if deep else 200):
            out.append((g.pattern(2), d, rng.choice(((), ("i",)))))
    for d in ("like", "glob", "literal"):
        for _ in range(1000 if deep else 80):
            out.append((regen.simple(rng, d, rng.randint(1, 7)), d, rng.choice(((), ("i",)))))
    return [x for x in dict.fromkeys(out) if not NEG.search(x[0]) and not (x[1] == "sql" and b"^" in x[0]) and len(x[0]) < 40]


def run(chk):
    rng, deep = chk.rng, chk.thorough()
    lc = LangCases(chk, shards=8, workers=1)
    todo = [(f["text"].encode("latin1"), f["dialect"], tuple(f["flags"])) for f in chk.findings] + patterns(chk)
    scripts = {k: ["reprint %s %d %s 3" % (d, sum(FLAG[f] for f in fl), t.hex() or "-")] for k, (t, d, fl) in enumerate(todo)}
    res = run_driver(drv(), scripts)
    done = 0
    for k, vals in res.items():
        t, d, fl = todo[k]
        what = "%s %r%s" % (d, t.decode("latin1"), " " + "+".join(sorted(fl)) if fl else "")
        if crashed(vals):
            chk.violation("printing %s: the process died (%s)" % (what, crashed(vals)), {"script": scripts[k]}, key=what)
            continue
        v = vals[0]
        if not v["ast"]:
            continue
        with chk.guard("printing " + what, scripts[k]):
            if v["rc"] != 0:
                raise ValueError("ast_print failed")
            p = bytes.fromhex(v["text"])
            if not p.endswith(b"\n"):
                raise ValueError("no final newline")
            p = p[:-1]
            pfl = sorted(set(fl) | ({"anch"} if d in SIMPLE else set()))
            virts = [{"v": "re", "text": list(t), "d": d, "fl": sorted(fl), "only": 0}, {"v": "re", "text": list(p), "d": "pcre", "fl": pfl, "only": 0}]
            done += 1
            lc.add([], [{"c": "sat", "x": 1}, {"c": "sat", "x": 2}, {"c": "readable", "x": 2, "if": [1]}, {"c": "eq", "x": 1, "y": 2, "if": [1, 2]}], scripts[k], virts,
                   cls=classes([], interest(t, fl) + interest(p, fl)), label="%s printed as %r" % (what, p.decode("latin1")[:200]))
            if done in (50, 900):
                chk.sample("%s printed as %r" % (what, p))
    # automata
    scripts = {}
    n = 3000 if deep else 260
    for k in range(n):
        al = [[x] for x in rng.choice((b"ab", b"ab", b"a\n", b"a.", b"*|\\", bytes([0, 255]), b"([^", b"abc"))]
        if rng.random() < .12:
            al = gen.alphabet(rng, 2)
        a = (gen.dfa if rng.random() < .4 else gen.nfa)(rng, rng.choice((2, 3, 3, 4, 4, 5)), al)
        scripts[k] = a.cmds(0) + rng.choice(([], [], ["det 0"], ["det 0", "min 0"])) + ["dump 0", "fsmast 0 3"]
    k = n
    for t in (b"a.b", b".", b"[\\x00-\\xff]", b".*", b"[^a]|b.", b"a|.$", b"\\x00\\n"):
        scripts[k] = ["re 0 pcre 64 " + t.hex(), "det 0", "min 0", "dump 0", "fsmast 0 3"]
        k += 1
    res = run_driver(drv(), scripts)
    aut = 0
    for k, vals in res.items():
        what = "automaton %d" % k
        if crashed(vals):
            chk.violation("converting an automaton: the process died (%s)" % crashed(vals), {"script": scripts[k], "log": vals[-2:]})
            continue
        with chk.guard("converting an automaton to a pattern", scripts[k]):
            v, dump = vals[-2], vals[-3]
            if not v["ast"] or v["rc"] != 0:
                raise ValueError("not converted")
            p = bytes.fromhex(v["text"])[:-1]
            if len(p) > 1500:
                continue
            aut += 1
            virts = [{"v": "re", "text": list(p), "d": "pcre", "fl": ["anch"], "only": 0}]
            lc.add([dump], [{"c": "sat", "x": 2}, {"c": "readable", "x": 2}, {"c": "eq", "x": 1, "y": 2, "if": [2]}], scripts[k], virts,
                   sets=interest(p) , label="an automaton printed as %r" % p.decode("latin1")[:300])
            if aut == 40:
                chk.sample("an automaton printed as %r" % p)
    bads = lc.judge()
    for cid, b in sorted(bads.items(), key=lambda kv: len(lc.meta[kv[0]]["label"])):
        m = lc.meta[cid]
        if any(m["claims"][c - 1]["c"] == "sat" for x in b for c in x[0]):
            raise RuntimeError("byte classes too coarse for " + m["label"])
        chk.violation(lc.describe(cid, b), {"script": m["script"], "case": lc.cases[cid - 1]}, key=m["label"].split(" printed as")[0])
    chk.extra.update(patterns=done, automata=aut)
