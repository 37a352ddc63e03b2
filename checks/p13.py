"""P13: generated C."""
TECHNIQUE = 'TLA+ (TLC): recorded verdicts and ids of the compiled C judged against the run of the dumped automaton computed by spec/WordCheck.tla'
NOTE = ("Generated DFAs (all shapes of states the intermediate representation distinguishes, all byte values, chains as literals give), printed "
        "as switch-style and VM-style C, whole and as fragments, for each way of input and of reporting ids, under random printing options; "
        "compiled with gcc and run over words covering every (state, byte class) pair with distinguishing continuations, each word "
        "lying against an unmapped page. Ids are asked for only where every end state has one, as the printers require.")

from core import *
import gen
import words
import codegen as cg
import p12


def automaton(rng, i, ids, small=False):
    r = i % 8
    if r < 5:
        a = p12.shapes(rng, rng.randrange(6), False)
    elif r == 5:
        a = p12.shapes(rng, 7, False)
    elif r == 6:
        a = p12.shapes(rng, 6, False) if not small else p12.shapes(rng, 4, False)
    else:
        a = gen.dfa(rng, rng.choice([10, 25]), gen.alphabet(rng, rng.choice([2, 3, 5])))
    if ids:
        pool = rng.sample([0, 1, 2, 3, 7, 8, 50, 1000, 2147483647, 4294967295], rng.choice([1, 2, 4]))
        for q in a.f:
            for x in rng.sample(pool, rng.choice([1, 1, min(2, len(pool)), len(pool)]) if ids > 1 else 1):
                a.i.append((q, x))
    return a


def ladder(rng, cuts):
    """A DFA whose first byte is told apart by where it lies between the cuts -> (DFA, words)."""
    at = [0] + sorted(cuts) + [256]
    a = gen.A(4, 0)
    a.f = [1, 2]
    prev = -1
    for lo, hi in zip(at, at[1:]):
        prev = rng.choice([q for q in (1, 2, 3, None) if q != prev])
        if prev is not None:
            a.t.append((0, prev, list(range(lo, hi))))
    a.t += [(2, 1, [97]), (3, 1, [97, 98])]
    ws = []
    for b in sorted({x for c in at for x in (c - 1, c) if 0 <= x < 256}):
        ws += [bytes([b]), bytes([b, 97])]
    return a, ws


LONG = ("anonymous_states", "consolidate_edges", "comments", "case_ranges", "always_hex", "group_edges")


def big(x):
    return x - (1 << 32) if x >= 1 << 31 else x


def judge_ids(ambig, w, o):
    """An outcome as the specification takes it.  (Ids beyond TLC's integers are wrapped.)"""
    if ambig == "none":
        return ("acc", w, o[0])
    if ambig == "multiple":
        return ("ids", w, [o[0], [big(x) for x in o[1]]] if o[0] == 1 else [o[0], []])
    return ("ids1", w, [o[0], o[1][0]] if o[0] == 1 else [o[0], 0])


ALLIO = ["getc", "str", "pair"]
ALLAMBIG = ["none", "none", "error", "earliest", "multiple"]


def campaign(chk, langs, n, caps, runners, small=False, shards=7):
    """caps: {lang: (ways of input, ways of reporting ids, fragments?)}."""
    exe = drv()
    rng = chk.rng
    scripts, info, cuts = {}, {}, {}
    for i in range(n):
        lang = langs[i % len(langs)]
        ios, ambigs, frags = caps[lang]
        io = rng.choice(ios)
        ambig = rng.choice(ambigs)
        frag = frags and rng.random() < .25
        kw = {k: rng.random() < .4 for k in LONG}
        lad = None
        if i // len(langs) % 3 == 2:        # every byte is a cut in one of each language's 16 ladders
            cut = cuts.setdefault(lang, [])
            if not cut:
                cut += rng.sample(range(1, 256), 255)
            a, lad = ladder(rng, [cut.pop() for _ in range(17) if cut])
            ambig = "none"
        else:
            a = automaton(rng, i // len(langs), {"none": 0, "error": rng.choice([1, 1, 2]), "earliest": 2, "multiple": 2}[ambig], small)
        if lang == "awk":       # its 0 is no match
            a.i = [(q, x or 9) for q, x in a.i]
        sc = Script()
        sc.aut(a, 0)
        d0 = sc("dump 0")
        px = "M%dx" % i
        parts = ["vmops_c", "vmops_h", "vmops_main"] if lang == "vmops" else [lang]
        other = [x for x in ALLIO if x not in ios]
        no = sc("print 0 %s %s -" % (parts[-1], cg.opts(rng.choice(other), "none", px))) if other and rng.random() < .2 else None
        xs = [sc("print 0 %s %s -" % (l, cg.opts(io, ambig, px, fragment=frag, **kw))) for l in parts]
        scripts[i], info[i] = sc.lines, (lang, io, ambig, frag, px, d0, xs, no, sc("dump 0"), lad)
    res = run_driver(exe, scripts)
    units, ws, dumps = [], {}, {}
    wc = words.WordCases(chk)
    for i, vals in res.items():
        lang, io, ambig, frag, px, d0, xs, no, d1, lad = info[i]
        if crashed(vals):
            chk.violation("printing %s died (%s)" % (lang, crashed(vals)), {"script": scripts[i]})
            continue
        with chk.guard("printing " + lang, scripts[i]):
            d = vals[d0]
            conflict = ambig == "error" and any(len(r) > 2 for r in d["ids"])
            if vals[d1] != d:
                chk.violation("printing changed the automaton", {"script": scripts[i]})
            if no is not None and vals[no]["print"] != -1:
                chk.violation("%s: a way of input which is not provided was not refused" % lang, {"script": scripts[i]})
            if any(vals[x]["print"] != (1 if conflict else 0) for x in xs):
                chk.violation("printing %s gave %s where the ids %s" % (lang, [vals[x]["print"] for x in xs], "conflict" if conflict else "do not"),
                              {"script": scripts[i]})
                continue
            if conflict:
                continue
            u = cg.Unit(i, lang, io, ambig, px, [bytes.fromhex(vals[x]["text"]) for x in xs], frag)
            units.append(u)
            dumps[i] = d
            w = words.suite(d, rng, 40 if lang == "sh" else 250, every=rng.random() < .1 and d["n"] <= 4,
                            long=1 if rng.random() < .1 and lang not in ("sh", "awk") else 0)
            if lad is not None:
                w = lad
            if io == "str" and lang not in ("go", "amd64_go", "rust"):
                w = [y[:y.index(0)] if 0 in y else y for y in w]
            if io == "str" and lang == "rust":
                w = [y for y in w if valid_utf8(y)]
            ws[i] = w
    out, broken = {}, []
    for langset, runner in runners:
        us = [u for u in units if u.lang in langset]
        if us:
            o, b = runner(us, ws, chk.work.dir)
            out.update(o)
            broken += b
    for u, text in broken:
        chk.violation("generated %s does not compile: %s" % (u.lang, text[:300]), {"script": scripts[u.no]})
    bad = set(u.no for u, _ in broken)
    for u in units:
        chk.extra["units_" + u.lang] = chk.extra.get("units_" + u.lang, 0) + 1
        if u.no in bad:
            continue
        o = out.get(u.no)
        if not isinstance(o, list) or len(o) != len(ws[u.no]):
            chk.violation("running generated %s (%s) died: %s" % (u.lang, u.io, str(o)[:100]), {"script": scripts[u.no]})
            continue
        with chk.guard("generated " + u.lang, scripts[u.no]):
            ambig = u.ambig
            if u.lang == "vmops" and ambig != "none":
                ambig = "multiple"
            if u.lang == "sh":
                ambig = "none"
            d = dict(dumps[u.no])
            if ambig == "multiple":
                d["ids"] = [[r[0]] + [big(x) for x in r[1:]] for r in d["ids"]]
            elif ambig in ("error", "earliest"):      # comparisons need them in order
                d["ids"] = [[r[0]] + [min(x, 2147483647) for x in r[1:]] for r in d["ids"]]
            ent = []
            for w, r in zip(ws[u.no], o):
                k = judge_ids(ambig, w, r)
                if k[0] == "ids1":
                    k = (k[0], k[1], [k[2][0], min(k[2][1], 2147483647)])
                ent.append(k)
            wc.add(d, ent, scripts[u.no], "%s %s %s%s" % (u.lang, u.io, u.ambig, " fragment" if u.fragment else ""))
            if u.no % 7 == 0:
                chk.sample("%s: %d words: %s" % (u.lang, len(ent), " ; ".join(scripts[u.no])[:500]))
    wc.judge(shards)


def valid_utf8(b):
    try:
        b.decode()
        return True
    except UnicodeDecodeError:
        return False


def run(chk):
    caps = {"c": (ALLIO, ALLAMBIG, True), "vmc": (ALLIO, ALLAMBIG, True)}
    campaign(chk, ["c", "vmc"], 600 if not chk.thorough() else 6000, caps, [(("c", "vmc"), cg.run_c)])
