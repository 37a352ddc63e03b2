"""P21: malformed and unsupported patterns."""
TECHNIQUE = 'TLA+ (TLC): which texts are patterns at all, which may be refused, and what the others denote (spec/ReSyntax.tla, spec/ReLang.tla), against the recorded answers, error offsets and languages; blocks of memory left are counted in the trace'
NOTE = ("Mutated patterns, truncated patterns, token soup and random bytes in every dialect and under random flags. A text the specification calls malformed "
        "must be refused, a pattern it calls supported must be compiled (to its language), error offsets must be in order and inside the text, nothing may "
        "crash, and no memory may remain. Nesting beyond the stack is a known finding.")

from core import *
from regex import *
import regen

SOUP = {
    "pcre": b"( ) (?: (?i) (?i: (?# (?< (?<a> (?P<a> (?= (?! (?<! (?> (?| (*A) (* [ ] [^ [: :] [:alpha:] [:nope:] { } {1} {1, {,1} {2,1} {0} {1,2} * + ? | ^ $ . a b - , \\ \\Q \\E \\d \\p \\p{L} \\x \\x{ \\x{100} \\x{110} "
            b"\\o \\o{ \\o{400} \\c \\1 \\9 \\g{1} \\k<a> \\b \\B \\G \\K \\C \\X \\R \\N \\u \\L \\U \\l # : ! = < > P i *+ ++ ?+ *? +? ?? {2}? {2}+ & \n \xff".split(b" "),
    "native": b"( ) [ ] [^ [: :] [:alpha:] [:nope:] { } {1} {1, {,1} {2,1} {1,2} * + ? | ^ $ . a b - , \\ \\x \\x{ \\x4 \\400 \\9 \\q / \n \xff \x00".split(b" "),
    "sql": b"( ) [ ] [^ [: :] [:ALPHA:] [:alpha:] [:NOPE:] { } {1} {1, {,1} {2,1} {2,} * + ? | ^ % _ a b - , \\ ' \n \xff \x00".split(b" "),
    "like": b"% _ \\ a \x00 \xff".split(b" "),
    "glob": b"* ? [ ] ! \\ a \x00 \xff".split(b" "),
    "literal": b"* ? [ ] ! \\ a \x00 \xff".split(b" "),
}
FLAGS = [(), (), (), ("i",), ("x",), ("anch",), ("s", "i"), ("rev",)]
HUGE = [b"a{99999999999999999999}", b"a{4294967296}", b"a{1,4294967296}", b"a{65536000000,}", b"a{-1}", b"\\x{ffffffffffffffffff}", b"\\o{777777777777777777777777}", b"[\\x{ffffffffffff}]", b"\\x{110000}", b"\\x{10ffff}",
        b"\\99999999999999999999", b"a{0,0}{99999999999}", b"[a-\\x{fffffffff}]", b"(?" + b"i" * 5000 + b")", b"[" + b"a-z" * 5000, b"(?<" + b"n" * 5000 + b">a)", b"[[:" + b"a" * 5000 + b":]]",
        b"(?#" + b"c" * 100000, b"\\Q" + b"c" * 20000, b"(" * 8000, b"a|" * 20000, b"[" * 10000, b"(?:" * 8000, b"\\" * 20001, b"a" + b"*" * 10000, b")" * 10000]


def texts(chk):
    rng, deep = chk.rng, chk.thorough()
    out = []
    n = 12000 if deep else 800
    for d, soup in SOUP.items():
        m = {"pcre": 4 * n, "native": 2 * n, "sql": 2 * n}.get(d, n // 2)
        g = regen.Gen(rng, d, anchors=.15) if d in ("pcre", "native", "sql") else None
        def valid():
            return g.pattern(2) if g else regen.simple(rng, d, rng.randint(0, 8))
        for _ in range(m):
            fl = rng.choice(FLAGS)
            if d != "pcre":
                fl = tuple(f for f in fl if f in ("i", "rev"))
            k = rng.random()
            if k < .4:
                t = valid()
                for _ in range(rng.choice((1, 1, 2))):
                    t = regen.mutate(rng, t)
            elif k < .5:
                t = valid()
                t = t[:rng.randint(0, len(t))]
            elif k < .93:
                t = b"".join(rng.choice(soup) for _ in range(rng.randint(1, 7)))
            else:
                t = bytes(rng.randrange(256) for _ in range(rng.randint(1, 12)))
            if len(t) <= 40 and not suspect(d, t, fl):
                out.append((t, d, fl))
        for a in soup:
            out += [(a, d, ())] if not suspect(d, a, ()) else []
            for b in soup:
                if not suspect(d, a + b, ()):
                    out.append((a + b, d, ()))
    return list(dict.fromkeys(out))


def suspect(d, t, fl):
    """The families recorded as findings of P17 and P19; counts too great for a quick answer."""
    n = 1
    for m in re.findall(rb"\{(\d+,)?(\d*)", t):
        n *= max(1, int(m[1] or m[0].rstrip(b",") or 1))
    if n > 600:
        return True
    if d not in ("pcre", "native"):
        return False
    if t.endswith(b"(?#"):
        return True
    if (("x" in fl) or b"(?x" in t or b"x)" in t or b"x:" in t) and b"#" in t:
        return True
    toks, i = [], 0
    while i < len(t):
        if t[i:i + 1] == b"\\" and d == "pcre":
            toks.append(t[i:i + 2])
            i += 2
        else:
            toks.append(t[i:i + 1])
            i += 1
    return regen.recorded_family(toks)


def run(chk):
    rc = ReCases(chk, shards=8, workers=1, leak=True)
    for f in chk.findings:
        if "text" in f:
            rc.add(f["text"].encode("latin1"), f["dialect"], f["flags"], label=f["key"])
    for t, d, fl in texts(chk):
        rc.add(t, d, fl)
    rc.run()
    rc.judge()
    huge = {}
    deep = {"pcre nested 100000 deep": b"(" * 100000 + b"a" + b")" * 100000}
    scripts = {}
    for k, t in enumerate(HUGE):
        huge[k] = (t, None)
    for key, t in deep.items():
        huge[len(huge)] = (t, key)
    for k, (t, key) in huge.items():
        scripts[k] = ["track", "re 0 pcre 0 " + t.hex(), "free 0", "live"]
    for k, vals in run_driver(drv(), scripts, tmo=60).items():
        t, key = huge[k]
        what = "pcre %r..." % t[:60].decode("latin1") if key is None else key
        rp = {"script": scripts[k] if len(t) < 10000 else [], "text": t[:60].decode("latin1"), "length": len(t), "log": vals[-3:]}
        if crashed(vals):
            chk.violation("compiling %s: the process died (%s)" % (what, crashed(vals)), rp, key=key)
            continue
        v = vals[0]
        if v["re"] == 0 and v["err"] & 16 and not 0 <= v["start"] <= v["end"] <= len(t):
            chk.violation("compiling %s: error offsets %d-%d" % (what, v["start"], v["end"]), rp, key=key)
        if vals[2]["live"]:
            chk.violation("compiling %s: %d blocks of memory are left" % (what, vals[2]["live"]), rp, key=key)
    chk.extra.update(patterns=len(rc.items), compiled=rc.tally["compiled"], refused=rc.tally["refused"], error_codes=len(rc.codes))
    for k in (10, 1000, 4000):
        if k in rc.items:
            chk.sample("%s %r %s -> %s" % (rc.items[k][1], rc.items[k][0], "+".join(rc.items[k][2]), rc.res[k][0]))
