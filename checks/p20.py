"""P20: literal and anchoring analysis."""
TECHNIQUE = 'TLA+ (TLC): the language a reported literal stands for, and the pattern\'s with matches confined to where the reported anchoring says (LitPart, RePart in spec/LangCheck.tla), compared with the pattern\'s own for all subjects'
NOTE = ("re_is_literal and re_is_anchored called on every generated pattern; their answers become claims about the pattern's language as the "
        "specification reads it, so a wrong answer is caught whether or not the compiler agrees with it.")

from core import *
from regex import *
import regen


def texts(chk):
    rng, deep = chk.rng, chk.thorough()
    out = []
    for toks, n, m in (("a b ^ $ \\A \\Z \n", 4, 7), ("a b ^ \\z \\A .", 4, 7), ("a ^ $ | ( )", 5, 7), ("a ^ $ (?: ) * {2}", 5, 7), ("a ^ $ {0} ( ) |", 4, 7), ("^ $ (?i) a . \\n [a]", 4, 6),
                       ("^ \\z \\A a ( ) | * +", 4, 7), ("[^\\s\\S] a ^ $ | ( )", 4, 7)):
        ts = [t.encode() for t in toks.split(" ")]
        whole = regen.tokens(ts, n)
        cap = 9000 if deep else 500
        out += [(t, "pcre", ()) for t in (whole if len(whole) <= cap else rng.sample(whole, cap)) + regen.tokens(ts, m, rng, 3000 if deep else 150)]
    for b in range(1, 256):
        c = bytes([b])
        for t in (c, b"a" + c, b"^" + c + b"$", b"\\" + c, b"[" + c + b"]", c + b"*", b"^\\x%02x" % b):
            out.append((t, "pcre", ()))
        out += [(c + b"a", d, ()) for d in ("native", "literal", "like", "glob", "sql")]
    for d in ("pcre", "native"):
        for fl in ((), ("i",), ("anch",), ("s",)):
            g = regen.Gen(rng, d, letters=b"ab\n", anchors=.35)
            h = regen.Gen(rng, d, letters=b"ab", anchors=.5)
            for _ in range(6000 if deep else 300):
                t = (g if rng.random() < .5 else h).pattern(rng.choice((0, 1, 2)))
                if len(t) < 32:
                    out.append((t, d, fl if d == "pcre" else tuple(f for f in fl if f != "s")))
    for d in ("literal", "like", "glob", "sql"):
        for _ in range(2000 if deep else 120):
            out.append((regen.simple(rng, d, rng.randint(0, 6)), d, ()))
    return list(dict.fromkeys(out))


def run(chk):
    lc = LangCases(chk, shards=8, workers=1)
    todo = texts(chk)
    scripts = {}
    for k, (t, d, fl) in enumerate(todo):
        w = words_of(d, t, fl).split(" ", 2)[2].replace("%d", "0")
        bits = sum(FLAG[f] for f in fl)
        scripts[k] = ["literal %s %d %s" % (d, bits, t.hex() or "-"), "anchored %s %d %s" % (d, bits, t.hex() or "-")]
    res = run_driver(drv(), scripts)
    tally = {"literal": 0, "unsatisfiable": 0, "anchored": 0}
    for k, vals in res.items():
        t, d, fl = todo[k]
        what = "%s %r%s" % (d, t.decode("latin1"), " " + "+".join(fl) if fl else "")
        if crashed(vals):
            chk.violation("analysing %s: the process died (%s)" % (what, crashed(vals)), {"script": scripts[k], "log": vals[-2:]})
            continue
        lit, anch = vals[0], vals[1]
        re_ = {"v": "re", "text": list(t), "d": d, "fl": sorted(fl), "only": 0}
        virts, claims = [re_], [{"c": "sat", "x": 1}]
        with chk.guard("analysis of " + what, scripts[k]):
            refused = [lit["lit"] == -1, anch["anch"] == 65535]
            if refused[0] or refused[1]:
                claims.append({"c": "parse", "x": 1, "got": "unsup"})
            if lit["lit"] not in (-1, 0, 1):
                raise ValueError("re_is_literal returned %r" % lit["lit"])
            if lit["lit"] == 1:
                if lit["cat"] not in (0, 1, 2, 3, 4):
                    raise ValueError("category %r" % lit["cat"])
                tally["unsatisfiable" if lit["cat"] == 4 else "literal"] += 1
                virts.append({"v": "lit", "text": list(t), "d": d, "fl": sorted(fl), "cat": lit["cat"], "s": list(bytes.fromhex(lit["s"]))})
                claims.append({"c": "eq", "x": 1, "y": len(virts), "if": [1]})
            if not refused[1]:
                if anch["anch"] not in (0, 1, 2, 3):
                    raise ValueError("re_is_anchored returned %r" % anch["anch"])
                if anch["anch"]:
                    tally["anchored"] += 1
                    v = dict(re_)
                    if anch["anch"] & 1:
                        v["pre"] = 1
                    if anch["anch"] & 2:
                        v["suf"] = 1
                    virts.append(v)
                    claims.append({"c": "eq", "x": 1, "y": len(virts), "if": [1]})
            if len(virts) > 1 or len(claims) > 1:
                sets = interest(t, fl) + ([{x} for x in bytes.fromhex(lit["s"])] if lit["lit"] == 1 else [])
                lc.add([], claims, scripts[k], virts, cls=classes([], sets), label="%s, literal %r, anchored %r" % (what, lit, anch["anch"]))
    bads = lc.judge()
    for cid, b in sorted(bads.items(), key=lambda kv: len(lc.meta[kv[0]]["label"])):
        m = lc.meta[cid]
        if any(m["claims"][c - 1]["c"] == "sat" for x in b for c in x[0]):
            raise RuntimeError("byte classes too coarse for " + m["label"])
        chk.violation(lc.describe(cid, b), {"script": m["script"], "case": lc.cases[cid - 1]}, key=m["label"].split(", literal")[0])
    chk.extra.update(tally, patterns=len(todo))
    for k in (100, 1500, 3000):
        if k in res:
            chk.sample("%s %r: %s" % (todo[k][1], todo[k][0], res[k]))
