"""P19: matching flags."""
TECHNIQUE = 'TLA+ (TLC): what a pattern denotes under its flags, given and inline (spec/ReSyntax.tla, spec/ReLang.tla; the reverse flag: the mirror automaton), compared with the recorded automaton for all subjects'
NOTE = ("Every dialect compiled under each combination of the flags it has: letter case, dot matching newline, extended syntax, anchored, reversed; "
        "inline flags at every place and in every scope over a token alphabet, exhaustively up to 4 tokens. Comments whose text the lexer takes apart are known findings.")

from core import *
from regex import *
import regen

COMBOS = [("i",), ("s",), ("x",), ("anch",), ("rev",), ("i", "rev"), ("i", "s"), ("s", "x"), ("i", "x"), ("anch", "rev"), ("anch", "i"), ("anch", "s"),
          ("i", "s", "x"), ("i", "s", "x", "anch", "rev")]
INLINE = "a B (?i) (?-i) (?i: ( ) |"
INLINE2 = "a . (?s) (?-s) (?s: ( ) | \n"
INLINE3 = "a (?x) (?-x) (?x: ( ) #c\n *"
EXT = "a b # \n ( ) * \\# [#] +"
ICLS = ["a", "Z", "a-c", "X-c", "[:upper:]", "[:lower:]", "\\x41", "\\w", "\\W", "k", "@", "[", "`", "{", "\\D", "[:^upper:]", "\\x{e9}"]


def run(chk):
    rng, deep = chk.rng, chk.thorough()
    rc = ReCases(chk, shards=8, workers=1)
    for f in chk.findings:
        rc.add(f["text"].encode("latin1"), "pcre", f["flags"], label=f["key"])
    seen = set()

    def add(t, d, fl):
        if (t, d, fl) not in seen:
            seen.add((t, d, fl))
            rc.add(t, d, fl)
    for toks in (INLINE, INLINE2, INLINE3):
        ts = [t.encode() for t in toks.split(" ")]
        whole = [t for t in regen.tokens(ts, 5) if b"(?" in t]
        for t in rng.sample(whole, min(len(whole), 8000 if deep else 550)):
            add(t, "pcre", ())
            if rng.random() < .3:
                add(t, "pcre", rng.choice((("i",), ("s",), ("x",), ("rev",), ("i", "s", "x"))))
        for t in regen.tokens(ts, 8, rng, 4000 if deep else 250):
            add(t, "pcre", rng.choice(((), (), ("i",), ("s",), ("x",))))
    ts = [t.encode() for t in EXT.split(" ")]
    for t in rng.sample(list(regen.tokens(ts, 4)), 600 if deep else 400) + regen.tokens(ts, 7, rng, 3000 if deep else 250):
        add(t, "pcre", ("x",))
        if rng.random() < .3:
            add(t, "pcre", ())
    for a in ICLS:
        for b in [""] + ICLS:
            for neg in ("", "^"):
                add(("[%s%s%s]" % (neg, a, b)).encode(), "pcre", ("i",))
    for b in range(1, 256):
        c = bytes([b])
        for d in ("pcre", "native", "sql", "like", "glob", "literal"):
            add(c, d, ("i",))
            add(c + b"x", d, ("rev",))
        add(b"a" + c + b"b", "pcre", ("x",))
        add(b"[" + c + b"]", "pcre", ("x", "i"))
        add(b"\\" + c, "pcre", ("x", "i"))
        add(b"." + c, "pcre", ("s",))
        add(c, "pcre", ("anch",))
    n = 4000 if deep else 230
    for fl in COMBOS:
        g = regen.Gen(rng, "pcre", x="x" in fl, letters=b"aAbBzZkK \n" if "i" in fl else b"aabbcB\n")
        k = 0
        while k < n:
            t = g.pattern(2)
            if len(t) < 40:
                add(t, "pcre", fl)
                k += 1
    for d, fls in (("native", [("i",), ("rev",), ("i", "rev"), ("anch",)]), ("sql", [("i",), ("rev",), ("i", "rev")])):
        for fl in fls:
            g = regen.Gen(rng, d, letters=b"aAbBzZ" + (b"\n" if d == "native" else b""), anchors=.2)
            for _ in range(n):
                t = g.pattern(2)
                if len(t) < 40:
                    add(t, d, fl)
    for d in ("literal", "like", "glob"):
        for fl in (("i",), ("rev",), ("i", "rev")):
            for _ in range(n // 3):
                add(regen.simple(rng, d, rng.randint(1, 8)), d, fl)
    rc.run()
    rc.judge()
    for k in (3000, 5000, 8000):
        if k in rc.items:
            chk.sample("%s %r %s" % (rc.items[k][1], rc.items[k][0], "+".join(rc.items[k][2])))
    chk.extra["patterns"] = len(rc.items)
    chk.extra["compiled"], chk.extra["refused"] = rc.tally["compiled"], rc.tally["refused"]
