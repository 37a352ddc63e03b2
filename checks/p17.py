"""P17: what a PCRE pattern matches."""
TECHNIQUE = 'TLA+ (TLC): the pattern text is read and given an automaton by the specification (spec/ReSyntax.tla, spec/ReLang.tla) and the product with the recorded automaton explored for all subjects of every length'
NOTE = ("Pattern texts over several token alphabets exhaustively up to 3-5 tokens, grammar-generated ones beyond; the whole chain text -> automaton is "
        "compared for all subjects (product exploration over exact byte classes, whose adequacy the specification verifies). Two families of anchored "
        "patterns that are known to be misread are left to fixed texts (known findings).")

from core import *
from regex import *
import regen

ALPHABETS = [      # tokens, exhaustive up to, random choice up to
    ("a b . * | ( )", 5, 8),
    ("a ^ $ | ( ) * ?", 4, 7),
    ("a b ^ $ (?: ) + |", 4, 7),
    ("a \\A \\Z $ | \n", 4, 6),
    ("a \\z ^ | \n . *", 4, 6),
    ("a {2} {1,3} {0} {0,1} {2,} ( ) | b", 3, 6),
    ("( ) * + ? a |", 5, 8),
    ("[^\\s\\S] a | * ( ) b ?", 4, 6),
]
COUNTS = [b"?", b"*", b"+"] + [b"{%s}" % c for c in (b"0", b"1", b"2", b"3", b"0,2", b"1,2", b"2,3", b"1,", b"2,", b"3,", b"0,")]
CLS = ["a", "c", "-", "^", "]", "\\d", "\\W", "\\]", "[:alpha:]", "[:^digit:]", "\\n", ".", "\\x41", "\\\\", "z", "9"]


def bracket(t):
    return [b"[" + t + b"]", b"[^" + t + b"]"]


def nested(chk):
    """Repetitions of repetitions, which the compiler merges into one where it thinks it may: every pair of counts, and some of three."""
    rng, out = chk.rng, []
    for c in COUNTS:
        for d in COUNTS:
            out += [b"^(?:a%s)%s$" % (c, d)] + ([b"(?:a%s)%sb" % (c, d), b"^(?:(?:ab|a)%s)%s$" % (c, d), b"^(a%s)%s$" % (c, d), b"^x(?:$|a%s)%s$" % (c, d)]
                                                if chk.thorough() else [b"^(%s%s)%s%s$" % (rng.choice([b"a", b"[ab]", b"(?:ab)"]), c, d, rng.choice([b"", b"b"]))])
    for _ in range(3000 if chk.thorough() else 150):
        out.append(b"^(?:(?:a%s)%s%s)%s$" % (rng.choice(COUNTS), rng.choice(COUNTS), rng.choice([b"", b"", b"|b", b"b"]), rng.choice(COUNTS)))
    return out


def texts(chk):
    rng, deep = chk.rng, chk.thorough()
    out = []
    for toks, n, m in ALPHABETS:
        ts = [t.encode() for t in toks.split(" ")]
        whole = regen.tokens(ts, n + (1 if deep else 0)) if len(ts) ** n < 5e5 else []
        cap = 60000 if deep else 900
        out += whole if len(whole) <= cap else rng.sample(whole, cap)
        out += regen.tokens(ts, m, rng, 8000 if deep else 350)
    one = [t.encode() for t in CLS]
    for a in one:
        out += bracket(a)
        for b in one:
            out += bracket(a + b)
    for _ in range(4000 if deep else 300):
        out += bracket(b"".join(rng.choice(one) for _ in range(rng.randint(3, 5))))
    for b in range(1, 256):
        c = bytes([b])
        out += [b"\\" + c, b"a\\" + c + b"b", b"[\\" + c + b"]", c, b"\\c" + c, b"x" + c + b"y", b"[" + c + b"]", b"[^" + c + b"]",
                b"\\x%02x" % b, b"\\x{%x}" % b, b"\\%03o" % b, b"\\o{%o}" % b, b"[\\x%02x]" % b, b"[\\%03o]" % b]
        if b < 255:
            out += [b"[\\x%02x-\\xff]" % b, b"[\\0-\\x%02x]" % b]
    for nm in regen.PCRE_BR:
        for neg in (b"", b"^"):
            out += [b"[[:%s%s:]]" % (neg, nm), b"[^[:%s%s:]]" % (neg, nm), b"[b[:%s%s:]_]" % (neg, nm)]
    for x in regen.PCRE_SETS + [b"\\R"]:
        out += [x, x + b"*", b"^" + x + b"$", b"(" + x + b"|a)", x + x, b"[" + x + b"]", b"[^" + x + b"]"]
    big = [b"a{%d}" % n for n in (7, 20, 61)] + [b"^[ab]{%d,%d}$" % mn for mn in ((3, 9), (0, 30), (17, 18))] + \
          [b"(ab|c){2,%d}d" % n for n in (5, 12)] + [b"a{%d,}b" % n for n in (5, 33)] + [b"^(a{2}){3}$", b"^(a{2,3}){2,3}$", b"^((ab?){2}c){2}$", b"x" * 300,
           b"^" + b"(" * 30 + b"a" + b")" * 30 + b"$", b"|".join(b"%d" % n for n in range(60)), b"^(" + b"|".join(b"w%dz" % n for n in range(40)) + b")$"]
    out += big + nested(chk)
    g = regen.Gen(rng, "pcre")
    h = regen.Gen(rng, "pcre", letters=b"ab", anchors=.35)
    n = 40000 if deep else 2600
    k = 0
    while k < n:
        t = (g if k % 3 else h).pattern(3 if deep and k % 4 == 0 else 2)
        if len(t) < (60 if deep else 40):
            out.append(t)
            k += 1
    return list(dict.fromkeys(out))


def run(chk):
    rc = ReCases(chk, shards=8, workers=1)
    for f in chk.findings:
        rc.add(f["text"].encode("latin1"), "pcre", (), label=f["key"])
    for t in texts(chk):
        rc.add(t, "pcre")
    rc.run()
    rc.judge()
    chk.sample("pcre %r" % (rc.items[len(rc.items) // 2][0],))
    chk.sample("pcre %r" % (rc.items[len(rc.items) - 1][0],))
    chk.extra["patterns"] = len(rc.items)
    chk.extra["compiled"], chk.extra["refused"] = rc.tally["compiled"], rc.tally["refused"]
    chk.assumptions.append("pattern texts the specification calls unspecified (st = unspec) are only required not to crash")
