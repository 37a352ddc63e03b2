"""Generation of pattern texts: grammar-based (mostly well-formed, with a budget that keeps the
automaton small), mutations, and exhaustive short texts.  What a text means is the specification's
business (spec/ReSyntax.tla); nothing here depends on it."""
import itertools

PCRE_SETS = [b"\\d", b"\\D", b"\\w", b"\\W", b"\\s", b"\\S", b"\\h", b"\\H", b"\\v", b"\\V", b"\\N"]
PCRE_CHARS = [b"\\n", b"\\r", b"\\t", b"\\f", b"\\a", b"\\e", b"\\.", b"\\*", b"\\\\", b"\\[", b"\\(", b"\\)", b"\\{", b"\\|", b"\\^",
              b"\\$", b"\\+", b"\\?", b"\\x41", b"\\x{62}", b"\\x{0a}", b"\\x{ff}", b"\\o{141}", b"\\o{12}", b"\\0", b"\\012", b"\\07",
              b"\\x", b"\\x6", b"\\cA", b"\\cz", b"\\c[", b"\\-", b"\\ ", b"\\#", b"\\/", b"\\}", b"\\]", b"\\cJ", b"\\c?"]
BRACKETS = [b"alnum", b"alpha", b"blank", b"cntrl", b"digit", b"graph", b"lower", b"print", b"punct", b"space", b"upper", b"xdigit"]
PCRE_BR = BRACKETS + [b"ascii", b"word"]
NATIVE_BR = BRACKETS + [b"hspace", b"vspace", b"ascii", b"word"]
NATIVE_BR.remove(b"blank")
SQL_BR = [b"ALNUM", b"ALPHA", b"DIGIT", b"LOWER", b"UPPER", b"SPACE", b"WHITESPACE"]
NATIVE_CHARS = [b"\\n", b"\\r", b"\\t", b"\\f", b"\\v", b"\\\\", b"\\.", b"\\*", b"\\[", b"\\(", b"\\)", b"\\{", b"\\|", b"\\^", b"\\$",
                b"\\+", b"\\?", b"\\x41", b"\\x0a", b"\\141", b"\\12", b"\\0", b"\\377"]


class Gen:
    def __init__(self, rng, dialect, letters=b"aabbcB\n", anchors=0.2, x=False, comments=True, wild=False):
        self.r, self.d, self.letters, self.anchors, self.x, self.comments = rng, dialect, letters, anchors, x, comments
        self.wild = wild
        self.reset()

    def reset(self):
        """The two families of recorded findings among anchors (known_findings.json, P17) are left
        to their fixed texts: \\z together with $ or \\Z, and a start anchor after an end anchor."""
        self.ends = [b"$"] if self.d != "pcre" else self.r.choice(([b"$"], [b"$", b"\\Z"], [b"\\z"]))
        self.starts = [b"^"] if self.d != "pcre" else [b"^", b"^", b"\\A"]
        self.ended = False

    def pattern(self, depth):
        self.reset()
        return self.expr(depth)

    def anchor(self):
        if self.wild:
            return self.r.choice((b"^", b"$", b"^", b"$", b"\\A", b"\\z", b"\\Z") if self.d == "pcre" else (b"^", b"$"))
        if not self.ended and self.r.random() < .5:
            return self.r.choice(self.starts)
        self.ended = True
        return self.r.choice(self.ends)

    def letter(self):
        c = bytes([self.r.choice(self.letters)])
        if self.d == "sql" and c in b"%_()[]{}|*+?^-":
            c = b"a"
        return c

    def cls(self):
        r, d = self.r, self.d
        parts = [b""]
        if d == "sql":
            def item():
                k = r.random()
                if k < 0.5:
                    return self.letter()
                if k < 0.8:
                    a, b = sorted(r.sample(b"aZbBczA09@`{", 2))
                    return bytes([a]) + b"-" + bytes([b])
                return b"[:" + r.choice(SQL_BR) + b":]"
            body = b"".join(item() for _ in range(r.choice((1, 1, 2, 3))))
            t = b"[" + (b"^" if r.random() < .3 else b"") + (b"-" if r.random() < .15 else b"") + body
            if r.random() < .25:
                t += b"^" + b"".join(item() for _ in range(r.choice((1, 2))))
            return t + b"]"
        chars = ([b"\\n", b"\\t", b"\\f", b"\\r", b"\\\\", b"\\^", b"\\-", b"\\["] +
                 ([b"\\b", b"\\a", b"\\e", b"\\x41", b"\\x{61}", b"\\o{142}", b"\\0", b"\\012", b"\\x{ff}", b"\\$", b"\\.", b"\\]"] if d == "pcre"
                  else [b"\\v", b"\\]", b"\\x41", b"\\141", b"\\12"]))
        def item():
            k = r.random()
            if k < 0.4:
                return self.letter()
            if k < 0.62:
                a, b = sorted(r.sample(b"aZbBczA09@`{~ !", 2))
                return bytes([a]) + b"-" + bytes([b])
            if k < 0.7:
                return r.choice(chars)
            if k < 0.74:
                return r.choice((b"\\x41-\\x5a", b"\\t-\\r", b"a-\\x63", b"\\x30-9") if d == "pcre" else (b"\\x41-\\x5a", b"\\t-\\r", b"a-\\x63"))
            if k < 0.86 and d == "pcre":
                return r.choice(PCRE_SETS[:-1])
            if k < 0.95:
                return b"[:" + r.choice(PCRE_BR if d == "pcre" else NATIVE_BR) + b":]"
            return r.choice((b".", b"$", b"*", b"(", b"|", b"{"))
        body = b"".join(item() for _ in range(r.choice((1, 1, 2, 2, 3, 4))))
        return (b"[" + (b"^" if r.random() < .35 else b"") + (b"]" if r.random() < .08 else b"-" if r.random() < .05 else b"") +
                body + (b"-" if r.random() < .08 else b"") + b"]")

    def atom(self, depth):
        r, d = self.r, self.d
        k = r.random()
        if d == "sql":
            if k < .5:
                return self.letter()
            if k < .62:
                return b"_"
            if k < .7:
                return b"%"
            if k < .82:
                return self.cls()
            return b"(" + self.expr(depth - 1) + b")" if depth > 0 else self.letter()
        if k < .46:
            return self.letter()
        if k < .53:
            return b"."
        if k < .62:
            return self.cls()
        if k < .66:
            return r.choice(PCRE_CHARS if d == "pcre" else NATIVE_CHARS)
        if k < .69 and d == "pcre":
            return r.choice(PCRE_SETS + [b"\\R", b"\\R"])
        if k < .71 and d == "pcre":
            return b"\\Q" + r.choice((b"", b"a", b"a.b", b"*", b"a|b", b"(", b"[a")) + b"\\E"
        if k < .73 and d == "pcre" and self.comments:
            return r.choice((b"(?#c)", b"(?#)", b"(?# a*b)", b"(?#[x)", b"\\E"))
        if k < .77 and d == "pcre":
            f = r.choice((b"i", b"s", b"x", b"n", b"-i", b"-s", b"-x", b"i-s", b"s-i"))
            return b"(?" + f + b")" if r.random() < .5 or depth <= 0 else b"(?" + f + b":" + self.expr(depth - 1) + b")"
        if k < .80 and d == "pcre" and self.x:
            return r.choice((b" ", b"\n", b"\t", b"#c\n", b"# a b*\n", b"\\ ", b"\\#", b"[ #]", b"  "))
        if depth > 0:
            o = b"("
            if d == "pcre":
                o = r.choice((b"(", b"(", b"(", b"(?:"))
            return o + self.expr(depth - 1) + b")"
        return self.letter()

    def count(self):
        r = self.r
        k = r.random()
        if k < .62:
            return r.choice((b"*", b"*", b"+", b"?"))
        a = r.choice((0, 0, 1, 1, 2, 2, 3, 4))
        b = a + r.choice((0, 1, 1, 2, 3))
        if k < .75:
            return b"{%d}" % a
        if k < .92 or self.d != "pcre":
            return b"{%d,%d}" % (a, b)
        return b"{%d,}" % a

    def piece(self, depth):
        r = self.r
        if self.d != "sql" and r.random() < self.anchors:
            return self.anchor()
        a = self.atom(depth)
        if r.random() < .3 and not a.startswith((b"(?i)", b"(?s)", b"(?x)", b"(?n)", b"(?-", b"(?#")):
            a += self.count()
        return a

    def seq(self, depth):
        r = self.r
        n = r.choice((0, 1, 1, 1, 2, 2, 2, 3, 3, 4)) if self.d == "pcre" else r.choice((1, 1, 1, 2, 2, 2, 3, 3, 4))
        return b"".join(self.piece(depth) for _ in range(n))

    def expr(self, depth):
        r = self.r
        if depth > 0 and r.random() < .08:
            return b"" if self.d != "sql" else self.seq(depth)
        return b"|".join(self.seq(depth) for _ in range(r.choice((1, 1, 1, 2, 2, 3))))


def simple(rng, dialect, n):
    al = {"like": b"aB%_%_\n\\", "glob": b"aB*?*?\n[", "literal": b"aB*.\n\\(%", "sql": b"aB%_"}[dialect]
    return bytes(rng.choice(al) for _ in range(n))


def mutate(rng, t, alphabet=b"()[]{}|*+?\\^$-:,#<>!=&aB1\n\x00\xff"):
    t = bytearray(t)
    for _ in range(rng.choice((1, 1, 1, 2, 3))):
        k = rng.randrange(4)
        if k == 0 and t:
            del t[rng.randrange(len(t))]
        elif k == 1:
            t.insert(rng.randint(0, len(t)), rng.choice(alphabet))
        elif k == 2 and t:
            t[rng.randrange(len(t))] = rng.choice(alphabet)
        elif t:
            i, j = rng.randrange(len(t)), rng.randrange(len(t))
            t[i], t[j] = t[j], t[i]
    return bytes(t)


def short(alphabet, n):
    for l in range(n + 1):
        for t in itertools.product(alphabet, repeat=l):
            yield bytes(t)


def recorded_family(toks):
    """The families of anchored patterns left to the fixed texts of known_findings.json: \\z together
    with $ or \\Z, and a start anchor somewhere after an end anchor."""
    ends = {t for t in toks if t in (b"$", b"\\Z", b"\\z")}
    if b"\\z" in ends and len(ends) > 1:
        return True
    e = [i for i, t in enumerate(toks) if t in (b"$", b"\\Z", b"\\z")]
    s = [i for i, t in enumerate(toks) if t in (b"^", b"\\A")]
    return bool(e and s and max(s) > min(e))


def tokens(toks, n, rng=None, limit=None, balanced=True, filt=None):
    """Texts made of up to n of the given tokens: all, or a random choice of `limit`."""
    toks = [t if isinstance(t, bytes) else t.encode() for t in toks]
    def ok(x):
        if balanced:
            d = 0
            for t in x:
                d += t.startswith(b"(") and not t.endswith(b")")
                d -= t == b")"
                if d < 0:
                    return False
            if d:
                return False
        return not recorded_family(x) and (filt is None or filt(x))
    if limit is None:
        seen = set()
        for l in range(n + 1):
            for x in itertools.product(toks, repeat=l):
                if ok(x):
                    seen.add(b"".join(x))
        return sorted(seen, key=lambda t: (len(t), t))
    seen, tries = {}, 0
    while len(seen) < limit and tries < 200 * limit:
        tries += 1
        x = [rng.choice(toks) for _ in range(rng.randint(1, n))]
        if ok(x):
            seen[b"".join(x)] = 1
    return list(seen)
