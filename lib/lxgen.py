"""Lexer specifications for lx(1): generation, what the generated lexers read, and the
specification's judgement of it (spec/Lexer.tla).  What an expression denotes and how input
is divided is the specification's business; here are only the texts and the tree of each."""
import os, re, subprocess, json
from concurrent.futures import ThreadPoolExecutor
from core import *
from build import Build, REPO

PREC = {"alt": 1, "and": 2, "sub": 3, "cat": 4, "not": 5, "rev": 5, "same": 5, "star": 6, "plus": 6, "opt": 6}
SIGN = {"alt": " | ", "and": " & ", "sub": " - ", "cat": " ", "not": "~", "rev": "!", "same": "^", "star": "*", "plus": "+", "opt": "?"}


class X:
    """An expression: text, the level it binds at, its tree, and a sampler of likely words."""
    def __init__(self, text, lvl, tree, gen):
        self.text, self.lvl, self.tree, self.gen = text, lvl, tree, gen

    def at(self, lvl):
        return self.text if self.lvl >= lvl else "(" + self.text + ")"


def lit(bs, style):
    bs = bytes(bs)
    if style == "'":
        t = "'" + bs.decode("latin1") + "'"
    else:
        t = '"'
        for j, c in enumerate(bs):
            ch = chr(c)
            more = chr(bs[j + 1]) if j + 1 < len(bs) else ""
            if ch in '\\"':
                t += "\\" + ch
            elif ch == "\n":
                t += "\\n"
            elif ch == "\t":
                t += "\\t"
            elif c < 32 or c > 126:
                t += "\\x%02x" % c if style == "x" and more not in "0123456789abcdefABCDEF" else "\\%03o" % c
            else:
                t += ch
        t += '"'
    return X(t, 7, {"op": "re", "d": "literal", "fl": [], "text": list(bs)}, lambda r: bs)


def regex(rng, letters, depth=2):
    """-> (text, sampler): a small native regex."""
    def atom(d):
        k = rng.random()
        c = rng.choice(letters)
        e = {10: b"\\n", 9: b"\\t", 32: b" "}.get(c, bytes([c]) if 32 < c < 127 and chr(c) not in "/\\.*+?()[]{}|^$" else b"\\x%02x" % c)
        if k < .45:
            return e, lambda r: bytes([c])
        if k < .6:
            cs = sorted(set(rng.sample(letters, min(len(letters), rng.randint(1, 3)))))
            t = b"".join({10: b"\\n", 9: b"\\t"}.get(x, bytes([x]) if 32 <= x < 127 and chr(x) not in "/\\[]^-" else b"\\x%02x" % x) for x in cs)
            return b"[" + t + b"]", lambda r: bytes([r.choice(cs)])
        if k < .68:
            return b"[^" + (b"\\n" if rng.random() < .5 else (e if chr(c).isalnum() else b"\\n")) + b"]", lambda r: bytes([r.choice(letters)])
        if k < .76:
            return b".", lambda r: bytes([r.choice(letters)])
        if d <= 0:
            return e, lambda r: bytes([c])
        t, s = alt(d - 1)
        return b"(" + t + b")", s

    def piece(d):
        t, s = atom(d)
        k = rng.random()
        if k < .15:
            return t + b"*", lambda r: b"".join(s(r) for _ in range(r.choice((0, 1, 2, 3))))
        if k < .3:
            return t + b"+", lambda r: b"".join(s(r) for _ in range(r.choice((1, 1, 2, 3))))
        if k < .4:
            return t + b"?", lambda r: s(r) if r.random() < .5 else b""
        if k < .44:
            m = rng.randint(1, 2)
            return t + b"{%d,%d}" % (m, m + 1), lambda r: b"".join(s(r) for _ in range(m + r.randint(0, 1)))
        return t, s

    def seq(d):
        ps = [piece(d) for _ in range(rng.choice((1, 1, 2, 2, 3)))]
        return b"".join(p[0] for p in ps), lambda r: b"".join(p[1](r) for p in ps)

    def alt(d):
        ps = [seq(d) for _ in range(rng.choice((1, 1, 1, 2)))]
        return b"|".join(p[0] for p in ps), lambda r: r.choice(ps)[1](r)
    return alt(depth)


def re_(rng, letters, depth=1):
    t, s = regex(rng, letters, depth)
    fl = "i" if rng.random() < .12 else ""
    return X("/" + t.decode("latin1") + "/" + fl, 7,
             {"op": "re", "d": "native", "fl": ["anch", "s"] + (["i"] if fl else []), "text": list(t)}, s)


def un(op, x):
    p = PREC[op]
    text = SIGN[op] + x.at(p) if op in ("not", "rev", "same") else x.at(p) + SIGN[op]
    gen = {"star": lambda r: b"".join(x.gen(r) for _ in range(r.choice((0, 1, 2)))), "plus": lambda r: b"".join(x.gen(r) for _ in range(r.choice((1, 2)))),
           "opt": lambda r: x.gen(r) if r.random() < .5 else b"", "rev": lambda r: x.gen(r)[::-1],
           "not": lambda r: x.gen(r)[1:] + b"b"}.get(op, x.gen)
    return X(text, p, {"op": op, "a": [x.tree]}, gen)


def bi(op, x, y):
    p = PREC[op]
    # - and juxtaposition are right associative, & and | left associative
    l, r = (p + 1, p) if op in ("sub", "cat") else (p, p + 1)
    gen = {"cat": lambda q: x.gen(q) + y.gen(q), "alt": lambda q: (x if q.random() < .5 else y).gen(q)}.get(op, x.gen)
    return X(x.at(l) + SIGN[op] + y.at(r), p, {"op": op, "a": [x.tree, y.tree]}, gen)


def named(x, name):
    return X(name, 7, x.tree, x.gen)


class Zone:
    def __init__(self, no, parent):
        self.no, self.parent, self.maps, self.vars, self.paired = no, parent, [], {}, False

    def var(self, n):
        z = self
        while z is not None:
            if n in z.vars:
                return z.vars[n]
            z = z.parent

    def names(self):
        s, z = set(), self
        while z is not None:
            s |= set(z.vars)
            z = z.parent
        return sorted(s)


def nodes(t):
    return 1 + sum(nodes(x) for x in t.get("a", ()))


class Spec:
    """A random specification.  tidy: expressions kept apart from those before them, so that the
    specification is likely not ambiguous."""
    def __init__(self, rng, tidy=True, letters=None, size=None):
        self.rng, self.tidy = rng, tidy
        self.letters = letters or rng.choice((list(b"abc"), list(b"ab\n"), list(b"abcd "), list(b"ab\xff\xe9"), list(b"a\"\\'")))
        while True:
            self.zones, self.lines, self.nvar = [], [], 0
            self.budget = size or rng.choice((3, 5, 8))
            z = self.zone(None)
            self.things(z, None, rng.randint(1, 4), 0)
            if sum(nodes(m[0].tree) for z in self.zones for m in z.maps) <= 250:
                break
        self.text = "\n".join(self.lines) + "\n"

    def zone(self, parent):
        z = Zone(len(self.zones) + 1, parent)
        self.zones.append(z)
        return z

    def leaf(self, z):
        r = self.rng
        k = r.random()
        if k < .12 and z.names():
            n = r.choice(z.names())
            return named(z.var(n), n)
        if k < .2:
            toks = sorted({m[1] for m in z.maps if m[1]})
            if toks:
                t = r.choice(toks)
                xs = [m[0] for m in z.maps if m[1] == t]
                x = xs[0]
                for y in xs[1:]:
                    x = bi("alt", x, y)
                return named(x, "$" + t)
        if k < .6:
            s = [r.choice(self.letters) for _ in range(r.choice((1, 1, 2, 3)))]
            styles = ["\"", "x", "'"] if not any(c in s for c in b"'\n\\") else ["\"", "x"]
            return lit(s, r.choice(styles))
        return re_(r, self.letters)

    def expr(self, z, d=2):
        r = self.rng
        if d <= 0 or r.random() < .45:
            return self.leaf(z)
        k = r.random()
        if k < .3:
            return bi("cat", self.expr(z, d - 1), self.expr(z, d - 1))
        if k < .5:
            return bi("alt", self.expr(z, d - 1), self.expr(z, d - 1))
        if k < .65:
            return bi("sub", self.expr(z, d - 1), self.expr(z, d - 1))
        if k < .72:
            return bi("and", self.expr(z, d - 1), self.expr(z, d - 1))
        if k < .88:
            return un(r.choice(("star", "plus", "plus", "opt")), self.expr(z, d - 1))
        if k < .93:
            return un("rev", self.expr(z, d - 1))
        if k < .96:
            return un("same", self.expr(z, d - 1))
        return bi("and", un("not", self.expr(z, d - 1)), re_(r, self.letters))

    def mapping(self, z, others):
        """An expression and how it is written, apart from the others if tidy."""
        r = self.rng
        x = self.expr(z)
        if self.tidy:
            x = bi("and", x, X("/.+/", 7, {"op": "re", "d": "native", "fl": ["anch", "s"], "text": list(b".+")}, lambda q: b"a"))
            if others:
                y = others[0]
                for o in others[1:]:
                    y = bi("alt", y, o)
                x = bi("sub", x, y)
        return x

    def bind(self, z, x, ind):
        self.nvar += 1
        n = "v%d" % self.nvar
        self.lines.append("%s%s = %s;" % (ind, n, x.text))
        z.vars[n] = x
        return named(x, n)

    def token(self):
        r = self.rng
        self.budget -= 1
        return r.choice(["", "t1", "t2", "t3", "t4", "t5", "t6"]) if r.random() < .75 else ""

    def arrow(self, t):
        return " -> $" + t if t else ""

    def put(self, z, x, t, to, exit):
        y = bi("sub", x, exit) if exit is not None else x
        z.maps.append((y, t, to))

    def things(self, z, exit, n, depth):
        r = self.rng
        ind = "\t" * depth
        seen = []       # what the zone's mappings so far match, as variables
        if exit is not None and self.tidy and z.maps:
            pass
        made = 0
        while made < n or not made:
            made += 1
            k = r.random()
            x = self.mapping(z, seen)
            if self.tidy or r.random() < .2:
                x = self.bind(z, x, ind)
            t = self.token()
            if k < .55 or depth >= 3 or self.budget <= 0:
                self.lines.append("%s%s%s;" % (ind, x.text, self.arrow(t)))
                self.put(z, x, t, 0, exit)
                seen.append(x)
            elif k < .65:
                seen.append(x)
                self.lines.append("%s%s%s {" % (ind, x.text, self.arrow(t)))
                c = self.zone(z)
                self.put(z, x, t, c.no, exit)
                self.things(c, None, r.randint(1, 2), depth + 1)
                self.lines.append(ind + "}")
            else:
                seen.append(x)
                head = [(x, t)]
                c = None
                if not self.tidy:
                    c = self.zone(z)
                    self.put(z, x, t, c.no, exit)
                while r.random() < .25:
                    y = self.mapping(z, seen)
                    if self.tidy:
                        y = self.bind(z, y, ind)
                    head.append((y, self.token()))
                    seen.append(y)
                    if not self.tidy:
                        self.put(z, y, head[-1][1], c.no, exit)
                c = c or self.zone(z)
                c.paired = True
                # the ends are read in the outer zone
                ends, pre = [], []
                while not ends or r.random() < .2:
                    y = self.mapping(z, [e[0] for e in ends])
                    if self.tidy:
                        y = self.bind(z, y, ind)
                    u = self.token()
                    ends.append((y, u))
                    c.maps.append((y, u, z.no))
                if self.tidy:
                    for y, u in head:
                        self.put(z, y, u, c.no, exit)
                line = ", ".join(y.text + self.arrow(u) for y, u in head) + " .. " + ", ".join(y.text + self.arrow(u) for y, u in ends)
                out = ends[0][0]
                for y, u in ends[1:]:
                    out = bi("alt", out, y)
                if r.random() < .35:
                    self.lines.append(ind + line + ";")
                    anyx = X("", 7, {"op": "any"}, lambda q: bytes([q.choice(self.letters)]))
                    self.put(c, anyx, "", 0, out)
                else:
                    self.lines.append(ind + line + " {")
                    self.things(c, out, r.randint(1, 3), depth + 1)
                    self.lines.append(ind + "}")

    # ---- inputs
    def inputs(self, n, nul=False):
        r = self.rng
        ws = [b""]
        for _ in range(n - 1):
            w, z = b"", self.zones[0]
            for _ in range(r.choice((1, 2, 4, 8))):
                if r.random() < .08:
                    w += bytes([r.choice(self.letters + [r.randrange(1, 256), 10])])
                    continue
                y, t, to = r.choice(z.maps)
                w += y.gen(r)
                if to:
                    z = self.zones[to - 1]
            ws.append(w[:60])
        return [w.replace(b"\0", b"") for w in ws]


def leaves(t):
    return [t] if t["op"] == "re" else [] if t["op"] == "any" else sum((leaves(x) for x in t["a"]), [])


def class_sets(spec, words):
    bs = set(b"".join(words)) | {10} | set(spec.letters)
    for z in spec.zones:
        for x, t, to in z.maps:
            for l in leaves(x.tree):
                if l["d"] == "literal":
                    bs |= set(l["text"])
                elif "i" in l["fl"]:
                    bs |= set(bytes(spec.letters).swapcase())
    return [{b} for b in sorted(bs)]


IOS = [("getc", "sgetc"), ("getc", "agetc"), ("getc", "fgetc"), ("getc", "fdgetc"), ("str", ""), ("pair", "")]


LX = []


def lx(args, text):
    if not LX:
        LX.append(Build().tool("lx"))
    p = subprocess.run([LX[0]] + args, input=text.encode("latin1"), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
    return p.returncode, p.stdout, p.stderr.decode("latin1")


def generate(d, text, io, getc, buf, pos, conc=1):
    """Generate and build the lexer in directory d -> (exit status, stderr) of lx."""
    args = ["-k", io] + (["-g", getc] if getc else []) + (["-b", buf] if buf else ["-b", "dyn", "-x", "buf"]) + ([] if pos else ["-x", "pos"])
    rc, c, err = lx(["-l", "c", "-C", str(conc)] + args, text)
    if rc != 0:
        return rc, err
    rc, h, err = lx(["-l", "h"] + args, text)
    if rc != 0:
        return rc, "-l h: " + err
    open(os.path.join(d, "g.c"), "wb").write(c)
    open(os.path.join(d, "g.h"), "wb").write(h)
    src = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness", "lxrun.c")
    # a small first size for the token buffer, a limit of lx.h's that is there to be changed, so that it grows and shrinks
    fl = ["-DLX_DYN_LOW=2", "-DLX_DYN_HIGH=4", "-DFROM_" + (getc or io).upper()] + (["-DBUF_" + buf.upper()] if buf else []) + ([] if pos else ["-DNO_POS"])
    p = subprocess.run(["gcc", "-w", "-O0", '-DLX_HEADER="g.h"', '-DLX_C="g.c"', "-I" + d] + fl + [src, "-o", os.path.join(d, "g")],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        raise Misbehaves("the generated lexer does not compile: " + p.stdout.decode()[:500])
    return 0, ""


def read(d, words, tmo=20):
    f = os.path.join(d, "words")
    open(f, "w").write("".join((w.hex() or "-") + "\n" for w in words))
    p = subprocess.run([os.path.join(d, "g"), f], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=tmo)
    try:
        return p.returncode, [json.loads(l) for l in p.stdout.decode("latin1").splitlines()], p.stderr.decode("latin1")
    except ValueError:
        raise Misbehaves("the generated lexer's tokens cannot be read: %r" % p.stdout[-300:])


def outcome(o, buf, pos):
    t = {"t": o[0].lower() if o[0] not in ("EOF", "UNKNOWN", "ERROR") else o[0], "s": o[1] if pos else [], "e": o[2] if pos else [], "x": []}
    if buf and len(o) > 3:
        t["x"] = list(bytes.fromhex(o[3]))
    return t


def diagnosis(err):
    """What lx says of an ambiguous specification -> [(text, [(token, where)])]"""
    out = []
    for part in re.split(r"(?m)^(?=start state accepts$|ambiguous mappings to )", err):
        if part.startswith("start state"):
            out.append((b"", []))
        m = re.match(r"(?s)ambiguous mappings to (.*?); for example on input '(.*)'$", part.strip("\n"))
        if m:
            ns = []
            for x in m.group(1).split(", ") if m.group(2) else []:
                t, _, z = x.partition("/") if x[:1] == "$" else ("", "", x)
                ns.append((t.lstrip("$"), "stay" if z in ("", "skip") else "global" if z == "global zone" else "zone"))
            out.append((re.sub(rb"\\x([0-9a-f]{2})", lambda h: bytes([int(h.group(1), 16)]), m.group(2).encode("latin1")), ns))
    return out


def case(cid, spec, st, runs, buf, pos, err=""):
    """runs: [(word, tokens)]"""
    told = diagnosis(err) if st == "no" else []
    words = [w for w, _ in runs] + [w for w, _ in told]
    cl = classes([], class_sets(spec, words))
    of = {b: j + 1 for j, c in enumerate(cl) for b in c}
    return {"id": cid, "k": len(cl), "cls": [of[b] for b in range(256)], "rep": [c[0] for c in cl], "st": st,
            "told": [{"w": [of[b] for b in w], "names": [list(x) for x in ns]} for w, ns in told],
            "zones": [{"paired": z.paired, "maps": [{"x": x.tree, "tok": t, "to": to} for x, t, to in z.maps]} for z in spec.zones],
            "runs": [{"w": [of[b] for b in w], "b": list(w), "buf": bool(buf), "pos": bool(pos),
                      "o": [outcome(o, buf, pos) for o in toks]} for w, toks in runs]}
