"""P35: rx(1), sets of patterns compiled from files."""
TECHNIQUE = ('TLA+ (TLC): spec/Rx.tla, the machine that numbers, categorises and declines lines, replayed against every run of the program; the automaton the program writes, '
             'in product with one automaton per line as the specification reads it (spec/LangCheck.tla, claims "within" and "ambig"); generated C by spec/WordCheck.tla')
NOTE = ("Which ids are reported is compared at every text. A literal left open at its end is reported only where the text ends with it (the known finding of P22), so there "
        "the ids are bounded from both sides; a $ after a literal may or may not let a last newline by.")

import re as _re, subprocess
from core import *
from regex import *
import build as B
import gen, regen, words, codegen as cg
from p13 import judge_ids
from p23 import FAMILY

LITS = [b"a", b"ab", b"abc", b"^a", b"^ab", b"a$", b"bc$", b"^ab$", b"^abc$", b"^b", b"^$", b"", b"b", b"c$", b"a\\.b", b"\\x61", b"^\\Qa.b\\E$", b"cab", b"^ca", b"bca$"]
BAD = [b"(", b"a)", b"[a", b"a{2,1}", b"*a", b"(?=a)", b"a(?!b)b", b"(a)\\1", b"$x", b"x^y", b"a$b+", b"\\b", b"(?<n>a)", b"a++", b"(?i)a", b"a*$x", b"[[:foo:]]"]
OTHER = {"glob": [b"*", b"a*", b"a?b", b"*.c", b"ab", b"", b"?", b"*b*"], "like": [b"a%", b"%", b"a_b", b"_", b"ab", b"", b"%b"],
         "sql": [b"a%", b"(a|b)c", b"a_b", b"ab", b"[ab]+", b"", b"a{2}"], "native": [b"ab", b"^ab$", b"a|b", b"a+b", b"(ab)*", b"^", b"a.c", b""],
         "literal": [b"a", b"ab", b"a.b", b"^a$", b"", b"A", b"*", b"(a"]}
ERRNAME = _re.compile("unsupported", _re.I)


def lines_of(rng, dialect, n, letters):
    out = []
    g = regen.Gen(rng, "pcre", letters=b"aab", anchors=.3, comments=False)
    while len(out) < n:
        if dialect != "pcre":
            t = rng.choice(OTHER[dialect]) if rng.random() < .6 else bytes(rng.choice(letters) for _ in range(rng.randrange(1, 4)))
        else:
            r = rng.random()
            if r < .4:
                t = rng.choice(LITS)
            elif r < .55:
                t = rng.choice((b"", b"^")) + bytes(rng.choice(letters) for _ in range(rng.randrange(1, 5))) + rng.choice((b"", b"$"))
            elif r < .75:
                t = rng.choice(FAMILY)
            elif r < .87:
                t = g.pattern(rng.choice((0, 1)))
            else:
                t = rng.choice(BAD)
        if len(t) < 20 and not set(t) & {0, 10}:
            out.append(t)
    return out


def body(lit):
    """The literal rx takes: without the newline a $ lets by."""
    s = bytes.fromhex(lit["s"])
    return s[:-1] if lit["cat"] in (2, 3) and s.endswith(b"\n") else s


class Job:
    pass


def jobs(chk):
    rng, deep = chk.rng, chk.thorough()
    for f in chk.findings:
        j = Job()
        j.files, j.fl, j.limit, j.strict, j.x, j.key, j.exact, j.ends, j.charset = [("pcre", [t.encode() for t in f["patterns"]])], set(), 0, False, False, f["key"], True, [True], f.get("charset")
        yield j
    for k in range(5000 if deep else 700):
        j = Job()
        j.key, j.exact, j.charset = None, False, None
        j.files = []
        al = rng.choice((b"ab", b"abc", b"aA", b"ab."))
        for _ in range(rng.choice((1, 1, 1, 2, 3))):
            d = rng.choice(("pcre",) * 6 + ("glob", "like", "native", "literal", "literal", "sql"))
            j.files.append((d, lines_of(rng, d, rng.choice((0, 1, 1, 2, 2, 3, 4)), al)))
        j.fl = set(rng.choice(((),) * 5 + (("i",), ("s",), ("x",), ("anch",), ("i", "anch"))))
        j.limit = rng.choice((0, 0, 0, 1, 2))
        j.strict = rng.random() < .15
        j.x = rng.random() < .25 and "i" not in j.fl
        j.ends = [rng.random() < .8 for _ in j.files]       # a newline after the last line
        if k % 6 == 0:          # a character set
            j.files = [("pcre", [t for t in lines_of(rng, "pcre", rng.choice((1, 2, 3)), b"abc") if t not in BAD]) for _ in j.files]
            j.charset = rng.choice(("ab", "abc", "cba", "b"))
            j.strict = False
        yield j


LETTER = {"i": "i", "s": "s", "x": "x", "anch": "b"}


def run(chk):
    rng, deep = chk.rng, chk.thorough()
    rx, exe = B.Build().tool("rx"), drv()
    todo = list(jobs(chk))
    # what libre makes of each pattern
    pats = sorted({(d, sum(FLAG[f] for f in j.fl), t) for j in todo for d, ts in j.files for t in ts})
    ans = run_driver(exe, {k: ["re 0 %s %d %s" % (d, fl, t.hex() or "-"), "literal %s %d %s" % (d, fl, t.hex() or "-")] for k, (d, fl, t) in enumerate(pats)})
    libre = {p: ans[k] for k, p in enumerate(pats)}

    def one(k):
        """Run rx: to the textual format, to look for ambiguities, and to C."""
        j, d = todo[k], chk.work.path("j%d" % k)
        os.mkdir(d)
        names = []
        for i, ((dialect, ts), end) in enumerate(zip(j.files, j.ends)):
            names.append("f%d.%s" % (i, dialect))
            text = b"".join(t + b"\n" for t in ts)
            open(os.path.join(d, names[-1]), "wb").write(text if end or not ts or ts[-1] == b"" else text[:-1])
        base = [rx]
        one_dialect = len({dl for dl, _ in j.files}) == 1
        if one_dialect and (k % 2 or j.key):
            base += ["-r", j.files[0][0]]
        else:
            base += ["-s"]
        if j.fl:
            base += ["-F", "".join(LETTER[f] for f in sorted(j.fl))]
        if j.limit:
            base += ["-n", str(j.limit)]
        base += ["-i"] * j.strict + ["-x"] * j.x + (["-C", j.charset] if j.charset else [])
        out = {}
        px = "R%dx" % k
        io = ("str", "pair", "getc")[k % 3]
        amb = ("multiple", "earliest", "error")[k // 3 % 3]
        for tag, extra in (("fsm", ["-u", "-v", "-l", "fsm", "-d", "declined"]), ("lint", ["-q"]),
                           ("c", ["-l", "c", "-k", io, "-e", px] + {"multiple": ["-u"], "earliest": ["-t"], "error": []}[amb])):
            p = subprocess.run(base + extra + names, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, timeout=60)
            out[tag] = (p.returncode, p.stdout, p.stderr)
        try:
            dec = open(os.path.join(d, "declined"), "rb").read()
        except OSError:
            dec = b""
        return base[1:] + names, out, dec, (px, io, amb)
    with ThreadPoolExecutor(max_workers=NCPU) as ex:
        ran = list(ex.map(one, range(len(todo))))

    # the machine
    cases, where = [], {}
    for k, j in enumerate(todo):
        args, out, dec, _ = ran[k]
        what = "rx %s on %s" % (" ".join(args), " / ".join(" ".join(repr(t.decode("latin1")) for t in ts) for _, ts in j.files))
        j.what, j.flat = what, [(i, d, t) for i, (d, ts) in enumerate(j.files) for t in ts]
        dead = [(t, o[0]) for t, o in out.items() if o[0] < 0 or o[0] > 1]
        j.replay = {"files": [[d, [t.decode("latin1") for t in ts]] for d, ts in j.files], "args": args, "ends": j.ends,
                    "stderr": out["fsm"][2].decode("latin1")[-600:]}
        j.plan = None
        if dead:
            chk.violation("%s: the program died: %s" % (what, dead), j.replay, key=what)
            continue
        lines = []
        for i, d, t in j.flat:
            r, lit = libre[(d, sum(FLAG[f] for f in j.fl), t)][:2]
            ok = r.get("re") == 1
            un = not ok and bool(ERRNAME.search(str(r)))
            if lit["lit"] == 1:
                kind = "unsat" if lit["cat"] == 4 else "literal" if lit["s"] else "empty"
            elif lit["lit"] == -1:
                kind = "unsupported" if un else "error"
            else:
                kind = "general"
            if kind == "literal" and j.charset and set(body(lit)) - set(j.charset.encode()):
                kind = "barred"
            if d == "literal" and "i" not in j.fl:
                kind = "literal"
            if kind == "general" and not ok and not un:
                kind = "error"
            lines.append({"f": i + 1, "k": kind, "c": "ok" if ok else "unsupported", "s": t.decode("latin1"), "cat": lit["cat"], "lit": lit["s"]})
        j.lines = lines
        said = []
        for m in _re.finditer(rb"^(literal|general|declined \(([^)]*)\)) (f\d+\.\w+):#(\d+):? ", out["fsm"][2], _re.M):
            kind = m.group(1).decode().split(" ")[0]
            if kind == "literal" and m.end() < len(out["fsm"][2]) and out["fsm"][2][m.end():m.end() + 1] == b"'":
                continue        # said twice
            if kind == "declined":
                kind = {b"parse error": "error", b"unsupported": "unsupported", b"unsatisfiable": "unsat", b"charset/reject": "barred"}.get(m.group(2), m.group(2).decode())
            said.append([kind, int(m.group(4))])
        dids = [int(x) for x in _re.findall(rb"^declined\[\d+\]: #(\d+) /", out["fsm"][2], _re.M)]
        got = {"dids": dids, "rc": out["fsm"][0], "declined": dec.decode("latin1").split("\n")[:-1], "said": said}
        where[len(cases) + 1] = k
        cases.append({"id": len(cases) + 1, "files": len(j.files), "limit": j.limit, "strict": j.strict,
                      "lines": [{x: l[x] for x in ("f", "k", "c", "s")} for l in lines], "got": got})
    outs, gs, ds = tlc_shards("Rx", "Rx.cfg", cases, chk.work, "rx", 4, 2)
    chk.states += ds
    chk.trans += gs
    for o in outs:
        o = _re.sub(r"\s*\n\s+", " ", o)
        for m in _re.finditer(r'<<\s*"RX", (\d+), (TRUE|FALSE), "([^"]*)", \{([^}]*)\}\s*>>', o):
            j = todo[where[int(m.group(1))]]
            j.plan = [(int(a), int(b)) for a, b in _re.findall(r"<<(\d+), (\d+)>>", m.group(4))]
            j.failed = m.group(2) == "TRUE"
            if m.group(3) != "ok":
                chk.violation("%s: it %s" % (j.what, m.group(3)), dict(j.replay, case=cases[int(m.group(1)) - 1]), key=j.what)
                j.failed = True
    if any(todo[k].plan is None for k in where.values()):
        raise RuntimeError("the specification does not judge every run")

    # the automata
    scripts = {k: ["parse 0 %s" % (ungroup(ran[k][1]["fsm"][1]).hex() or "-"), "dump 0"] for k, j in enumerate(todo) if j.plan is not None and not j.failed}
    res = run_driver(exe, scripts)
    lc = LangCases(chk, shards=8, workers=1)
    units, ws, dumps, tally = [], {}, {}, {"runs": len(todo), "ambiguous": 0, "declined lines": 0, "lines": 0}
    for k, vals in res.items():
        j = todo[k]
        args, out, dec, (px, io, amb) = ran[k]
        if crashed(vals):
            chk.violation("%s: what it prints cannot be read back (%s)" % (j.what, crashed(vals)), j.replay, key=j.what)
            continue
        with chk.guard(j.what, j.replay):
            d = vals[1]
            tally["lines"] += len(j.flat)
            tally["declined lines"] += len(j.flat) - len(j.plan)
            ids = sorted({i for _, i in j.plan})
            num = {i: n + 1 for n, i in enumerate(ids)}
            raw = dict(d)
            d = dict(d, ids=[[q] + [num.get(i, 99) for i in l] for q, *l in d["ids"]])
            virts, m, sets = [], [], []
            exact = j.exact
            for n, i in sorted(j.plan):
                _, dialect, t = j.flat[n - 1]
                l = j.lines[n - 1]
                sets += interest(t, j.fl)
                if dialect == "literal" and j.x:
                    if not t:
                        exact = None
                        continue
                    hi = {"v": "str", "m": [{"s": list(t), "id": 0}], "pre": 0, "suf": 0}
                    lo = dict(hi, suf=1)
                else:
                    hi = {"v": "re", "text": list(t), "d": dialect, "fl": sorted(j.fl), "only": 0}
                    lo = None
                    if l["k"] == "literal" and not exact and dialect != "literal" and l["cat"] in (0, 1, 2, 3):
                        s = body({"cat": l["cat"], "s": l["lit"]})
                        if not s:
                            lo = {"v": "re", "text": list(b"^\\z" if l["cat"] in (1, 3) else b"\\z"), "d": "pcre", "fl": [], "only": 0}
                        else:
                            lo = {"v": "str", "m": [{"s": list(s), "id": 0}], "pre": 1 if l["cat"] in (1, 3) else 0, "suf": 1}
                virts.append(hi)
                h = 1 + len(virts)
                if lo:
                    virts.append(lo)
                low = 1 + len(virts)
                if j.charset:
                    # only the literals are cut down (known finding)
                    virts.append({"v": "restrict", "x": low, "bytes": list(j.charset.encode())})
                    low = 1 + len(virts)
                    if exact:
                        h = low
                    elif l["k"] == "literal":
                        virts.append({"v": "restrict", "x": h, "bytes": list(j.charset.encode())})
                        h = 1 + len(virts)
                m.append([low, h, num[i]])
            if exact is None or len(d["t"]) > 3000 or len(virts) > 9:
                continue
            lint = out["lint"][2].decode("latin1")
            told, cur, quiet = [], None, True
            if j.charset:
                sets = sets + [set(j.charset.encode())]
            cls = classes([d], sets)
            of = {b: c + 1 for c, x in enumerate(cls) for b in x}
            for ln in lint.split("\n"):
                g = _re.match(r"error: ambiguous patterns(?:, for example on input '(.*)':)?$", ln)
                if g:
                    quiet = False
                    cur = {"w": [of[c] for c in unescape(g.group(1) or "")], "ids": set()}
                    told.append(cur)
                g = _re.match(r"#(\d+): /", ln)
                if g and cur is not None:
                    cur["ids"].add(num.get(int(g.group(1)), 99))
            told = [dict(t, ids=sorted(t["ids"])) for t in told]
            tally["ambiguous"] += not quiet
            iff = {"if": [1 + n for n, v in enumerate(virts, 1) if v["v"] == "re"]}
            claims = [{"c": "sat", "x": 2 + n} for n in range(len(virts)) if virts[n]["v"] != "restrict"] + [
                {"c": "isdfa", "x": 1}, dict({"c": "within", "x": 1, "m": m}, **iff), {"c": "ambig", "x": 1, "r": not quiet, "told": told}]
            lc.add([d], claims, scripts[k], virts, sets=sets, cls=cls, label=j.what)
            lc.meta[len(lc.cases)].update(key=j.key or j.what, replay=j.replay)
            if k in (20, 300):
                chk.sample(j.what)
            if out["lint"][1]:
                chk.violation("%s: -q printed code" % j.what, j.replay)
            # C
            conflict = any(len(r) > 2 for r in raw["ids"]) and amb == "error"
            if out["c"][0] != 0 or (conflict and out["c"][1]):
                chk.violation("%s -l c (%s): status %d, %d bytes of code" % (j.what, amb, out["c"][0], len(out["c"][1])), j.replay)
            elif not conflict and k % 3 == (k // 9) % 3 and raw["s"] >= 0:
                units.append(cg.Unit(k, "vmc", io, amb, px, [out["c"][1]], False))
                dumps[k] = raw
                w = words.suite(raw, rng, 60)
                ws[k] = [y[:y.index(0)] if 0 in y else y for y in w] if io == "str" else w
    bads = lc.judge()
    for cid, b in sorted(bads.items(), key=lambda kv: len(lc.meta[kv[0]]["label"])):
        m = lc.meta[cid]
        if any(m["claims"][c - 1]["c"] == "sat" for x in b for c in x[0]):
            raise RuntimeError("byte classes too coarse for " + m["label"])
        chk.violation(lc.describe(cid, b)[:1200], dict(m["replay"], case=lc.cases[cid - 1]), key=m["key"])
    # generated code
    o, broken = cg.run_c(units, ws, chk.work.dir)
    for u, text in broken:
        chk.violation("%s: the generated C does not compile: %s" % (todo[u.no].what, text[:300]), todo[u.no].replay)
    wc = words.WordCases(chk)
    for u in units:
        if u in [b[0] for b in broken]:
            continue
        r = o.get(u.no)
        if not isinstance(r, list) or len(r) != len(ws[u.no]):
            chk.violation("%s: the generated C died: %s" % (todo[u.no].what, str(r)[:100]), todo[u.no].replay)
            continue
        with chk.guard("generated C of " + todo[u.no].what, todo[u.no].replay):
            wc.add(dumps[u.no], [judge_ids(u.ambig, w, x) for w, x in zip(ws[u.no], r)], todo[u.no].what, todo[u.no].replay)
    wc.judge()
    tally["matchers in C"] = len(units)
    chk.extra["rx"] = tally


def unescape(s):
    return _re.sub(rb"\\x([0-9a-fA-F]{2})", lambda m: bytes([int(m.group(1), 16)]), s.encode("latin1"))


CHAR = rb'"((?:\\x[0-9a-f]{2}|\\[0-7]{1,3}|\\.|[^"\\]))"'
ESC = {b"n": 10, b"t": 9, b"r": 13, b"v": 11, b"f": 12, b"a": 7, b"b": 8, b"e": 27}


def byte(c):
    if c[:2] == b"\\x":
        return int(c[2:], 16)
    if c[:1] == b"\\" and c[1:].isdigit():
        return int(c[1:], 8)
    if c[:1] == b"\\":
        return ESC.get(c[1:], c[1])
    return c[0]


def ungroup(text):
    """rx groups the labels of a transition and prints ranges, for people: the format's reader
    takes neither."""
    out = []
    for ln in text.split(b"\n"):
        m = _re.match(rb"(\w+\s*->\s*\w+ )(\".*);$", ln)
        if m:
            rest = m.group(2)
            for x in _re.finditer(CHAR + rb"(?: \.\. " + CHAR + rb")?(, |$)", rest):
                for b in range(byte(x.group(1)), byte(x.group(2) or x.group(1)) + 1):
                    out.append(m.group(1) + b'"\\x%02x";' % b)
        else:
            out.append(ln)
    return b"\n".join(out)
