"""P29: the command-line tools."""
TECHNIQUE = ('TLA+ (TLC): recorded invocations of fsm(1) and re(1) judged against the specification: exit status, matched patterns, answers and examples '
             '(spec/Cli.tla), and every automaton printed, in product with what the operation denotes, over all words')
LEVEL = "model_checking"
NOTE = ("The tools are built from /repo and run in a scratch directory. Printed automata are read back by the library's parser (P12's subject); "
        "the other output languages are P10-P12's subjects and are not run through the tools.")

import os, shutil, subprocess
from concurrent.futures import ThreadPoolExecutor
import build as B
from core import *
import gen, regen
from regex import interest, SIMPLE

UNARY = {"identity": [[]], "determinise": [["-d"], ["-t", "dfa"], ["-t", "todfa"], ["-t", "determinise"]],
         "minimise": [["-m"], ["-t", "min"], ["-t", "minimise"]],
         "reverse": [["-r"], ["-t", "rev"], ["-t", "reverse"]], "complete": [["-t", "complete"]],
         "complement": [["-t", "complement"], ["-t", "invert"]], "trim": [["-t", "trim"]],
         "remove_epsilons": [["-t", "remove_epsilons"], ["-E"]]}
BINARY = {"concat": ["cat", "concat"], "union": ["union"], "intersect": ["intersect"], "subtract": ["subtract", "sub", "minus"]}
QUERY = {"isdfa": ("isdfa", True), "dfa": ("isdfa", True), "iscomplete": ("iscomplete", True), "hasend": ("isend", False), "end": ("isend", False),
         "accept": ("isend", False), "hasaccept": ("isend", False), "hasepsilons": ("hasepsilons", False), "epsilons": ("hasepsilons", False),
         "ambiguity": ("hasnondeterminism", False), "hasambiguity": ("hasnondeterminism", False), "hasnondeterminism": ("hasnondeterminism", False)}


def lit(b):
    c = chr(b)
    return c if b < 128 and c.isalnum() else "\\x%02x" % b


def fsm_text(a, rng):
    """An automaton in the tool's input format (which numbers states by appearance)."""
    lines = ["%d;" % q for q in range(a.n)] if rng.random() < .5 else []
    for f, t, bs in a.t:
        if len(bs) == 256 and rng.random() < .5:
            lines.append("%d -> %d ?;" % (f, t))
        else:
            for b in bs:
                lines.append('%d -> %d "%s";' % (f, t, lit(b)))
    for f, t in a.e:
        lines.append("%d -> %d;" % (f, t))
    tail = ["start: %d;" % a.s]
    if a.f:
        tail.append("end: %s;" % ", ".join(map(str, sorted(set(a.f)))))
    return "\n".join(lines + tail) + "\n"


class Jobs:
    def __init__(self, chk):
        self.chk, self.dir = chk, os.path.join(chk.work.dir, "run")
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.tools = {t: B.Build().tool(t) for t in ("fsm", "re")}
        self.jobs, self.nf = [], 0

    def file(self, data):
        self.nf += 1
        n = "f%d" % self.nf
        with open(os.path.join(self.dir, n), "wb") as f:
            f.write(data if isinstance(data, bytes) else data.encode())
        return n

    def add(self, tool, args, stdin=None, **kw):
        self.jobs.append(dict(kw, tool=tool, args=args, stdin=stdin))

    def run(self):
        def one(j):
            try:
                p = subprocess.run([self.tools[j["tool"]]] + j["args"], cwd=self.dir, input=j["stdin"] or b"", capture_output=True, timeout=60,
                                   env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0"))
                return p.returncode, p.stdout, p.stderr
            except subprocess.TimeoutExpired:
                return "timeout", b"", b""
        with ThreadPoolExecutor(NCPU) as ex:
            for j, r in zip(self.jobs, ex.map(one, self.jobs)):
                j["rc"], j["out"], j["err"] = r

    def show(self, j):
        return j["tool"] + " " + " ".join(a if isinstance(a, str) else a.decode("latin1") for a in j["args"])

    def replay(self, j):
        fs = {}
        for a in j["args"]:
            p = os.path.join(self.dir, a if isinstance(a, str) else a.decode("latin1"))
            try:
                if os.path.isfile(p):
                    fs[a if isinstance(a, str) else a.decode("latin1")] = open(p, "rb").read().decode("latin1")
            except (ValueError, OSError):
                pass
        return {"invocation": self.show(j), "files": fs, "rc": j["rc"], "stdout": j["out"].decode("latin1")[:3000], "stderr": j["err"].decode("latin1")[:600]}


def word(rng, al, n=6):
    letters = [b for b in al]
    return bytes(rng.choice(letters) for _ in range(rng.choice((0, 1, 1, 2, 2, 3, 4, n))))


def walk(rng, a, n):
    """A word spelt by a path, more often than not an accepted one."""
    q, w = a.s, b""
    f = set(a.f)
    for _ in range(40):
        if q in f and (len(w) >= n or rng.random() < .3):
            return w
        e = [(t, bs) for x, t, bs in a.t if x == q] + [(t, None) for x, t in a.e if x == q]
        if not e or len(w) > 12:
            break
        q, bs = rng.choice(e)
        if bs is not None:
            w += bytes([rng.choice(bs)])
    return w


def fsm_jobs(chk, J):
    rng, deep = chk.rng, chk.thorough()
    for i in range(40000 if deep else 3500):
        al = [[b] for b in rng.sample(b"abcdXY019", rng.choice((1, 2, 2, 3)))] if rng.random() < .7 else gen.alphabet(rng, 2)
        flat = [b for bs in al for b in bs if b]
        mk = lambda: gen.dfa(rng, rng.choice((2, 3, 5)), al) if rng.random() < .6 else gen.nfa(rng, rng.choice((2, 3, 5)), al)
        kind = rng.choice(("unary", "unary", "binary", "binary", "equal", "query", "query", "text", "text", "gen", "closure", "required", "bad"))
        a, b = mk(), mk()
        if kind == "equal" and rng.random() < .5:
            b = a
        ta, tb = fsm_text(a, rng), fsm_text(b, rng)
        fa, fb = J.file(ta), J.file(tb)
        stdin, A1 = None, [fa]
        if kind in ("unary", "query") and rng.random() < .2:
            stdin, A1 = ta.encode(), rng.choice(([], ["-"]))
        cut, cutarg = None, []
        if kind in ("unary", "binary") and rng.random() < .2:
            cut = sorted(rng.sample(sorted(set(flat) | {97}), rng.randint(1, max(1, min(3, len(set(flat)))))))
            cut = [c for c in cut if c < 128] or [97]
            cutarg = ["-U", bytes(cut).decode()]
        if kind == "unary":
            op = rng.choice(list(UNARY))
            J.add("fsm", rng.choice(UNARY[op]) + cutarg + ["-p"] + A1, stdin=stdin, kind=kind, op=op, ins=[ta], cut=cut)
        elif kind == "binary":
            op = rng.choice(list(BINARY))
            J.add("fsm", ["-t", rng.choice(BINARY[op])] + cutarg + ["-p", fa, fb], kind=kind, op=op, ins=[ta, tb], cut=cut)
        elif kind == "equal":
            J.add("fsm", ["-t", rng.choice(("equal", "equals")), fa, fb], kind=kind, ins=[ta, tb])
        elif kind == "query":
            q = rng.choice(list(QUERY) + ["count"])
            J.add("fsm", ["-q", q] + A1, stdin=stdin, kind="query" if q != "count" else "count", q=q, ins=[ta])
        elif kind == "closure":
            J.add("fsm", (["-a"] if rng.random() < .3 else []) + ["-q", "epsilonclosure", fa], kind=kind, ins=[ta])
        elif kind == "required":
            if any(bs[0] == 0 or chr(bs[0]) not in "abcdXY019" for bs in al):
                continue
            a = gen.dfa(rng, rng.choice((2, 3, 5)), al)     # of other automata the library promises nothing
            if not a.nonempty():
                continue
            ta = fsm_text(a, rng)
            fa = J.file(ta)
            J.add("fsm", ["-q", rng.choice(("requiredchars", "chars")), fa], kind=kind, ins=[ta])
        elif kind == "gen":
            if any(len(bs) != 1 or chr(bs[0]) not in "abcdXY019" for bs in al):
                continue
            a = gen.dfa(rng, rng.choice((2, 3, 5)), al)
            ta = fsm_text(a, rng)
            n = rng.choice((1, 2, 3, 4))
            J.add("fsm", ["-G", str(n), J.file(ta)], kind=kind, ins=[ta], len=n)
        elif kind == "bad":
            r = rng.random()
            if r < .4:
                J.add("fsm", ["-p", "missing"], kind=kind, ins=[])
            elif r < .7:
                J.add("fsm", ["-t", "union", "-p", fa, J.file("0 -> ;\n")], kind=kind, ins=[])
            else:
                J.add("fsm", [J.file(ta + "0 -> 1 \"")], kind=kind, ins=[])
        else:
            op = rng.choice(("identity", "determinise", "minimise", "complement", "intersect", "subtract"))
            if op == "identity":
                a = gen.dfa(rng, rng.choice((2, 3, 5)), al)
                ta = fsm_text(a, rng)
                fa = J.file(ta)
            two = op in BINARY
            texts = []
            for _ in range(rng.choice((1, 1, 1, 2, 2, 3))):
                texts.append(walk(rng, rng.choice((a, b) if two else (a,)), rng.choice((1, 2, 3))) if rng.random() < .75 else word(rng, flat or [97]))
            args = (["-t", rng.choice(BINARY[op])] if two else rng.choice(UNARY[op])) + (["-p"] if rng.random() < .3 else [])
            if rng.random() < .4:
                args = ["-x"] + args + [fa] + ([fb] if two else []) + [J.file(t) for t in texts]
            else:
                if any(0 in t for t in texts):
                    continue
                args = args + ["--", fa] + ([fb] if two else []) + texts
            J.add("fsm", args, kind="text", op=op, ins=[ta, tb][:1 + two], texts=texts, printed="-p" in args, cut=None)


DIALECTS = ("native", "pcre", "pcre", "pcre", "glob", "literal", "like", "sql")


def pattern(rng, dialect, al):
    if dialect in SIMPLE:
        t = bytes(rng.choice({"glob": b"aab*?", "literal": b"aabc", "like": b"aab%_", "sql": b"aab%_|"}[dialect]) for _ in range(rng.randint(1, 4)))
        return t
    g = regen.Gen(rng, dialect, letters=al, anchors=.15)
    return g.pattern(rng.choice((1, 1, 2)))


def re_jobs(chk, J):
    rng, deep = chk.rng, chk.thorough()
    for i in range(40000 if deep else 4000):
        d = rng.choice(DIALECTS)
        al = rng.choice((b"ab", b"aabc", b"abB"))
        fl, args = set(), (["-r", d] if d != "native" or rng.random() < .5 else [])
        if rng.random() < .55:
            fl.add("anch")
            args += rng.choice((["-b"], ["-F", "b"]))
        if rng.random() < .15 and d in ("native", "pcre"):
            fl.add("i")
            args += rng.choice((["-i"], ["-F", "i"]))
        if rng.random() < .1 and d == "pcre":
            fl.add("s")
            args += ["-F", "s"]
        n = rng.choice((1, 1, 2, 2, 3))
        pats = [pattern(rng, d, al) for _ in range(n)]
        if n > 1 and rng.random() < .15:
            pats[1] = pats[0]
        kind = rng.choice(("match", "match", "match", "match", "print", "print", "equal", "example", "gen", "valid", "fsmfiles", "concat", "vm"))
        if any(0 in p for p in pats) or (kind != "valid" and any(len(p) > 14 for p in pats)):
            continue
        texts = []
        for _ in range(rng.choice((1, 1, 2, 3))):
            w = bytes(rng.choice(al) for _ in range(rng.choice((0, 1, 1, 2, 3, 4, 5))))
            if rng.random() < .45:     # near a pattern
                w = bytes(c for c in rng.choice(pats) if c in al)
                if rng.random() < .3:
                    w += bytes([rng.choice(al)])
            if rng.random() < .1:
                w += b"\n"
            texts.append(w)
        job = dict(d=d, fl=fl, pats=pats)
        pf = (lambda p: J.file(p)) if rng.random() < .15 else None
        P = [pf(p) for p in pats] if pf else pats
        if pf:
            args = args + ["-y"]
        if kind in ("match", "vm", "concat"):
            multi = kind == "match" and rng.random() < .5
            z = multi and rng.random() < .6
            if multi:
                args += ["-u"]
            if z:
                args += ["-z"]
            if kind == "vm":
                args += ["-M"] + (["-u"] if rng.random() < .8 else [])
            if kind == "concat":
                args += ["-s"] + (["-u"] if rng.random() < .5 else [])
            one = len(texts) == 1 and rng.random() < .6
            x = rng.random() < .25 or any(0 in t for t in texts)
            if x:
                args += ["-x"]
            T = [J.file(t) for t in texts] if x else texts
            if any(p == b"--" for p in P) or any(t == b"--" for t in texts):
                continue
            args = args + ["--"] + P + ([] if one else ["--"]) + T
            J.add("re", args, kind="match", texts=texts, z=z, multi="-u" in args, concat=kind == "concat", **job)
        elif kind in ("print", "example"):
            cat = kind == "print" and rng.random() < .25
            args += ["-p"] if kind == "print" else ["-m"]
            if cat:
                args += ["-s"]
            multi = rng.random() < .6
            nfa = kind == "print" and rng.random() < .3
            if multi:
                args += ["-u"]
            if nfa:
                args += ["-n"]
            z = kind == "example" and rng.random() < .6
            if z:
                args += ["-z"]
            J.add("re", args + ["--"] + P, kind=kind, multi=multi or nfa, concat=cat, z=z, **job)
        elif kind == "equal":
            if n > 1 and rng.random() < .4:
                pats[-1] = b"(" + pats[0] + b")" if d in ("pcre", "native") else pats[0]
                P = [pf(p) for p in pats] if pf else pats
            J.add("re", args + ["-q", rng.choice(("equal", "isequal", "areequal")), "--"] + P, kind=kind, **job)
        elif kind == "gen":
            # one at a time, anchored: as many words as fit
            J.add("re", [x for x in args if x not in ("-b", "-y")] + ["-b", "-G", "3", "--", pats[0]], kind=kind, len=3, **dict(job, pats=pats[:1], fl=fl | {"anch"}))
        elif kind == "valid":
            p = pats[0] if rng.random() < .4 else regen.mutate(rng, pats[0])
            if 0 in p:
                continue
            J.add("re", args + ["--", J.file(p) if pf else p], kind=kind, **dict(job, pats=[p]))
        else:
            # automata, rather than patterns
            k = rng.choice((1, 2))
            al2 = [[b] for b in rng.sample(b"abc", 2)]
            fs = [gen.dfa(rng, 3, al2) if rng.random() < .5 else gen.nfa(rng, 3, al2) for _ in range(k)]
            texts = [walk(rng, rng.choice(fs), 2) for _ in texts]
            ts = [fsm_text(f, rng) for f in fs]
            J.add("re", ["-u", "-f", "--"] + [J.file(t) for t in ts] + ["--"] + texts, kind=kind, ins=ts, texts=texts)


def judge(chk, J):
    exe = drv()
    scripts = {}
    for i, j in enumerate(J.jobs):
        s, n = [], 0
        for t in j.get("ins", ()):
            s += ["parse %d %s" % (n, t.encode().hex()), "dump %d" % n]
            n += 1
        if j["out"] and (j.get("printed") or j["kind"] in ("unary", "binary", "print")):
            j["outreg"] = n
            s += ["parse %d %s" % (n, j["out"].hex()), "dump %d" % n]
        scripts[i] = s
    res = run_driver(exe, {i: s for i, s in scripts.items() if s})
    lc = LangCases(chk, shards=8, workers=1)
    tally, who = {}, {}

    def bad(j, what):
        chk.violation("%s: %s" % (J.show(j), what), J.replay(j))

    for i, j in enumerate(J.jobs):
        kind, rc = j["kind"], j["rc"]
        tally[kind] = tally.get(kind, 0) + 1
        if rc == "timeout" or rc < 0 or rc >= 126:
            bad(j, "the tool died (%s)" % rc)
            continue
        vals = res.get(i, ["END"])
        if crashed(vals) or any(v is None or v == "null" for v in vals[:-1]):
            # the inputs are well formed, so it is the output that was not read
            bad(j, "the printed automaton could not be read back")
            continue
        dumps = [v for v in vals[:-1] if isinstance(v, dict) and "t" in v]
        nin = len(j.get("ins", ()))
        texts = j.get("texts", [])
        sets = [{b} for t in texts for b in t]
        virts, claims, pats = [], [], j.get("pats")
        with chk.guard(J.show(j), J.replay(j)):
            if pats is not None:
                for p in pats:
                    sets += interest(p, j["fl"])
                    virts.append({"v": "re", "text": list(p), "d": j["d"], "fl": sorted(j["fl"]), "only": 1 if kind == "valid" else 0})
            if kind == "example":
                ex = [x for x in j["out"].split(b"\n")[:-1]]
                rows = []
                for x in ex:
                    ids = None
                    if j["z"]:
                        k = x.rfind(b": ")
                        names, x = x[:k], x[k + 2:]
                        ids = names
                    rows.append((ids, x))
                if any(b"..." in x or b"\\" in x for _, x in rows):
                    tally["example-skipped"] = tally.get("example-skipped", 0) + 1
                    continue
                sets += [{b} for _, x in rows for b in x]
            if kind == "gen":
                rows = j["out"].split(b"\n")[:-1]
                if any(b"\\" in x for x in rows):
                    continue
                sets += [{b} for x in rows for b in x]
            if j.get("cut"):
                sets.append(set(j["cut"]))
                sets += [{b} for b in j["cut"]]
            cls = classes(dumps, sets)
            at = {b: k + 1 for k, c in enumerate(cls) for b in c}
            W = [[at[b] for b in t] for t in texts]
            cut = {"cut": sorted({at[b] for b in j["cut"]})} if j.get("cut") else {}
            nd = len(dumps)
            ins = list(range(1, nin + 1))
            if pats is not None:
                ins = list(range(nd + 1, nd + len(pats) + 1))
            IF = {"if": ins} if pats is not None else {}
            if kind in ("unary", "binary"):
                if rc != 0:
                    # concatenation is refused where there is nothing to concatenate to
                    if not (j["op"] == "concat" and not dumps[0]["f"]):
                        bad(j, "failed, with status %s" % rc)
                    continue
                z = nin + 1
                if len(dumps) <= nin:
                    bad(j, "printed nothing")
                    continue
                src = {"concat": "concat", "reverse": "mirror"}.get(j["op"])
                if src:
                    virts.append({"v": src, "x": 1, "y": 2} if src == "concat" else {"v": "mirror", "x": 1})
                    x = z + 1
                else:
                    x = 1
                if cut:
                    if j["op"] in ("concat", "reverse"):
                        virts.append({"v": "restrict", "x": x, "bytes": j["cut"]})
                        claims = [{"c": "eq", "x": z + len(virts), "y": z}]
                    elif j["op"] in ("union", "intersect", "subtract"):
                        virts += [{"v": "restrict", "x": 1, "bytes": j["cut"]}, {"v": "restrict", "x": 2, "bytes": j["cut"]}]
                        claims = [dict({"x": z + 1, "y": z + 2, "z": z}, c={"union": "union", "intersect": "inter", "subtract": "minus"}[j["op"]])]
                    elif j["op"] == "complement":
                        virts += [{"v": "all"}, {"v": "restrict", "x": z + 1, "bytes": j["cut"]}]
                        claims = [{"c": "minus", "x": z + 2, "y": 1, "z": z}]
                    else:
                        virts.append({"v": "restrict", "x": 1, "bytes": j["cut"]})
                        claims = [{"c": "eq", "x": z + 1, "y": z}]
                    claims.append({"c": "isdfa", "x": z})
                else:
                    claims = [{"union": {"c": "union", "x": 1, "y": 2, "z": z}, "intersect": {"c": "inter", "x": 1, "y": 2, "z": z},
                               "subtract": {"c": "minus", "x": 1, "y": 2, "z": z}, "complement": {"c": "compl", "x": 1, "y": z},
                               }.get(j["op"], {"c": "eq", "x": x, "y": z})]
                    if j["op"] in ("determinise", "minimise"):
                        claims.append({"c": "isdfa", "x": z})
                    if j["op"] == "minimise":
                        claims.append({"c": "minimal", "x": z})
                    if j["op"] == "remove_epsilons":
                        claims.append({"c": "noeps", "x": z})
                    if j["op"] == "complete":
                        claims.append({"c": "complete", "x": z})
                    if j["op"] == "identity":
                        claims.append({"c": "iso", "x": 1, "y": z} if dumps[0]["n"] == dumps[1]["n"] else {"c": "eq", "x": 1, "y": z})
            elif kind == "equal" and pats is None:
                claims = [{"c": "equal", "x": 1, "y": 2, "r": 1 - rc}]
            elif kind == "query":
                p, al = QUERY[j["q"]]
                claims = [{"c": "query", "xs": [1], "p": p, "all": al, "rc": rc}]
            elif kind == "count":
                claims = [{"c": "nstates", "x": 1, "n": int(j["out"])}]
            elif kind == "closure":
                o = []
                for k, line in enumerate(j["out"].decode().split("\n")[:-1]):
                    if ":" in line:
                        head, line = line.split(":")
                        if int(head) != k:
                            bad(j, "line %d is labelled %s" % (k, head))
                    o.append([int(v) + 1 for v in line.split()])
                claims = [{"c": "closures", "xs": [1], "o": o}]
            elif kind == "required":
                if rc != 0:
                    bad(j, "failed, with status %s" % rc)
                    continue
                cnt, _, chars = j["out"].decode("latin1").rstrip("\n").partition(" ")
                if int(cnt) != len(chars):
                    bad(j, "the count %s is not that of %r" % (cnt, chars))
                claims = [{"c": "required", "x": 1, "n": [len(c) for c in cls], "set": sorted(at[ord(c)] for c in chars)}]
            elif kind == "bad":
                lc.add([], [{"c": "fails", "xs": [], "rc": rc}], [J.show(j)], [{"v": "re", "text": [97], "d": "native", "fl": [], "only": 1}], label=J.show(j))
                who[len(lc.cases)] = j
                continue
            elif kind == "text":
                claims = [dict(cut, c="tool", op=j["op"] if j["op"] in ("complement", "intersect", "subtract") else "identity", xs=ins, texts=W, rc=rc)]
                if j["printed"]:
                    z = nin + 1
                    claims.append({"intersect": {"c": "inter", "x": 1, "y": 2, "z": z}, "subtract": {"c": "minus", "x": 1, "y": 2, "z": z},
                                   "complement": {"c": "compl", "x": 1, "y": z}}.get(j["op"], {"c": "eq", "x": 1, "y": z}))
            elif kind == "fsmfiles":
                claims = [{"c": "tool", "op": "union", "xs": ins, "texts": W, "rc": rc}]
            elif kind == "valid":
                got = "ok" if rc == 0 else "unsup" if rc == 2 else "err"
                claims = [{"c": "parse", "x": 1, "got": got}]
            elif rc == 2:
                claims = [{"c": "refused", "xs": ins}]
            else:
                claims = [dict(IF, c="sat", x=x) for x in ins]
                amb = not j.get("multi") and not j.get("concat") and kind in ("match", "print", "example") and len(pats) > 1
                err = j["err"].startswith(b"ambiguous")
                if amb:
                    claims.append(dict(IF, c="ambiguous", xs=ins, rc=1 if err else 0))
                if err:
                    if not amb:
                        bad(j, "reported an ambiguity")
                    if rc != 1:
                        bad(j, "exited with status %s for an ambiguity" % rc)
                elif kind == "match":
                    claims.append(dict(IF, c="tool", op="concat" if j["concat"] else "union", xs=ins, texts=W, rc=rc))
                    if j["z"]:
                        got = parse_matched(j)
                        if got is None:
                            continue
                        claims.append(dict(IF, c="matched", xs=ins, texts=W, got=got))
                elif kind == "print":
                    if rc != 0 or len(dumps) != 1:
                        claims.append(dict(IF, c="tool", op="concat" if j["concat"] else "union", xs=ins, texts=[], rc=rc or 1))
                    elif j["concat"]:
                        x = ins[0]
                        for k in ins[1:]:
                            virts.append({"v": "concat", "x": x, "y": k})
                            x = nd + len(virts)
                        claims.append(dict(IF, c="eq", x=1, y=x, live=ins))     # an automaton without states is neutral
                    else:
                        claims.append(dict(IF, c="anyof", x=1, of=ins))
                elif kind == "equal":
                    claims.append(dict(IF, c="equals", xs=ins, rc=rc))
                elif kind == "example":
                    if rc != 0:
                        claims.append(dict(IF, c="tool", op="union", xs=ins, texts=[], rc=rc))
                    else:
                        e = []
                        for ids, x in rows:
                            r = {"w": [at[b] for b in x]}
                            if ids is not None:
                                r["ids"] = named(ids, j)
                                if r["ids"] is None:
                                    e = None
                                    break
                            e.append(r)
                        if e is None:
                            tally["example-skipped"] = tally.get("example-skipped", 0) + 1
                            continue
                        claims.append(dict(IF, c="examples", xs=ins, ex=e))
                elif kind == "gen":
                    claims.append(dict(IF, c="generated", xs=ins, len=j["len"], words=[[at[b] for b in x] for x in rows]))
            if kind == "gen" and pats is None:
                claims = [{"c": "paths", "xs": [1], "len": j["len"], "words": [[at[b] for b in x] for x in rows]}]
            if kind == "gen" and rc not in (0, 2):
                claims.append(dict(IF, c="tool", op="identity", xs=ins, texts=[], rc=rc))
            lc.add(dumps, claims, [J.show(j)], virts, sets, cls=cls, label=J.show(j))
            who[len(lc.cases)] = j
    if os.environ.get('DUMPCASES'):
        json.dump([(c, J.show(who[c['id']])) for c in lc.cases], open('/tmp/p29cases.json', 'w'))
        return
    for cid, b in sorted(lc.judge().items()):
        if any(lc.meta[cid]["claims"][c - 1]["c"] == "sat" for x in b for c in x[0]):
            raise RuntimeError("symbol classes too coarse: " + lc.describe(cid, b))
        chk.violation(lc.describe(cid, b), J.replay(who[cid]))
    chk.extra["invocations"] = tally
    for j in J.jobs[::max(1, len(J.jobs) // 5)][:5]:
        chk.sample(J.show(j))


def named(names, j):
    """'/a/, /b/' as pattern numbers; patterns which could be confused are left out."""
    P = [p if isinstance(p, bytes) else p.encode() for p in j["args"][j["args"].index("--") + 1:]]
    if b"--" in P:
        P = P[:P.index(b"--")]
    if len(set(P)) != len(P) or any(b"/" in p for p in P):
        return None
    out = []
    for x in names.split(b", ") if names else []:
        x = x.strip(b"/")
        if x not in P:
            return None if any(b"," in p for p in P) else [-1]
        out.append(P.index(x) + 1)
    return out


def parse_matched(j):
    P = [p if isinstance(p, bytes) else p.encode() for p in j["args"][j["args"].index("--") + 1:]][:len(j["pats"])]
    if len(set(P)) != len(P) or any(b"\n" in p for p in P):
        return None
    of = {b"match: /" + p + b"/": k + 1 for k, p in enumerate(P)}
    return [of.get(x, -1) for x in j["out"].split(b"\n")[:-1]]


def run(chk):
    J = Jobs(chk)
    try:
        fsm_jobs(chk, J)
        re_jobs(chk, J)
        J.run()
        judge(chk, J)
    finally:
        shutil.rmtree(J.dir, ignore_errors=True)
