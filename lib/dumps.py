"""Readers for the structured dumps (JSON, Graphviz, IR-JSON, IR): text to the
records spec/DumpCheck.tla judges.  A reader raises Unreadable when the text is not
of its format."""
import html, json, re


class Unreadable(Exception):
    pass


def _runs(bs):
    out = []
    for b in sorted(bs):
        if out and out[-1][1] == b - 1:
            out[-1][1] = b
        else:
            out.append([b, b])
    return out


# ------------------------------------------------------- consolidated labels
DOTESC = {"a": 7, "b": 8, "f": 12, "n": 10, "r": 13, "t": 9, "v": 11}


def _tok_plain(s, i):
    yield ord(s[i]), i + 1


def _tok_dot(s, i):
    """One byte of a dot label, from i; a backslash may be itself."""
    if s[i] == "\\":
        if i + 1 < len(s) and s[i + 1] in DOTESC:
            yield DOTESC[s[i + 1]], i + 2
        m = re.match(r"\\x([0-9a-f]{2})", s[i:])
        if m:
            yield int(m.group(1), 16), i + 4
        yield 92, i + 1
    elif s[i] == "\u2423":
        yield 32, i + 1
    else:
        yield ord(s[i]), i + 1


def label_set(s, toks, want):
    """The set of bytes a consolidated label reads as.  The labels are for people: '-', '^'
    and ']' are not escaped in them, so where the text has several readings the one
    the automaton has is taken, if it is among them."""
    if s == "/./":
        return set(range(256))
    single = [b for b, j in (toks(s, 0) if s else ()) if j == len(s)]
    if single:
        return want if len(want) == 1 and list(want)[0] in single else {single[0]}
    if len(s) < 3 or s[0] != "[" or s[-1] != "]":
        raise Unreadable("label " + repr(s))
    last = None
    for inv in ([False, True] if s[1] == "^" else [False]):
        body = s[2:-1] if inv else s[1:-1]
        target = sorted(set(range(256)) - set(want)) if inv else sorted(want)
        seen, todo = set(), [(0, 0)]
        while todo:
            i, k = todo.pop()
            if (i, k) in seen:
                continue
            seen.add((i, k))
            if i == len(body) and k == len(target):
                return set(want)
            if i >= len(body) or k >= len(target):
                continue
            for b, j in toks(body, i):
                if b != target[k]:
                    continue
                todo.append((j, k + 1))
                if j < len(body) and body[j] == "-" and j + 1 < len(body):
                    for y, jj in toks(body, j + 1):
                        n = y - b
                        if n > 0 and target[k:k + n + 1] == list(range(b, y + 1)):
                            todo.append((jj, k + n + 1))
        # no reading is what the automaton has: read it plainly
        got, i = set(), 0
        while i < len(body):
            b, i = next(iter(toks(body, i)))
            if i + 1 < len(body) and body[i] == "-":
                y, i = next(iter(toks(body, i + 1)))
                got |= set(range(b, y + 1))
            else:
                got.add(b)
        got = set(range(256)) - got if inv else got
        last = got if last is None or len(got ^ want) < len(last ^ want) else last
    return last


class Aut:
    def __init__(self):
        self.n, self.s, self.f, self.e, self.t, self.ids = 0, -1, [], [], {}, {}

    def edge(self, a, b, bs):
        self.t.setdefault((a, b), []).append(sorted(bs))

    def dump(self):
        """In the driver's dump form; an edge shown twice is marked by a doubled range."""
        t = []
        for (a, b), ls in self.t.items():
            for bs in ls:
                t += [[a, b, lo, hi] for lo, hi in _runs(bs)]
        return {"n": self.n, "s": self.s, "f": sorted(self.f), "e": self.e, "t": t,
                "ids": [[q] + i for q, i in self.ids.items()], "eag": []}


def want_sets(d):
    w = {}
    for a, b, lo, hi in d["t"]:
        w.setdefault((a, b), set()).update(range(lo, hi + 1))
    return w


def read_json(text, d, hexed, consolidated):
    want = want_sets(d)
    try:
        j = json.loads(text.decode("ascii"))
    except (ValueError, UnicodeDecodeError) as e:
        raise Unreadable(str(e))
    a = Aut()
    a.n = j["statecount"]
    a.s = j.get("start", -1)
    a.f = j["end"]
    for x in j["edges"]:
        p = (x["src"], x["dst"])
        if consolidated:
            if x["label"] == "\u03b5":
                a.e.append(list(p))
            else:
                a.edge(*p, label_set(x["label"], _tok_plain, want.get(p, set())))
        elif "symbol" not in x:
            if set(x) != {"src", "dst"}:        # an epsilon transition
                raise Unreadable("edge " + json.dumps(x))
            a.e.append(list(p))
        elif hexed:
            a.edge(*p, {int(x["symbol"])})
        else:
            if x["symbol"] == "\u03b5":
                a.e.append(list(p))
                continue
            if len(x["symbol"]) != 1 or ord(x["symbol"]) > 255:
                raise Unreadable("symbol " + repr(x["symbol"]))
            a.edge(*p, {ord(x["symbol"])})
    return a


def _unhtml(s):
    if re.search(r"[<>]|&(?!(amp|quot|#x[0-9A-F]+);)", s):
        raise Unreadable("markup in a label: " + repr(s))
    return html.unescape(s)


def read_dot(text, d, prefix, anon, fragment, consolidated):
    want = want_sets(d)
    a = Aut()
    a.n = d["n"]            # not written: a lone plain state need not appear at all
    seen = set()
    if fragment:
        a.s = d["s"]        # nor is the start
    try:
        lines = text.decode("latin-1").split("\n")
    except ValueError as e:
        raise Unreadable(str(e))
    for ln in lines:
        m = re.fullmatch(r"\tstart -> %sS(\d+);" % re.escape(prefix), ln)
        if m and not fragment:
            a.s = int(m.group(1))
            continue
        m = re.fullmatch(r"\t%sS(\d+) *-> %sS(\d+) *\[ (?:weight = (\d), )?label = <(.*)> \];" % (re.escape(prefix), re.escape(prefix)), ln)
        if m:
            p = (int(m.group(1)), int(m.group(2)))
            l = _unhtml(m.group(4))
            if l == "\u03b5":
                a.e.append(list(p))
            elif consolidated:
                a.edge(*p, label_set(l, _tok_dot, want.get(p, set())))
            else:
                r = [b for b, j in _tok_dot(l, 0) if j == len(l)]
                if not r:
                    raise Unreadable("label " + repr(l))
                a.edge(*p, {r[0]})
            continue
        m = re.fullmatch(r"\t%sS(\d+) *\[ (shape = doublecircle, )?label = <(.*)> \];" % re.escape(prefix), ln)
        if m:
            q, l = int(m.group(1)), m.group(3)
            if q in seen:
                raise Unreadable("state %d is described twice" % q)
            seen.add(q)
            if not anon:
                if l.split("<BR/>")[0] != str(q):
                    raise Unreadable("state %d is labelled %r" % (q, l))
                l = l.split("<BR/>")[1] if "<BR/>" in l else ""
            if m.group(2):
                a.f.append(q)
                if l:
                    if not re.fullmatch(r"#\d+(,#\d+)*", l):
                        raise Unreadable("ids %r" % l)
                    a.ids[q] = [int(x[1:]) for x in l.split(",")]
            elif l:
                raise Unreadable("state label %r" % l)
            continue
        if ln in ("", "}", "digraph G {", "\trankdir = LR;", "\tnode [ shape = circle ];", "\tedge [ weight = 2 ];", "\troot = start;",
                  '\tstart [ shape = none, label = "" ];', '\tnode [ label = "", width = 0.3 ];') and not (fragment and ln):
            continue
        raise Unreadable("line " + repr(ln))
    return a


def _byte(s):
    if len(s) != 1 or ord(s) > 255:
        raise Unreadable("endpoint " + repr(s))
    return ord(s)


def readings(texts):
    """The words an example may stand for: \\xHH is a byte, or its own text."""
    out = []
    for t in texts:
        if t.endswith("...") and len(t) > 3:
            return []           # cut short
        ws = [[]]
        i = 0
        while i < len(t):
            m = re.match(r"\\x([0-9a-f]{2})", t[i:])
            if m:
                a = [w + [int(m.group(1), 16)] for w in ws]
                ws = a + ([w + [92, 120] + [ord(c) for c in m.group(1)] for w in ws] if len(ws) < 32 else [])
                i += 4
            else:
                ws = [w + [ord(t[i])] for w in ws]
                i += 1
        out += ws
    return out


def read_irjson(text):
    """The IR: {n, s, st: [{f, ids, kind, to, g, x, ex}]}, states 1-based as the specification's."""
    try:
        j = json.loads(text.decode("ascii"))
    except (ValueError, UnicodeDecodeError) as e:
        raise Unreadable(str(e))
    st = []
    for s in j["states"]:
        g = [[x["to"] + 1] + [[_byte(r["start"]), _byte(r["end"])] for r in x["ranges"]] for x in s.get("groups", [])]
        st.append({"f": s["end"], "ids": s.get("end_id", []), "kind": s["strategy"],
                   "to": s.get("to", s.get("mode", -1)) + 1,
                   "g": [{"to": x[0], "r": x[1:]} for x in g],
                   "x": [[_byte(r["start"]), _byte(r["end"])] for r in s.get("error", [])],
                   "ex": readings([s["example"]]) if "example" in s else []})
    return {"n": len(st), "s": j["start"] + 1, "st": st}


def read_ir(text):
    out, start, cur = {}, 0, None
    ends = set()
    links = []

    def name(s, q):
        if s == "(self)":
            return q + 1
        if not re.fullmatch(r"S\d+", s):
            raise Unreadable("name " + s)
        return int(s[1:]) + 1

    def byte(s):
        l = _unhtml(s)
        r = [b for b, j in _tok_dot(l, 0) if j == len(l)] if l else []
        if not r:
            raise Unreadable("endpoint " + repr(s))
        return r[0]

    def text_(s):
        l, o = _unhtml(s).replace("\u2423", " "), [""]
        # fsm_example()'s own \\xHH is within the text; other escapes don't occur in it
        return readings([l] if "\\" not in l else [l])
    pend = []
    for ln in text.decode("latin-1").split("\n"):
        m = re.fullmatch(r"\tstart -> cs(\d+);", ln)
        if m:
            start = int(m.group(1)) + 1
            continue
        m = re.fullmatch(r"\tcs(\d+) \[ peripheries = 2 \];", ln)
        if m:
            ends.add(int(m.group(1)))
            continue
        m = re.fullmatch(r"\tcs(\d+) \[ label =", ln)
        if m:
            cur = int(m.group(1))
            if cur in out:
                raise Unreadable("state %d twice" % cur)
            out[cur] = {"f": cur in ends, "ids": [], "kind": "", "to": 0, "g": [], "x": [], "ex": []}
            pend = []
            continue
        m = re.fullmatch(r"\tcs(\d+)(?::(group\d+|mode))? -> cs(\d+);", ln)
        if m:
            links.append((int(m.group(1)), m.group(2), int(m.group(3))))
            continue
        m = re.fullmatch(r"\t\t  <TR>(.*)</TR>", ln)
        if m:
            cells = re.findall(r"<TD([^>]*)>(.*?)</TD>", m.group(1))
            s = out[cur]
            if len(cells) == 2 and cells[0][1] == "S%d" % cur and not s["kind"]:
                s["kind"] = cells[1][1].lower()
            elif len(cells) == 2 and cells[0][1] == "end id" and "COLSPAN" in cells[0][0]:
                s["ids"] = [int(x[1:]) for x in cells[1][1].split(" ")]
            elif len(cells) == 2 and cells[0][1] == "example":
                s["ex"] = text_(cells[1][1])
            elif len(cells) == 2 and cells[0][1] == "to":
                s["to"] = name(cells[1][1], cur)
            elif len(cells) == 2 and cells[0][1] == "mode":
                s["to"] = name(cells[1][1], cur)
            elif len(cells) in (2, 3):
                lo = byte(cells[0][1])
                hi = byte(cells[1][1]) if len(cells) == 3 else lo
                pend.append([lo, hi])
                t = cells[-1][1]
                if t == "&#x21B4;":
                    pass
                elif t == "(error)":
                    s["x"], pend = pend, []
                else:
                    if "PORT='group%d'" % len(s["g"]) not in cells[-1][0]:
                        raise Unreadable("port in " + ln)
                    s["g"].append({"to": name(t, cur), "r": pend})
                    pend = []
            else:
                raise Unreadable("row " + repr(ln))
            continue
        if ln in ("", "}", "# generated", "digraph G {", "\tnode [ shape = box, style = rounded ];", "\trankdir = LR;", "\troot = start;",
                  '\tstart [ shape = none, label = "" ];', "\t\t<<TABLE BORDER='0' CELLPADDING='2' CELLSPACING='0'>", "\t\t</TABLE>> ];"):
            continue
        raise Unreadable("line " + repr(ln))
    # the arrows drawn agree with the tables
    want = set()
    for q, s in out.items():
        if s["kind"] == "same" and s["to"] != q + 1:
            want.add((q, None, s["to"] - 1))
        if s["kind"] in ("dominant", "error") and s["to"] != q + 1:
            want.add((q, "mode", s["to"] - 1))
        for k, g in enumerate(s["g"]):
            if g["to"] != q + 1:
                want.add((q, "group%d" % k, g["to"] - 1))
    if want != set(links) or len(set(links)) != len(links):
        raise Unreadable("the arrows drawn do not agree with the tables")
    n = len(out)
    if sorted(out) != list(range(n)):
        raise Unreadable("states missing")
    return {"n": n, "s": start, "st": [out[q] for q in range(n)]}
