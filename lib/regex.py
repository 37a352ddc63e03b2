"""Pattern texts, the compiler's answers, and the specification's judgement of them
(spec/ReSyntax.tla, spec/ReLang.tla, through spec/LangCheck.tla)."""
import re
from core import *

ICASE, REVERSE, SINGLE, ANCHORED, EXTENDED = 1, 8, 16, 64, 128
FLAG = {"i": ICASE, "s": SINGLE, "x": EXTENDED, "anch": ANCHORED, "rev": REVERSE}
SIMPLE = ("literal", "like", "glob", "sql")
UNSUPPORTED = None

def R(*rs):
    s = set()
    for a, b in rs:
        s |= set(range(a, b + 1))
    return s

NAMED = {"d": R((48, 57)), "h": {9, 32, 160}, "s": R((9, 13)) | {32}, "v": R((10, 13)) | {133},
         "w": R((48, 57), (65, 90), (97, 122)) | {95}}
BRACKET = {b"alnum": R((48, 57), (65, 90), (97, 122)), b"alpha": R((65, 90), (97, 122)), b"ascii": R((0, 127)),
           b"blank": {9, 32}, b"cntrl": R((0, 31)) | {127}, b"digit": R((48, 57)), b"graph": R((33, 126)),
           b"hspace": {9, 32}, b"lower": R((97, 122)), b"print": R((32, 126)),
           b"punct": R((33, 47), (58, 64), (91, 96), (123, 126)), b"space": R((9, 13)) | {32}, b"upper": R((65, 90)),
           b"vspace": R((10, 13)), b"word": NAMED["w"], b"xdigit": R((48, 57), (65, 70), (97, 102)),
           b"whitespace": R((9, 13)) | {32}}


def swap(x):
    if 65 <= x <= 90:
        return x + 32
    if 97 <= x <= 122:
        return x - 32
    return x


def interest(text, fl=()):
    """Sets of bytes a pattern text may be made of (a superset of what matters; the
    specification verifies that it is enough)."""
    ones = set(text) | {10}
    esc = b"\\" in text
    if esc:
        for m in re.finditer(rb"\\x\{?([0-9a-fA-F]*)", text):
            for n in (1, 2, 8):
                v = int(m.group(1)[:n] or b"0", 16)
                ones |= {v} if v < 256 else set()
        for m in re.finditer(rb"\\o?\{?([0-7]+)", text):
            for n in range(1, 9):
                v = int(m.group(1)[:n], 8)
                ones |= {v} if v < 256 else set()
        for m in re.finditer(rb"\\c([ -~])", text, re.S):
            ones.add(m.group(1).upper()[0] ^ 0x40)
        for c, v in ((b"n", 10), (b"r", 13), (b"t", 9), (b"f", 12), (b"v", 11), (b"a", 7), (b"e", 27), (b"b", 8)):
            if b"\\" + c in text:
                ones.add(v)
        if b"\\R" in text:
            ones.add(13)
    ones |= {swap(x) for x in ones}
    sets = [{x} for x in sorted(ones)]
    if esc:
        for c in "dhsvw":
            if ("\\" + c).encode() in text or ("\\" + c.upper()).encode() in text:
                sets.append(NAMED[c])
        if b"\\R" in text:
            sets.append(NAMED["v"])
    if b"[:" in text:
        sets.append({32})
        for nm in BRACKET:
            if b"[:" + nm + b":]" in text or b"[:" + nm.upper() + b":]" in text:
                sets.append(BRACKET[nm])
                sets.append({swap(x) for x in BRACKET[nm]})
    if b"-" in text and b"[" in text:
        for x in sorted(ones | {65, 91, 97, 123}):
            sets.append(set(range(0, x)))
    return sets


def words_of(dialect, text, fl):
    bits = 0
    for f in fl:
        bits |= FLAG[f]
    return "re %%d %s %d %s" % (dialect, bits, text.hex() or "-")


class ReCases:
    """Compiles texts and has the specification judge the results."""
    def __init__(self, chk, shards=8, workers=1, tmo=20, leak=False):
        self.chk, self.tmo, self.leak = chk, tmo, leak
        self.lc = LangCases(chk, shards=shards, workers=workers)
        self.items = {}
        self.tally = {"compiled": 0, "refused": 0}
        self.codes = {}

    def add(self, text, dialect, fl=(), prep=("det 0", "min 0"), label=None):
        key = len(self.items)
        self.items[key] = (bytes(text), dialect, tuple(fl), (["track"] if self.leak else []) + [words_of(dialect, bytes(text), fl) % 0] + list(prep) + ["dump 0"] +
                           (["free 0", "live"] if self.leak else []), label)

    def virt(self, text, dialect, fl, only=0):
        return {"v": "re", "text": list(text), "d": dialect, "fl": sorted(f for f in fl if f != "rev"), "only": only}

    def run(self):
        exe = drv()
        scripts = {k: it[3] for k, it in self.items.items()}
        self.res = run_driver(exe, scripts, tmo=self.tmo)
        for k, vals in self.res.items():
            text, d, fl, script, label = self.items[k]
            what = "%s %r%s" % (d, text.decode("latin1"), " " + "+".join(sorted(fl)) if fl else "")
            if crashed(vals) and (self.leak or not (vals and isinstance(vals[0], dict) and vals[0].get("re") == 0)):
                self.chk.violation("compiling %s: the process died (%s)" % (what, crashed(vals)),
                                   {"script": script, "log": vals[-2:]}, key=label or what)
                continue
            vals = [x for x in vals if x != "END"]
            if self.leak:
                left, vals = vals[-1]["live"], vals[:-2]
                if left:
                    self.chk.violation("%s: %d blocks of memory are left" % (what, left), {"script": script, "log": vals[:1]}, key=label or what)
            v = vals[0]
            ok = v.get("re") == 1
            self.tally["compiled" if ok else "refused"] += 1
            if ok:
                if [x for x in vals[1:-1] if x != 1]:
                    self.chk.violation("%s: determinising or minimising failed" % what, {"script": script, "log": vals[:-1]})
                    continue
                claims = [{"c": "parse", "x": 2, "got": "ok"}, {"c": "sat", "x": 2}]
                virts = [self.virt(text, d, fl)]
                if "rev" in fl:
                    virts.append({"v": "mirror", "x": 1})
                    claims.append({"c": "eq", "x": 2, "y": 3, "if": [2]})
                else:
                    claims.append({"c": "eq", "x": 2, "y": 1, "if": [2]})
                self.lc.add([vals[-1]], claims, script, virts, sets=interest(text, fl), label=label or what)
            else:
                self.codes[v["err"]] = self.codes.get(v["err"], 0) + 1
                claims = [{"c": "parse", "x": 1, "got": "unsup" if v["str"] == "Unsupported operator" else "err"}]
                if v["err"] & 16:
                    claims.append({"c": "pos", "x": 1, "from": v["start"], "to": v["end"]})
                self.lc.add([], claims,
                            script, [self.virt(text, d, fl, 1)], cls=[[b] for b in range(256)][:1], label=label or what + " (%s)" % v["str"])

    def judge(self):
        bads = self.lc.judge()
        for cid, b in sorted(bads.items(), key=lambda kv: len(self.lc.meta[kv[0]]["script"][0])):
            m = self.lc.meta[cid]
            if any(m["claims"][c - 1]["c"] == "sat" for x in b for c in x[0]):
                raise RuntimeError("byte classes too coarse for " + m["label"])
            self.chk.violation(self.lc.describe(cid, b), {"script": m["script"], "case": self.lc.cases[cid - 1]}, key=m["label"])
        return bads
