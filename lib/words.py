"""Word suites for executing automata, and their judgement by WordCheck.tla."""
from core import *


def delta(d):
    """dump of a DFA -> [ {byte: to} ] """
    m = [dict() for _ in range(d["n"])]
    for f, t, lo, hi in d["t"]:
        for b in range(lo, hi + 1):
            m[f][b] = t
    return m


def access(d, m, rng):
    """A word leading to each reachable state."""
    if d["s"] < 0:
        return {}
    acc = {d["s"]: b""}
    todo = [d["s"]]
    for q in todo:
        first = {}
        for b, t in m[q].items():
            first.setdefault(t, []).append(b)
        for t, bs in first.items():
            if t not in acc:
                acc[t] = acc[q] + bytes([rng.choice(bs)])
                todo.append(t)
    return acc


def separators(d, m, cls, rng, limit=6):
    """A small set of words that tell states apart: the empty one, then words
    found by refining the partition of the states."""
    fin = set(d["f"])
    words = [b""]
    part = {q: (q in fin,) for q in range(d["n"])}
    part[-1] = (False,)
    grown = True
    cand = [b""]
    while grown and len(words) < limit:
        grown = False
        new = []
        for w in cand:
            for c in cls:
                x = bytes([rng.choice(c)]) + w

                def end(q):
                    for b in x:
                        if q < 0:
                            return False
                        q = m[q].get(b, -1)
                    return q in fin
                np = {q: part[q] + (end(q),) for q in part}
                if len(set(np.values())) > len(set(part.values())):
                    part = np
                    words.append(x)
                    new.append(x)
                    grown = True
                    if len(words) >= limit:
                        break
            if len(words) >= limit:
                break
        cand = new
    return words


def edges_of(cls, rng, extra=1):
    """Bytes worth trying: the ends of each run of each class, and some between."""
    out = set()
    for c in cls:
        st = set(c)
        for b in c:
            if b - 1 not in st or b + 1 not in st:
                out.add(b)
        for _ in range(extra):
            out.add(rng.choice(c))
    out |= {0, 255, 127, 128}
    return sorted(out)


def walk(d, m, rng, n, slip=0.0):
    """A random word of n bytes which stays within the automaton where it can."""
    q = d["s"]
    w = bytearray()
    for _ in range(n):
        if q >= 0 and m[q] and rng.random() >= slip:
            b = rng.choice(list(m[q]))
        else:
            b = rng.randrange(256)
        w.append(b)
        q = m[q].get(b, -1) if q >= 0 else -1
    return bytes(w)


def suite(d, rng, budget=300, every=False, long=0):
    """Words covering the states, edges and non-edges of the DFA dumped as d."""
    cls = classes([d])
    m = delta(d)
    acc = access(d, m, rng)
    sep = separators(d, m, cls, rng)
    bs = list(range(256)) if every else edges_of(cls, rng)
    words = {b""}
    for q, a in acc.items():
        words.add(a)
        for b in bs:
            t = m[q].get(b, -1)
            for s in (sep if t >= 0 else sep[:1]):
                words.add(a + bytes([b]) + s)
    words = sorted(words)
    if len(words) > budget:
        words = rng.sample(words, budget)
    if d["s"] >= 0:
        for _ in range(12):
            words.append(walk(d, m, rng, rng.choice([1, 2, 3, 5, 9, 17, 40]), rng.choice([0, 0, 0, .05])))
        for _ in range(long):
            words.append(walk(d, m, rng, rng.choice([4095, 4096, 4097, 8192, 9000])))
    return words


def set_words(sc, words):
    for j in range(0, max(1, len(words)), 300):
        part = words[j:j + 300]
        sc(("words " if j == 0 else "moreword ") + " ".join(w.hex() or "-" for w in part))


class WordCases:
    """Recorded runs, grouped by what the specification can tell apart."""
    def __init__(self, chk):
        self.chk = chk
        self.cases = []
        self.meta = {}
        self.nw = 0

    def add(self, d, entries, script, label=""):
        """entries: (kind, word bytes, outcome).  Same kind and class word: one
        entry with the distinct outcomes."""
        cls = classes([d])
        at = bytearray(256)
        for k, c in enumerate(cls):
            for b in c:
                at[b] = k
        table = bytes(at)
        by = {}
        for kind, w, o in entries:
            self.nw += 1
            x = w.translate(table)
            e = by.setdefault((kind, x), {})
            e.setdefault(json.dumps(o), (o, w))
        ws, ex = [], []
        for (kind, x), os_ in by.items():
            ws.append({"c": kind, "w": [b + 1 for b in x], "o": [v[0] for v in os_.values()]})
            ex.append([(v[1], v[0]) for v in os_.values()])
        cid = len(self.cases) + 1
        self.cases.append({"id": cid, "a": project(d, cls), "w": ws})
        self.meta[cid] = (script, label, ex)
        return cid

    def judge(self, shards=7):
        chk = self.chk
        if not self.cases:
            return
        outs, g, ds = tlc_shards("WordCheck", "WordCheck.cfg", self.cases, chk.work, "word", shards=shards, workers=1)
        chk.states += ds
        chk.trans += g
        chk.traces += len(self.cases)
        chk.extra["words"] = chk.extra.get("words", 0) + self.nw
        for cid, b in sorted(bad_lines(outs).items()):
            script, label, ex = self.meta[cid]
            j = min((x for bb in b for x in bb[0]), key=lambda x: len(ex[x - 1][0][0]))
            kind = self.cases[cid - 1]["w"][j - 1]["c"]
            chk.violation("%s: %s on word %s gave %s" % (label, kind, ex[j - 1][0][0][:80].hex() or "(empty)",
                                                         [o for _, o in ex[j - 1]][:3]), {"script": script})
        self.cases, self.meta, self.nw = [], {}, 0
