"""Random programs over the whole library: build automata, transform and combine them, ask about them."""
from core import *
import gen, regen

LANGS = ["api", "awk", "c", "dot", "fsm", "go", "ir", "irjson", "json", "llvm", "rust", "sh", "vmc", "vmdot", "amd64_att", "amd64_nasm", "amd64_go"]


class Prog:
    """Registers 0..5 hold automata; `det` says which are known to be DFAs."""
    def __init__(self, rng, langs=LANGS, size=5, queries=True):
        self.r, self.s, self.live, self.det, self.langs, self.size, self.q = rng, [], {}, set(), langs, size, queries

    def __call__(self, line):
        self.s.append(line)

    def free_reg(self):
        return next(j for j in range(8) if j not in self.live)

    def build(self):
        rng, d = self.r, self.free_reg()
        k = rng.random()
        if k < .40:
            al = gen.any_alphabet(rng, rng.choice((1, 2, 3)))
            a = gen.nfa(rng, self.size, al, eps=rng.random() < .7, ids=rng.choice((0, 0, 2, 3)), eager=rng.choice((0, 0, 0, 2)))
            for l in a.cmds(d):
                self(l)
        elif k < .55:
            al = gen.any_alphabet(rng, rng.choice((1, 2, 3)))
            for l in gen.dfa(rng, self.size, al, ids=rng.choice((0, 2))).cmds(d):
                self(l)
        elif k < .85:
            dialect = rng.choice(("pcre", "native", "pcre", "glob", "like", "sql", "literal"))
            if dialect in ("pcre", "native"):
                t = regen.Gen(rng, dialect).pattern(rng.choice((1, 2, 3)))
            else:
                t = regen.simple(rng, dialect, rng.randint(0, 6))
            self("re %d %s %d %s" % (d, dialect, rng.choice((0, 0, 1, 64, 256)), t.hex() or "-"))
        else:
            toks = ["%s:%s" % (rng.choice(("n", "%d" % j)), bytes(rng.choice(b"abc") for _ in range(rng.randint(0, 4))).hex() or "-") for j in range(rng.randint(1, 5))]
            self("strings %d %d %s" % (d, rng.randrange(4), " ".join(toks)))
        self.live[d] = 1

    def group(self):
        rng = self.r
        if any(j in self.live for j in (5, 6, 7)):
            return
        n = rng.randint(1, 3)
        for j in range(n):
            self("re %d pcre 512 %s" % (5 + j, regen.Gen(rng, "pcre", letters=b"aabb").pattern(rng.choice((1, 2))).hex() or "-"))
        d = self.free_reg()
        self("group %d %d %d %s" % (d, rng.choice((0, 3)), n, " ".join(str(5 + j) for j in range(n))))
        self.live[d] = 1

    def word(self):
        return bytes(self.r.choice(b"aabbcB\n\x00\xff") for _ in range(self.r.randint(0, 8))).hex() or "-"

    def step(self):
        rng = self.r
        if not self.live or (len(self.live) < 3 and rng.random() < .3):
            return self.build() if rng.random() < .9 else self.group()
        a = rng.choice(list(self.live))
        k = rng.random()
        if k < .14:
            self("det %d" % a)
            self.det.add(a)
        elif k < .24:
            self("det %d" % a)
            self("min %d" % a)
            self.det.add(a)
        elif k < .60 or not self.q:
            o = rng.choice(("rmeps", "rev", "complete", "trim", "shuffle", "clone", "union", "union", "concat", "inter", "sub", "unionarr", "compl", "vacuum",
                            "collate", "endid", "incr", "mapids", "mergestates", "subgraph"))
            b = rng.choice(list(self.live))
            if o in ("rmeps", "rev", "vacuum"):
                self("%s %d" % (o, a))
                if o == "rev": self.det.discard(a)
            elif o == "complete": self("complete %d isdfa" % a); self.det.discard(a)
            elif o == "trim": self("trim %d %d" % (a, rng.randrange(2)))
            elif o == "shuffle": self("shuffle %d %d" % (a, rng.randrange(1000)))
            elif o == "compl": self("compl %d" % a); self.det.discard(a)
            elif o == "collate": self("collate %d isend" % a); self.det.discard(a)
            elif o == "endid": self("setendid %d %d" % (a, rng.randrange(9)))
            elif o == "incr": self("incr %d %d" % (a, rng.randrange(5)))
            elif o == "mapids": self("mapids %d 1 2" % a)
            elif o == "mergestates": self("mergestates %d 0 0" % a)
            elif o == "subgraph": self("subgraph %d 0 1 0" % a); self.det.discard(a)
            elif o == "clone" and len(self.live) < 5:
                d = self.free_reg()
                self("clone %d %d" % (d, a))
                self.live[d] = 1
                if a in self.det: self.det.add(d)
            elif o in ("union", "concat", "inter", "sub", "unionarr") and b != a:
                self("unionarr %d 2 %d %d" % (a, a, b) if o == "unionarr" else "%s %d %d %d" % (o, a, a, b))
                del self.live[b]
                self.det.discard(a); self.det.discard(b)
        else:
            o = rng.choice(("dump", "dump", "preds", "exec", "vm", "gen", "example", "shortest", "print", "print", "required", "fsmast", "words", "roundtrip", "equal", "empty"))
            dfa = a in self.det
            if o in ("dump", "preds", "empty"): self("%s %d" % (o, a))
            elif o == "words": self("words " + " ".join(self.word() for _ in range(3)))
            elif o == "exec" and dfa: self("words " + " ".join(self.word() for _ in range(4))); self("exec %d 1" % a)
            elif o == "vm" and dfa: self("words " + " ".join(self.word() for _ in range(3))); self("vm %d %d %d buf 0" % (a, rng.choice((0, 1, 2)), rng.randrange(2)))
            elif o == "gen" and dfa: self("gen %d %d 0 20" % (a, rng.choice((2, 3))))
            elif o == "example" and dfa: self("example %d 20" % a)
            elif o == "shortest" and dfa: self("shortest %d 0 0 %d" % (a, rng.randrange(3)))
            elif o == "print":
                l = rng.choice(self.langs)
                if l in ("api", "dot", "fsm", "json") or dfa:
                    self("print %d %s - -" % (a, l))
            elif o == "required" and dfa: self("required %d 1000" % a)
            elif o == "roundtrip" and len(self.live) < 4:
                d = self.free_reg()
                self("roundtrip %d %d -" % (d, a))
                self("dump %d" % d)
                self("free %d" % d)
            elif o == "equal":
                b = rng.choice(list(self.live))
                self("equal %d %d" % (a, b))

    def finish(self):
        for a in list(self.live):
            self("dump %d" % a)

    def clean(self):
        for a in range(8):
            self("free %d" % a)


def program(rng, n, **kw):
    p = Prog(rng, **kw)
    for _ in range(n):
        p.step()
    p.finish()
    return p
