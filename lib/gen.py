"""Generators of automata (as driver commands)."""
import itertools


def alphabet(rng, k):
    """k disjoint non-empty byte sets, with the awkward byte values well represented."""
    style = rng.randrange(7)
    if style == 4 and k > 5:
        style = 5
    if style == 0:
        base = [ord("a") + i for i in range(k)]
        return [[b] for b in base]
    if style == 1:      # the extremes
        pool = [0, 255, 127, 128, 10, 32, 34, 92, 1, 254, 63, 64, 191, 192]
        rng.shuffle(pool)
        return [[pool[i]] for i in range(k)]
    if style == 2:      # everything, in contiguous runs
        cuts = sorted(rng.sample(range(1, 256), k - 1)) if k > 1 else []
        cuts = [0] + cuts + [256]
        return [list(range(cuts[i], cuts[i + 1])) for i in range(k)]
    if style == 3:      # case pairs
        return [[ord("a") + i, ord("A") + i] for i in range(k)]
    if style == 4:      # across 64-bit word boundaries
        starts = [60, 124, 188, 250, 0]
        rng.shuffle(starts)
        return [list(range(starts[i], starts[i] + rng.randint(1, 6))) for i in range(k)]
    if style == 5:      # random sets
        pool = list(range(256))
        rng.shuffle(pool)
        out = []
        for i in range(k):
            m = rng.choice([1, 2, 5, 40] if k < 6 else [1, 2, 5])
            out.append(sorted(pool[:m]))
            pool = pool[m:]
        return out
    out = [[ord("0") + i] for i in range(k)]
    out[-1] = [b for b in range(256) if b < ord("0") or b >= ord("0") + k]
    return out


def overlap(rng, k):
    """k byte sets that overlap one another (for NFAs)."""
    out = []
    for _ in range(k):
        r = rng.random()
        if r < 0.4:
            lo = rng.choice([0, 1, 60, 62, 97, 100, 120, 127, 190, 250])
            out.append(list(range(lo, min(256, lo + rng.choice([1, 2, 3, 8, 70, 140])))))
        elif r < 0.6:
            out.append(list(range(256)))
        elif r < 0.8:
            x = rng.choice([10, 97, 98, 255])
            out.append([b for b in range(256) if b != x])
        else:
            out.append(sorted(rng.sample([0, 10, 63, 64, 97, 98, 99, 127, 128, 191, 192, 255], rng.randint(1, 5))))
    return out


def any_alphabet(rng, k):
    return overlap(rng, k) if rng.random() < 0.3 else alphabet(rng, k)


def near_equal_dfa(rng, al, ids=0):
    """A DFA whose states look alike until late: a long-tailed chain of copies
    with a single differing end, id or edge somewhere."""
    m = rng.randint(2, 5)            # copies of
    l = rng.randint(2, 8)            # a chain this long
    a = A(m * l + 1, m * l)
    letters = [al[rng.randrange(len(al))] for _ in range(l)]
    root = a.n - 1
    used = set(b for bs in al for b in bs)
    free = [b for b in range(256) if b not in used]
    heads = rng.sample(range(40, 40 + m * 3), m)      # only ever on the root: no clash
    for c in range(m):
        a.t.append((root, c * l, [heads[c]]))
        for j in range(l - 1):
            a.t.append((c * l + j, c * l + j + 1, letters[j]))
        if rng.random() < 0.3:
            a.t.append((c * l + l - 1, c * l + rng.randrange(l), letters[l - 1]))
        a.f.append(c * l + l - 1)
        if ids and rng.random() < 0.7:
            a.i.append((c * l + l - 1, rng.choice([1, 1, 1, 2])))
    r = rng.random()
    if r < 0.3:
        a.f.append(rng.randrange(m) * l + rng.randrange(l))
        a.f = sorted(set(a.f))
    elif r < 0.6 and l > 2 and free:
        c = rng.randrange(m)
        a.t.append((c * l + rng.randrange(l - 1), c * l + l - 1, [rng.choice(free)]))
    return a


def ranges(bs):
    bs = sorted(bs)
    out = []
    for b in bs:
        if out and out[-1][1] == b - 1:
            out[-1][1] = b
        else:
            out.append([b, b])
    return out


class A:
    """An automaton to be built: 0-based states."""
    def __init__(self, n, start):
        self.n, self.s = n, start
        self.f, self.e, self.t, self.i, self.g, self.c = [], [], [], [], [], []

    def cmds(self, r):
        out = ["fa %d %d %s" % (r, self.n, self.s if self.s is not None else "-")]
        toks = []
        for q in self.f:
            toks.append("f:%d" % q)
        for a, b in self.e:
            toks.append("e:%d,%d" % (a, b))
        for a, b, bs in self.t:
            for lo, hi in ranges(bs):
                toks.append("t:%d,%d,%d,%d" % (a, b, lo, hi))
        for q, i in self.i:
            toks.append("i:%d,%d" % (q, i))
        for q, i in self.g:
            toks.append("g:%d,%d" % (q, i))
        for cid, a, b in self.c:
            toks.append("c:%d,%d,%d" % (cid, a, b))
        for j in range(0, len(toks), 400):
            out.append("build %d %s" % (r, " ".join(toks[j:j + 400])))
        if not toks:
            out.append("build %d" % r)
        return out

    def nonempty(self):
        if self.s is None:
            return False
        seen, todo = {self.s}, [self.s]
        while todo:
            q = todo.pop()
            for x in [t for f, t in self.e if f == q] + [t for f, t, bs in self.t if f == q and bs]:
                if x not in seen:
                    seen.add(x)
                    todo.append(x)
        return bool(seen & set(self.f))


def nfa(rng, nmax, al, eps=True, ids=0, eager=0, start_none=0.0, nmin=1):
    n = rng.randint(nmin, nmax)
    s = None if rng.random() < start_none else rng.randrange(n)
    a = A(n, s)
    dens = rng.choice([0.15, 0.3, 0.5, 0.8])
    for q in range(n):
        for bs in al:
            if rng.random() < dens:
                for t in rng.sample(range(n), min(n, rng.choice([1, 1, 1, 2, 2, 3]))):
                    a.t.append((q, t, bs))
        # a lone byte out of a larger set, now and then
        if rng.random() < 0.15:
            bs = rng.choice(al)
            a.t.append((q, rng.randrange(n), [rng.choice(bs)]))
    if eps:
        pe = rng.choice([0, 0.1, 0.25, 0.5])
        for q in range(n):
            for t in range(n):
                if rng.random() < pe / max(1, n / 3):
                    a.e.append((q, t))
    pf = rng.choice([0.15, 0.4, 0.7])
    a.f = [q for q in range(n) if rng.random() < pf]
    if not a.f and rng.random() < 0.9:
        a.f = [rng.randrange(n)]
    if s is not None and rng.random() < 0.2:
        a.t.append((s, s, rng.choice(al)))
    _ids(rng, a, ids)
    _eager(rng, a, eager)
    return a


def _ids(rng, a, ids):
    if ids:
        pool = [rng.choice([0, 1, 2, 3, 5, 7, 31, 32, 63, 64, 65, 100, 1000, 4294967294 % 2147483647]) for _ in range(ids)]
        for q in a.f:
            for _ in range(rng.choice([0, 1, 1, 2, 3])):
                a.i.append((q, rng.choice(pool)))


def _eager(rng, a, eager):
    if eager:
        pool = rng.sample([0, 1, 2, 3, 5, 8, 13, 64, 1000], eager)
        for q in range(a.n):
            if rng.random() < 0.4:
                for _ in range(rng.choice([1, 1, 2])):
                    a.g.append((q, rng.choice(pool)))


def big(rng, n, al, ids=0):
    """A cycle on one letter, other letters leading anywhere: most pairs of states are reached."""
    a = dfa(rng, n, al)
    a.n, a.s, a.e = n, 0, []
    a.t = [(i, (i + 1) % n, al[0]) for i in range(n)]
    a.t += [(i, rng.randrange(n), l) for l in al[1:] for i in range(n) if rng.random() < 0.4]
    a.f = sorted(rng.sample(range(n), rng.choice([1, 2, 5])))
    _ids(rng, a, ids)
    return a


def dfa(rng, nmax, al, ids=0, eager=0, complete=False, start_none=0.0, nmin=1):
    n = rng.randint(nmin, nmax)
    s = None if rng.random() < start_none else rng.randrange(n)
    a = A(n, s)
    dens = 1.0 if complete else rng.choice([0.3, 0.6, 0.8, 1.0])
    if complete:
        used = set(b for bs in al for b in bs)
        rest = [b for b in range(256) if b not in used]
        al = list(al) + ([rest] if rest else [])
    hub = rng.randrange(n)
    for q in range(n):
        for bs in al:
            if rng.random() < dens:
                t = hub if rng.random() < 0.2 else rng.randrange(n)
                a.t.append((q, t, bs))
    pf = rng.choice([0.15, 0.4, 0.7])
    a.f = [q for q in range(n) if rng.random() < pf]
    if not a.f and rng.random() < 0.95:
        a.f = [rng.randrange(n)]
    _ids(rng, a, ids)
    _eager(rng, a, eager)
    return a


def blown_dfa(rng, base_n, al, copies=2, ids=0):
    """A DFA with redundant states: every state of a random DFA several times over,
    each edge going to a random copy.  Good food for minimisation."""
    b = dfa(rng, base_n, al, ids=ids, nmin=1)
    cp = [rng.randint(1, copies) for _ in range(b.n)]
    off = [sum(cp[:q]) for q in range(b.n)]
    a = A(sum(cp), off[b.s] + rng.randrange(cp[b.s]) if b.s is not None else None)
    for f, t, bs in b.t:
        for c in range(cp[f]):
            a.t.append((off[f] + c, off[t] + rng.randrange(cp[t]), bs))
    a.f = [off[q] + c for q in b.f for c in range(cp[q])]
    a.i = [(off[q] + c, i) for q, i in b.i for c in range(cp[q])]
    return a


def all_nfas(n, letters, eps=False, startall=False):
    """Every NFA with n states over the given byte sets (exhaustive)."""
    pairs = [(a, b) for a in range(n) for b in range(n)]
    epairs = [(a, b) for a in range(n) for b in range(n) if a != b] if eps else []
    for s in range(n) if startall else [0]:
        for fm in range(1 << n):
            for em in range(1 << len(epairs)):
                for masks in itertools.product(range(1 << len(pairs)), repeat=len(letters)):
                    a = A(n, s)
                    a.f = [q for q in range(n) if fm >> q & 1]
                    a.e = [p for j, p in enumerate(epairs) if em >> j & 1]
                    for l, m in zip(letters, masks):
                        for j, (x, y) in enumerate(pairs):
                            if m >> j & 1:
                                a.t.append((x, y, l))
                    yield a
