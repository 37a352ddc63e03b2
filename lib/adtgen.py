"""Histories of container operations, recorded from the code and judged by spec/Adt.tla."""
from core import *


def exe(variant):
    return B.Build(variant).harness("adt")


class Hist:
    def __init__(self, label):
        self.ops, self.label = [], label

    def __call__(self, k, *a):
        self.ops.append((k, list(a)))


def pick(rng, n):
    """A state number: mostly from a small pool, at times far out."""
    x = rng.random()
    return rng.randrange(n) if x < 0.93 else rng.choice((n, 2 * n, 4000, 100000, 2**23))


def mono(rng, n):
    """A renumbering that drops some numbers and closes the gaps, as compaction does."""
    out, j, p = [], 0, rng.choice((0.0, 0.1, 0.5, 0.9, 1.0))
    for x in range(n):
        if rng.random() < p:
            out += [x, -1]
        else:
            out += [x, j]
            j += 1
    return out


def anymap(rng, n):
    """Any renumbering: merging, swapping, dropping."""
    k, p = rng.randint(1, n), rng.choice((0, 0, 0.1, 0.4, 1.0))
    out = []
    for x in range(n):
        if rng.random() < p:
            out += [x, -1]
        elif rng.random() < 0.8:
            out += [x, rng.randrange(k)]
    return out


def symbol(rng, al):
    return rng.choice(al) if rng.random() < 0.9 else rng.randrange(256)


def ranges(rng):
    out = []
    for _ in range(rng.choice((1, 1, 2, 4))):
        lo = rng.choice((0, 63, 64, 97, 127, 128, 191, 192, 250, rng.randrange(256)))
        out += [lo, min(255, lo + rng.choice((0, 0, 1, 2, 25, 63, 64, 255)))]
    return out


def stateset(rng, n, length):
    h = Hist("state sets")
    big = rng.random() < 0.15
    for _ in range(length):
        x, y = rng.randrange(3), rng.randrange(3)
        o = rng.random()
        if o < .22: h("ss.add", x, pick(rng, n))
        elif o < .32: h("ss.bulk", x, *[pick(rng, n) for _ in range(rng.choice((0, 1, 2, 3, 8, 17, 40 if big else 5)))])
        elif o < .36 and x != y: h("ss.copy", x, y)
        elif o < .46: h("ss.remove", x, pick(rng, n))
        elif o < .51: h("ss.replace", x, pick(rng, n), pick(rng, n))
        elif o < .53: h("ss.rebase", x, rng.randrange(4))
        elif o < .57: h("ss.compact", x, *mono(rng, n + 8))
        elif o < .585: h("ss.clear", x)
        elif o < .66: h("ss.has", x, pick(rng, n))
        elif o < .72: h("ss.count", x)
        elif o < .76: h("ss.empty", x)
        elif o < .80: h("ss.only", x)
        elif o < .88: h("ss.iter", x)
        elif o < .92: h("ss.array", x)
        else: h("ss.cmp", x, y)
    for x in range(3):
        h("ss.iter", x)
        h("ss.count", x)
        for y in range(3):
            h("ss.cmp", x, y)
    return h


def seen(h, rng, x, al, n):
    for q in ("es.iter", "es.groups", "es.unique", "es.count", "es.empty", "es.nondet"):
        h(q, x)
    h("es.ordered", x, 0)
    h("es.ordered", x, rng.choice(al))
    for c in rng.sample(al, min(3, len(al))):
        h("es.find", x, c)
        h("es.trans", x, c)
        h("es.has", x, c)


def edgeset(rng, n, length):
    h = Hist("edge sets")
    al = rng.choice(([97, 98], [0, 63, 64, 127, 128, 255], [97, 98, 99, 100, 101], list(range(60, 70)), list(range(256))))
    wide = rng.random() < 0.4
    for _ in range(length):
        x, y, o = rng.randrange(2), rng.randrange(2), rng.random()
        if o < .30: h("es.add", x, symbol(rng, al), pick(rng, n))
        elif o < .38 and wide: h("es.bulk", x, pick(rng, n), *ranges(rng))
        elif o < .41:
            z = rng.randrange(3)
            h("ss.bulk", z, *[pick(rng, n) for _ in range(rng.choice((1, 2, 5)))])
            h("es.addset", x, symbol(rng, al), z)
        elif o < .44: h("es.addset", x, symbol(rng, al), rng.randrange(3))
        elif o < .48 and x != y: h("es.copy", x, y)
        elif o < .56: h("es.remove", x, symbol(rng, al))
        elif o < .61: h("es.rmstate", x, pick(rng, n))
        elif o < .66: h("es.replace", x, pick(rng, n), pick(rng, n))
        elif o < .70: h("es.compact", x, *anymap(rng, n + 8))
        elif o < .72: h("es.rebase", x, rng.randrange(4))
        elif o < .73: h("es.clear", x)
        elif o < .74: h("es.grow", x, rng.choice((0, 1, 5, 60)))
        else:
            q = rng.choice(("es.find", "es.trans", "es.has", "es.count", "es.empty", "es.nondet", "es.iter", "es.ordered", "es.groups", "es.unique"))
            if q in ("es.find", "es.trans", "es.has"): h(q, x, symbol(rng, al))
            elif q == "es.ordered": h(q, x, rng.choice((0, symbol(rng, al))))
            else: h(q, x)
    for x in range(2):
        seen(h, rng, x, al, n)
    return h


def edgeset_ec(rng, n, length):
    """Deterministic sets, asked which symbols lead to the same class."""
    h = Hist("edge classes")
    al = rng.sample(range(256), rng.choice((2, 5, 20, 100)))
    for c in al:
        h("es.add", 0, c, rng.randrange(n))
    for _ in range(6):
        ec = [rng.randrange(rng.choice((1, 2, n))) for _ in range(n)]
        h("es.ec", 0, rng.choice(al), *ec)
        h("es.ec", 0, rng.randrange(256), *ec)
    return h


def growth(rng, kind):
    """Long runs of one operation, past every growth."""
    h = Hist("growth of " + kind)
    if kind == "ss":
        k = rng.choice((3, 8, 9, 40, 300))
        vs = [pick(rng, 500) for _ in range(k)]
        vs = rng.choice((sorted, lambda v: sorted(v, reverse=True), list))(vs)
        for v in vs:
            h("ss.add", 0, v)
        h("ss.bulk", 1, *vs)
        h("ss.cmp", 0, 1)
        h("ss.iter", 0)
        for v in rng.sample(vs, len(vs) // 2):
            h("ss.remove", 0, v)
        h("ss.iter", 0)
        h("ss.copy", 0, 1)
        h("ss.iter", 0)
    elif kind == "es":
        k = rng.choice((3, 9, 40, 150))
        ts = list(range(k))
        rng.shuffle(ts)
        al = rng.sample(range(256), rng.choice((1, 3, 20)))
        for t in ts:
            h("es.add", 0, rng.choice(al), t)
        seen(h, rng, 0, al, k)
        for t in rng.sample(ts, k // 2):
            h("es.rmstate", 0, t)
        seen(h, rng, 0, al, k)
        h("es.compact", 0, *anymap(rng, k))
        seen(h, rng, 0, al, k)
    elif kind == "im":
        k, m = rng.choice((3, 20, 100, 400)), rng.choice((1, 63, 64, 65, 127, 128, 129, 192, 200, 1000))
        for _ in range(k):
            h("im.set", pick(rng, k), rng.choice((0, m - 1, m, m + 1, rng.randrange(m + 1))))
        h("im.iter")
    elif kind == "is":
        k, n = rng.choice((3, 40, 200)), rng.choice((3, 8, 60))
        for _ in range(k):
            h("is.intern", *sorted(rng.sample(range(n), rng.randint(1, min(n, rng.choice((1, 2, 8, 40)))))))
        for j in rng.sample(range(k), min(k, 12)):
            h("is.get", j)
    return h


def idmap(rng, n, length):
    h = Hist("id maps")
    m = rng.choice((2, 10, 63, 64, 65, 127, 128, 130, 300))
    val = lambda: rng.choice((0, m, m - 1, rng.randrange(m + 1), rng.randrange(m + 1)))
    for _ in range(length):
        o = rng.random()
        if o < .5: h("im.set", pick(rng, n), val())
        elif o < .62: h("im.count", pick(rng, n))
        elif o < .8: h("im.get", pick(rng, n), rng.choice((0, 1, 2, 3, 64)))
        elif o < .9: h("im.iterfor", pick(rng, n))
        elif o < .91: h("im.clear")
        else: h("im.iter")
    h("im.iter")
    for s in range(min(n, 8)):
        h("im.get", s, 400)
        h("im.count", s)
    return h


def interned(rng, n, length):
    h = Hist("interned sets")
    for _ in range(length):
        if rng.random() < .8:
            h("is.intern", *sorted(rng.sample(range(n), rng.randint(1, min(n, 6)))))
        else:
            h("is.get", rng.randrange(64))
    for j in range(8):
        h("is.get", j)
    return h


def bitmap(rng, n, length):
    h = Hist("bit maps")
    bit = lambda: rng.choice((0, 1, 62, 63, 64, 65, 127, 128, 191, 192, 254, 255, rng.randrange(256)))
    for _ in range(length):
        x, y, o = rng.randrange(3), rng.randrange(3), rng.random()
        if o < .3: h("bm.set", x, bit())
        elif o < .38: h("bm.unset", x, bit())
        elif o < .40: h("bm.clear", x)
        elif o < .45: h("bm.invert", x)
        elif o < .49: h("bm.copy", x, y)
        elif o < .53: h("bm.and", x, y)
        elif o < .57: h("bm.or", x, y)
        elif o < .65: h("bm.get", x, bit())
        elif o < .80: h("bm.next", x, rng.choice((-1, bit())), rng.randrange(2))
        elif o < .88: h("bm.count", x)
        elif o < .94: h("bm.any", x)
        else: h("bm.words", x)
    for x in range(3):
        h("bm.words", x)
    return h


def tuples(rng, n, length):
    h = Hist("tuple sets")
    k = rng.choice((2, 5, 20))
    for j in range(length):
        if rng.random() < .6: h("ts.add", rng.randrange(k), rng.randrange(k), j)
        else: h("ts.get", rng.randrange(k), rng.randrange(k))
    return h


def permutation(rng, n, length):
    h = Hist("permutation vectors")
    for _ in range(8):
        m = rng.choice((0, 1, 3, 200))
        h("pv", m, *[rng.randrange(m + 1) for _ in range(rng.choice((0, 1, 2, 5, 30)))])
    return h


def queue(rng, n, length):
    h = Hist("queues")
    cap = rng.choice((1, 1, 2, 3, 4, 5, 8, 30))
    h("q.new", cap)
    p = rng.choice((.4, .5, .6, .8))
    for _ in range(length):
        if rng.random() < .005:
            h("q.new", rng.choice((1, 2, 7)))
        elif rng.random() < p: h("q.push", rng.randrange(100))
        else: h("q.pop")
        if rng.random() < .04: p = rng.choice((.1, .5, .9))
    for _ in range(cap + 1):
        h("q.pop")
    return h


def priq(rng, n, length):
    h = Hist("priority queues")
    costs = rng.choice(([0, 1], [1, 2, 3, 4, 5], list(range(100)), [0, 7, 2**31 - 1]))
    p, st = rng.choice((.3, .5, .7)), rng.choice((2, 6, 40))
    for _ in range(length):
        o = rng.random()
        if o < p * .6: h("p.push", rng.randrange(st), rng.choice(costs))
        elif o < .62: h("p.pop")
        elif o < .72: h("p.find", rng.randrange(st))
        elif o < .87: h("p.update", rng.randrange(st), rng.choice(costs))
        elif o < .93: h("p.all")
        elif o < .96: h("p.moved")
        else: h("p.done", rng.randrange(st))
    h("p.all")
    for _ in range(8):
        h("p.pop")
    h("p.moved")
    return h


def paths(rng, n, length):
    h = Hist("paths")
    for _ in range(length // 4):
        h("pa.push", rng.randrange(n), rng.randrange(128))
        if rng.random() < .2: h("pa.list")
    h("pa.list")
    return h


def judge(chk, hists, variants=("plain", "asan")):
    cases, where = [], {}
    scripts = {i: ["%s %s" % (k, " ".join(map(str, a))) for k, a in h.ops] for i, h in enumerate(hists)}
    for v in variants:
        res = run_driver(exe(v), scripts)
        for i, vals in res.items():
            h = hists[i]
            what = "%s history %d (%s)" % (h.label, i, v)
            dead = crashed(vals)
            n = len(vals) - 1
            if dead:
                last = scripts[i][min(n, len(scripts[i]) - 1)]
                key = "%s dies at %s" % (h.label, last.split()[0])
                chk.violation("%s: the process died (%s) at operation %d, %s" % (what, dead, n, last), {"script": scripts[i][:n + 1], "variant": v}, key=key)
            ops = [{"k": k, "a": a, "r": vals[j]} for j, (k, a) in enumerate(h.ops[:n])]
            names = {}          # handles of interned sets are 64 bits wide: number the distinct ones
            for o in ops:
                if o["k"] == "is.intern":
                    o["r"] = [o["r"][0], names.setdefault(o["r"][1], len(names))]
                elif o["k"] == "is.get":
                    o["r"] = [names.get(o["r"][0], -1)] + o["r"][1:]
            if any(not isinstance(o["r"], list) for o in ops):
                raise RuntimeError("%s: garbled answer" % what)
            cid = len(where)
            where[cid] = (i, v)
            if v == variants[0] or dead:
                cases.append({"id": cid, "ops": ops})
            else:
                # the same answers need no second judgement
                if vals != first[i]:
                    cases.append({"id": cid, "ops": ops})
        if v == variants[0]:
            first = res
    for i in (3, len(hists) // 2):
        chk.sample("%s: %s ..." % (hists[i].label, "; ".join(scripts[i][:6])))
    outs, g, d = tlc_shards("Adt", "Adt.cfg", cases, chk.work, "adt", 8, 1)
    chk.states += d
    chk.trans += g
    chk.traces += len(cases)
    by = {c["id"]: c for c in cases}
    for cid, b in sorted(bad_lines(outs).items()):
        i, v = where[cid]
        at = min(b[0][0])
        if at == 0:
            raise RuntimeError("the specification contradicts itself")
        o = by[cid]["ops"][at - 1]
        chk.violation("%s history %d (%s), operation %d: %s %r answered %r" % (hists[i].label, i, v, at, o["k"], o["a"][:12], o["r"][:24]),
                      {"script": scripts[i][:at], "variant": v, "harness": "adt"}, key="%s: %s" % (hists[i].label, o["k"]))
    chk.extra.update(histories=len(hists), operations=sum(len(h.ops) for h in hists))
