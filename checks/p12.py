"""P12: bytecode matching."""
TECHNIQUE = 'TLA+ (TLC): recorded verdicts of compiled bytecode judged against the run of the dumped automaton computed by spec/WordCheck.tla'
NOTE = ("Generated DFAs of 1 to 6000 states (so that branches need every offset width), with partial, complete, ranged and 256-way states; both "
        "encodings and the default, with and without optimisation; buffers of exact size and streams delivered in pieces of 1, 3, 4095, 4096 bytes "
        "and whole; words covering every (state, byte class) pair with distinguishing continuations, and inputs of several reads' length.")

from core import *
import gen
import words


def shapes(rng, j, thorough):
    """DFAs that exercise different corners of the intermediate representation."""
    r = j % 10
    if r < 4:
        return gen.dfa(rng, rng.choice([1, 2, 3, 5, 8]), gen.alphabet(rng, rng.choice([1, 2, 3, 4, 6])), complete=rng.random() < .3)
    if r < 6:               # few destinations, many ranges; a prevailing destination
        n = rng.choice([2, 3, 5, 9])
        a = gen.A(n, rng.randrange(n))
        for q in range(n):
            mode = rng.randrange(n)
            odd = rng.choice([0, 1, 2, 5, 30, 128])
            to = {b: [mode] for b in range(256)}
            for b in rng.sample(range(256), odd):
                to[b] = [] if rng.random() < .4 else [rng.randrange(n)]
            if rng.random() < .3:
                for b in range(*sorted(rng.sample(range(257), 2))):
                    to[b] = [] if rng.random() < .3 else [rng.randrange(n)]
            for x in range(n):
                bs = [b for b in range(256) if to[b] == [x]]
                if bs:
                    a.t.append((q, x, bs))
        a.f = [q for q in range(n) if rng.random() < .5] or [0]
        return a
    if r == 6:              # a different destination for every byte
        n = rng.choice([256, 257, 300])
        a = gen.A(n, 0)
        to = list(range(n))
        rng.shuffle(to)
        for b in range(256):
            a.t.append((0, to[b], [b]))
        for q in range(1, n):
            if rng.random() < .5:
                a.t.append((q, rng.randrange(n), rng.choice([[0], [255], list(range(256)), [97, 98]])))
        a.f = [q for q in range(n) if rng.random() < .5]
        return a
    if r == 7:              # long straight chains, as literals give
        n = rng.choice([3, 20, 100, 400])
        a = gen.A(n, 0)
        for q in range(n - 1):
            a.t.append((q, q + 1, [rng.randrange(256)] if rng.random() < .9 else list(range(48, 58))))
        if rng.random() < .5:
            have = set(bs[0] for f, t, bs in a.t if f == n - 1)
            a.t.append((n - 1, rng.randrange(n), [97]))
        a.f = [n - 1] + ([rng.randrange(n)] if rng.random() < .5 else [])
        return a
    if r == 8:              # far jumps
        n = rng.choice([60, 200, 700])
    else:
        # the largest: branches beyond 16 bits of instructions, and more of them than 16 bits count
        n = 40000 if j == 9 else rng.choice([1500, 3000, 6000] if thorough or j % 100 == 9 else [100, 300])
    al = gen.alphabet(rng, 4 if n == 40000 else rng.choice([2, 3, 4]))
    a = gen.A(n, rng.choice([0, n - 1, n // 2]))
    for q in range(n):
        for bs in al:
            if n == 40000 or rng.random() < .8:
                t = rng.randrange(n) if n == 40000 else rng.choice([(q + 1) % n, rng.randrange(n), (q + rng.randrange(40)) % n, (q - rng.randrange(40)) % n])
                a.t.append((q, t, bs))
    a.f = [q for q in range(n) if rng.random() < .4]
    return a


PIECES = [1, 3, 4095, 4096, 0]


def run(chk):
    exe = drv()
    rng = chk.rng
    n = 600 if not chk.thorough() else 8000
    scripts, info = {}, {}
    for i in range(n):
        sc = Script()
        a = shapes(rng, i, chk.thorough())
        sc.aut(a, 0)
        scripts[i], info[i] = sc.lines, sc("dump 0")
    res = run_driver(exe, scripts)
    go, st = {}, {}
    for i, vals in res.items():
        if crashed(vals):
            chk.violation("building died (%s)" % crashed(vals), {"script": scripts[i]})
            continue
        d = vals[info[i]]
        full = rng.random() < .1 and d["n"] <= 5
        ws = words.suite(d, rng, 2500 if full else 400 if d["n"] < 1000 else 1500, every=full, long=rng.choice([0, 0, 0, 1, 2]))
        sc = Script()
        for l in scripts[i][:-1]:
            sc(l)
        d0 = sc("dump 0")
        words.set_words(sc, ws)
        rs = []
        for ver in "012":
            for opt in ("01" if ver != "0" else "1"):
                rs.append((ver, opt, "buf", 0, sc("vm 0 %s %s buf 0" % (ver, opt))))
                p = rng.choice(PIECES)
                rs.append((ver, opt, "file", p, sc("vm 0 %s %s file %d" % (ver, opt, p))))
        st[i] = (d0, ws, rs, sc("dump 0"))
        go[i] = sc.lines
    res = run_driver(exe, go, tmo=60)
    wc = words.WordCases(chk)
    for i, vals in res.items():
        d0, ws, rs, d1 = st[i]
        if crashed(vals):
            chk.violation("compiling to bytecode or matching died (%s)" % crashed(vals), {"script": go[i]})
            continue
        with chk.guard("bytecode", go[i]):
            d = vals[d0]
            if d != vals[d1]:
                chk.violation("compiling to bytecode changed the automaton", {"script": go[i]})
            ent = []
            for ver, opt, io, piece, x in rs:
                if isinstance(vals[x], dict):
                    chk.violation("encoding %s, optimisation %s: not compiled (errno %s)" % (ver, opt, vals[x].get("errno")), {"script": go[i]})
                    continue
                for w, o in zip(ws, vals[x]):
                    ent.append(("acc", w, o))
            wc.add(d, ent, go[i], "bytecode")
            chk.sample("%d states, %d words: %s" % (d["n"], len(ws), " ; ".join(go[i])[:600]))
    wc.judge()
