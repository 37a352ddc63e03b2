"""P24: interpolation of groups into a format."""
TECHNIQUE = 'TLA+ (TLC): spec/Interp.tla, a machine reading the format byte by byte, run on every format recorded from re_interpolate_groups(); result, output and error offsets compared where it stops'
NOTE = ("All formats up to a length over alphabets of escapes, digits and letters, with 0 to 12 groups, with and without a stand-in for nonexistent groups, at every "
        "buffer size from nothing to ample (and around the exact fit), escape characters including digits and high bytes; numbers past any integer's range.")

from core import *
import itertools


def run(chk):
    rng, deep = chk.rng, chk.thorough()
    runs = []       # fmt, esc, group0, groups, nonexistent or None, cap

    def caps(fmt, texts):
        n = len(fmt) + sum(map(len, texts)) * 2
        return [0, 0, 1, rng.randint(1, n + 2), rng.randint(1, n + 2), rng.randint(1, len(fmt) + 2), 200]

    def add(fmt, esc, g0, gs, ne, cap):
        runs.append((fmt, esc, g0, gs, ne, cap))

    for esc, al, n in ((36, b"$0129a", 5 if deep else 4), (92, b"\\18x", 5), (36, b"$1", 9 if deep else 8), (49, b"12a", 6), (36, b"$019", 6), (200, bytes([200, 49, 97]), 6)):
        words = [bytes(w) for k in range(n + 1) for w in itertools.product(al, repeat=k)]
        cap_ = 9000 if deep else 1500
        for f in (words if len(words) <= cap_ else rng.sample(words, cap_)):
            gs = [rng.choice((b"", b"X", b"YZ", b"$1", b"\\")) for _ in range(rng.choice((0, 1, 1, 2, 2, 9, 12)))]
            g0 = rng.choice((b"", b"whole", b"$"))
            ne = rng.choice((None, None, b"", b"none"))
            add(f, esc, g0, gs, ne, rng.choice(caps(f, gs + [g0])))
    for _ in range(20000 if deep else 2500):       # long formats and numbers
        esc = rng.choice((36, 92, 37, 64, 255, 48, 57, 32, 1))
        parts = []
        for _ in range(rng.randint(1, 7)):
            parts.append(rng.choice((bytes([esc]), bytes([esc, esc]), bytes([esc]) + b"%d" % rng.choice((0, 1, 2, 9, 10, 11, 12, 13, 99, 255, 256)),
                                     bytes([esc]) + b"0" * rng.randint(1, 12) + b"%d" % rng.randint(0, 12),
                                     bytes([esc]) + b"%d" % rng.choice((2**31, 2**32, 2**32 + 1, 2**64, 2**64 + 1, 42949672961, 10**30)),
                                     b"ab", b"{1}", bytes([rng.randint(1, 255)]))))
        f = b"".join(parts)
        gs = [bytes(rng.choice(b"pqr$\\1") for _ in range(rng.choice((0, 1, 3, 20)))) for _ in range(rng.choice((0, 1, 2, 3, 10, 11, 12, 30)))]
        g0 = rng.choice((b"", b"w", b"whole match"))
        ne = rng.choice((None, b"", b"-", b"nonexistent"))
        for cap in rng.sample(caps(f, gs + [g0]), 2):
            add(f, esc, g0, gs, ne, cap)
    for f, esc, gs in ((b"a$1b$2c", 36, [b"xx", b"yyy"]), (b"$0$1", 36, [b"long text"]), (b"plain", 36, []), (b"$$$$", 36, []), (b"$3$1", 36, [b"q"])):
        for cap in range(0, 40):        # every buffer size
            for ne in (None, b"", b"nn"):
                add(f, esc, b"g", gs, ne, cap)
    runs = [r for r in runs if b"\0" not in r[0]]
    h = lambda b: b.hex() or "-"
    scripts = {k: ["interp %s %d %s %s %d %s" % (h(f), esc if esc < 128 else esc - 256, h(g0), "~" if ne is None else h(ne), cap, " ".join(h(g) for g in gs))]
               for k, (f, esc, g0, gs, ne, cap) in enumerate(runs)}
    res = run_driver(drv(), scripts)
    cases = []
    for k, vals in res.items():
        f, esc, g0, gs, ne, cap = runs[k]
        what = "format %r escape %d groups %r nonexistent %r room %d" % (f, esc, gs, ne, cap)
        if crashed(vals):
            chk.violation("%s: the process died (%s)" % (what, crashed(vals)), {"script": scripts[k]}, key=what)
            continue
        with chk.guard(what, scripts[k]):
            v = vals[0]
            if v["ok"] and cap and not v["nul"]:
                raise ValueError("no terminator")
            cases.append({"id": k, "fmt": list(f), "esc": esc, "group0": list(g0), "groups": [list(g) for g in gs], "hasne": ne is not None, "ne": list(ne or b""),
                          "hasout": cap > 0, "cap": cap, "ok": bool(v["ok"]), "start": v["start"], "end": v["end"], "out": list(bytes.fromhex(v["out"])),
                          "over": v["over"], "died": False})
            if k in (700, 4000):
                chk.sample(what + " -> %r" % v)
    outs, g, d = tlc_shards("Interp", "Interp.cfg", cases, chk.work, "interp", 8, 1)
    chk.states += d
    chk.trans += g
    chk.traces += len(cases)
    by = {c["id"]: c for c in cases}
    for k, b in sorted(bad_lines(outs).items(), key=lambda kv: len(runs[kv[0]][0])):
        f, esc, g0, gs, ne, cap = runs[k]
        c = by[k]
        if 3 in b[0][0]:
            raise RuntimeError("the specification's own length promise fails")
        chk.violation("format %r escape %d groups %r group 0 %r nonexistent %r room %d: ok=%s output %r offsets %d..%d is not what the specification gives"
                      % (f, esc, gs, g0, ne, cap, c["ok"], bytes(c["out"]), c["start"], c["end"]), {"script": scripts[k], "case": c})
    chk.extra.update(formats=len(runs))
