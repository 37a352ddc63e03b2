"""P27: generated lexers divide any input into the tokens the specification of them says."""
TECHNIQUE = 'TLA+ (TLC): token streams recorded from generated, compiled lexers against spec/Lexer.tla'
NOTE = ("spec/Lexer.tla gives the expressions (patterns by ReSyntax/ReLang, and | & - ~ ! ^ * + ? and juxtaposition by automata), the zones with their "
        "exits subtracted, and the reading of input: the longest text which some mapping can still begin with, one character of lookahead and no "
        "going back. Generated .lx texts (seeded) are run through lx, compiled for every way of reading input (-k getc with each -g, str, pair; -b dyn, "
        "fixed, none; with and without positions; -C threads) and compared on inputs made from the specification's own patterns and on noise: token "
        "names, text, byte, line and column. Left open: operators over patterns which match nothing, a zone where nothing matches, positions of UNKNOWN's end.")

import os, random, shutil
from concurrent.futures import ThreadPoolExecutor
from core import *
from lxgen import *

VACUOUS = ("fsm_collate", "fsm_concat", "fsm_union", "Unsupported op")
WHY = {-1: "accepted, though ambiguous", -2: "rejected, though not ambiguous", -3: "harness: a pattern or symbol the specification lacks", -4: "lx died", -5: "rejected with a diagnosis that is not so"}


def judge(chk, cases, meta, tag="lx"):
    if not cases:
        return
    outs, g, d = tlc_shards("Lexer", "Lexer.cfg", cases, chk.work, tag, 8, 1)
    chk.states += d
    chk.extra["undecided for size"] = chk.extra.get("undecided for size", 0) + sum(str(o).count('"UNDECIDED"') for o in outs)
    for cid, bads in sorted(bad_lines(outs).items()):
        spec, err, runs, cfg = meta[cid]
        n = bads[0][0][0]
        if n == -3:
            raise RuntimeError("lexer case %d uses a pattern the specification lacks:\n%s" % (cid, spec.text))
        if n < 0:
            chk.violation("lexer specification %s: %s" % (WHY[n], (err.strip().split("\n") or [""])[0][:120]), {"lx": spec.text, "options": cfg, "stderr": err[-500:]},
                          key=spec.text)
        else:
            w, toks = runs[n - 1]
            chk.violation("generated lexer (%s) reads %r wrongly: %s" % (" ".join(map(str, cfg)), w, [t[0] for t in toks][:8]),
                          {"lx": spec.text, "options": cfg, "input": w.hex(), "tokens": toks}, key=spec.text)


def one(job):
    """-> (spec, status, stderr, runs, options, problem)"""
    d, spec, words, cfg = job
    io, g, buf, pos, conc = cfg
    os.makedirs(d)
    try:
        rc, err = generate(d, spec.text, io, g, buf, pos, conc)
        if rc == 0:
            prc, out, e = read(d, words)
            bad = None if prc == 0 and len(out) == len(words) else "ends with status %d after %d of %d inputs: %s" % (prc, len(out), len(words), e[-200:])
            return spec, "ok", err, list(zip(words, out)), cfg, bad
        if any(x in err for x in VACUOUS):
            return spec, "open", err, [], cfg, None
        return spec, "no" if rc == 1 else "crash", err, [], cfg, None
    finally:
        shutil.rmtree(d)


def config(r):
    io, g = r.choice(IOS)
    return io, g, r.choice(["dyn", "fixed", "dyn", ""]), r.random() < .85, r.choice((1, 1, 1, 4))


def run(chk):
    rng, work = chk.rng, chk.work
    n, nin = (340, 16) if not chk.thorough() else (5000, 40)
    Build().tool("lx")

    def jobs():
        for i in range(n):
            r = random.Random(rng.randrange(1 << 40))
            sp = Spec(r, r.random() < .9)
            yield work.path("l%d" % i), sp, sp.inputs(nin), config(r)
    tally, cases, meta = {}, [], {}
    todo = list(jobs())
    batch = 800
    for lo in range(0, n, batch):
        cases, meta = [], {}
        with ThreadPoolExecutor(NCPU) as ex:
            for i, (spec, st, err, runs, cfg, bad) in enumerate(ex.map(one, todo[lo:lo + batch])):
                i += lo
                tally[st] = tally.get(st, 0) + 1
                if bad:
                    chk.violation("generated lexer " + bad, {"lx": spec.text, "options": cfg}, key=spec.text)
                    continue
                if st != "open":
                    cases.append(case(i, spec, st, runs, cfg[2], cfg[3], err))
                    meta[i] = (spec, err, runs, cfg)
                    chk.traces += len(runs)
                if i < 3:
                    chk.sample(spec.text.split("\n")[0])
        judge(chk, cases, meta)
        if chk.left() < 60:
            break
    if tally.get("ok", 0) < n // 2:
        raise Misbehaves("too few lexers were generated: %s" % tally)
    chk.extra["specifications"] = tally
