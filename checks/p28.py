"""P28: lx accepts a specification exactly if no text could be two things in one zone, and what it says of those it rejects is so."""
TECHNIQUE = 'TLA+ (TLC): verdicts and diagnoses of lx recorded for random specifications against spec/Lexer.tla'
NOTE = ("spec/Lexer.tla builds each zone's automaton from the expressions of its mappings (exits subtracted, variables and $tokens read in the zone where "
        "they stand) and asks for a reachable state accepting two mappings of different token or destination, or a start which accepts. lx's verdict, with "
        "one and with several threads, must agree; where it rejects, the text and the mappings it names must be ambiguous as named. "
        "Left open: operators over patterns which match nothing, a zone where nothing matches.")

import random
from concurrent.futures import ThreadPoolExecutor
from core import *
from lxgen import *
from p27 import judge, VACUOUS


def one(job):
    sp, conc, lang = job
    rc, out, err = lx(["-l", lang, "-C", str(conc)] + (["-b", "dyn"] if lang == "c" else []), sp.text)
    if rc and any(x in err for x in VACUOUS):
        return sp, "open", err, [], (lang, conc), None
    return sp, "ok" if rc == 0 else "no" if rc == 1 else "crash", err, [], (lang, conc), None


def run(chk):
    rng = chk.rng
    n = 1300 if not chk.thorough() else 16000
    Build().tool("lx")
    tally, told = {}, 0
    batch = 1300 if not chk.thorough() else 2000
    for lo in range(0, n, batch):
        todo = []
        for i in range(min(batch, n - lo)):
            r = random.Random(rng.randrange(1 << 40))
            todo.append((Spec(r, r.random() < .4, size=r.choice((2, 3, 4, 6))), r.choice((1, 1, 1, 2, 4, 8)), r.choice(("test", "test", "c"))))
        cases, meta = [], {}
        with ThreadPoolExecutor(NCPU) as ex:
            for i, (spec, st, err, runs, cfg, bad) in enumerate(ex.map(one, todo)):
                i += lo
                tally[st] = tally.get(st, 0) + 1
                if st != "open":
                    cases.append(case(i, spec, st, runs, True, True, err))
                    told += len(cases[-1]["told"])
                    meta[i] = (spec, err, runs, cfg)
                    chk.traces += 1
                if i < 3:
                    chk.sample(spec.text.split("\n")[0])
        judge(chk, cases, meta)
        if chk.left() < 60:
            break
    if tally.get("ok", 0) < n // 8 or tally.get("no", 0) < n // 8:
        raise Misbehaves("one-sided specifications: %s" % tally)
    chk.extra["specifications"], chk.extra["diagnoses"] = tally, told
