"""P11: executing an automaton."""
TECHNIQUE = 'TLA+ (TLC): recorded runs of fsm_exec judged against the run of the dumped automaton computed by spec/WordCheck.tla'
NOTE = ("Generated DFAs over the whole byte range, including incomplete ones and states without edges; every (state, byte class) pair followed by "
        "words that tell states apart, with all 256 bytes for part of the automata; random long walks; input from a byte source, a string and a "
        "file; how much input was taken, and the eager outputs of each state passed, in order; refusal of NFAs and of automata without a start.")

from core import *
import gen
import words


def run(chk):
    exe = drv()
    rng = chk.rng
    n = 2000 if not chk.thorough() else 12000
    scripts, info = {}, {}
    # the automata first, so that words can be made for them
    for i in range(n):
        sc = Script()
        r = rng.random()
        if r < .12:
            a = gen.nfa(rng, 5, gen.any_alphabet(rng, 2), start_none=.3)
        else:
            al = gen.alphabet(rng, rng.choice([1, 2, 3, 4, 6]))
            a = gen.dfa(rng, rng.choice([1, 2, 4, 8, 12, 30]), al, eager=rng.choice([0, 0, 2, 4]), start_none=.03, complete=rng.random() < .2)
        sc.aut(a, 0)
        if rng.random() < .3:
            sc("poison 165 0")
        info[i] = sc("dump 0")
        scripts[i] = sc.lines
    res = run_driver(exe, scripts)
    go, st = {}, {}
    for i, vals in res.items():
        if crashed(vals):
            chk.violation("building died (%s)" % crashed(vals), {"script": scripts[i]})
            continue
        d = vals[info[i]]
        full = rng.random() < .15 and d["n"] <= 6
        ws = words.suite(d, rng, 2500 if full else 250, every=full, long=1 if rng.random() < .2 else 0)
        sc = Script()
        for l in scripts[i][:-1]:
            sc(l)
        d0 = sc("dump 0")
        words.set_words(sc, ws)
        st[i] = (d0, ws, sc("exec 0 1"), sc("exec 0"), sc("sgetc 0"), sc("fgetc 0") if i % 3 == 0 else None, sc("dump 0"))
        go[i] = sc.lines
    res = run_driver(exe, go)
    wc = words.WordCases(chk)
    for i, vals in res.items():
        d0, ws, x1, x0, sg, fg, d1 = st[i]
        if crashed(vals):
            chk.violation("executing died (%s)" % crashed(vals), {"script": go[i]})
            continue
        with chk.guard("fsm_exec", go[i]):
            d = vals[d0]
            if d != vals[d1]:
                chk.violation("executing changed the automaton", {"script": go[i]})
            ent = []
            eager = any(len(r) > 1 for r in d["eag"])
            for w, o, p in zip(ws, vals[x1], vals[x0]):
                ent.append(("exec" if len(w) < 100 or o[0] < 0 else "long", w, [o[0], o[1] + 1, o[2], o[3], o[4] if len(w) < 100 else []]))
                if p[:4] != o[:4]:
                    chk.violation("the outcome depends on whether outputs are asked for: %s, %s" % (o, p), {"script": go[i]})
            for w, o in zip(ws, vals[sg]):
                z = w.find(0)
                ent.append(("end" if o[0] >= 0 else "exec", w if z < 0 else w[:z], [o[0], o[1] + 1] if o[0] >= 0 else [o[0], 0, 0, 0, []]))
            if fg is not None:
                for w, o in zip(ws, vals[fg]):
                    ent.append(("end" if o[0] >= 0 else "exec", w, [o[0], o[1] + 1] if o[0] >= 0 else [o[0], 0, 0, 0, []]))
            wc.add(d, ent, go[i], "fsm_exec")
            chk.sample("%d states, %d words: %s" % (d["n"], len(ws), " ; ".join(go[i])[:600]))
    wc.judge()
