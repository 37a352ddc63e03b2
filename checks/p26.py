"""P26: queues."""
TECHNIQUE = 'TLA+ (TLC): spec/Adt.tla, a bounded queue and a priority queue as machines; recorded histories of the real queues replayed as their behaviours, every answer compared'
NOTE = ("Random histories of pushes, pops, finds and cost updates at small capacities and few costs (ties, wrap-around, refusal when full), biased to fill and to drain, plus paths; "
        "all push/pop sequences up to a length for capacities 1 to 3; plain and under address checks.")

from core import *
import itertools
import adtgen as G


def run(chk):
    rng, deep = chk.rng, chk.thorough()
    hs = []
    for cap in (1, 2, 3):           # every short history
        n = 9 if deep else 7
        for seq in itertools.product("+-", repeat=n):
            h = G.Hist("queues")
            h("q.new", cap)
            for j, s in enumerate(seq):
                if s == "+": h("q.push", j)
                else: h("q.pop")
            hs.append(h)
    h = G.Hist("queues"); h("q.new", 0); hs.append(h)
    for kind, many in ((G.queue, 400), (G.priq, 500), (G.paths, 30)):
        for _ in range(many * (15 if deep else 1)):
            hs.append(kind(rng, 6, rng.choice((10, 30, 100, 200))))
    G.judge(chk, hs)
