"""P25: the containers of states, edges and ids."""
TECHNIQUE = 'TLA+ (TLC): spec/Adt.tla, the containers as sets and maps; recorded histories of operations on the real containers replayed as its behaviours, every answer compared'
NOTE = ("Histories of up to some hundred random operations on state sets, edge sets, id maps, interned sets, bit maps, tuple sets and permutation vectors, including long "
        "runs past every growth, far-out numbers, merging and dropping renumberings; run plain and under address and undefined-behaviour checks.")

from core import *
import adtgen as G


def run(chk):
    rng, deep = chk.rng, chk.thorough()
    hs = []
    for kind, many in ((G.stateset, 260), (G.edgeset, 500), (G.edgeset_ec, 60), (G.idmap, 160), (G.interned, 60), (G.bitmap, 120), (G.tuples, 40), (G.permutation, 30)):
        for _ in range(many * (12 if deep else 1)):
            hs.append(kind(rng, rng.choice((2, 3, 4, 6, 10, 20)), rng.choice((8, 20, 60, 120))))
    for kind in ("ss", "es", "im", "is"):
        for _ in range(150 if deep else 25):
            hs.append(G.growth(rng, kind))
    G.judge(chk, hs)
