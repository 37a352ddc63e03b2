"""P14: code generated for other languages."""
TECHNIQUE = 'TLA+ (TLC): recorded verdicts and ids of the generated code judged against the run of the dumped automaton computed by spec/WordCheck.tla'
NOTE = ("Generated DFAs printed as Go, Go assembly, Rust, LLVM, amd64 assembly for as and for nasm, C opcode tables with their interpreter, bash and "
        "awk, for each way of input and of reporting ids those support, built with the installed toolchains and run over words covering every "
        "(state, byte class) pair with distinguishing continuations. gawk is not installed: its switch is rewritten as ifs for mawk.")

from core import *
import codegen as cg
from p13 import ALLIO, ALLAMBIG, campaign

CAPS = {
    "llvm": (ALLIO, ALLAMBIG, False),
    "amd64_att": (["pair"], ["none"], False),
    "amd64_nasm": (["pair"], ["none"], False),
    "vmops": (["str", "pair"], ALLAMBIG, False),
    "rust": (ALLIO, ALLAMBIG, False),
    "go": (["str", "pair"], ALLAMBIG, False),
    "amd64_go": (["str", "pair"], ["none"], False),
    "sh": (["str"], ALLAMBIG, False),
    "awk": (["str"], ALLAMBIG, False),
}
RUNNERS = [
    (("llvm", "amd64_att", "amd64_nasm", "vmops"), cg.run_c),
    (("rust",), cg.run_rust),
    (("go", "amd64_go"), cg.run_go),
    (("sh",), cg.run_sh),
    (("awk",), cg.run_awk),
]


def run(chk):
    campaign(chk, list(CAPS), 450 if not chk.thorough() else 4500, CAPS, RUNNERS, small=True)
