"""Build the code under test from /repo's current working tree, outside /repo.

Every C source of the libraries (and of the command-line tools, on request) is
globbed, compiled and archived under /verif/build/<tree-hash>-<variant>/.
"""
import hashlib, os, subprocess, sys, glob, fcntl, shutil
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, "build")

LIBDIRS = ["src/adt", "src/print", "src/libfsm", "src/libre"]
VARIANTS = {
    "plain": ["-O1", "-g"],
    "asan": ["-O1", "-g", "-fsanitize=address,undefined", "-fno-omit-frame-pointer"],
}
TOOLS = {
    "fsm": ["src/fsm"], "re": ["src/re"], "rx": ["src/rx"], "lx": ["src/lx"],
}
RUNTIME_ENV = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=1", "UBSAN_OPTIONS": "halt_on_error=0"}


def tree_hash(extra=()):
    h = hashlib.sha256()
    files = []
    for root in ("include", "src", "share"):
        for dp, dn, fn in os.walk(os.path.join(REPO, root)):
            dn.sort()
            for f in sorted(fn):
                if f.endswith((".c", ".h", ".inc", ".lx", ".sid", ".act", ".awk", ".xsl")):
                    files.append(os.path.join(dp, f))
    for p in files + list(extra):
        h.update(os.path.relpath(p, REPO).encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:16]


def sources(dirs):
    out = []
    for d in dirs:
        for p in sorted(glob.glob(os.path.join(REPO, d, "**", "*.c"), recursive=True)):
            rel = os.path.relpath(p, REPO)
            if rel not in DEAD:
                out.append(rel)
    return out


DEAD = {"src/fsm/wordgen.c", "src/fsm/xoroshiro256starstar.c"}   # not part of the build


def cflags(src):
    f = ["-std=c99", "-D_POSIX_C_SOURCE=200809L", "-D_XOPEN_SOURCE=700", "-w", "-pthread",
         "-I", "include", "-I", "src"]
    f = ["-std=gnu99", "-w", "-pthread", "-I", "include", "-I", "src"]
    if "/vm/" in src or src.startswith("src/libfsm"):
        f += ["-I", "src/libfsm"]
    if "libre/class" in src or src.startswith("src/libre"):
        f += ["-I", "src/libre"]
    if "libre/class/" in src:
        f += ["-DLF_HEADER=\"class.h\""]
    if "libre/dialect/" in src:
        d = src.split("libre/dialect/")[1].split("/")[0]
        f += ["-I", "src/libre/dialect", "-DDIALECT=" + d, "-DPCRE_DIALECT=1" if d == "pcre" else "-DNOT_PCRE"]
    f += ["-DLX_HEADER=\"lexer.h\""]
    return f


def run(cmd, cwd=REPO):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        sys.stderr.write("build: FAILED: %s\n%s\n" % (" ".join(cmd), r.stdout[-600:]))
        raise SystemExit(3)
    return r.stdout


def compile_all(srcs, outdir, opt):
    os.makedirs(outdir, exist_ok=True)
    jobs = []
    for s in srcs:
        o = os.path.join(outdir, s.replace("/", "_") + ".o")
        jobs.append((s, o))

    def one(j):
        s, o = j
        if not os.path.exists(o):
            run(["gcc"] + opt + cflags(s) + ["-c", s, "-o", o + ".tmp"])
            os.rename(o + ".tmp", o)
        return o
    with ThreadPoolExecutor(max_workers=os.cpu_count() or 8) as ex:
        return list(ex.map(one, jobs))


class Build:
    def __init__(self, variant="plain"):
        self.variant = variant
        self.opt = VARIANTS[variant]
        self.hash = tree_hash()
        self.dir = os.path.join(BUILD, "%s-%s" % (self.hash, variant))
        os.makedirs(self.dir, exist_ok=True)
        self.lockf = open(os.path.join(self.dir, ".lock"), "w")
        fcntl.flock(self.lockf, fcntl.LOCK_EX)
        try:
            self.lib = os.path.join(self.dir, "libut.a")
            if not os.path.exists(self.lib):
                objs = compile_all(sources(LIBDIRS), os.path.join(self.dir, "obj"), self.opt)
                run(["ar", "rcs", self.lib + ".tmp"] + objs)
                os.rename(self.lib + ".tmp", self.lib)
        finally:
            fcntl.flock(self.lockf, fcntl.LOCK_UN)

    def harness(self, name, extra_flags=(), ld=()):
        src = os.path.join(VERIF, "harness", name + ".c")
        h = hashlib.sha256(open(src, "rb").read() + repr(extra_flags).encode()).hexdigest()[:12]
        out = os.path.join(self.dir, "%s-%s" % (name, h))
        fcntl.flock(self.lockf, fcntl.LOCK_EX)
        try:
            if not os.path.exists(out):
                run(["gcc"] + self.opt + ["-std=gnu99", "-w", "-pthread", "-I", "include", "-I", "src",
                     "-I", "src/libfsm", "-I", "src/libre"] + list(extra_flags) +
                    [src, self.lib, "-o", out + ".tmp", "-lm"] + list(ld))
                os.rename(out + ".tmp", out)
        finally:
            fcntl.flock(self.lockf, fcntl.LOCK_UN)
        return out

    def tool(self, name):
        out = os.path.join(self.dir, "bin-" + name)
        fcntl.flock(self.lockf, fcntl.LOCK_EX)
        try:
            if not os.path.exists(out):
                objs = compile_all(sources(TOOLS[name]), os.path.join(self.dir, "obj-" + name), self.opt)
                if name == "lx":
                    # libre and lx both define ast_*(); hide libre's, as the real build does
                    lo = sorted(glob.glob(os.path.join(self.dir, "obj", "*.o")))
                    ro = os.path.join(self.dir, "libut-local.o")
                    run(["ld", "-r", "-o", ro] + lo)
                    run(["objcopy", "--wildcard", "--localize-symbol=ast_*", "--localize-symbol=lx_*",
                         "--localize-symbol=p_*", "--localize-symbol=zone_*", ro])
                    run(["gcc"] + self.opt + ["-pthread"] + objs + [ro] + ["-o", out + ".tmp", "-lm"])
                else:
                    run(["gcc"] + self.opt + ["-pthread"] + objs + [self.lib, "-o", out + ".tmp", "-lm"])
                os.rename(out + ".tmp", out)
        finally:
            fcntl.flock(self.lockf, fcntl.LOCK_UN)
        return out


if __name__ == "__main__":
    for v in sys.argv[1:] or ["plain"]:
        b = Build(v)
        print(b.dir)
        for t in TOOLS:
            print(b.tool(t))
