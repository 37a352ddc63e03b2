"""Building and running the code libfsm generates."""
import shlex
from core import *

IO = {"getc": 0, "str": 1, "pair": 2}
AMBIG = {"none": 0, "error": 1, "earliest": 2, "multiple": 4}


def opts(io="getc", ambig="none", prefix=None, **kw):
    """The driver's option string."""
    key = {"anonymous_states": "a", "consolidate_edges": "c", "fragment": "f", "comments": "m", "case_ranges": "r",
           "always_hex": "h", "group_edges": "g"}
    s = "".join("%s%d" % (key[k], 1 if v else 0) for k, v in sorted(kw.items()))
    s += "i%dA%d" % (IO[io], AMBIG[ambig])
    if prefix:
        s += "p" + prefix
    return s


class Unit:
    def __init__(self, no, lang, io, ambig, prefix, texts, fragment=False):
        self.no, self.lang, self.io, self.ambig, self.prefix, self.texts, self.fragment = no, lang, io, ambig, prefix, texts, fragment


def sh(cmd, cwd, timeout=300, env=None):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env)
    return p.returncode, p.stdout.decode("utf-8", "replace")


# ------------------------------------------------------------ C, and what links with it
def c_text(u):
    """C source which makes unit u callable as call_<no>(in, res)."""
    args = {"pair": "const char *b, const char *e", "str": "const char *s",
            "getc": "int (*fsm_getc)(void *getc_opaque), void *getc_opaque"}[u.io]
    pass_ = {"pair": "in->b, in->e", "str": "in->b", "getc": "cg_getc, in"}[u.io]
    ida = {"none": "", "error": ", unsigned *id", "earliest": ", unsigned *id", "multiple": ", const unsigned **ids, size_t *count"}[u.ambig]
    idp = {"none": "", "error": ", &id", "earliest": ", &id", "multiple": ", &ids, &count"}[u.ambig]
    name = u.prefix + "main"
    pre = ""
    n = u.no
    if u.lang in ("c", "vmc"):
        if u.fragment:
            v = {"pair": "const char *p;", "str": "const char *p;", "getc": "int c;"}[u.io] if u.lang == "c" else ""
            pre = "static int %s(%s%s)\n{\n%s\n#include \"u%d.c\"\n}\n" % (name, args, ida, v, n)
        else:
            pre = '#include "u%d.c"\n' % n
    elif u.lang == "vmops":
        name = u.prefix + "match"
        ida = "" if u.ambig == "none" else ", const unsigned **ids, size_t *count"
        idp = "" if u.ambig == "none" else ", &ids, &count"
        pre = '#include "%svmops.h"\n#include "u%d.c"\n#define main main_%d\n#include "u%d.main.c"\n#undef main\n' % (u.prefix, n, n, n)
    elif u.lang in ("amd64_att", "amd64_nasm"):
        name = u.prefix + "match"
        pre = "int %s(const char *b, size_t n);\n" % name
        pass_ = "in->b, (size_t) (in->e - in->b)"
    elif u.lang == "llvm":
        ret = {"none": "unsigned char", "error": "struct cg_pair", "earliest": "struct cg_pair", "multiple": "struct cg_ids"}[u.ambig]
        pre = "%s %s(%s);\n" % (ret, name, args)
        if u.ambig == "none":
            body = "r->rc = %s(%s) & 1;" % (name, pass_)
        elif u.ambig == "multiple":
            body = "struct cg_ids x = %s(%s); r->rc = x.count != -1; r->ids = x.ids; r->nids = (int) x.count;" % (name, pass_)
        else:
            body = "struct cg_pair x = %s(%s); r->rc = x.ok & 1; r->id = (unsigned) x.id; r->nids = 1;" % (name, pass_)
        return pre + "static void call_%d(struct cg_in *in, struct cg_res *r)\n{\n\t%s\n}\n" % (n, body)
    ids = {"none": "", "earliest": "r->id = id; r->nids = 1;", "error": "r->id = id; r->nids = 1;",
           "multiple": "r->ids = ids; r->nids = (int) count;"}
    ids = ids["multiple" if u.lang == "vmops" and u.ambig != "none" else u.ambig]
    return pre + """static void call_%d(struct cg_in *in, struct cg_res *r)
{
	unsigned id = 4000000000u; const unsigned *ids = NULL; size_t count = 0;
	(void) id; (void) ids; (void) count;
	r->rc = %s(%s%s);
	%s
}
""" % (n, name, pass_, idp, ids)


def write(path, b):
    with open(path, "wb") as f:
        f.write(b)


def run_c(units, words, work, jobs=NCPU, cflags=("-O0",)):
    """units linked into C programs; words: {no: [bytes]}.
    Returns ({no: results | {"crash"}}, [(units, text) that did not build])."""
    res, broken = {}, []

    def build(part, tag):
        d = os.path.join(work, "c%s" % tag)
        os.makedirs(d)
        objs = []
        src = ['#include "%s/harness/cgrun.h"\n' % VERIF,
               "struct cg_pair { unsigned long ok, id; };\nstruct cg_ids { const unsigned *ids; long count; };\n"]
        for u in part:
            if u.lang in ("c", "vmc", "vmops"):
                write(os.path.join(d, "u%d.c" % u.no), u.texts[0])
            if u.lang == "vmops":
                write(os.path.join(d, "%svmops.h" % u.prefix), u.texts[1])
                write(os.path.join(d, "u%d.main.c" % u.no), u.texts[2])
            ext = {"amd64_att": "s", "amd64_nasm": "asm", "llvm": "ll"}.get(u.lang)
            if ext:
                write(os.path.join(d, "u%d.%s" % (u.no, ext)), u.texts[0])
                o = "u%d.o" % u.no
                cmd = {"s": ["as", "-o", o, "u%d.s" % u.no], "asm": ["nasm", "-f", "elf64", "-o", o, "u%d.asm" % u.no],
                       "ll": ["clang", "-w", "-c", "-O%d" % (u.no % 3), "-fPIC", "-o", o, "u%d.ll" % u.no]}[ext]
                rc, out = sh(cmd, d)
                if rc != 0:
                    return rc, out
                objs.append(o)
            src.append(c_text(u))
        src.append("static const struct cg_unit units[] = {\n%s};\n" % "".join(
            "\t{ %d, %d, call_%d },\n" % (u.no, 1 if u.io == "str" else 0, u.no) for u in part))
        src.append("int main(int argc, char **argv) { (void) argc; return cg_main(units, sizeof units / sizeof *units, argv[1]); }\n")
        write(os.path.join(d, "main.c"), "".join(src).encode())
        rc, out = sh(["gcc", "-std=gnu99", "-w", "-Werror=implicit-function-declaration", *cflags, "-o", "run", "main.c"] + objs +
                     ["-z", "noexecstack"], d)
        if rc != 0:
            return rc, out
        with open(os.path.join(d, "in"), "w") as f:
            for u in part:
                f.write("%d %s\n" % (u.no, " ".join(w.hex() or "-" for w in words[u.no])))
        rc, out = sh([os.path.join(d, "run"), "in"], d)
        for ln in out.split("\n"):
            a, _, b = ln.partition(" ")
            if a.isdigit():
                try:
                    res[int(a)] = json.loads(b)
                except ValueError:
                    res.setdefault(int(a), {"crash": "garbled"})
        shutil.rmtree(d, ignore_errors=True)
        return 0, ""

    def one(x):
        k, part = x
        rc, out = build(part, str(k))
        if rc == 0:
            return
        for u in part:      # which ones?
            rc, out = build([u], "%d-%d" % (k, u.no))
            if rc != 0:
                broken.append((u, out))
    size = max(1, min(24, -(-len(units) // jobs)))
    parts = [units[i:i + size] for i in range(0, len(units), size)]
    with ThreadPoolExecutor(max_workers=jobs) as ex:
        list(ex.map(one, enumerate(parts)))
    return res, broken


# ------------------------------------------------------------ Rust
RS_MAIN = r'''
use std::io::Write;
fn unhex(t: &str) -> Vec<u8> {
    if t == "-" { return Vec::new(); }
    (0..t.len() / 2).map(|i| u8::from_str_radix(&t[2*i..2*i+2], 16).unwrap()).collect()
}
fn ids(v: &[u32]) -> String {
    let s: Vec<String> = v.iter().map(|x| x.to_string()).collect();
    format!("[1,[{}]]", s.join(","))
}
fn main() {
    let text = std::fs::read_to_string(std::env::args().nth(1).unwrap()).unwrap();
    for line in text.lines() {
        let mut it = line.split(' ');
        let no: u32 = it.next().unwrap().parse().unwrap();
        let ws: Vec<Vec<u8>> = it.map(unhex).collect();
        let r = std::panic::catch_unwind(|| {
            let v: Vec<String> = ws.iter().map(|w| call(no, w)).collect();
            v.join(",")
        });
        match r {
            Ok(s) => println!("{} [{}]", no, s),
            Err(_) => println!("{} {{\"crash\":1}}", no),
        }
        std::io::stdout().flush().unwrap();
    }
}
'''


def rs_arm(u):
    arg = {"getc": "w.iter().copied()", "str": "std::str::from_utf8(w).unwrap()", "pair": "w"}[u.io]
    some = {"none": ('Some(())', '"[1]".to_string()'), "error": ("Some(x)", "ids(&[x])"), "earliest": ("Some(x)", "ids(&[x])"),
            "multiple": ("Some(x)", "ids(x)")}[u.ambig]
    return "        %d => match u%d::%smain(%s) { %s => %s, None => \"[0]\".to_string() },\n" % (
        u.no, u.no, u.prefix, arg, some[0], some[1])


def parse_results(out, res):
    for ln in out.split("\n"):
        a, _, b = ln.partition(" ")
        if a.isdigit():
            try:
                res[int(a)] = json.loads(b)
            except ValueError:
                res.setdefault(int(a), {"crash": "garbled"})


def batches(units, build, jobs, size):
    """Build and run units in batches; where a batch does not build, one by one."""
    broken = []

    def one(x):
        k, part = x
        rc, out = build(part, str(k))
        if rc == 0:
            return
        for u in part:
            rc, out = build([u], "%d-%d" % (k, u.no))
            if rc != 0:
                broken.append((u, out))
    size = max(1, min(size, -(-len(units) // jobs)))
    with ThreadPoolExecutor(max_workers=jobs) as ex:
        list(ex.map(one, enumerate(units[i:i + size] for i in range(0, len(units), size))))
    return broken


def write_in(d, part, words):
    with open(os.path.join(d, "in"), "w") as f:
        for u in part:
            f.write("%d %s\n" % (u.no, " ".join(w.hex() or "-" for w in words[u.no])))


def run_rust(units, words, work, jobs=NCPU):
    res = {}

    def build(part, tag):
        d = os.path.join(work, "rs" + tag)
        os.makedirs(d)
        src = ["#![allow(warnings)]\n"]
        for u in part:
            src.append("mod u%d {\n%s\n}\n" % (u.no, u.texts[0].decode("utf-8", "replace")))
        src.append("fn call(no: u32, w: &[u8]) -> String {\n    match no {\n%s        _ => unreachable!(),\n    }\n}\n" % "".join(map(rs_arm, part)))
        src.append(RS_MAIN)
        write(os.path.join(d, "main.rs"), "".join(src).encode())
        rc, out = sh(["rustc", "--edition", "2021", "-C", "debuginfo=0", "-o", "run", "main.rs"], d)
        if rc == 0:
            write_in(d, part, words)
            parse_results(sh([os.path.join(d, "run"), "in"], d)[1], res)
        shutil.rmtree(d, ignore_errors=True)
        return rc, out
    return res, batches(units, build, jobs, 16)


# ------------------------------------------------------------ Go, and Go assembly
GO_MAIN = r'''
import "os"

func itoa(x uint) string {
	if x < 10 { return string(rune('0' + x)) }
	return itoa(x/10) + string(rune('0'+x%10))
}

func unhex(t []byte) []byte {
	if len(t) == 1 { return []byte{} }
	h := func(c byte) byte { if c <= '9' { return c - '0' }; return c - 'a' + 10 }
	w := make([]byte, len(t)/2)
	for i := range w { w[i] = h(t[2*i])<<4 | h(t[2*i+1]) }
	return w
}

func ids(v []uint) string {
	s := "[1,["
	for i, x := range v {
		if i > 0 { s += "," }
		s += itoa(x)
	}
	return s + "]]"
}

func one(no int, ws [][]byte) {
	out := itoa(uint(no)) + " ["
	defer func() {
		if recover() != nil { os.Stdout.WriteString(itoa(uint(no)) + " {\"crash\":1}\n") } else { os.Stdout.WriteString(out + "]\n") }
	}()
	for i, w := range ws {
		if i > 0 { out += "," }
		out += call(no, w)
	}
}

func main() {
	text, _ := os.ReadFile(os.Args[1])
	i := 0
	for i < len(text) {
		no := 0
		for ; text[i] != ' ' && text[i] != '\n'; i++ { no = no*10 + int(text[i]-'0') }
		ws := [][]byte{}
		for text[i] == ' ' {
			i++
			j := i
			for text[j] != ' ' && text[j] != '\n' { j++ }
			ws = append(ws, unhex(text[i:j]))
			i = j
		}
		i++
		one(no, ws)
	}
}
'''


def go_name(u):
    # the assembly printer names its function without the prefix for string input
    return "Match" if u.lang == "amd64_go" and u.io == "str" else u.prefix + "Match"


def go_arm(u):
    arg = "string(w)" if u.io == "str" else "w"
    f = "u%d.%s(%s)" % (u.no, go_name(u), arg)
    if u.lang == "amd64_go":
        return "\tcase %d: if %s != 0 { return \"[1]\" }; return \"[0]\"\n" % (u.no, f)
    if u.ambig == "none":
        return "\tcase %d: if %s { return \"[1]\" }; return \"[0]\"\n" % (u.no, f)
    v = "ids(x)" if u.ambig == "multiple" else "ids([]uint{x})"
    return "\tcase %d: ok, x := %s; if ok { return %s }; return \"[0]\"\n" % (u.no, f, v)


def run_go(units, words, work, jobs=4):
    res = {}
    env = dict(os.environ, GOCACHE=os.path.join(work, "gocache"), GOFLAGS="-mod=mod", GOPROXY="off", GO111MODULE="on", HOME=work)

    def build(part, tag):
        d = os.path.join(work, "go" + tag)
        os.makedirs(d)
        write(os.path.join(d, "go.mod"), b"module x\n\ngo 1.21\n")
        imp = []
        for u in part:
            p = os.path.join(d, "u%d" % u.no)
            os.makedirs(p)
            if u.lang == "amd64_go":
                write(os.path.join(p, "m_amd64.s"), u.texts[0])
                write(os.path.join(p, "m.go"), ("package u%d\n\nfunc %s(data %s) int\n" % (
                    u.no, go_name(u), "string" if u.io == "str" else "[]byte")).encode())
            else:
                write(os.path.join(p, "m.go"), u.texts[0])
            imp.append('import u%d "x/u%d"\n' % (u.no, u.no))
        head, rest = GO_MAIN.split('import "os"\n')
        write(os.path.join(d, "main.go"), ("package main\n" + head + 'import "os"\n' + "".join(imp) + rest +
              "func call(no int, w []byte) string {\n\tswitch no {\n%s\t}\n\treturn \"?\"\n}\n" % "".join(map(go_arm, part))).encode())
        rc, out = sh(["go", "build", "-o", "run", "."], d, env=env)
        if rc == 0:
            write_in(d, part, words)
            parse_results(sh([os.path.join(d, "run"), "in"], d)[1], res)
        shutil.rmtree(d, ignore_errors=True)
        return rc, out
    return res, batches(units, build, jobs, 40)


# ------------------------------------------------------------ bash, awk
def run_sh(units, words, work, jobs=NCPU):
    res, broken = {}, []
    env = {"PATH": os.environ.get("PATH", "/usr/bin:/bin")}

    def one(u):
        d = os.path.join(work, "sh%d" % u.no)
        os.makedirs(d)
        write(os.path.join(d, "m.sh"), u.texts[0])
        rc, out = sh(["bash", "-n", "m.sh"], d, env=env)
        if rc != 0:
            broken.append((u, out))
        else:
            o = []
            for w in words[u.no]:
                p = subprocess.run(["bash", "m.sh"], cwd=d, input=w, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env, timeout=60)
                o.append([{(0, b"match\n"): 1, (1, b"fail\n"): 0}.get((p.returncode, p.stdout), 100 + p.returncode)])
            res[u.no] = o
        shutil.rmtree(d, ignore_errors=True)
    with ThreadPoolExecutor(max_workers=jobs) as ex:
        list(ex.map(one, units))
    return res, broken


def awk_portable(text):
    """The printer writes gawk's switch; the awk here has none.  The same, as ifs:
    each case falls through to those after it."""
    out = []
    for ln in text.split("\n"):
        m = re.match(r"^    case ([^:]*):(.*)$", ln)
        if re.match(r"^    switch \(l\) \{", ln):
            out.append("    go = 0")
            out.append("    if (0) {")
        elif m:
            out.append("    }")
            out.append("    if (l == %s) go = 1" % m.group(1))
            out.append("    if (go) {")
        else:
            out.append(re.sub(r"^(function \w+\(s,    l, c)\)", r"\1, go)", ln))
    return "\n".join(out)


AWK_MAIN = r'''
BEGIN {
	for (i = 0; i < 16; i++) { hex[substr("0123456789abcdef", i + 1, 1)] = i }
}
{
	s = ""
	if ($1 != "-") for (i = 1; i <= length($1); i += 2) { s = s sprintf("%%c", 16 * hex[substr($1, i, 1)] + hex[substr($1, i + 1, 1)]) }
	print "=" %smain(s)
}
'''


def run_awk(units, words, work, jobs=NCPU):
    res, broken = {}, []
    env = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "LC_ALL": "C"}

    def one(u):
        d = os.path.join(work, "awk%d" % u.no)
        os.makedirs(d)
        text = awk_portable(u.texts[0].decode("latin-1")) + AWK_MAIN % u.prefix
        write(os.path.join(d, "m.awk"), text.encode("latin-1"))
        p = subprocess.run(["mawk", "-f", "m.awk"], cwd=d, input="".join((w.hex() or "-") + "\n" for w in words[u.no]).encode(),
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=120)
        if p.returncode != 0:
            broken.append((u, p.stderr.decode("latin-1")))
        else:
            o = []
            for ln in p.stdout.decode("latin-1").split("\n")[:-1]:
                v = ln[1:]
                if u.ambig == "none":
                    o.append([int(v)] if v in ("0", "1") else [98])
                else:       # no match is 0, which is an id as well: the cases use none
                    o.append([0] if v == "0" else [1, [int(x) for x in v.split(",")]])
            res[u.no] = o
        shutil.rmtree(d, ignore_errors=True)
    with ThreadPoolExecutor(max_workers=jobs) as ex:
        list(ex.map(one, units))
    return res, broken
