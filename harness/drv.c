/*
 * Conformance driver.  Executes a little command language against the public
 * API of the code under test and logs, for every command, the result and (on
 * request) the complete projected abstract state: one JSON value per line,
 * prefixed by the case number.  The logs are judged by the TLA+ specification.
 *
 * A case runs in a forked child, so a crash or a hang is itself an observation.
 */
#include <assert.h>
#include <ctype.h>
#include <errno.h>
#include <malloc.h>
#include <limits.h>
#include <signal.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/wait.h>
#include <sys/resource.h>

#include <fsm/fsm.h>
#include <fsm/alloc.h>
#include <fsm/bool.h>
#include <fsm/capture.h>
#include <fsm/cost.h>
#include <fsm/options.h>
#include <fsm/parser.h>
#include <fsm/pred.h>
#include <fsm/print.h>
#include <fsm/subgraph.h>
#include <fsm/vm.h>
#include <fsm/walk.h>
#include <adt/path.h>
#include <re/re.h>
#include <re/strings.h>
#include <re/groups.h>
#include <re/literal.h>

/* private to libre */
struct ast;
struct ast *re_parse(enum re_dialect, int (*)(void *), void *, enum re_flags, struct re_err *, int *);
struct ast *ast_new_from_fsm(const struct fsm *);
int ast_print(FILE *, const struct ast *, const struct fsm_options *, enum re_flags, int);
void ast_free(struct ast *);

#define NREG 64
#define MAXTOK 4096

/* ---- allocation interposition (linked with --wrap) ---- */
extern void *__real_malloc(size_t);
extern void *__real_calloc(size_t, size_t);
extern void *__real_realloc(void *, size_t);


static int al_on;            /* count allocations */
static long al_count;        /* allocations seen while on */
static long al_fail_at;      /* 0: never */
static int al_sticky;        /* fail all from al_fail_at on */
static int al_failed;        /* a failure was injected */
static int al_poison = -1;   /* fill pattern for fresh memory */
static size_t al_pad;        /* extra bytes: moves things about */
static size_t al_limit = (size_t) 1 << 30;

static int
al_deny(size_t sz)
{
	if (sz > al_limit) {
		return 1;
	}
	if (!al_on) {
		return 0;
	}
	al_count++;
	if (al_fail_at == 0) {
		return 0;
	}
	if (al_count == al_fail_at || (al_sticky && al_count > al_fail_at)) {
		al_failed++;
		return 1;
	}
	return 0;
}

/* blocks allocated since "track" and not yet freed */
extern void __real_free(void *);
static int tr_on;
static void **tr; static size_t tr_cap, tr_used, tr_live;
#define TR_DEAD ((void *) 1)

static size_t
tr_slot(void *p)
{
	size_t h = ((size_t) p >> 4) * 0x9E3779B97F4A7C15ull, i, dead = (size_t) -1;
	for (i = (h >> 20) & (tr_cap - 1); tr[i] != NULL; i = (i + 1) & (tr_cap - 1)) {
		if (tr[i] == p) { return i; }
		if (tr[i] == TR_DEAD && dead == (size_t) -1) { dead = i; }
	}
	return dead != (size_t) -1 ? dead : i;
}

static void
tr_add(void *p)
{
	size_t i;
	if (!tr_on || p == NULL) { return; }
	if (tr_used * 2 >= tr_cap) {
		void **old = tr; size_t oc = tr_cap;
		tr_cap = tr_live * 4 < 1024 ? 1024 : oc;
		while (tr_cap < tr_live * 4) { tr_cap *= 2; }
		tr = __real_calloc(tr_cap, sizeof *tr); tr_used = tr_live;
		for (i = 0; i < oc; i++) { if (old[i] != NULL && old[i] != TR_DEAD) { tr[tr_slot(old[i])] = old[i]; } }
		__real_free(old);
	}
	i = tr_slot(p);
	if (tr[i] == NULL) { tr_used++; }
	tr[i] = p; tr_live++;
}

static int
tr_del(void *p)
{
	size_t i;
	if (tr_live == 0 || p == NULL) { return 0; }
	i = tr_slot(p);
	if (tr[i] != p) { return 0; }
	tr[i] = TR_DEAD; tr_live--;
	return 1;
}

void
__wrap_free(void *p)
{
	tr_del(p);
	__real_free(p);
}

void *
__wrap_malloc(size_t sz)
{
	void *p;
	if (al_deny(sz)) { errno = ENOMEM; return NULL; }
	p = __real_malloc(sz + al_pad);
	tr_add(p);
	if (p != NULL && al_poison >= 0) { memset(p, al_poison, sz); }
	return p;
}

void *
__wrap_calloc(size_t n, size_t sz)
{
	if (sz != 0 && n > al_limit / sz) { errno = ENOMEM; return NULL; }
	if (al_deny(n * sz)) { errno = ENOMEM; return NULL; }
	{ void *p = __real_calloc(1, n * sz + al_pad); tr_add(p); return p; }
}

void *
__wrap_realloc(void *p, size_t sz)
{
	if (al_deny(sz)) { errno = ENOMEM; return NULL; }
	if (p == NULL) { return __wrap_malloc(sz); }
	{
		void *q; int was = tr_del(p); size_t had = malloc_usable_size(p);
		q = __real_realloc(p, sz + al_pad);
		if (q != NULL && al_poison >= 0 && sz > had) { memset((char *) q + had, al_poison, sz - had); }
		if (q != NULL || sz + al_pad == 0) { if (q != NULL && (was || tr_on)) { int o = tr_on; tr_on = 1; tr_add(q); tr_on = o; } }
		else if (was) { int o = tr_on; tr_on = 1; tr_add(p); tr_on = o; }
		return q;
	}
}

/* ---- state ---- */
static struct fsm *R[NREG];
static struct fsm_dfavm *V[NREG];
static FILE *out;
static long caseno;

struct word { char *s; size_t n; };
static struct word *W;
static size_t Wn;

static struct fsm_options opt0;
static struct fsm_options popt;

static void
line_start(void)
{
	fprintf(out, "%ld ", caseno);
}

static void
line_end(void)
{
	fputc('\n', out);
	fflush(out);
}

#define EMIT(...) do { line_start(); fprintf(out, __VA_ARGS__); line_end(); } while (0)

static int
hexv(int c)
{
	if (c >= '0' && c <= '9') return c - '0';
	if (c >= 'a' && c <= 'f') return c - 'a' + 10;
	if (c >= 'A' && c <= 'F') return c - 'A' + 10;
	return -1;
}

static char *
unhex(const char *h, size_t *n)
{
	size_t l, i;
	char *p;
	if (0 == strcmp(h, "-")) { *n = 0; p = __real_malloc(1); p[0] = '\0'; return p; }
	l = strlen(h) / 2;
	p = __real_malloc(l + 1);
	for (i = 0; i < l; i++) {
		p[i] = (char) (hexv(h[2 * i]) << 4 | hexv(h[2 * i + 1]));
	}
	p[l] = '\0';
	*n = l;
	return p;
}

static void
puthex(const char *p, size_t n)
{
	size_t i;
	fputc('"', out);
	for (i = 0; i < n; i++) { fprintf(out, "%02x", (unsigned char) p[i]); }
	fputc('"', out);
}

/* ---- projection ---- */
struct ed { unsigned f, t; unsigned char c; };
static struct ed *E; static size_t En, Ec;
static struct ed *X; static size_t Xn, Xc;

static int
cb_lit(const struct fsm *fsm, fsm_state_t f, fsm_state_t t, char c, void *o)
{
	(void) fsm; (void) o;
	if (En == Ec) { Ec = Ec ? 2 * Ec : 4096; E = __real_realloc(E, Ec * sizeof *E); }
	E[En].f = f; E[En].t = t; E[En].c = (unsigned char) c; En++;
	return 1;
}

static int
cb_eps(const struct fsm *fsm, fsm_state_t f, fsm_state_t t, void *o)
{
	(void) fsm; (void) o;
	if (Xn == Xc) { Xc = Xc ? 2 * Xc : 256; X = __real_realloc(X, Xc * sizeof *X); }
	X[Xn].f = f; X[Xn].t = t; X[Xn].c = 0; Xn++;
	return 1;
}

static int
edcmp(const void *a, const void *b)
{
	const struct ed *x = a, *y = b;
	if (x->f != y->f) return x->f < y->f ? -1 : 1;
	if (x->t != y->t) return x->t < y->t ? -1 : 1;
	if (x->c != y->c) return x->c < y->c ? -1 : 1;
	return 0;
}

static void
dump(const struct fsm *fsm)
{
	unsigned n, i;
	size_t k;
	fsm_state_t s;
	const char *sep;
	int saved = al_on;

	if (fsm == NULL) { EMIT("null"); return; }

	al_on = 0;
	n = fsm_countstates(fsm);
	line_start();
	fprintf(out, "{\"n\":%u,\"s\":", n);
	if (fsm_getstart(fsm, &s)) { fprintf(out, "%u", s); } else { fprintf(out, "-1"); }
	fprintf(out, ",\"f\":[");
	for (i = 0, sep = ""; i < n; i++) {
		if (fsm_isend(fsm, i)) { fprintf(out, "%s%u", sep, i); sep = ","; }
	}
	En = Xn = 0;
	fsm_walk_edges(fsm, NULL, cb_lit, cb_eps);
	fprintf(out, "],\"ne\":%u,\"rawe\":%zu", fsm_countedges(fsm), En);
	qsort(E, En, sizeof *E, edcmp);
	fprintf(out, ",\"dup\":");
	{
		size_t d = 0;
		for (k = 1; k < En; k++) { if (0 == edcmp(&E[k], &E[k-1])) d++; }
		fprintf(out, "%zu", d);
	}
	fprintf(out, ",\"e\":[");
	for (k = 0; k < Xn; k++) { fprintf(out, "%s[%u,%u]", k ? "," : "", X[k].f, X[k].t); }
	fprintf(out, "],\"t\":[");
	for (k = 0, sep = ""; k < En; ) {
		size_t j = k + 1;
		while (j < En && E[j].f == E[k].f && E[j].t == E[k].t &&
			(E[j].c == E[j-1].c + 1 || E[j].c == E[j-1].c)) { j++; }
		fprintf(out, "%s[%u,%u,%u,%u]", sep, E[k].f, E[k].t, E[k].c, E[j-1].c);
		sep = ",";
		k = j;
	}
	fprintf(out, "],\"ids\":[");
	for (i = 0, sep = ""; i < n; i++) {
		size_t c = fsm_endid_count(fsm, i);
		fsm_end_id_t *b;
		if (c == 0) continue;
		b = __real_malloc((c + 1) * sizeof *b);
		if (1 != fsm_endid_get(fsm, i, c, b)) { fprintf(out, "%s[%u,\"ERR\"]", sep, i); sep = ","; free(b); continue; }
		fprintf(out, "%s[%u", sep, i); sep = ",";
		for (k = 0; k < c; k++) fprintf(out, ",%u", b[k]);
		fprintf(out, "]");
		free(b);
	}
	fprintf(out, "],\"eag\":[");
	for (i = 0, sep = ""; i < n; i++) {
		size_t c = fsm_eager_output_count(fsm, i);
		fsm_output_id_t *b;
		if (c == 0) continue;
		b = __real_malloc((c + 1) * sizeof *b);
		if (1 != fsm_eager_output_get(fsm, i, c, b)) { fprintf(out, "%s[%u,\"ERR\"]", sep, i); sep = ","; free(b); continue; }
		fprintf(out, "%s[%u", sep, i); sep = ",";
		for (k = 0; k < c; k++) fprintf(out, ",%u", b[k]);
		fprintf(out, "]");
		free(b);
	}
	fprintf(out, "]");
	{
		int any = 0;
		for (i = 0; i < n && !any; i++) { any = fsm_capture_has_capture_actions(fsm, i); }
		fprintf(out, ",\"ncap\":%u", fsm_countcaptures(fsm));
	}
	fprintf(out, "}");
	line_end();
	al_on = saved;
}

/* ---- exec input ---- */
struct src { const char *p; size_t n, i; size_t calls_after_end; };

static int
src_getc(void *o)
{
	struct src *s = o;
	if (s->i == s->n) { s->calls_after_end++; return EOF; }
	return (unsigned char) s->p[s->i++];
}

static unsigned eo_ids[4096]; static size_t eo_n;

static void
eager_cb(fsm_output_id_t id, void *o)
{
	(void) o;
	if (eo_n < 4096) { eo_ids[eo_n++] = id; }
}

/* ---- predicates ---- */
typedef int pred_t(const struct fsm *, fsm_state_t);
static struct { const char *name; pred_t *f; } preds[] = {
	{ "isend", fsm_isend }, { "isdfa", fsm_isdfa }, { "iscomplete", fsm_iscomplete },
	{ "hasincoming", fsm_hasincoming }, { "hasoutgoing", fsm_hasoutgoing }, { "hasepsilons", fsm_hasepsilons },
	{ "epsilonsonly", fsm_epsilonsonly }, { "hasnondeterminism", fsm_hasnondeterminism }, { "isany", fsm_isany },
	{ NULL, NULL }
};

static pred_t *
pred(const char *s)
{
	size_t i;
	for (i = 0; preds[i].name; i++) { if (0 == strcmp(preds[i].name, s)) return preds[i].f; }
	return NULL;
}

static unsigned
unit_cost(fsm_state_t f, fsm_state_t t, char c)
{
	(void) f; (void) t; (void) c;
	return 1;
}

static unsigned
byte_cost(fsm_state_t f, fsm_state_t t, char c)
{
	(void) f; (void) t;
	return 1 + ((unsigned char) c % 7);
}

/* ---- enumerate matches ---- */
static size_t gen_cap, gen_seen; static int gen_mode; static const char *gen_sep;

static enum fsm_generate_matches_cb_res
gen_cb(const struct fsm *fsm, size_t depth, size_t match_count, size_t steps,
	const char *input, size_t n, fsm_state_t end, void *o)
{
	(void) fsm; (void) o; (void) steps; (void) depth;
	fprintf(out, "%s[", gen_sep); gen_sep = ",";
	puthex(input, n);
	fprintf(out, ",%u,%zu,%d]", end, match_count, input[n] == '\0');
	gen_seen++;
	if (gen_seen >= gen_cap) return FSM_GENERATE_MATCHES_CB_RES_HALT;
	return gen_mode == 1 ? FSM_GENERATE_MATCHES_CB_RES_PRUNE : FSM_GENERATE_MATCHES_CB_RES_CONTINUE;
}

/* ---- endid remap ---- */
static int remap_mode; static unsigned remap_k;

static int
remap_cb(fsm_state_t st, size_t n, fsm_end_id_t *ids, size_t *nw, void *o)
{
	size_t i, j;
	(void) st; (void) o;
	switch (remap_mode) {
	case 0: /* add k */
		for (i = 0; i < n; i++) ids[i] += remap_k;
		*nw = n; return 1;
	case 1: /* divide by k: may collapse */
		for (i = 0; i < n; i++) ids[i] /= remap_k;
		*nw = n; return 1;
	case 2: /* modulo k: may collapse */
		for (i = 0; i < n; i++) ids[i] %= remap_k;
		*nw = n; return 1;
	case 3: /* reverse order: K - id */
		for (i = 0; i < n; i++) ids[i] = remap_k - ids[i];
		*nw = n; return 1;
	}
	return 0;
}

/* ---- compact filter ---- */
static unsigned char *filt; static size_t filtn;
static int
filter_cb(fsm_state_t id, void *o)
{
	(void) o;
	return id < filtn ? filt[id] : 1;
}

static pred_t *complete_pred;

/* ---- helpers ---- */
static char *tok[MAXTOK]; static int ntok;

static int
reg(int i)
{
	int r = i < ntok ? atoi(tok[i]) : 0;
	if (r < 0 || r >= NREG) { fprintf(stderr, "bad reg\n"); _exit(99); }
	return r;
}

static unsigned long
num(int i)
{
	return i < ntok ? strtoul(tok[i], NULL, 0) : 0;
}

static enum re_dialect
dialect(const char *s)
{
	if (0 == strcmp(s, "like")) return RE_LIKE;
	if (0 == strcmp(s, "literal")) return RE_LITERAL;
	if (0 == strcmp(s, "glob")) return RE_GLOB;
	if (0 == strcmp(s, "native")) return RE_NATIVE;
	if (0 == strcmp(s, "sql")) return RE_SQL;
	if (0 == strcmp(s, "pcre")) return RE_PCRE;
	return (enum re_dialect) 1000;
}

static struct { const char *name; enum fsm_print_lang lang; } langs[] = {
	{ "amd64_att", FSM_PRINT_AMD64_ATT }, { "amd64_go", FSM_PRINT_AMD64_GO },
	{ "amd64_nasm", FSM_PRINT_AMD64_NASM }, { "api", FSM_PRINT_API },
	{ "awk", FSM_PRINT_AWK }, { "c", FSM_PRINT_C }, { "dot", FSM_PRINT_DOT },
	{ "fsm", FSM_PRINT_FSM }, { "go", FSM_PRINT_GO }, { "ir", FSM_PRINT_IR },
	{ "irjson", FSM_PRINT_IRJSON }, { "json", FSM_PRINT_JSON },
	{ "llvm", FSM_PRINT_LLVM }, { "rust", FSM_PRINT_RUST }, { "sh", FSM_PRINT_SH },
	{ "vmc", FSM_PRINT_VMC }, { "vmdot", FSM_PRINT_VMDOT },
	{ "vmops_c", FSM_PRINT_VMOPS_C }, { "vmops_h", FSM_PRINT_VMOPS_H },
	{ "vmops_main", FSM_PRINT_VMOPS_MAIN }, { NULL, FSM_PRINT_NONE }
};

static int
ilog(FILE *f, const struct fsm_options *opt, const struct fsm_state_metadata *m,
	const char *example, void *hook)
{
	(void) f; (void) opt; (void) hook; (void) example;
	if (m->end_id_count < 2) { EMIT("{\"conflict_bad\":%zu}", m->end_id_count); }
	return 0;
}

static void
set_opts(const char *s)
{
	/* e.g. "a1c1f0m1r0h0g0i2A4pfoo_" */
	popt = opt0;
	popt.ambig = AMBIG_NONE;
	while (*s) {
		char k = *s++;
		if (k == '-') continue;
		if (k == 'p') { popt.prefix = strdup(s); break; }
		switch (k) {
		case 'a': popt.anonymous_states = *s - '0'; break;
		case 'c': popt.consolidate_edges = *s - '0'; break;
		case 'f': popt.fragment = *s - '0'; break;
		case 'm': popt.comments = *s - '0'; break;
		case 'r': popt.case_ranges = *s - '0'; break;
		case 'h': popt.always_hex = *s - '0'; break;
		case 'g': popt.group_edges = *s - '0'; break;
		case 'i': popt.io = (enum fsm_io) (*s - '0'); break;
		case 'A': popt.ambig = (enum fsm_ambig) (*s - '0'); break;
		}
		if (*s) s++;
	}
}

static void
emit_err(const char *what, const struct re_err *err)
{
	size_t k;
	line_start();
	fprintf(out, "{\"%s\":0,\"err\":%d,\"start\":%u,\"end\":%u,\"str\":\"", what, (int) err->e,
		err->start.byte, err->end.byte);
	{
		const char *m = re_strerror(err->e);
		for (k = 0; m[k]; k++) { fputc(m[k] == '"' || m[k] == '\\' ? ' ' : m[k], out); }
	}
	fprintf(out, "\"}");
	line_end();
}

static struct fsm_combine_info ci;

/* fsm_dump() style fingerprint of internals is deliberately not used. */

static void
do_exec(int r, int eager, int caps)
{
	size_t i, k;
	const char *sep = "";
	size_t ncap = caps ? fsm_countcaptures(R[r]) : 0;
	struct fsm_capture *cap = NULL;

	if (eager) { fsm_eager_output_set_cb(R[r], eager_cb, NULL); }
	if (ncap) { cap = __real_malloc(ncap * sizeof *cap); }
	line_start();
	fprintf(out, "[");
	for (i = 0; i < Wn; i++) {
		struct src s = { W[i].s, W[i].n, 0, 0 };
		fsm_state_t end = (fsm_state_t) -7;
		int rc;
		eo_n = 0;
		errno = 0;
		if (ncap) { for (k = 0; k < ncap; k++) cap[k].pos[0] = cap[k].pos[1] = 12345; }
		rc = fsm_exec(R[r], src_getc, &s, &end, cap);
		fprintf(out, "%s[%d,%ld,%zu,%zu", sep, rc, rc == 1 ? (long) end : -1L, s.i, s.calls_after_end);
		if (eager) {
			fprintf(out, ",[");
			for (k = 0; k < eo_n; k++) fprintf(out, "%s%u", k ? "," : "", eo_ids[k]);
			fprintf(out, "]");
		}
		if (caps) {
			fprintf(out, ",[");
			for (k = 0; k < ncap; k++) fprintf(out, "%s[%ld,%ld]", k ? "," : "", (long) cap[k].pos[0], (long) cap[k].pos[1]);
			fprintf(out, "]");
		}
		fprintf(out, "]");
		sep = ",";
	}
	fprintf(out, "]");
	if (cap) { __real_free(cap); }
	line_end();
}

/* a FILE * that delivers the buffer in pieces of the given size */
struct cook { const char *p; size_t n, i, piece; };
static ssize_t
cook_read(void *o, char *buf, size_t n)
{
	struct cook *c = o;
	size_t k = c->n - c->i;
	if (k > n) k = n;
	if (c->piece && k > c->piece) k = c->piece;
	memcpy(buf, c->p + c->i, k);
	c->i += k;
	return (ssize_t) k;
}

static void
do_vm(int r, const char *ver, int optim, const char *io, size_t piece)
{
	struct fsm_vm_compile_opts o;
	struct fsm_dfavm *vm;
	size_t i;
	const char *sep = "";

	memset(&o, 0, sizeof o);
	o.flags = optim ? FSM_VM_COMPILE_OPTIM : 0;
	o.output = ver[0] == '1' ? FSM_VM_COMPILE_VM_V1 : FSM_VM_COMPILE_VM_V2;
	o.log = NULL;
	vm = ver[0] == '0' ? fsm_vm_compile(R[r]) : fsm_vm_compile_with_options(R[r], &opt0, o);
	if (vm == NULL) { EMIT("{\"vm\":0,\"errno\":%d}", errno); return; }
	line_start();
	fprintf(out, "[");
	for (i = 0; i < Wn; i++) {
		int rc;
		if (0 == strcmp(io, "buf")) {
			/* exact-size copy so a sanitiser sees over-reads */
			char *b = __real_malloc(W[i].n ? W[i].n : 1);
			memcpy(b, W[i].s, W[i].n);
			rc = fsm_vm_match_buffer(vm, b, W[i].n);
			free(b);
		} else {
			struct cook c = { W[i].s, W[i].n, 0, piece };
			cookie_io_functions_t io = { cook_read, NULL, NULL, NULL };
			FILE *f = fopencookie(&c, "r", io);
			if (piece == 1) setvbuf(f, NULL, _IONBF, 0);
			rc = fsm_vm_match_file(vm, f);
			fclose(f);
		}
		fprintf(out, "%s%d", sep, rc);
		sep = ",";
	}
	fprintf(out, "]");
	line_end();
	fsm_vm_free(vm);
}

static int
command(void)
{
	const char *c = tok[0];
	int rc;
	size_t n, i;

#define IS(s) (0 == strcmp(c, s))
	{
		/* an earlier step refused: there is nothing to act on */
		static const char *const unary[] = { "build", "addstate", "addstatenull", "addstates", "rmstate", "setstart",
			"clearstart", "setend", "lit", "any", "eps", "endid", "setendid", "eager", "eagerends", "incr", "mapids",
			"getids", "det", "detlimit", "min", "rmeps", "rev", "compl", "complete", "trim", "mergestates", "subgraph",
			"collate", "compact", "shuffle", "vacuum", "empty", "preds", "exec", "sgetc", "fgetc", "vm", "gen",
			"genrand", "example", "shortest", "required", "print", "printconf", "captures", "setpath", "rebasecap" };
		for (i = 0; i < sizeof unary / sizeof *unary; i++) {
			if (IS(unary[i]) && R[reg(1)] == NULL) { EMIT("null"); return 1; }
		}
		if ((IS("clone") || IS("move") || IS("charset") || IS("roundtrip")) && R[reg(2)] == NULL) { EMIT("null"); return 1; }
		if ((IS("union") || IS("concat") || IS("merge") || IS("inter") || IS("sub") || IS("concatnull"))
			&& (R[reg(2)] == NULL || R[reg(3)] == NULL)) { EMIT("null"); return 1; }
		if (IS("equal") && (R[reg(1)] == NULL || R[reg(2)] == NULL)) { EMIT("null"); return 1; }
		if (IS("unionarr") || IS("group")) {
			int k, k0 = IS("group") ? 4 : 3;
			for (k = k0; k < ntok; k++) { if (R[reg(k)] == NULL) { EMIT("null"); return 1; } }
		}
	}
	if (IS("new")) {
		R[reg(1)] = ntok > 2 ? fsm_new_statealloc(NULL, num(2)) : fsm_new(NULL);
		EMIT("%d", R[reg(1)] != NULL);
	} else if (IS("free")) {
		if (R[reg(1)] != NULL) fsm_free(R[reg(1)]); R[reg(1)] = NULL;
		EMIT("1");
	} else if (IS("null")) {
		R[reg(1)] = NULL;
	} else if (IS("fa")) {
		/* bulk literal construction: fa R n start ; then edges via "ed" */
		struct fsm *f = fsm_new(NULL);
		R[reg(1)] = f;
		if (num(2) && !fsm_addstate_bulk(f, num(2))) { EMIT("0"); return 1; }
		if (ntok > 3 && tok[3][0] != '-') fsm_setstart(f, num(3));
		EMIT("1");
	} else if (IS("build")) {
		/* build R : then tokens  f:S | e:A,B | t:A,B,LO,HI | i:S,ID | g:S,ID  (silent) */
		struct fsm *f = R[reg(1)];
		int k, ok = 1;
		for (k = 2; k < ntok; k++) {
			unsigned a = 0, b = 0, lo = 0, hi = 0;
			char *p = tok[k] + 2;
			sscanf(p, "%u,%u,%u,%u", &a, &b, &lo, &hi);
			switch (tok[k][0]) {
			case 'f': fsm_setend(f, a, 1); break;
			case 'e': ok &= fsm_addedge_epsilon(f, a, b); break;
			case 'a': ok &= fsm_addedge_any(f, a, b); break;
			case 't': { unsigned x; for (x = lo; x <= hi; x++) ok &= fsm_addedge_literal(f, a, b, (char) x); } break;
			case 'i': ok &= fsm_endid_set(f, a, b); break;
			case 'g': ok &= fsm_eager_output_set(f, a, b); break;
			case 'c': ok &= fsm_capture_set_path(f, a, b, lo); break;
			}
		}
		EMIT("%d", ok);
	} else if (IS("addstate")) {
		fsm_state_t s = 0;
		rc = fsm_addstate(R[reg(1)], &s);
		EMIT("[%d,%u]", rc, s);
	} else if (IS("addstatenull")) {
		EMIT("%d", fsm_addstate(R[reg(1)], NULL));
	} else if (IS("addstates")) {
		EMIT("%d", fsm_addstate_bulk(R[reg(1)], num(2)));
	} else if (IS("rmstate")) {
		EMIT("%d", fsm_removestate(R[reg(1)], num(2)));
	} else if (IS("setstart")) {
		fsm_setstart(R[reg(1)], num(2)); EMIT("1");
	} else if (IS("clearstart")) {
		fsm_clearstart(R[reg(1)]); EMIT("1");
	} else if (IS("setend")) {
		fsm_setend(R[reg(1)], num(2), atoi(tok[3])); EMIT("1");
	} else if (IS("lit")) {
		unsigned x; rc = 1;
		for (x = num(4); x <= num(5); x++) rc &= fsm_addedge_literal(R[reg(1)], num(2), num(3), (char) x);
		EMIT("%d", rc);
	} else if (IS("any")) {
		EMIT("%d", fsm_addedge_any(R[reg(1)], num(2), num(3)));
	} else if (IS("eps")) {
		EMIT("%d", fsm_addedge_epsilon(R[reg(1)], num(2), num(3)));
	} else if (IS("endid")) {
		EMIT("%d", fsm_endid_set(R[reg(1)], num(2), num(3)));
	} else if (IS("setendid")) {
		EMIT("%d", fsm_setendid(R[reg(1)], num(2)));
	} else if (IS("eager")) {
		EMIT("%d", fsm_eager_output_set(R[reg(1)], num(2), num(3)));
	} else if (IS("eagerends")) {
		EMIT("%d", fsm_eager_output_set_on_ends(R[reg(1)], num(2)));
	} else if (IS("incr")) {
		fsm_increndids(R[reg(1)], atoi(tok[2])); EMIT("1");
	} else if (IS("mapids")) {
		remap_mode = num(2); remap_k = num(3);
		EMIT("%d", fsm_mapendids(R[reg(1)], remap_cb, NULL));
	} else if (IS("getids")) {
		/* getids R state buflen */
		fsm_end_id_t b[300]; size_t cnt = fsm_endid_count(R[reg(1)], num(2));
		rc = fsm_endid_get(R[reg(1)], num(2), num(3), b);
		EMIT("[%d,%zu]", rc, cnt);
	} else if (IS("det")) {
		EMIT("%d", fsm_determinise(R[reg(1)]));
	} else if (IS("detlimit")) {
		struct fsm_determinise_config cfg = { num(2) };
		EMIT("%d", (int) fsm_determinise_with_config(R[reg(1)], &cfg));
	} else if (IS("min")) {
		EMIT("%d", fsm_minimise(R[reg(1)]));
	} else if (IS("rmeps")) {
		EMIT("%d", fsm_remove_epsilons(R[reg(1)]));
	} else if (IS("rev")) {
		EMIT("%d", fsm_reverse(R[reg(1)]));
	} else if (IS("compl")) {
		EMIT("%d", fsm_complement(R[reg(1)]));
	} else if (IS("complete")) {
		EMIT("%d", fsm_complete(R[reg(1)], pred(tok[2])));
	} else if (IS("trim")) {
		unsigned *d = NULL;
		int mode = num(2), want = ntok > 3 && num(3);
		long t = fsm_trim(R[reg(1)], mode ? FSM_TRIM_START_AND_END_REACHABLE : FSM_TRIM_START_REACHABLE,
			want ? &d : NULL);
		line_start();
		fprintf(out, "{\"trim\":%ld", t);
		if (want && t >= 0 && d != NULL) {
			fprintf(out, ",\"dist\":[");
			for (i = 0; i < fsm_countstates(R[reg(1)]); i++) fprintf(out, "%s%ld", i ? "," : "", d[i] == (unsigned) -1 ? -1L : (long) d[i]);
			fprintf(out, "]");
		}
		fprintf(out, "}");
		line_end();
		free(d);
	} else if (IS("union") || IS("concat") || IS("merge") || IS("inter") || IS("sub")) {
		/* op dst a b: consumes a and b */
		int d = reg(1), a = reg(2), b = reg(3);
		struct fsm *q = NULL;
		memset(&ci, 0x5a, sizeof ci);
		if (IS("union")) q = fsm_union(R[a], R[b], &ci);
		else if (IS("concat")) q = fsm_concat(R[a], R[b], &ci);
		else if (IS("merge")) q = fsm_merge(R[a], R[b], &ci);
		else if (IS("inter")) q = fsm_intersect(R[a], R[b]);
		else q = fsm_subtract(R[a], R[b]);
		if (q != NULL) { R[a] = R[b] = NULL; R[d] = q; }
		EMIT("[%d,%u,%u,%u,%u]", q != NULL, ci.base_a, ci.base_b, ci.capture_base_a, ci.capture_base_b);
	} else if (IS("concatnull")) {
		int d = reg(1), a = reg(2), b = reg(3);
		R[d] = fsm_concat(R[a], R[b], NULL); if (d != a) R[a] = NULL; if (d != b) R[b] = NULL;
		EMIT("%d", R[d] != NULL);
	} else if (IS("unionarr") || IS("group")) {
		/* unionarr dst n r1.. rn ; group dst idbase n r1.. */
		int d = reg(1), g = IS("group"), k0 = g ? 4 : 3, k;
		int cnt = num(g ? 3 : 2);
		struct fsm *a[64]; struct fsm_combined_base_pair b[64]; struct fsm *q;
		memset(b, 0x5a, sizeof b);
		for (k = 0; k < cnt; k++) { a[k] = R[reg(k0 + k)]; R[reg(k0 + k)] = NULL; }
		q = g ? fsm_union_repeated_pattern_group(cnt, a, b, num(2)) : fsm_union_array(cnt, a, b);
		R[d] = q;
		line_start();
		fprintf(out, "{\"ok\":%d,\"b\":[", q != NULL);
		for (k = 0; k < cnt; k++) fprintf(out, "%s[%u,%u]", k ? "," : "", b[k].state, b[k].capture);
		fprintf(out, "]}");
		line_end();
	} else if (IS("charset")) {
		/* charset dst a hex */
		char *s = unhex(tok[3], &n);
		int a = reg(2), d = reg(1);
		struct fsm *q = fsm_intersect_charset(R[a], n, s);
		R[a] = NULL; R[d] = q;
		EMIT("%d", q != NULL);
	} else if (IS("mergestates")) {
		fsm_state_t q = 0;
		rc = fsm_mergestates(R[reg(1)], num(2), num(3), &q);
		EMIT("[%d,%u]", rc, q);
	} else if (IS("subgraph")) {
		/* subgraph R a b x: duplicate states [a,b) */
		struct fsm_subgraph g = { num(2), num(3) };
		fsm_state_t x = num(4), q = 0;
		rc = fsm_subgraph_duplicate(R[reg(1)], &g, &x, &q);
		EMIT("[%d,%u,%u]", rc, x, q);
	} else if (IS("collate")) {
		fsm_state_t q = 0;
		rc = fsm_collate(R[reg(1)], &q, pred(tok[2]));
		EMIT("[%d,%u]", rc, q);
	} else if (IS("compact")) {
		/* compact R bits */
		size_t removed = 0;
		filtn = strlen(tok[2]); filt = __real_malloc(filtn + 1);
		for (i = 0; i < filtn; i++) filt[i] = tok[2][i] == '1';
		rc = fsm_compact_states(R[reg(1)], filter_cb, NULL, &removed);
		EMIT("[%d,%zu]", rc, removed);
	} else if (IS("clone")) {
		R[reg(1)] = fsm_clone(R[reg(2)]);
		EMIT("%d", R[reg(1)] != NULL);
	} else if (IS("move")) {
		fsm_move(R[reg(1)], R[reg(2)]); R[reg(2)] = NULL;
		EMIT("1");
	} else if (IS("shuffle")) {
		EMIT("%d", fsm_shuffle(R[reg(1)], num(2)));
	} else if (IS("vacuum")) {
		EMIT("%d", fsm_vacuum(R[reg(1)]));
	} else if (IS("equal")) {
		EMIT("%d", fsm_equal(R[reg(1)], R[reg(2)]));
	} else if (IS("empty")) {
		EMIT("%d", fsm_empty(R[reg(1)]));
	} else if (IS("dump")) {
		dump(R[reg(1)]);
	} else if (IS("preds")) {
		struct fsm *f = R[reg(1)];
		unsigned s, ns = fsm_countstates(f);
		line_start();
		fprintf(out, "{");
		for (i = 0; preds[i].name; i++) {
			fprintf(out, "\"%s\":[", preds[i].name);
			for (s = 0; s < ns; s++) fprintf(out, "%s%d", s ? "," : "", !!preds[i].f(f, s));
			fprintf(out, "],\"n_%s\":[%u,%d,%d],", preds[i].name,
				fsm_count(f, preds[i].f), !!fsm_has(f, preds[i].f), !!fsm_all(f, preds[i].f));
			fprintf(out, "\"r_%s\":[", preds[i].name);
			for (s = 0; s < ns; s++) fprintf(out, "%s[%d,%d]", s ? "," : "",
				fsm_reachableany(f, s, preds[i].f), fsm_reachableall(f, s, preds[i].f));
			fprintf(out, "],");
		}
		fprintf(out, "\"mode\":[");
		for (s = 0; s < ns; s++) {
			unsigned freq = 0; fsm_state_t m = 0;
			m = fsm_findmode(f, s, &freq);
			fprintf(out, "%s[%u,%u]", s ? "," : "", m + 1, freq);
		}
		fprintf(out, "],\"states\":%u,\"edges\":%u}", fsm_countstates(f), fsm_countedges(f));
		line_end();
	} else if (IS("words")) {
		int k;
		Wn = ntok - 1;
		W = __real_malloc((Wn + 1) * sizeof *W);
		for (k = 1; k < ntok; k++) { W[k-1].s = unhex(tok[k], &W[k-1].n); }
	} else if (IS("moreword")) {
		int k;
		W = __real_realloc(W, (Wn + ntok) * sizeof *W);
		for (k = 1; k < ntok; k++) { W[Wn].s = unhex(tok[k], &W[Wn].n); Wn++; }
	} else if (IS("exec")) {
		do_exec(reg(1), ntok > 2 && num(2), ntok > 3 && num(3));
	} else if (IS("sgetc")) {
		/* run through fsm_sgetc, as a C string */
		const char *sep = "";
		line_start(); fprintf(out, "[");
		for (i = 0; i < Wn; i++) {
			const char *p = W[i].s; fsm_state_t e = 0;
			rc = fsm_exec(R[reg(1)], fsm_sgetc, &p, &e, NULL);
			fprintf(out, "%s[%d,%ld]", sep, rc, rc == 1 ? (long) e : -1L); sep = ",";
		}
		fprintf(out, "]"); line_end();
	} else if (IS("fgetc")) {
		const char *sep = "";
		line_start(); fprintf(out, "[");
		for (i = 0; i < Wn; i++) {
			FILE *f = tmpfile(); fsm_state_t e = 0;
			fwrite(W[i].s, 1, W[i].n, f); rewind(f);
			rc = fsm_exec(R[reg(1)], fsm_fgetc, f, &e, NULL);
			fclose(f);
			fprintf(out, "%s[%d,%ld]", sep, rc, rc == 1 ? (long) e : -1L); sep = ",";
		}
		fprintf(out, "]"); line_end();
	} else if (IS("vm")) {
		/* vm R ver optim buf|file piece */
		do_vm(reg(1), tok[2], num(3), tok[4], num(5));
	} else if (IS("gen")) {
		/* gen R maxlen mode cap */
		gen_mode = num(3); gen_cap = num(4); gen_seen = 0; gen_sep = "";
		line_start(); fprintf(out, "{\"m\":[");
		rc = fsm_generate_matches(R[reg(1)], num(2), 0, gen_cb, NULL);
		fprintf(out, "],\"rc\":%d}", rc); line_end();
	} else if (IS("genrand")) {
		gen_mode = num(3); gen_cap = num(4); gen_seen = 0; gen_sep = "";
		srandom(num(5)); srand(num(5));
		line_start(); fprintf(out, "{\"m\":[");
		rc = fsm_generate_matches(R[reg(1)], num(2), 1, gen_cb, NULL);
		fprintf(out, "],\"rc\":%d}", rc); line_end();
	} else if (IS("example")) {
		/* example R bufsz: for every state */
		struct fsm *f = R[reg(1)]; unsigned s; size_t bs = num(2);
		char *b = __real_malloc(bs + 8);
		line_start(); fprintf(out, "[");
		for (s = 0; s < fsm_countstates(f); s++) {
			memset(b, 0x7e, bs + 8);
			rc = fsm_example(f, s, b, bs);
			fprintf(out, "%s[%d,", s ? "," : "", rc);
			puthex(b, rc > 0 && bs > 0 ? ((size_t) rc < bs ? (size_t) rc : bs - 1) : 0);
			fprintf(out, ",%d,%d]", (unsigned char) b[bs] == 0x7e && (unsigned char) b[bs+1] == 0x7e,
				rc >= 0 && (size_t) rc < bs ? b[rc] == '\0' : -1);
		}
		fprintf(out, "]"); line_end();
		free(b);
	} else if (IS("shortest")) {
		/* shortest R start goal cost(0 unit,1 legible,2 byte) */
		struct fsm *f = R[reg(1)]; struct path *p, *q;
		p = fsm_shortest(f, num(2), num(3), num(4) == 0 ? unit_cost : num(4) == 1 ? fsm_cost_legible : byte_cost);
		if (p == NULL) { EMIT("null"); }
		else {
			line_start(); fprintf(out, "[");
			for (q = p; q != NULL; q = q->next) fprintf(out, "%s[%u,%u]", q == p ? "" : ",", q->state, (unsigned char) q->c);
			fprintf(out, "]"); line_end();
			path_free(NULL, p);
		}
	} else if (IS("required")) {
		uint64_t m[4] = { 0, 0, 0, 0 }; size_t cnt = 9999; const char *sep = "";
		rc = (int) fsm_detect_required_characters(R[reg(1)], num(2), m, ntok > 3 ? NULL : &cnt);
		line_start(); fprintf(out, "{\"rc\":%d,\"count\":%zu,\"set\":[", rc, cnt);
		for (i = 0; i < 256; i++) if (m[i / 64] & ((uint64_t) 1 << (i & 63))) { fprintf(out, "%s%zu", sep, i); sep = ","; }
		fprintf(out, "]}"); line_end();
	} else if (IS("re")) {
		/* re R dialect flags hex */
		char *s = unhex(tok[4], &n); struct src sr = { s, n, 0, 0 };
		struct re_err err; struct fsm *f;
		memset(&err, 0, sizeof err);
		f = re_comp(dialect(tok[2]), src_getc, &sr, NULL, (enum re_flags) num(3), &err);
		R[reg(1)] = f;
		if (f != NULL) { EMIT("{\"re\":1}"); }
		else emit_err("re", &err);
		free(s);
	} else if (IS("literal")) {
		char *s = unhex(tok[3], &n); struct src sr = { s, n, 0, 0 };
		struct re_err err; enum re_literal_category cat = (enum re_literal_category) 99; char *ls = NULL; size_t ln = 0;
		memset(&err, 0, sizeof err);
		rc = re_is_literal(dialect(tok[1]), src_getc, &sr, (enum re_flags) num(2), &err, &cat, &ls, &ln);
		line_start(); fprintf(out, "{\"lit\":%d,\"cat\":%d,\"s\":", rc, (int) cat);
		if (rc == 1 && cat != RE_LITERAL_UNSATISFIABLE) puthex(ls, ln); else fprintf(out, "\"\"");
		fprintf(out, "}"); line_end();
		free(s);
	} else if (IS("anchored")) {
		char *s = unhex(tok[3], &n); struct src sr = { s, n, 0, 0 };
		struct re_err err; memset(&err, 0, sizeof err);
		EMIT("{\"anch\":%d}", (int) re_is_anchored(dialect(tok[1]), src_getc, &sr, (enum re_flags) num(2), &err));
		free(s);
	} else if (IS("strings")) {
		/* strings R flags id:hex ...   (id "n": none) */
		struct re_strings *g = re_strings_new(); int k, ok = g != NULL;
		for (k = 3; k < ntok && ok; k++) {
			char *h = strchr(tok[k], ':'); char *s; fsm_end_id_t id;
			*h++ = '\0';
			s = unhex(h, &n);
			id = strtoul(tok[k], NULL, 10);
			if (tok[k][0] == 's') { ok &= re_strings_add_str(g, s, NULL); }
			else if (tok[k][0] == 'n') { ok &= re_strings_add_raw(g, s, n, NULL); }
			else { ok &= re_strings_add_raw(g, s, n, &id); }
			free(s);
		}
		R[reg(1)] = ok ? re_strings_build(g, NULL, (enum re_strings_flags) num(2)) : NULL;
		re_strings_free(g);
		EMIT("%d", R[reg(1)] != NULL);
	} else if (IS("stringsv")) {
		/* re_strings(): NUL terminated array */
		const char *a[256]; int k;
		for (k = 3; k < ntok; k++) a[k-3] = unhex(tok[k], &n);
		R[reg(1)] = re_strings(NULL, a, ntok - 3, (enum re_strings_flags) num(2));
		EMIT("%d", R[reg(1)] != NULL);
	} else if (IS("interp")) {
		/* interp fmt esc group0 nonexistent|~ outn groups... */
		char *fmt = unhex(tok[1], &n), *g0 = unhex(tok[3], &n), *ne = tok[4][0] == '~' ? NULL : unhex(tok[4], &n);
		size_t outn = num(5); const char *gv[64]; int k; bool ok;
		struct re_pos s = { 77777 }, e = { 77777 };
		char *o = outn ? __real_malloc(outn + 64) : NULL; int over = 0;
		if (o) memset(o, 0x7e, outn + 64);
		for (k = 6; k < ntok; k++) gv[k-6] = unhex(tok[k], &n);
		ok = re_interpolate_groups(fmt, (char) num(2), g0, ntok - 6, gv, ne, o, outn, &s, &e);
		line_start();
		fprintf(out, "{\"ok\":%d,\"start\":%u,\"end\":%u,\"out\":", ok, s.byte, e.byte);
		if (ok && o) { puthex(o, strnlen(o, outn)); } else fprintf(out, "\"\"");
		if (o) for (k = 0; k < 64; k++) over += o[outn + k] != 0x7e;
		fprintf(out, ",\"nul\":%d,\"over\":%d}", ok && o ? memchr(o, 0, outn) != NULL : -1, over);
		line_end();
		if (o) free(o);
	} else if (IS("opts")) {
		set_opts(tok[1]);
	} else if (IS("print")) {
		/* print R lang opts path|- : to a file, or hex in the log */
		FILE *f; char *b = NULL; size_t bn = 0;
		struct fsm_hooks hooks; enum fsm_print_lang l = FSM_PRINT_NONE; int saved;
		for (i = 0; langs[i].name; i++) if (0 == strcmp(langs[i].name, tok[2])) l = langs[i].lang;
		memset(&hooks, 0, sizeof hooks);
		set_opts(tok[3]);
		saved = al_on; al_on = 0;
		f = 0 == strcmp(tok[4], "-") ? open_memstream(&b, &bn) : fopen(tok[4], "w");
		al_on = saved;
		rc = fsm_print(f, R[reg(1)], &popt, &hooks, l);
		fclose(f);
		line_start(); fprintf(out, "{\"print\":%d,\"text\":", rc);
		if (b) puthex(b, bn); else fprintf(out, "\"\"");
		fprintf(out, "}"); line_end();
	} else if (IS("reprint") || IS("fsmast")) {
		/* reprint dialect flags hex lang | fsmast R lang: a pattern, or an automaton as a pattern, printed */
		struct ast *ast; struct re_err err; char *b = NULL; size_t bn = 0; FILE *f; int saved, unsat = 0;
		struct fsm_options o = opt0; enum re_flags fl = (enum re_flags) 0; int lang;
		memset(&err, 0, sizeof err);
		if (IS("reprint")) {
			char *s = unhex(tok[3], &n); struct src sr = { s, n, 0, 0 };
			fl = (enum re_flags) num(2); lang = num(4);
			ast = re_parse(dialect(tok[1]), src_getc, &sr, fl, &err, &unsat);
			free(s);
		} else {
			lang = num(2);
			ast = ast_new_from_fsm(R[reg(1)]);
		}
		if (ast == NULL) {
			EMIT("{\"ast\":0,\"err\":%d}", (int) err.e);
		} else {
			saved = al_on; al_on = 0;
			f = open_memstream(&b, &bn);
			al_on = saved;
			rc = ast_print(f, ast, &o, fl, lang);
			fclose(f);
			ast_free(ast);
			line_start(); fprintf(out, "{\"ast\":1,\"rc\":%d,\"text\":", rc); puthex(b, bn); fprintf(out, "}"); line_end();
			free(b);
		}
	} else if (IS("printconf")) {
		FILE *f; struct fsm_hooks hooks; enum fsm_print_lang l = FSM_PRINT_NONE;
		for (i = 0; langs[i].name; i++) if (0 == strcmp(langs[i].name, tok[2])) l = langs[i].lang;
		memset(&hooks, 0, sizeof hooks); hooks.conflict = ilog;
		set_opts(tok[3]);
		f = fopen("/dev/null", "w");
		rc = fsm_print(f, R[reg(1)], &popt, &hooks, l);
		fclose(f);
		EMIT("{\"print\":%d}", rc);
	} else if (IS("parse")) {
		/* parse R hex */
		char *s = unhex(tok[2], &n); FILE *f; int saved = al_on;
		al_on = 0; f = fmemopen(s, n ? n : 1, "r"); al_on = saved;
		if (n == 0) { fgetc(f); }
		R[reg(1)] = fsm_parse(f, NULL);
		fclose(f);
		EMIT("%d", R[reg(1)] != NULL);
	} else if (IS("roundtrip")) {
		/* roundtrip dst src opts: print as fsm(5) then parse */
		FILE *f; char *b = NULL; size_t bn = 0;
		set_opts(tok[3]);
		f = open_memstream(&b, &bn);
		rc = fsm_print(f, R[reg(2)], &popt, NULL, FSM_PRINT_FSM);
		fclose(f);
		f = fmemopen(b, bn, "r");
		R[reg(1)] = fsm_parse(f, NULL);
		fclose(f);
		EMIT("[%d,%d]", rc, R[reg(1)] != NULL);
	} else if (IS("captures")) {
		EMIT("%u", fsm_countcaptures(R[reg(1)]));
	} else if (IS("setpath")) {
		EMIT("%d", fsm_capture_set_path(R[reg(1)], num(2), num(3), num(4)));
	} else if (IS("rebasecap")) {
		fsm_capture_rebase_capture_id(R[reg(1)], num(2)); EMIT("1");
	} else if (IS("poison")) {
		al_poison = atoi(tok[1]); al_pad = num(2);
	} else if (IS("churn")) {
		/* disturb the heap and process history */
		void *p[256]; size_t k; unsigned seed = num(1);
		for (k = 0; k < 256; k++) { seed = seed * 1103515245u + 12345u; p[k] = __real_malloc(16 + seed % 5000); memset(p[k], (int) (seed >> 16), 16 + seed % 5000); }
		for (k = 0; k < 256; k++) { if ((seed >> (k % 17)) & 1 || 1) free(p[(k * 97) % 256]); }
	} else if (IS("count")) {
		al_on = 1; al_count = 0; al_fail_at = 0; al_failed = 0;
	} else if (IS("failat")) {
		al_on = 1; al_count = 0; al_failed = 0; al_fail_at = num(1); al_sticky = ntok > 2 && num(2);
	} else if (IS("stop")) {
		al_on = 0;
		EMIT("{\"allocs\":%ld,\"failed\":%d}", al_count, al_failed);
		al_fail_at = 0;
	} else if (IS("track")) {
		tr_on = 1; tr_live = tr_used = 0;
		if (tr != NULL) { memset(tr, 0, tr_cap * sizeof *tr); }
	} else if (IS("live")) {
		tr_on = 0;
		EMIT("{\"live\":%zu}", tr_live);
		tr_live = tr_used = 0;
		if (tr != NULL) { memset(tr, 0, tr_cap * sizeof *tr); }
	} else if (IS("alloclimit")) {
		al_limit = num(1);
	} else {
		fprintf(stderr, "drv: unknown command %s\n", c);
		_exit(98);
	}
	return 1;
}

static char **lines; static size_t nl, ncl;

static void
child(size_t from, size_t to, int tmo)
{
	size_t i;
	alarm(tmo);
#if !defined(__SANITIZE_ADDRESS__)
	{ struct rlimit as = { 3UL << 30, 3UL << 30 }; setrlimit(RLIMIT_AS, &as); }
#endif
	for (i = from; i < to; i++) {
		char *p = lines[i];
		ntok = 0;
		for (p = strtok(p, " \n"); p != NULL; p = strtok(NULL, " \n")) {
			if (ntok < MAXTOK) tok[ntok++] = p;
		}
		if (ntok == 0) continue;
		command();
	}
	al_on = 0;
	/* release everything, so a sanitiser sees the whole life of an object */
	for (i = 0; i < NREG; i++) { if (R[i]) fsm_free(R[i]); }
	EMIT("\"END\"");
	fflush(out);
	_exit(0);
}

int
main(int argc, char **argv)
{
	char *buf = NULL; size_t cap = 0; ssize_t len;
	int tmo = argc > 1 ? atoi(argv[1]) : 20;
	int more = 1, late = 0;
	struct rlimit rl = { 0, 0 };

	setrlimit(RLIMIT_CORE, &rl);
	out = stdout;
	opt0.ambig = AMBIG_NONE;
	opt0.io = FSM_IO_GETC;

	while (more) {
		long cn = -1;
		pid_t pid;
		int st;
		nl = 0;
		more = 0;
		while ((len = getline(&buf, &cap, stdin)) > 0) {
			if (0 == strncmp(buf, "case ", 5)) { cn = atol(buf + 5); continue; }
			if (0 == strncmp(buf, "end", 3) && (buf[3] == '\n' || buf[3] == '\0')) { more = 1; break; }
			if (nl == ncl) { ncl = ncl ? 2 * ncl : 64; lines = __real_realloc(lines, ncl * sizeof *lines); }
			lines[nl++] = strdup(buf);
		}
		if (!more) break;
		caseno = cn;
		fflush(stdout);
		pid = fork();
		if (pid == 0) { child(0, nl, late < 3 ? tmo : (tmo + 9) / 10); }
		while (waitpid(pid, &st, 0) < 0) { }
		if (WIFSIGNALED(st)) { EMIT("{\"crash\":%d}", WTERMSIG(st)); late += WTERMSIG(st) == SIGALRM; }
		else if (WEXITSTATUS(st) != 0) { EMIT("{\"crash\":%d}", 1000 + WEXITSTATUS(st)); }
		for (size_t i = 0; i < nl; i++) free(lines[i]);
	}
	return 0;
}
