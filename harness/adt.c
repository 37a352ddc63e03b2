/* Drives the containers under src/adt.  Reads cases (lists of operations), runs
 * each in a child process, and prints what every operation answered. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include <signal.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <assert.h>
#include <limits.h>

#include <fsm/fsm.h>
#include <fsm/alloc.h>
#include <print/esc.h>
#include <adt/alloc.h>
#include <adt/set.h>
#include <adt/bitmap.h>
#include <adt/stateset.h>
#include <adt/edgeset.h>
#include <adt/idmap.h>
#include <adt/internedstateset.h>
#include <adt/queue.h>
#include <adt/priq.h>
#include <adt/path.h>
#include <adt/tupleset.h>
#include <adt/pv.h>
#include "internal.h"

static const struct fsm_alloc *A = NULL;
static char **lines; static size_t nl, ncl; static long caseno;
static int first;
static void open_(void) { printf("%ld [", caseno); first = 1; }
static void num(long long v) { printf(first ? "%lld" : ",%lld", v); first = 0; }
static void close_(void) { printf("]\n"); }
static void one(long long v) { open_(); num(v); close_(); }

static struct state_set *S[8];
static struct edge_set *E[8];
static struct idmap *M;
static struct interned_state_set_pool *P;
static struct queue *Q;
static struct priq *R, *D;
static struct priq *H[4096]; static int nH;
static struct bm Bm[4];
static interned_state_set_id ids[4096]; static int nids;
static struct path *PA;

static long argv_[4096]; static int argc_;
#define a(i) (argv_[i])

static fsm_state_t mapto[4096];
static fsm_state_t remap(fsm_state_t s, const void *o) { (void) o; return s < 4096 ? mapto[s] : s; }
/* arguments from i on: pairs old new, -1 to drop; others stay */
static void setmap(int i) {
	for (int k = 0; k < 4096; k++) mapto[k] = k;
	for (; i + 1 < argc_; i += 2) mapto[a(i)] = a(i+1) < 0 ? FSM_STATE_REMAP_NO_STATE : (fsm_state_t) a(i+1);
}
static int handle(const struct priq *p) { if (!p) return -1; for (int i = 0; i < nH; i++) if (H[i] == p) return i; return -2; }

static void icb(fsm_state_t s, unsigned v, void *o) { (void) o; num(s); num(v); }

struct fsm_walk2_tuple { fsm_state_t a, b, comb; unsigned int have_a:1, have_b:1; };
static int tcmp(const void *x, const void *y) {
	const struct fsm_walk2_tuple *p = * (const struct fsm_walk2_tuple * const *) x, *q = * (const struct fsm_walk2_tuple * const *) y;
	if (p->a != q->a) return p->a < q->a ? -1 : 1;
	return (p->b > q->b) - (p->b < q->b);
}
static struct tuple_set *T;

static void group(enum edge_group_iter_type ty, struct edge_set *e) {
	struct edge_group_iter it; struct edge_group_iter_info g;
	open_();
	edge_set_group_iter_reset(e, ty, &it);
	while (edge_set_group_iter_next(&it, &g)) {
		int n = 0;
		for (int c = 0; c < 256; c++) if (g.symbols[c/64] >> (c&63) & 1) n++;
		num(g.unique); num(g.to); num(n);
		for (int c = 0; c < 256; c++) if (g.symbols[c/64] >> (c&63) & 1) num(c);
	}
	close_();
}

static void step(const char *k) {
	#define IS(s) (0 == strcmp(k, s))
	fsm_state_t st; struct fsm_edge ed;
	if (IS("ss.add")) one(state_set_add(&S[a(0)], A, a(1)));
	else if (IS("ss.bulk")) { fsm_state_t v[4096]; for (int i = 1; i < argc_; i++) v[i-1] = a(i); one(state_set_add_bulk(&S[a(0)], A, v, argc_-1)); }
	else if (IS("ss.copy")) one(state_set_copy(&S[a(0)], A, S[a(1)]));
	else if (IS("ss.remove")) { state_set_remove(&S[a(0)], a(1)); one(0); }
	else if (IS("ss.has")) one(!!state_set_contains(S[a(0)], a(1)));
	else if (IS("ss.count")) one(state_set_count(S[a(0)]));
	else if (IS("ss.empty")) one(!!state_set_empty(S[a(0)]));
	else if (IS("ss.only")) { open_(); if (state_set_count(S[a(0)]) == 1) num(state_set_only(S[a(0)])); close_(); }
	else if (IS("ss.iter")) { struct state_iter it; open_(); state_set_reset(S[a(0)], &it); while (state_set_next(&it, &st)) num(st); close_(); }
	else if (IS("ss.array")) { size_t n = state_set_count(S[a(0)]); open_(); if (n > 1) { const fsm_state_t *p = state_set_array(S[a(0)]); for (size_t i = 0; i < n; i++) num(p[i]); } close_(); }
	else if (IS("ss.rebase")) { state_set_rebase(&S[a(0)], a(1)); one(0); }
	else if (IS("ss.replace")) { state_set_replace(&S[a(0)], a(1), a(2)); one(0); }
	else if (IS("ss.compact")) { setmap(1); state_set_compact(&S[a(0)], remap, NULL); one(0); }
	else if (IS("ss.cmp")) { open_(); if (!state_set_empty(S[a(0)]) && !state_set_empty(S[a(1)])) { int x = state_set_cmp(S[a(0)], S[a(1)]), y = state_set_cmp(S[a(1)], S[a(0)]); num((x>0)-(x<0)); num((y>0)-(y<0)); } close_(); }
	else if (IS("ss.clear")) { state_set_free(S[a(0)]); S[a(0)] = NULL; one(0); }

	else if (IS("es.add")) one(edge_set_add(&E[a(0)], A, a(1), a(2)));
	else if (IS("es.bulk")) { uint64_t w[4] = {0,0,0,0}; for (int i = 2; i + 1 < argc_; i += 2) for (long c = a(i); c <= a(i+1); c++) w[c/64] |= (uint64_t) 1 << (c & 63); one(edge_set_add_bulk(&E[a(0)], A, w, a(1))); }
	else if (IS("es.addset")) one(edge_set_add_state_set(&E[a(0)], A, a(1), S[a(2)]));
	else if (IS("es.grow")) one(edge_set_advise_growth(&E[a(0)], A, a(1)));
	else if (IS("es.find")) { int r = edge_set_find(E[a(0)], a(1), &ed); open_(); if (r) { num(ed.symbol); num(ed.state); } close_(); }
	else if (IS("es.trans")) { int r = edge_set_transition(E[a(0)], a(1), &st); open_(); if (r) num(st); close_(); }
	else if (IS("es.has")) one(!!edge_set_contains(E[a(0)], a(1)));
	else if (IS("es.count")) one(edge_set_count(E[a(0)]));
	else if (IS("es.empty")) one(!!edge_set_empty(E[a(0)]));
	else if (IS("es.nondet")) { struct bm b; bm_clear(&b); one(!!edge_set_hasnondeterminism(E[a(0)], &b)); }
	else if (IS("es.copy")) one(edge_set_copy(&E[a(0)], A, E[a(1)]));
	else if (IS("es.remove")) { edge_set_remove(&E[a(0)], a(1)); one(0); }
	else if (IS("es.rmstate")) { edge_set_remove_state(&E[a(0)], a(1)); one(0); }
	else if (IS("es.compact")) { setmap(1); one(edge_set_compact(&E[a(0)], A, remap, NULL)); }
	else if (IS("es.rebase")) { edge_set_rebase(&E[a(0)], a(1)); one(0); }
	else if (IS("es.replace")) one(edge_set_replace_state(&E[a(0)], A, a(1), a(2)));
	else if (IS("es.iter")) { struct edge_iter it; open_(); edge_set_reset(E[a(0)], &it); while (edge_set_next(&it, &ed)) { num(ed.symbol); num(ed.state); } close_(); }
	else if (IS("es.ordered")) { struct edge_ordered_iter it; open_(); if (a(1) == 0) edge_set_ordered_iter_reset(E[a(0)], &it); else edge_set_ordered_iter_reset_to(E[a(0)], &it, a(1)); while (edge_set_ordered_iter_next(&it, &ed)) { num(ed.symbol); num(ed.state); } close_(); }
	else if (IS("es.groups")) group(EDGE_GROUP_ITER_ALL, E[a(0)]);
	else if (IS("es.unique")) group(EDGE_GROUP_ITER_UNIQUE, E[a(0)]);
	else if (IS("es.ec")) { fsm_state_t ec[4096]; uint64_t lab[4] = {0,0,0,0}; int n = argc_ - 2, r; for (int i = 0; i < n; i++) ec[i] = a(i+2); r = edge_set_check_edges_with_EC_mapping(E[a(0)], a(1), n, ec, &st, lab); open_(); if (r) { num(st); for (int c = 0; c < 256; c++) if (lab[c/64] >> (c&63) & 1) num(c); } close_(); }
	else if (IS("es.clear")) { edge_set_free(A, E[a(0)]); E[a(0)] = NULL; one(0); }

	else if (IS("im.set")) { if (!M) M = idmap_new(A); one(idmap_set(M, a(0), a(1))); }
	else if (IS("im.count")) { if (!M) M = idmap_new(A); one(idmap_get_value_count(M, a(0))); }
	else if (IS("im.get")) { unsigned *b = malloc(a(1) * sizeof *b + 1); size_t w = 0; if (!M) M = idmap_new(A); int r = idmap_get(M, a(0), a(1) * sizeof *b, b, &w); open_(); num(r); if (r) for (size_t i = 0; i < w; i++) num(b[i]); close_(); free(b); }
	else if (IS("im.iter")) { if (!M) M = idmap_new(A); open_(); idmap_iter(M, icb, NULL); close_(); }
	else if (IS("im.iterfor")) { if (!M) M = idmap_new(A); open_(); idmap_iter_for_state(M, a(0), icb, NULL); close_(); }
	else if (IS("im.clear")) { idmap_free(M); M = NULL; one(0); }

	else if (IS("is.intern")) { fsm_state_t *v = malloc(argc_ * sizeof *v + 1); interned_state_set_id id; if (!P) P = interned_state_set_pool_alloc(A); for (int i = 0; i < argc_; i++) v[i] = a(i); int r = interned_state_set_intern_set(P, argc_, v, &id); open_(); num(r); num((long long) id); close_(); free(v); ids[nids++] = id; }
	else if (IS("is.get")) { struct state_set *s; struct state_iter it; if (!P) P = interned_state_set_pool_alloc(A); if (nids == 0) { one(-1); return; } s = interned_state_set_get_state_set(P, ids[a(0) % nids]); open_(); num(ids[a(0) % nids]); state_set_reset(s, &it); while (state_set_next(&it, &st)) num(st); close_(); }

	else if (IS("q.new")) { if (Q) queue_free(Q); Q = queue_new(A, a(0)); one(Q != NULL); }
	else if (IS("q.push")) one(queue_push(Q, a(0)));
	else if (IS("q.pop")) { int r = queue_pop(Q, &st); open_(); if (r) num(st); close_(); }

	else if (IS("p.push")) { struct priq *p = priq_push(A, &R, a(0), a(1)); H[nH++] = p; open_(); num(p->state); num(p->cost); close_(); }
	else if (IS("p.pop")) { struct priq *p = priq_pop(&R); open_(); if (p) { num(handle(p)); num(p->state); num(p->cost); priq_move(&D, p); } close_(); }
	else if (IS("p.find")) one(handle(priq_find(R, a(0))));
	else if (IS("p.done")) one(handle(priq_find(D, a(0))));
	else if (IS("p.update")) { struct priq *p = priq_find(R, a(0)); if (p) { p->cost = a(1); priq_update(&R, p, a(1)); } one(handle(p)); }
	else if (IS("p.all")) { open_(); for (struct priq *p = R; p; p = p->next) num(handle(p)); close_(); }
	else if (IS("p.moved")) { open_(); for (struct priq *p = D; p; p = p->next) num(handle(p)); close_(); }

	else if (IS("bm.set")) { bm_set(&Bm[a(0)], a(1)); one(0); }
	else if (IS("bm.unset")) { bm_unset(&Bm[a(0)], a(1)); one(0); }
	else if (IS("bm.get")) one(!!bm_get(&Bm[a(0)], a(1)));
	else if (IS("bm.next")) one(bm_next(&Bm[a(0)], a(1), a(2)));
	else if (IS("bm.count")) one(bm_count(&Bm[a(0)]));
	else if (IS("bm.clear")) { bm_clear(&Bm[a(0)]); one(0); }
	else if (IS("bm.invert")) { bm_invert(&Bm[a(0)]); one(0); }
	else if (IS("bm.copy")) { bm_copy(&Bm[a(0)], &Bm[a(1)]); one(0); }
	else if (IS("bm.and")) { bm_intersect(&Bm[a(0)], &Bm[a(1)]); one(0); }
	else if (IS("bm.or")) { bm_union(&Bm[a(0)], &Bm[a(1)]); one(0); }
	else if (IS("bm.any")) one(!!bm_any(&Bm[a(0)]));
	else if (IS("bm.words")) { uint64_t *w; open_(); for (int n = 0; n < 4; n++) { w = bm_nth_word(&Bm[a(0)], n); for (int b = 0; b < 64; b++) if (*w >> b & 1) num(64*n + b); } close_(); }

	else if (IS("ts.add")) { struct fsm_walk2_tuple *t = calloc(1, sizeof *t), *r; if (!T) T = tuple_set_create(A, tcmp); t->a = a(0); t->b = a(1); t->comb = a(2); t->have_a = t->have_b = 1; r = tuple_set_add(T, t); open_(); if (r) { num(r->a); num(r->b); num(r->comb); } close_(); }
	else if (IS("ts.get")) { struct fsm_walk2_tuple t = {0}, *r; if (!T) T = tuple_set_create(A, tcmp); t.a = a(0); t.b = a(1); t.have_a = t.have_b = 1; r = tuple_set_contains(T, &t); open_(); if (r) num(r->comb); close_(); }

	else if (IS("pv")) { unsigned *v = malloc(argc_ * sizeof *v + 4), *r; for (int i = 1; i < argc_; i++) v[i-1] = a(i); r = permutation_vector(A, argc_ - 1, a(0), v); open_(); for (int i = 0; i < argc_ - 1; i++) num(r[i]); close_(); free(r); free(v); }

	else if (IS("pa.push")) { struct path *p = path_push(A, &PA, a(0), a(1)); one(p != NULL && p == PA); }
	else if (IS("pa.list")) { open_(); for (struct path *p = PA; p; p = p->next) { num(p->state); num((unsigned char) p->c); } close_(); }
	else { fprintf(stderr, "unknown: %s\n", k); _exit(99); }
}

static void child(int tmo) {
	alarm(tmo);
	for (int i = 0; i < 4; i++) bm_clear(&Bm[i]);
	for (size_t i = 0; i < nl; i++) {
		char *save, *k = strtok_r(lines[i], " \n", &save), *t;
		argc_ = 0;
		while ((t = strtok_r(NULL, " \n", &save)) != NULL && argc_ < 4096) argv_[argc_++] = strtol(t, NULL, 10);
		if (k) step(k);
	}
	for (int i = 0; i < 8; i++) { state_set_free(S[i]); edge_set_free(A, E[i]); }
	if (M) idmap_free(M);
	if (P) interned_state_set_pool_free(P);
	if (Q) queue_free(Q);
	priq_free(A, R); priq_free(A, D); path_free(A, PA);
	if (T) tuple_set_free(T);
	printf("%ld \"END\"\n", caseno);
	fflush(stdout);
	_exit(0);
}

int main(int argc, char **argv) {
	char *buf = NULL; size_t cap = 0; int more = 1, tmo = argc > 1 ? atoi(argv[1]) : 20;
	struct rlimit rl = { 0, 0 };
	setrlimit(RLIMIT_CORE, &rl);
	setvbuf(stdout, NULL, _IOLBF, 1 << 16);
	while (more) {
		int st; pid_t pid;
		nl = 0; more = 0;
		while (getline(&buf, &cap, stdin) > 0) {
			if (0 == strncmp(buf, "case ", 5)) { caseno = atol(buf + 5); continue; }
			if (0 == strncmp(buf, "end", 3)) { more = 1; break; }
			if (nl == ncl) { ncl = ncl ? 2 * ncl : 64; lines = realloc(lines, ncl * sizeof *lines); }
			lines[nl++] = strdup(buf);
		}
		if (!more) break;
		fflush(stdout);
		if ((pid = fork()) == 0) child(tmo);
		while (waitpid(pid, &st, 0) < 0) { }
		if (WIFSIGNALED(st)) printf("%ld {\"crash\":%d}\n", caseno, WTERMSIG(st));
		else if (WEXITSTATUS(st)) printf("%ld {\"crash\":%d}\n", caseno, 1000 + WEXITSTATUS(st));
		for (size_t i = 0; i < nl; i++) free(lines[i]);
	}
	return 0;
}
