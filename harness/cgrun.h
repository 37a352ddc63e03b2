/*
 * Runs generated matchers over words read from a file.  Each word lies at the end
 * of a page with nothing mapped behind it; each unit runs in a process of its own.
 */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>

struct cg_in { const char *b, *e; size_t i, eofs; };
struct cg_res { int rc; int nids; const unsigned *ids; unsigned id; };
struct cg_unit { int no; int str; void (*call)(struct cg_in *, struct cg_res *); };

static int cg_getc(void *o)
{
	struct cg_in *in = o;
	if (in->b + in->i == in->e) { in->eofs++; return EOF; }
	return (unsigned char) in->b[in->i++];
}

static int cg_hex(int c) { return c <= '9' ? c - '0' : c - 'a' + 10; }

static void cg_unit(const struct cg_unit *u, char *line, char *page_end, size_t room)
{
	char *t;
	const char *sep = "";
	printf("%d [", u->no);
	for (t = strtok(line, " \n"); t != NULL; t = strtok(NULL, " \n")) {
		size_t n = t[0] == '-' ? 0 : strlen(t) / 2, i;
		char *b;
		struct cg_in in = { 0 };
		struct cg_res r = { -99, -1, NULL, 0 };
		if (n + 1 > room) { _exit(90); }
		b = page_end - n - (u->str ? 1 : 0);
		for (i = 0; i < n; i++) { b[i] = (char) (cg_hex(t[2*i]) << 4 | cg_hex(t[2*i+1])); }
		if (u->str) { b[n] = '\0'; }
		in.b = b; in.e = b + n;
		u->call(&in, &r);
		printf("%s[%d", sep, r.rc);
		sep = ",";
		if (r.rc == 1 && r.nids >= 0) {
			int k;
			printf(",[");
			for (k = 0; k < r.nids; k++) { printf("%s%u", k ? "," : "", r.ids == NULL ? r.id : r.ids[k]); }
			printf("]");
		}
		printf("]");
	}
	printf("]\n");
	fflush(stdout);
}

static int cg_main(const struct cg_unit *us, size_t n, const char *path)
{
	FILE *f = fopen(path, "r");
	char *line = NULL; size_t cap = 0;
	size_t room = 1 << 16;
	char *m = mmap(NULL, room + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	struct rlimit rl = { 0, 0 };
	setrlimit(RLIMIT_CORE, &rl);
	mprotect(m + room, 4096, PROT_NONE);
	while (getline(&line, &cap, f) > 0) {
		int no = atoi(line);
		char *p = strchr(line, ' ');
		size_t i;
		pid_t pid; int st;
		for (i = 0; i < n && us[i].no != no; i++) { }
		if (i == n) { continue; }
		fflush(stdout);
		pid = fork();
		if (pid == 0) { alarm(20); cg_unit(&us[i], p, m + room, room); _exit(0); }
		while (waitpid(pid, &st, 0) < 0) { }
		if (st != 0) { printf("\n%d {\"crash\":%d}\n", no, WIFSIGNALED(st) ? WTERMSIG(st) : 1000 + WEXITSTATUS(st)); }
	}
	return 0;
}
