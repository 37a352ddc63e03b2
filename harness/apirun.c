/* Runs functions printed by fsm_print_api() and dumps what they build. */
#define main drv_main
#include "drv.c"
#undef main

struct api_unit { int no, same, swap; int (*f)(struct fsm *, fsm_state_t *, fsm_state_t *); };
extern const struct api_unit api_units[];
extern const unsigned api_n;

int
main(void)
{
	unsigned j;

	out = stdout;
	for (j = 0; j < api_n; j++) {
		const struct api_unit *u = &api_units[j];
		struct fsm *fsm = fsm_new(NULL);
		fsm_state_t x, y;
		int rc;
		if (u->swap && !u->same) { fsm_addstate(fsm, &y); fsm_addstate(fsm, &x); }
		else { fsm_addstate(fsm, &x); if (!u->same) fsm_addstate(fsm, &y); else y = x; }
		fsm_setstart(fsm, x);
		fsm_setend(fsm, y, 1);
		rc = u->f(fsm, &x, &y);
		printf("%d %d ", u->no, rc);
		dump(fsm);
		printf("\n");
		fflush(stdout);
		fsm_free(fsm);
	}
	return 0;
}
