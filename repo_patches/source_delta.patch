From c399fc39e68466893a1233fe7517e9d391cd6360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:13 +0000
Subject: [PATCH 01/80] fix: fsm_complement: determinise an NFA even when it
 has every edge

---
 src/libfsm/complement.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libfsm/complement.c b/src/libfsm/complement.c
index 53d61c0..6155dc5 100644
--- a/src/libfsm/complement.c
+++ b/src/libfsm/complement.c
@@ -22,7 +22,8 @@ fsm_complement(struct fsm *fsm)
 
 	assert(fsm != NULL);
 
-	if (!fsm_all(fsm, fsm_iscomplete)) {
+	/* an NFA may have every edge and still not be a Complete DFA */
+	if (!fsm_all(fsm, fsm_isdfa) || !fsm_all(fsm, fsm_iscomplete)) {
 		if (!fsm_complete(fsm, fsm_isany)) {
 			fsm_free(fsm);
 			return 0;
-- 
2.43.0


From dd73b9555bbffe8d326c50e3b31e60674304fdc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:13 +0000
Subject: [PATCH 02/80] fix: fsm_concat: clear every end state of the first
 operand, not just the collated one

---
 src/libfsm/concat.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/libfsm/concat.c b/src/libfsm/concat.c
index 9f87802..f30902b 100644
--- a/src/libfsm/concat.c
+++ b/src/libfsm/concat.c
@@ -22,7 +22,8 @@ fsm_concat(struct fsm *a, struct fsm *b,
 {
 	struct fsm *q;
 	fsm_state_t ea, sb;
-	fsm_state_t sq;
+	fsm_state_t sq, s;
+	unsigned counta;
 	struct fsm_combine_info combine_info_internal;
 
 	if (combine_info == NULL) {
@@ -56,6 +57,8 @@ fsm_concat(struct fsm *a, struct fsm *b,
 
 	fsm_setend(a, ea, 1);
 
+	counta = fsm_countstates(a);
+
 	q = fsm_merge(a, b, combine_info);
 	assert(q != NULL);
 
@@ -63,7 +66,10 @@ fsm_concat(struct fsm *a, struct fsm *b,
 	ea += combine_info->base_a;
 	sb += combine_info->base_b;
 
-	fsm_setend(q, ea, 0);
+	/* collating leaves the original end states marked */
+	for (s = 0; s < counta; s++) {
+		fsm_setend(q, s + combine_info->base_a, 0);
+	}
 
 	/*
 	 * The textbook approach is to create epsilon transition(s) from the end
-- 
2.43.0


From b65b4206260aa9da90c6a925a8d52816623c09c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:12 +0000
Subject: [PATCH 03/80] fix: fsm_minimise: don't compare uninitialised label
 sets for states with no edge on a label

---
 src/libfsm/minimise.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libfsm/minimise.c b/src/libfsm/minimise.c
index a2ff1b8..4551b2d 100644
--- a/src/libfsm/minimise.c
+++ b/src/libfsm/minimise.c
@@ -1250,7 +1250,7 @@ try_partition(struct min_env *env, unsigned char label,
 	fprintf(stderr, "# --- try_partition: checking '%c' for %u\n", label, ec_src);
 #endif
 
-	uint64_t first_dst_label_set[256/64];
+	uint64_t first_dst_label_set[256/64] = { 0 };
 
 	/* Use the edge_set's label grouping to check a
 	 * set of labels at once, and note which labels
@@ -1288,7 +1288,7 @@ try_partition(struct min_env *env, unsigned char label,
 	env->ecs[ec_dst] = NO_ID;
 
 	while (cur != NO_ID) {
-		uint64_t cur_label_set[256/64];
+		uint64_t cur_label_set[256/64] = { 0 };
 		fsm_state_t cur_dst_state;
 
 		if (edge_set_check_edges_with_EC_mapping(states[cur].edges, label,
-- 
2.43.0


From 77965941cfae39afa9f41ed33cd57f47e32b3819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:12 +0000
Subject: [PATCH 04/80] fix: fsm_minimise: collect eager outputs of every
 non-end state, not only those before the first without

---
 src/libfsm/minimise.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libfsm/minimise.c b/src/libfsm/minimise.c
index 4551b2d..8e3cdaa 100644
--- a/src/libfsm/minimise.c
+++ b/src/libfsm/minimise.c
@@ -778,7 +778,8 @@ split_ecs_by_end_metadata(struct min_env *env, const struct fsm *fsm)
 			const bool has_eager_outputs = fsm_eager_output_state_has_eager_output(fsm, s);
 
 			if (!is_end && !has_eager_outputs) {
-				break; /* skip */
+				s = env->jump[s];
+				continue; /* skip */
 			}
 
 			if (!collect_end_ids(fsm, s, &e->end)) {
-- 
2.43.0


From b7ba52a9688a57bb140b11aa7ceeff65f34aae79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:12 +0000
Subject: [PATCH 05/80] fix: fsm_shuffle: renumber epsilon transitions for any
 mapping, keeping the set sorted

---
 src/libfsm/consolidate.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/libfsm/consolidate.c b/src/libfsm/consolidate.c
index 55c3bfd..45249f8 100644
--- a/src/libfsm/consolidate.c
+++ b/src/libfsm/consolidate.c
@@ -119,14 +119,18 @@ fsm_consolidate(const struct fsm *src,
 		const fsm_state_t dst_i = mapping[src_i];
 
 		if (!DST_SEEN(dst_i)) {
+			struct state_iter it;
+			fsm_state_t to;
+
 			SET_DST_SEEN(dst_i);
 
-			if (!state_set_copy(&dst->states[dst_i].epsilons,
-				dst->alloc, src->states[src_i].epsilons)) {
-				goto cleanup;
+			/* the mapping need not preserve order */
+			for (state_set_reset(src->states[src_i].epsilons, &it); state_set_next(&it, &to); ) {
+				if (!state_set_add(&dst->states[dst_i].epsilons,
+					dst->alloc, mapping_cb(to, &closure))) {
+					goto cleanup;
+				}
 			}
-			state_set_compact(&dst->states[dst_i].epsilons,
-			    mapping_cb, &closure);
 
 			if (!edge_set_copy(&dst->states[dst_i].edges,
 				dst->alloc,
-- 
2.43.0


From 793fa4bbc2afe8e4c3f051325441c84b9970fbcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:40 +0000
Subject: [PATCH 06/80] fix: fsm_concat: drop the first operand's end ids,
 which don't apply to the result

---
 src/libfsm/concat.c | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/libfsm/concat.c b/src/libfsm/concat.c
index f30902b..c6ecc4d 100644
--- a/src/libfsm/concat.c
+++ b/src/libfsm/concat.c
@@ -15,6 +15,7 @@
 #include <fsm/walk.h>
 
 #include "internal.h"
+#include "endids.h"
 
 struct fsm *
 fsm_concat(struct fsm *a, struct fsm *b,
@@ -57,6 +58,25 @@ fsm_concat(struct fsm *a, struct fsm *b,
 
 	fsm_setend(a, ea, 1);
 
+	/*
+	 * None of a's states will be an end state, so the ids of those that
+	 * were don't apply to the result. They mustn't stay behind, because
+	 * a state may become an end state again (by way of an epsilon transition
+	 * to one of b's) when epsilon transitions are removed.
+	 */
+	{
+		struct endid_info *old = a->endid_info, *new;
+
+		if (!fsm_endid_init(a)) {
+			return NULL;
+		}
+
+		new = a->endid_info;
+		a->endid_info = old;
+		fsm_endid_free(a);
+		a->endid_info = new;
+	}
+
 	counta = fsm_countstates(a);
 
 	q = fsm_merge(a, b, combine_info);
-- 
2.43.0


From c9aad08024b5b62ad058fd167efedd410a552373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:56 +0000
Subject: [PATCH 07/80] fix: fsm_remove_epsilons: don't assert on an automaton
 with no states (as trimming an empty language leaves)

---
 src/libfsm/epsilons.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libfsm/epsilons.c b/src/libfsm/epsilons.c
index 926e6d9..59d0154 100644
--- a/src/libfsm/epsilons.c
+++ b/src/libfsm/epsilons.c
@@ -141,6 +141,10 @@ fsm_remove_epsilons(struct fsm *nfa)
 
 	assert(nfa != NULL);
 
+	if (state_count == 0) {
+		return 1;	/* no epsilon transitions to remove */
+	}
+
 	TIME(&pre);
 	eclosures = epsilon_closure(nfa);
 	TIME(&post);
-- 
2.43.0


From 0123a2a3fe86aa87e65d08da078c242185ab8f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:48 +0000
Subject: [PATCH 08/80] fix: fsm_endid_compact: account for the ids of removed
 states, and free them

---
 src/libfsm/endids.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/libfsm/endids.c b/src/libfsm/endids.c
index 6d8e885..d2c600a 100644
--- a/src/libfsm/endids.c
+++ b/src/libfsm/endids.c
@@ -1056,6 +1056,7 @@ fsm_endid_compact(struct fsm *fsm, fsm_state_t *mapping, size_t mapping_count)
 
 	const uint64_t mask = ei->bucket_count - 1;
 	assert((ei->bucket_count & mask) == 0);
+	size_t nbuckets_used = 0;
 
 	/* initialize to empty */
 	for (size_t nb_i = 0; nb_i < ei->bucket_count; nb_i++) {
@@ -1068,7 +1069,10 @@ fsm_endid_compact(struct fsm *fsm, fsm_state_t *mapping, size_t mapping_count)
 
 		assert(ob->state < mapping_count);
 		const fsm_state_t nstate = mapping[ob->state];
-		if (nstate == FSM_STATE_REMAP_NO_STATE) { continue; }
+		if (nstate == FSM_STATE_REMAP_NO_STATE) {
+			f_free(fsm->alloc, ob->ids);
+			continue;
+		}
 
 		const uint64_t hash = hash_id(nstate);
 
@@ -1079,6 +1083,7 @@ fsm_endid_compact(struct fsm *fsm, fsm_state_t *mapping, size_t mapping_count)
 			if (nb->state == BUCKET_NO_STATE) {
 				nb->state = nstate;
 				nb->ids = ob->ids;
+				nbuckets_used++;
 				placed = true;
 				break;
 			}
@@ -1088,5 +1093,6 @@ fsm_endid_compact(struct fsm *fsm, fsm_state_t *mapping, size_t mapping_count)
 
 	f_free(fsm->alloc, ei->buckets);
 	ei->buckets = nbuckets;
+	ei->buckets_used = nbuckets_used;
 	return 1;
 }
-- 
2.43.0


From 633502455b222db1e454aa5eb4a6bd56ed3aeb7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:49 +0000
Subject: [PATCH 09/80] fix: fsm_removestate: keep the start state, end ids and
 eager outputs with the states they belong to

---
 src/libfsm/state.c | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/src/libfsm/state.c b/src/libfsm/state.c
index 786bc3a..24fe2b6 100644
--- a/src/libfsm/state.c
+++ b/src/libfsm/state.c
@@ -119,10 +119,33 @@ int
 fsm_removestate(struct fsm *fsm, fsm_state_t state)
 {
 	fsm_state_t start, i;
+	fsm_state_t *mapping;
 
 	assert(fsm != NULL);
 	assert(state < fsm->statecount);
 
+	/* End ids and eager outputs are kept by state number, outside the state
+	 * itself. Those of the removed state go with it, and those of the
+	 * last state follow that to its new number. */
+	mapping = f_malloc(fsm->alloc, fsm->statecount * sizeof mapping[0]);
+	if (mapping == NULL) {
+		return 0;
+	}
+
+	for (i = 0; i < fsm->statecount; i++) {
+		mapping[i] = i;
+	}
+	mapping[fsm->statecount - 1] = state;
+	mapping[state] = FSM_STATE_REMAP_NO_STATE;
+
+	if (!fsm_endid_compact(fsm, mapping, fsm->statecount)
+		|| !fsm_eager_output_compact(fsm, mapping, fsm->statecount)) {
+		f_free(fsm->alloc, mapping);
+		return 0;
+	}
+
+	f_free(fsm->alloc, mapping);
+
 	/* for endcount accounting */
 	fsm_setend(fsm, state, 0);
 
@@ -152,6 +175,10 @@ fsm_removestate(struct fsm *fsm, fsm_state_t state)
 	if (state < fsm->statecount - 1) {
 		fsm->states[state] = fsm->states[fsm->statecount - 1];
 
+		if (fsm_getstart(fsm, &start) && start == fsm->statecount - 1) {
+			fsm_setstart(fsm, state);
+		}
+
 		for (i = 0; i < fsm->statecount - 1; i++) {
 			state_set_replace(&fsm->states[i].epsilons, fsm->statecount - 1, state);
 			if (!edge_set_replace_state(&fsm->states[i].edges, fsm->alloc, fsm->statecount - 1, state)) {
-- 
2.43.0


From 32fe54ed76ff28ba9772cc58595eea73a30e8658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:09 +0000
Subject: [PATCH 10/80] fix: edge_set_copy: copying an empty (NULL) set into an
 existing set is not an error

---
 src/adt/edgeset.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/adt/edgeset.c b/src/adt/edgeset.c
index 178ddbc..59b09b2 100644
--- a/src/adt/edgeset.c
+++ b/src/adt/edgeset.c
@@ -708,17 +708,16 @@ edge_set_copy(struct edge_set **dst, const struct fsm_alloc *alloc,
 	    (void *)src, (void *)*dst);
 #endif
 
+	if (edge_set_empty(src)) {
+		return 1;	/* nothing to add to *dst, if it exists */
+	}
+
 	if (*dst != NULL) {
 		/* The other `edge_set_copy` copies in the
 		 * edges from src if *dst already exists. */
 		return edge_set_copy_into(dst, alloc, src);
 	}
 
-	if (edge_set_empty(src)) {
-		*dst = NULL;
-		return 1;
-	}
-
 	set = f_malloc(alloc, sizeof(*set));
 	if (set == NULL) {
 		return 0;
-- 
2.43.0


From 484f2ff4234162f3fb268d99fae5359be492a0e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:26 +0000
Subject: [PATCH 11/80] fix: edgeset: don't read past the end of the groups
 when removing one

---
 src/adt/edgeset.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/adt/edgeset.c b/src/adt/edgeset.c
index 59b09b2..f812fd4 100644
--- a/src/adt/edgeset.c
+++ b/src/adt/edgeset.c
@@ -802,7 +802,7 @@ edge_set_remove_state(struct edge_set **pset, fsm_state_t state)
 	while (i < set->count) {
 		const struct edge_group *eg = &set->groups[i];
 		if (eg->to == state) {
-			const size_t to_mv = set->count - i;
+			const size_t to_mv = set->count - i - 1;
 			memmove(&set->groups[i],
 			    &set->groups[i + 1],
 			    to_mv * sizeof(*eg));
@@ -1085,7 +1085,7 @@ edge_set_replace_state(struct edge_set **pset, const struct fsm_alloc *alloc,
 	for (i = 0; i < set->count; i++) {
 		struct edge_group *eg = &set->groups[i];
 		if (eg->to == old) {
-			const size_t to_mv = set->count - i;
+			const size_t to_mv = set->count - i - 1;
 			unsigned char label;
 			if (!find_first_group_label(eg, &label)) {
 				return 1; /* ignore empty group */
-- 
2.43.0


From 483439ece16807c38a11edd4e8d1e5819f195af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:45 +0000
Subject: [PATCH 12/80] fix: fsm_mergestates: merge the states' marks too, and
 output the resulting state's number

---
 src/libfsm/mergestates.c | 84 ++++++++++++++++++++++++++++++++++++----
 1 file changed, 76 insertions(+), 8 deletions(-)

diff --git a/src/libfsm/mergestates.c b/src/libfsm/mergestates.c
index 77d5e2f..6e3d8f3 100644
--- a/src/libfsm/mergestates.c
+++ b/src/libfsm/mergestates.c
@@ -8,7 +8,9 @@
 #include <stdlib.h>
 
 #include <fsm/fsm.h>
+#include <fsm/pred.h>
 
+#include <adt/alloc.h>
 #include <adt/set.h>
 #include <adt/stateset.h>
 #include <adt/edgeset.h>
@@ -19,14 +21,20 @@ int
 fsm_mergestates(struct fsm *fsm, fsm_state_t a, fsm_state_t b,
 	fsm_state_t *q)
 {
-	struct fsm_edge e;
-	struct edge_iter it;
-	fsm_state_t i;
+	fsm_state_t i, start;
 
 	assert(fsm != NULL);
 	assert(a < fsm->statecount);
 	assert(b < fsm->statecount);
 
+	if (a == b) {
+		if (q != NULL) {
+			*q = a;
+		}
+
+		return 1;
+	}
+
 	/* edges from b */
 	if (!state_set_copy(&fsm->states[a].epsilons, fsm->alloc, fsm->states[b].epsilons)) {
 		return 0;
@@ -45,23 +53,83 @@ fsm_mergestates(struct fsm *fsm, fsm_state_t a, fsm_state_t b,
 			}
 		}
 
-		for (edge_set_reset(fsm->states[i].edges, &it); edge_set_next(&it, &e); ) {
-			if (e.state != b) {
-				continue;
+		if (!edge_set_replace_state(&fsm->states[i].edges, fsm->alloc, b, a)) {
+			return 0;
+		}
+	}
+
+	/* marks on b */
+	if (fsm_isend(fsm, b)) {
+		size_t j, n;
+
+		fsm_setend(fsm, a, 1);
+
+		n = fsm_endid_count(fsm, b);
+		if (n > 0) {
+			fsm_end_id_t *ids;
+
+			ids = f_malloc(fsm->alloc, n * sizeof *ids);
+			if (ids == NULL) {
+				return 0;
+			}
+
+			if (!fsm_endid_get(fsm, b, n, ids)) {
+				f_free(fsm->alloc, ids);
+				return 0;
+			}
+
+			for (j = 0; j < n; j++) {
+				if (!fsm_endid_set(fsm, a, ids[j])) {
+					f_free(fsm->alloc, ids);
+					return 0;
+				}
+			}
+
+			f_free(fsm->alloc, ids);
+		}
+	}
+
+	{
+		size_t j, n;
+
+		n = fsm_eager_output_count(fsm, b);
+		if (n > 0) {
+			fsm_output_id_t *ids;
+
+			ids = f_malloc(fsm->alloc, n * sizeof *ids);
+			if (ids == NULL) {
+				return 0;
 			}
 
-			if (!fsm_addedge_literal(fsm, i, a, e.symbol)) {
+			if (!fsm_eager_output_get(fsm, b, n, ids)) {
+				f_free(fsm->alloc, ids);
 				return 0;
 			}
+
+			for (j = 0; j < n; j++) {
+				if (!fsm_eager_output_set(fsm, a, ids[j])) {
+					f_free(fsm->alloc, ids);
+					return 0;
+				}
+			}
+
+			f_free(fsm->alloc, ids);
 		}
+	}
 
-		edge_set_remove_state(&fsm->states[i].edges, b);
+	if (fsm_getstart(fsm, &start) && start == b) {
+		fsm_setstart(fsm, a);
 	}
 
 	if (!fsm_removestate(fsm, b)) {
 		return 0;
 	}
 
+	/* removing a state moves the last one over it */
+	if (a == fsm->statecount) {
+		a = b;
+	}
+
 	if (q != NULL) {
 		*q = a;
 	}
-- 
2.43.0


From 5256e87bbb35c7d7b59b02f7191b94c02c3e0738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:55 +0000
Subject: [PATCH 13/80] fix: fsm_setend: any non-zero value marks an end state

---
 src/libfsm/end.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libfsm/end.c b/src/libfsm/end.c
index 5a4aa0d..c0eb220 100644
--- a/src/libfsm/end.c
+++ b/src/libfsm/end.c
@@ -26,7 +26,7 @@ fsm_setend(struct fsm *fsm, fsm_state_t state, int end)
 		return;
 	}
 
-	switch (end) {
+	switch (!!end) {
 	case 0:
 		assert(fsm->endcount > 0);
 		fsm->endcount--;
-- 
2.43.0


From d46fe5437ad2c43cc1db3fcf044196906902126c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:08 +0000
Subject: [PATCH 14/80] fix: fsm_new_statealloc: don't use the automaton after
 freeing it when an allocation fails

---
 src/libfsm/fsm.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/libfsm/fsm.c b/src/libfsm/fsm.c
index 866650a..d4b88a3 100644
--- a/src/libfsm/fsm.c
+++ b/src/libfsm/fsm.c
@@ -94,17 +94,17 @@ fsm_new_statealloc(const struct fsm_alloc *alloc, size_t statealloc)
 	}
 
 	if (!fsm_endid_init(new)) {
+		fsm_capture_free(new);
 		f_free(new->alloc, new->states);
 		f_free(new->alloc, new);
-		fsm_capture_free(new);
 		return NULL;
 	}
 
 	if (!fsm_eager_output_init(new)) {
+		fsm_endid_free(new);
+		fsm_capture_free(new);
 		f_free(new->alloc, new->states);
 		f_free(new->alloc, new);
-		fsm_capture_free(new);
-		fsm_endid_free(new);
 		return NULL;
 	}
 
-- 
2.43.0


From fc9d3ffe18730b20c7cc6a57145602b2893682c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:08 +0000
Subject: [PATCH 15/80] fix: fsm_addstate: initialise has_capture_actions for
 every new state

---
 src/libfsm/state.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/libfsm/state.c b/src/libfsm/state.c
index 24fe2b6..04c5b71 100644
--- a/src/libfsm/state.c
+++ b/src/libfsm/state.c
@@ -65,6 +65,7 @@ fsm_addstate(struct fsm *fsm, fsm_state_t *state)
 		new->visited  = 0;
 		new->epsilons = NULL;
 		new->edges    = NULL;
+		new->has_capture_actions = 0;
 		new->has_eager_outputs = 0;
 	}
 
@@ -90,6 +91,7 @@ fsm_addstate_bulk(struct fsm *fsm, size_t n)
 			new->visited  = 0;
 			new->epsilons = NULL;
 			new->edges    = NULL;
+			new->has_capture_actions = 0;
 			new->has_eager_outputs = 0;
 		}
 
-- 
2.43.0


From cabd9f6ef99360d7a11d67346ce410bf70fad291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:40 +0000
Subject: [PATCH 16/80] fix: state_set_replace: keep the set in order

---
 src/adt/stateset.c | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/adt/stateset.c b/src/adt/stateset.c
index c2cc8b8..cc82b07 100644
--- a/src/adt/stateset.c
+++ b/src/adt/stateset.c
@@ -662,9 +662,25 @@ state_set_replace(struct state_set **setp, fsm_state_t old, fsm_state_t new)
 		return;
 	}
 
-	for (i = 0; i < set->i; i++) {
-		if (set->a[i] == old) {
-			set->a[i] = new;
-		}
+	if (state_set_empty(set) || old == new) {
+		return;
+	}
+
+	i = state_set_search(set, old);
+	if (i == set->i || set->a[i] != old) {
+		return;
 	}
+
+	/* keep the set in order: take old out, and place new where it belongs */
+	memmove(&set->a[i], &set->a[i + 1], (set->i - i - 1) * (sizeof *set->a));
+	set->i--;
+
+	i = state_set_empty(set) ? 0 : state_set_search(set, new);
+	if (i < set->i && set->a[i] == new) {
+		return;
+	}
+
+	memmove(&set->a[i + 1], &set->a[i], (set->i - i) * (sizeof *set->a));
+	set->a[i] = new;
+	set->i++;
 }
-- 
2.43.0


From e1faa31dde9533c1342f4671648fd58d78cd5e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:22 +0000
Subject: [PATCH 17/80] fix: fsm_trim: an automaton with no states has none
 removed

---
 src/libfsm/trim.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libfsm/trim.c b/src/libfsm/trim.c
index c37965f..2d0ab63 100644
--- a/src/libfsm/trim.c
+++ b/src/libfsm/trim.c
@@ -506,7 +506,7 @@ fsm_trim(struct fsm *fsm, enum fsm_trim_mode mode,
 	assert(fsm != NULL);
 
 	if (fsm->statecount == 0) {
-		return 1;
+		return 0;
 	}
 
 	if (shortest_end_distance != NULL
-- 
2.43.0


From 0291c33c207050b38024dcb3ea98e5894ca762aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:26 +0000
Subject: [PATCH 18/80] fix: fsm_equal, fsm_empty: an automaton without a start
 equals only those which match nothing, and pass errors on

---
 src/libfsm/empty.c |  8 +++++---
 src/libfsm/equal.c | 38 +++++++++++++++++++++++++++++++++++---
 2 files changed, 40 insertions(+), 6 deletions(-)

diff --git a/src/libfsm/empty.c b/src/libfsm/empty.c
index 7039215..f89dbd5 100644
--- a/src/libfsm/empty.c
+++ b/src/libfsm/empty.c
@@ -21,6 +21,7 @@ int
 fsm_empty(const struct fsm *fsm)
 {
 	fsm_state_t start;
+	int r;
 
 	assert(fsm != NULL);
 
@@ -34,10 +35,11 @@ fsm_empty(const struct fsm *fsm)
 	 * Note this includes the empty string (when the start state matches).
 	 */
 
-	if (fsm_reachableany(fsm, start, fsm_isend)) {
-		return 0;
+	r = fsm_reachableany(fsm, start, fsm_isend);
+	if (r == -1) {
+		return -1;
 	}
 
-	return 1;
+	return !r;
 }
 
diff --git a/src/libfsm/equal.c b/src/libfsm/equal.c
index 02489b0..4b4083d 100644
--- a/src/libfsm/equal.c
+++ b/src/libfsm/equal.c
@@ -115,9 +115,26 @@ subsetof(const struct fsm *a, const struct fsm *b)
 	return r;
 }
 
+static int
+matches_nothing(const struct fsm *fsm)
+{
+	fsm_state_t start;
+
+	assert(fsm != NULL);
+
+	/* fsm_empty() would consider this an error */
+	if (!fsm_getstart(fsm, &start)) {
+		return 1;
+	}
+
+	return fsm_empty(fsm);
+}
+
 int
 fsm_equal(const struct fsm *a, const struct fsm *b)
 {
+	int ea, eb, r;
+
 	assert(a != NULL);
 	assert(b != NULL);
 
@@ -126,8 +143,18 @@ fsm_equal(const struct fsm *a, const struct fsm *b)
 		return -1;
 	}
 
-	if (fsm_empty(a) && fsm_empty(b)) {
-		return 1;
+	ea = matches_nothing(a);
+	if (ea == -1) {
+		return -1;
+	}
+
+	eb = matches_nothing(b);
+	if (eb == -1) {
+		return -1;
+	}
+
+	if (ea || eb) {
+		return ea && eb;
 	}
 
 	/*
@@ -136,6 +163,11 @@ fsm_equal(const struct fsm *a, const struct fsm *b)
 	 * This is equivalent finding that (a \ b) \u (b \ a) is empty.
 	 */
 
-	return subsetof(a, b) && subsetof(b, a);
+	r = subsetof(a, b);
+	if (r != 1) {
+		return r;
+	}
+
+	return subsetof(b, a);
 }
 
-- 
2.43.0


From 7c4b684788f3c26d54cee4307f3961c9df355044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:26 +0000
Subject: [PATCH 19/80] fix: fsm_findmode: return no mode when no two edges
 share a destination, rather than assert

---
 include/fsm/fsm.h     |  4 ++--
 src/libfsm/mode.c     | 12 +++++++-----
 src/libfsm/print/ir.c |  6 +++---
 3 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/include/fsm/fsm.h b/include/fsm/fsm.h
index a811c16..79e2920 100644
--- a/include/fsm/fsm.h
+++ b/include/fsm/fsm.h
@@ -169,8 +169,8 @@ fsm_addedge_literal(struct fsm *fsm, fsm_state_t from, fsm_state_t to,
  * If non-NULL, the mode's frequency is written out to the freq pointer.
  *
  * A target state is only considered as a mode if it has more than one occurance.
- * Returns NULL if there is no mode (e.g. the given state has no edges),
- * and *freq is unchanged.
+ * Returns (fsm_state_t) -1 if there is no mode (e.g. the given state has
+ * no edges), and *freq is unchanged.
  */
 fsm_state_t
 fsm_findmode(const struct fsm *fsm, fsm_state_t state, unsigned int *freq);
diff --git a/src/libfsm/mode.c b/src/libfsm/mode.c
index 87af0bd..b65b706 100644
--- a/src/libfsm/mode.c
+++ b/src/libfsm/mode.c
@@ -27,7 +27,7 @@ fsm_findmode(const struct fsm *fsm, fsm_state_t state, unsigned int *freq)
 		unsigned int freq;
 	} mode;
 
-	mode.freq = 1;
+	mode.freq = 1; /* a mode must have more than one occurance */
 	mode.state = (fsm_state_t)-1;
 
 	edge_set_group_iter_reset(fsm->states[state].edges, EDGE_GROUP_ITER_ALL, &iter);
@@ -43,13 +43,15 @@ fsm_findmode(const struct fsm *fsm, fsm_state_t state, unsigned int *freq)
 		}
 	}
 
+	/* no mode: no edges, or no two edges share a destination */
+	if (mode.state == (fsm_state_t)-1) {
+		return mode.state;
+	}
+
 	if (freq != NULL) {
 		*freq = mode.freq;
 	}
 
-	/* It's not meaningful to call this on a state without edges. */
-	assert(mode.state != (fsm_state_t)-1);
-
-	assert(mode.freq >= 1);
+	assert(mode.freq > 1);
 	return mode.state;
 }
diff --git a/src/libfsm/print/ir.c b/src/libfsm/print/ir.c
index d8e29b2..95faaf0 100644
--- a/src/libfsm/print/ir.c
+++ b/src/libfsm/print/ir.c
@@ -348,11 +348,11 @@ make_state(const struct fsm *fsm, fsm_state_t state,
 		}
 	}
 
+	mode.state = 0; /* XXX: dummy */
+	mode.freq = 0;
+
 	if (fsm_iscomplete(fsm, state)) {
 		mode.state = fsm_findmode(fsm, state, &mode.freq);
-	} else {
-		mode.state = 0; /* XXX: dummy */
-		mode.freq = 0;
 	}
 
 	assert(mode.freq == 0 || mode.state < fsm->statecount);
-- 
2.43.0


From 5888e0dbbea67259debb10deb106e3a55982c62c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:26 +0000
Subject: [PATCH 20/80] fix: fsm_generate_matches: begin from where trimming
 left the start state

---
 src/libfsm/gen.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/libfsm/gen.c b/src/libfsm/gen.c
index 8b85514..db46f08 100644
--- a/src/libfsm/gen.c
+++ b/src/libfsm/gen.c
@@ -323,6 +323,13 @@ gen_init(struct gen_ctx *ctx, struct fsm *fsm)
 		ctx->state_counts[i] = NO_COUNT;
 	}
 
+	/* Trimming renumbers states, and removes the start state
+	 * if no end state is reachable from it. */
+	if (!fsm_getstart(ctx->fsm, &start)) {
+		ctx->done = true;
+		return true;
+	}
+
 	if (!enter_state(ctx, start)) {
 		return false;
 	}
-- 
2.43.0


From 718639d3314cb284e76046a9bbf4e32b448bb3aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:26 +0000
Subject: [PATCH 21/80] fix: fsm_shortest: least cost over every symbol, from
 the given start, and never the goal when it is unreachable

---
 src/libfsm/shortest.c | 31 +++++++++++++------------------
 1 file changed, 13 insertions(+), 18 deletions(-)

diff --git a/src/libfsm/shortest.c b/src/libfsm/shortest.c
index 45a441a..8297126 100644
--- a/src/libfsm/shortest.c
+++ b/src/libfsm/shortest.c
@@ -37,8 +37,6 @@ fsm_shortest(const struct fsm *fsm,
 	assert(goal < fsm->statecount);
 	assert(cost != NULL);
 
-	(void)start; /* unused */
-
 	/*
 	 * We find a least-cost ("shortest") path by Dijkstra's algorithm.
 	 *
@@ -64,16 +62,11 @@ fsm_shortest(const struct fsm *fsm,
 	path = NULL;
 
 	{
-		fsm_state_t qs, i;
-
-		if (!fsm_getstart(fsm, &qs)) {
-			errno = EINVAL;
-			goto error;
-		}
+		fsm_state_t i;
 
 		for (i = 0; i < fsm->statecount; i++) {
 			u = priq_push(fsm->alloc, &todo, i,
-				i == qs ? 0 : FSM_COST_INFINITY);
+				i == start ? 0 : FSM_COST_INFINITY);
 			if (u == NULL) {
 				goto error;
 			}
@@ -82,7 +75,7 @@ fsm_shortest(const struct fsm *fsm,
 			 * It's non-sensical to describe the start state as being reached
 			 * by a symbol; this field is not used.
 			 */
-			if (i == qs) {
+			if (i == start) {
 				u->c = '\0';
 			}
 		}
@@ -119,22 +112,24 @@ fsm_shortest(const struct fsm *fsm,
 
 			assert(v->state == info.to);
 
-			/* find first character in bitset. */
-			for (size_t i = 0; i < 4 && symbol == (unsigned)-1; i++) {
+			/* find the least-cost character in bitset. */
+			c = FSM_COST_INFINITY;
+			for (size_t i = 0; i < 4; i++) {
 				const uint64_t w = info.symbols[i];
 				if (w != 0) {
 					for (size_t bit = 0; bit < 64; bit++) {
 						if (u64bitset_get(&w, bit)) {
-							symbol = 64*i + bit;
-							break;
+							const unsigned sc = cost(u->state, v->state, (char)(64*i + bit));
+							if (symbol == (unsigned)-1 || sc < c) {
+								symbol = 64*i + bit;
+								c = sc;
+							}
 						}
 					}
 				}
 			}
 			assert(symbol != (unsigned)-1); /* found */
 
-			c = cost(u->state, v->state, (char)symbol);
-
 			/* relax */
 			if (v->cost > u->cost + c) {
 				v->cost = u->cost + c;
@@ -167,11 +162,11 @@ none:
 	 * This is slightly ugly: the idea is to return something non-NULL here;
 	 * so that the caller may distinguish this case from error.
 	 *
-	 * The state u is used just because it may never be the goal state,
+	 * The start state is used just because it may never be the goal state,
 	 * (otherwise we would have been able to reach it).
 	 */
 
-	if (!path_push(fsm->alloc, &path, u->state, u->c)) {
+	if (!path_push(fsm->alloc, &path, start, '\0')) {
 		goto error;
 	}
 
-- 
2.43.0


From b224aeb3fc858dc0d5a9b8371b4a0d15fb0d73a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:31 +0000
Subject: [PATCH 22/80] fix: fsm_vm_match_file: an empty file matches where the
 empty string does

---
 src/libfsm/vm.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/libfsm/vm.c b/src/libfsm/vm.c
index 0eb4fa1..a55b6ca 100644
--- a/src/libfsm/vm.c
+++ b/src/libfsm/vm.c
@@ -198,18 +198,19 @@ fsm_vm_match_file(const struct fsm_dfavm *vm, FILE *f)
 		size_t nb;
 
 		nb = fread(buf, 1, sizeof buf, f);
-		if (nb == 0) {
-			break;
+		if (nb == 0 && ferror(f)) {
+			return 0;
 		}
 
+		/* run for empty input too, to reach the first fetch */
 		result = vm_match(vm, &st, buf, nb);
 		if (result != VM_MATCHING) {
 			return result == VM_SUCCESS;
 		}
-	}
 
-	if (ferror(f)) {
-		return 0;
+		if (nb == 0) {
+			break;
+		}
 	}
 
 	return vm_end(vm, &st) == VM_SUCCESS;
-- 
2.43.0


From 379a41c28cf9cccb38ec075e131c2c79f1a6085d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:18 +0000
Subject: [PATCH 23/80] fix: translate states which are complete without a
 prevailing destination to bytecode

---
 src/libfsm/vm/ir.c | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/src/libfsm/vm/ir.c b/src/libfsm/vm/ir.c
index 4930f4b..f28dff1 100644
--- a/src/libfsm/vm/ir.c
+++ b/src/libfsm/vm/ir.c
@@ -690,6 +690,25 @@ dfa_table_init(struct dfa_table *table, long default_dest, const struct ir_state
 	}
 }
 
+static int
+initial_translate_complete(struct dfavm_assembler_ir *a, const struct ret_list *retlist,
+	struct ir_state *st, struct dfavm_op_ir **opp)
+{
+	struct dfa_table table;
+	size_t i, ngrps;
+
+	assert(st->strategy == IR_COMPLETE);
+
+	dfa_table_init(&table, -1, st);
+
+	ngrps = st->u.complete.n;
+	for (i=0; i < ngrps; i++) {
+		group_to_table(&table, &st->u.complete.groups[i]);
+	}
+
+	return initial_translate_table(a, retlist, &table, opp);
+}
+
 static int
 initial_translate_partial(struct dfavm_assembler_ir *a, const struct ret_list *retlist,
 	struct ir_state *st, struct dfavm_op_ir **opp)
@@ -780,13 +799,17 @@ initial_translate_state(struct dfavm_assembler_ir *a, const struct ir *ir,
 		opp = &(*opp)->next;
 		break;
 
-	case IR_COMPLETE:
-		/* groups should be sorted */
-
 	/* _currently_ expand these into a table and build the
 	 * transitions off of the table.  We can do this more
 	 * intelligently.
 	 */
+	case IR_COMPLETE:
+		/* groups should be sorted */
+		if (initial_translate_complete(a, retlist, st, opp) < 0) {
+			return NULL;
+		}
+		break;
+
 	case IR_PARTIAL:
 		if (initial_translate_partial(a, retlist, st, opp) < 0) {
 			return NULL;
-- 
2.43.0


From 6a1f46d373a2ef449aac7c67c23cb695541ccc71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:16 +0000
Subject: [PATCH 24/80] fix: vmc: don't compare past a string's end for
 literals containing NUL

---
 src/libfsm/print/vmc.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/libfsm/print/vmc.c b/src/libfsm/print/vmc.c
index b427a9c..e86dfa1 100644
--- a/src/libfsm/print/vmc.c
+++ b/src/libfsm/print/vmc.c
@@ -238,6 +238,7 @@ print_fetch(FILE *f, const struct fsm_options *opt)
 
 static size_t
 walk_sequence(struct dfavm_op_ir *op,
+	enum fsm_io io,
 	enum dfavm_op_end *end_bits,
 	char *buf, size_t len,
 	struct dfavm_op_ir **tail)
@@ -298,6 +299,11 @@ walk_sequence(struct dfavm_op_ir *op,
 		if (op->u.stop.end_bits != *end_bits) {
 			goto unsuitable;
 		}
+
+		/* strncmp() would stop here */
+		if (io == FSM_IO_STR && op->cmp_arg == '\0') {
+			goto unsuitable;
+		}
 	}
 
 	if (n >= len) {
@@ -350,6 +356,10 @@ walk_sequence(struct dfavm_op_ir *op,
 			if (op->u.stop.end_bits != *end_bits) {
 				break;
 			}
+
+			if (io == FSM_IO_STR && op->cmp_arg == '\0') {
+				break;
+			}
 		}
 
 		if (n >= len) {
@@ -462,7 +472,7 @@ fsm_print_cfrag(FILE *f,
 
 			char buf[8192];
 
-			n = walk_sequence(op, &end_bits, buf, sizeof buf, &tail);
+			n = walk_sequence(op, opt->io, &end_bits, buf, sizeof buf, &tail);
 
 			if (n > 1 && opt->io == FSM_IO_PAIR) {
 				fprintf(f, "if (e - p < %zu || 0 != memcmp(p, \"", n);
-- 
2.43.0


From 2e6b0d727541e0d39f3541a35ad25100eeea1683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:16 +0000
Subject: [PATCH 25/80] fix: print code for automata whose start state always
 accepts, where other states remain

---
 src/libfsm/print/go.c   | 4 +---
 src/libfsm/print/rust.c | 3 +--
 src/libfsm/print/vmc.c  | 4 +---
 3 files changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/libfsm/print/go.c b/src/libfsm/print/go.c
index 1f6b7a0..6e8382c 100644
--- a/src/libfsm/print/go.c
+++ b/src/libfsm/print/go.c
@@ -297,9 +297,7 @@ fsm_print_gofrag(FILE *f,
 	/*
 	 * Only declare variables if we're actually going to use them.
 	 */
-	if (ops->cmp == VM_CMP_ALWAYS && ops->instr == VM_OP_STOP) {
-		assert(ops->next == NULL);
-	} else {
+	if (ops->cmp != VM_CMP_ALWAYS || ops->instr != VM_OP_STOP || ops->next != NULL) {
 		switch (opt->io) {
 		case FSM_IO_PAIR:
 			if (ops != NULL) {
diff --git a/src/libfsm/print/rust.c b/src/libfsm/print/rust.c
index c1fcf5b..9a9cc7b 100644
--- a/src/libfsm/print/rust.c
+++ b/src/libfsm/print/rust.c
@@ -280,8 +280,7 @@ fsm_print_rustfrag(FILE *f,
 	/*
 	 * Only declare variables if we're actually going to use them.
 	 */
-	if (ops->cmp == VM_CMP_ALWAYS && ops->instr == VM_OP_STOP) {
-		assert(ops->next == NULL);
+	if (ops->cmp == VM_CMP_ALWAYS && ops->instr == VM_OP_STOP && ops->next == NULL) {
 		fprintf(f, "\n");
 	} else {
 		switch (opt->io) {
diff --git a/src/libfsm/print/vmc.c b/src/libfsm/print/vmc.c
index e86dfa1..f97b02c 100644
--- a/src/libfsm/print/vmc.c
+++ b/src/libfsm/print/vmc.c
@@ -424,9 +424,7 @@ fsm_print_cfrag(FILE *f,
 	/*
 	 * Only declare variables if we're actually going to use them.
 	 */
-	if (ops->cmp == VM_CMP_ALWAYS && ops->instr == VM_OP_STOP) {
-		assert(ops->next == NULL);
-	} else {
+	if (ops->cmp != VM_CMP_ALWAYS || ops->instr != VM_OP_STOP || ops->next != NULL) {
 		switch (opt->io) {
 		case FSM_IO_GETC:
 			fprintf(f, "\tint c;\n");
-- 
2.43.0


From 4768581361477294c39a1b5d4657706ec87c07b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:50 +0000
Subject: [PATCH 26/80] fix: go: print the return type for AMBIG_MULTIPLE to
 the given file, not stdout

---
 src/libfsm/print/go.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libfsm/print/go.c b/src/libfsm/print/go.c
index 6e8382c..e6a94a3 100644
--- a/src/libfsm/print/go.c
+++ b/src/libfsm/print/go.c
@@ -442,7 +442,7 @@ fsm_print_go(FILE *f,
 			break;
 
 		case AMBIG_MULTIPLE:
-			fprintf(stdout, "(bool, []uint)");
+			fprintf(f, "(bool, []uint)");
 			break;
 
 		default:
-- 
2.43.0


From 14bf3d9cbd1cdf00e1da3ba45ef7d93172ae888d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:02 +0000
Subject: [PATCH 27/80] fix: awk: quote every character as a string, and escape
 the double quote

---
 src/print/awk.c | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/print/awk.c b/src/print/awk.c
index ff3bf5d..600896e 100644
--- a/src/print/awk.c
+++ b/src/print/awk.c
@@ -6,7 +6,6 @@
 
 #include <ctype.h>
 #include <assert.h>
-#include <limits.h>
 #include <stdlib.h>
 #include <stdio.h>
 
@@ -27,7 +26,7 @@ awk_escputc_char(FILE *f, const struct fsm_options *opt, char c)
 
 	switch (c) {
 	case '\\': return fputs("\\\\", f);
-	case '\'': return fputs("\\\'", f);
+	case '\"': return fputs("\\\"", f);
 
 	case '\a': return fputs("\\a", f);
 	case '\b': return fputs("\\b", f);
@@ -54,10 +53,7 @@ awk_escputcharlit(FILE *f, const struct fsm_options *opt, char c)
 	assert(f != NULL);
 	assert(opt != NULL);
 
-	if (opt->always_hex || (unsigned char) c > SCHAR_MAX) {
-		return fprintf(f, "0x%02x", (unsigned char) c);
-	}
-
+	/* always a string; comparing to a number would be numeric, or by its digits */
 	fprintf(f, "\"");
 	awk_escputc_char(f, opt, c);
 	fprintf(f, "\"");
-- 
2.43.0


From 0b41866567dbcdb8c02231595ef9bcfab7d8bdb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:24 +0000
Subject: [PATCH 28/80] fix: nasm: write hex constants so that they always
 begin with a digit

---
 src/libfsm/print/vmasm.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libfsm/print/vmasm.c b/src/libfsm/print/vmasm.c
index bf55514..ae09850 100644
--- a/src/libfsm/print/vmasm.c
+++ b/src/libfsm/print/vmasm.c
@@ -241,7 +241,7 @@ print_asm_amd64(FILE *f,
 							break;
 
 						case AMD64_NASM:
-							fprintf(f, "\tCMP   %s,%02xh\n", chr_reg, (unsigned)op->cmp_arg);
+							fprintf(f, "\tCMP   %s,0x%02x\n", chr_reg, (unsigned)op->cmp_arg);
 							break;
 
 						case AMD64_GO:
@@ -311,7 +311,7 @@ print_asm_amd64(FILE *f,
 						break;
 
 					case AMD64_NASM:
-						fprintf(f, "\tCMP   %s, %02xh\n", chr_reg, (unsigned)op->cmp_arg);
+						fprintf(f, "\tCMP   %s, 0x%02x\n", chr_reg, (unsigned)op->cmp_arg);
 						break;
 
 					case AMD64_GO:
-- 
2.43.0


From 8b04ddbd0f6b2a5806761fbd9baecb894b98b489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:24 +0000
Subject: [PATCH 29/80] fix: sh: label the first instruction when it is a
 branch target, escape the single quote, and read newlines

---
 src/libfsm/print/sh.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/libfsm/print/sh.c b/src/libfsm/print/sh.c
index 5322e4f..774d475 100644
--- a/src/libfsm/print/sh.c
+++ b/src/libfsm/print/sh.c
@@ -179,7 +179,7 @@ print_cond(FILE *f, const struct dfavm_op_ir *op)
 			fprintf(f, " || $c %s ''", str_operator(VM_CMP_EQ));
 		}
 	} else if (c == '\'') {
-		fprintf(f, "$c %s \'", str_operator(op->cmp));
+		fprintf(f, "$c %s \\'", str_operator(op->cmp));
 		if (op->cmp == VM_CMP_LE || op->cmp == VM_CMP_GE) {
 			fprintf(f, " || $c %s \\'", str_operator(VM_CMP_EQ));
 		}
@@ -242,7 +242,7 @@ print_branch(FILE *f, const struct dfavm_op_ir *op)
 static void
 print_fetch(FILE *f)
 {
-	fprintf(f, "read -rn 1 c || ");
+	fprintf(f, "read -rN 1 c || ");
 }
 
 int
@@ -298,9 +298,7 @@ fsm_print_sh(FILE *f,
 
 	for (op = ops; op != NULL; op = op->next) {
 		if (op->num_incoming > 0) {
-			if (op != ops) {
-				fprintf(f, "\t\t;&\n");
-			}
+			fprintf(f, "\t\t;&\n");
 
 			fprintf(f, "\t");
 			print_label(f, op, opt);
-- 
2.43.0


From 3c1ca5d067e60df1bdffb94e047a1b4bd525c9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:31 +0000
Subject: [PATCH 30/80] fix: go: declare the index only where there's something
 to fetch

---
 src/libfsm/print/go.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/libfsm/print/go.c b/src/libfsm/print/go.c
index e6a94a3..9baeaa8 100644
--- a/src/libfsm/print/go.c
+++ b/src/libfsm/print/go.c
@@ -258,6 +258,20 @@ print_ret(FILE *f, const unsigned *ids, size_t count)
 	fprintf(f, "}");
 }
 
+static int
+has_op(const struct dfavm_op_ir *ops, enum dfavm_op_instr instr)
+{
+	const struct dfavm_op_ir *op;
+
+	for (op = ops; op != NULL; op = op->next) {
+		if (op->instr == instr) {
+			return 1;
+		}
+	}
+
+	return 0;
+}
+
 /* TODO: eventually to be non-static */
 static int
 fsm_print_gofrag(FILE *f,
@@ -297,7 +311,7 @@ fsm_print_gofrag(FILE *f,
 	/*
 	 * Only declare variables if we're actually going to use them.
 	 */
-	if (ops->cmp != VM_CMP_ALWAYS || ops->instr != VM_OP_STOP || ops->next != NULL) {
+	if (has_op(ops, VM_OP_FETCH)) {
 		switch (opt->io) {
 		case FSM_IO_PAIR:
 			if (ops != NULL) {
-- 
2.43.0


From f9a156bb41c33a192cfd67f8a1ee6862f2c3354c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:31 +0000
Subject: [PATCH 31/80] fix: llvm: print a NUL byte in hex as a constant

---
 src/print/llvm.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/print/llvm.c b/src/print/llvm.c
index ab0c697..63fc48b 100644
--- a/src/print/llvm.c
+++ b/src/print/llvm.c
@@ -22,7 +22,7 @@ llvm_escputc_char(FILE *f, const struct fsm_options *opt, char c)
 	assert(opt != NULL);
 
 	if (opt->always_hex) {
-		return fprintf(f, "u%#02x", (unsigned char) c);
+		return fprintf(f, "u0x%02x", (unsigned char) c);
 	}
 
 	return fprintf(f, "%u", (unsigned char) c);
@@ -35,7 +35,7 @@ llvm_escputcharlit(FILE *f, const struct fsm_options *opt, char c)
 	assert(opt != NULL);
 
 	if (opt->always_hex || (unsigned char) c > SCHAR_MAX) {
-		fprintf(f, "u%#02x", (unsigned char) c);
+		fprintf(f, "u0x%02x", (unsigned char) c);
 		return;
 	}
 
-- 
2.43.0


From e2d8d82f6943cc2a7ca4f26564e23eda6bf38c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:31 +0000
Subject: [PATCH 32/80] fix: rust: terminate a return statement when
 unreachable instructions follow it

---
 src/libfsm/print/rust.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libfsm/print/rust.c b/src/libfsm/print/rust.c
index 9a9cc7b..8a8ca16 100644
--- a/src/libfsm/print/rust.c
+++ b/src/libfsm/print/rust.c
@@ -380,6 +380,10 @@ fsm_print_rustfrag(FILE *f,
 			}
 
 			if (op->cmp == VM_CMP_ALWAYS) {
+				if (op->next != NULL && op->next->num_incoming == 0) {
+					fprintf(f, ";");
+				}
+
 				/* the code for fallthrough would be unreachable */
 				fallthrough = false;
 			}
-- 
2.43.0


From 6d5c10d06fb4704d068b655503bdfb77cc42615c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:27 +0000
Subject: [PATCH 33/80] fix: api: balance the parentheses, and print the end
 ids rather than their positions

---
 src/libfsm/print/api.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libfsm/print/api.c b/src/libfsm/print/api.c
index 43b8cb2..fdf0705 100644
--- a/src/libfsm/print/api.c
+++ b/src/libfsm/print/api.c
@@ -126,7 +126,7 @@ fsm_print_api(FILE *f,
 	fprintf(f, "\t\t}\n");
 	fprintf(f, "\n");
 
-	fprintf(f, "\t\tif (!fsm_addstate(fsm, &s[i]) {\n");
+	fprintf(f, "\t\tif (!fsm_addstate(fsm, &s[i])) {\n");
 	fprintf(f, "\t\t\treturn 0;\n");
 	fprintf(f, "\t\t}\n");
 
@@ -154,7 +154,7 @@ fsm_print_api(FILE *f,
 
 			fprintf(f, "\tif (fsm_isend(fsm, s[%u])) {\n", end);
 			for (size_t id = 0; id < count; id++) {
-				fprintf(f, "\t\tif (!fsm_endid_set(fsm, s[%u], %zu)) { return 0; }\n", end, id);
+				fprintf(f, "\t\tif (!fsm_endid_set(fsm, s[%u], %u)) { return 0; }\n", end, ids[id]);
 			}
 			fprintf(f, "\t}\n");
 			fprintf(f, "\n");
-- 
2.43.0


From 5d0b7ee0d52149222c4353e862999f6b53c39a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:36 +0000
Subject: [PATCH 34/80] fix: bm_print: don't skip the byte after a range
 brought down, or 0xff at the end of a range

---
 src/adt/bitmap.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/adt/bitmap.c b/src/adt/bitmap.c
index 1fb0160..e635972 100644
--- a/src/adt/bitmap.c
+++ b/src/adt/bitmap.c
@@ -171,11 +171,8 @@ bm_print(FILE *f, const struct fsm_options *opt, const struct bm *bm,
 			break;
 		}
 
-		/* end of range */
+		/* one past the end of range */
 		hi = bm_next(bm, lo, mode == MODE_INVERT);
-		if (hi > UCHAR_MAX && lo < UCHAR_MAX) {
-			hi = UCHAR_MAX;
-		}
 
 		if (!isalnum((unsigned char) lo) && isalnum((unsigned char) hi)) {
 			r = escputc(f, opt, lo);
@@ -247,6 +244,9 @@ bm_print(FILE *f, const struct fsm_options *opt, const struct bm *bm,
 				return -1;
 			}
 			n += r;
+
+			/* the endpoint may have been brought down, in which case hi is yet to be printed */
+			hi--;
 			break;
 		}
 	}
-- 
2.43.0


From 76341813328c2a2aab065ee262f49a7a08f1b58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:36 +0000
Subject: [PATCH 35/80] fix: bm_count: don't read past the end of the bitmap

---
 src/adt/bitmap.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/adt/bitmap.c b/src/adt/bitmap.c
index e635972..fb5fe78 100644
--- a/src/adt/bitmap.c
+++ b/src/adt/bitmap.c
@@ -82,7 +82,7 @@ bm_count(const struct bm *bm)
 
 	count = 0;
 
-	for (n = 0; n < sizeof(sizeof(bm->map)/sizeof(bm->map[0])); n++) {
+	for (n = 0; n < sizeof(bm->map)/sizeof(bm->map[0]); n++) {
 		count += u64bitset_popcount(bm->map[n]);
 	}
 
-- 
2.43.0


From 7e17de8a13972921b01ccbf28019467f7569e8e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:03 +0000
Subject: [PATCH 36/80] fix: fsm_example: truncate where the buffer ends,
 rather than leaving out escapes

---
 src/libfsm/example.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/libfsm/example.c b/src/libfsm/example.c
index 9b30ad9..30b6172 100644
--- a/src/libfsm/example.c
+++ b/src/libfsm/example.c
@@ -78,6 +78,9 @@ fsm_example(const struct fsm *fsm, fsm_state_t goal,
 				*buf++ = hx[3];
 
 				bufsz -= 4;
+			} else if (bufsz > 1) {
+				/* truncate here; nothing after this fits */
+				bufsz = 1;
 			}
 
 			n += 4;
-- 
2.43.0


From f4e23e7cda23a73738acf2cede68af2b58940f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:46 +0000
Subject: [PATCH 37/80] fix: make_example: allow for escapes, so that examples
 aren't cut short

---
 src/libfsm/print/ir.c | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/libfsm/print/ir.c b/src/libfsm/print/ir.c
index 95faaf0..e3fbcdb 100644
--- a/src/libfsm/print/ir.c
+++ b/src/libfsm/print/ir.c
@@ -448,13 +448,13 @@ make_example(const struct fsm *fsm, fsm_state_t s, char **example)
 		return 1;
 	}
 
-	count = fsm_countstates(fsm);
-
 	/*
-	 * Example lengths are approximately proportional to the number of states,
-	 * and shorter where the graph branches often.
+	 * The shortest path visits each state at most once, and each symbol
+	 * is at most 4 characters when escaped.
 	 */
-	p = f_malloc(fsm->alloc, count + 3 + 1);
+	count = fsm_countstates(fsm) * 4;
+
+	p = f_malloc(fsm->alloc, count + 1);
 	if (p == NULL) {
 		return 0;
 	}
@@ -480,7 +480,7 @@ make_example(const struct fsm *fsm, fsm_state_t s, char **example)
 	if (n == 0) {
 		f_free(fsm->alloc, p);
 		p = NULL;
-	} else if ((size_t) n < count + 1) {
+	} else {
 		char *tmp;
 
 		tmp = f_realloc(fsm->alloc, p, strlen(p) + 1);
@@ -489,8 +489,6 @@ make_example(const struct fsm *fsm, fsm_state_t s, char **example)
 		}
 
 		p = tmp;
-	} else if ((size_t) n > count + 1) {
-		strcpy(p + count, "...");
 	}
 
 done:
-- 
2.43.0


From aecf36c6a7a561c0ed14ac3d3418bdd8d82ed433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:30 +0000
Subject: [PATCH 38/80] fix: fsm_parse: end ids are decimal, as they're printed

---
 src/libfsm/parser.act | 2 +-
 src/libfsm/parser.c   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libfsm/parser.act b/src/libfsm/parser.act
index 2596c3c..7b9d4f5 100644
--- a/src/libfsm/parser.act
+++ b/src/libfsm/parser.act
@@ -258,7 +258,7 @@
 
 		errno = 0;
 
-		u = strtoul(lex_state->buf.a, &e, 16);
+		u = strtoul(lex_state->buf.a, &e, 10);
 
 		if ((u == ULONG_MAX && errno == ERANGE) || u > FSM_END_ID_MAX) {
 			err(lex_state, "end id %s out of range: expected 0..%u inclusive",
diff --git a/src/libfsm/parser.c b/src/libfsm/parser.c
index ec9bf4f..2d90b41 100644
--- a/src/libfsm/parser.c
+++ b/src/libfsm/parser.c
@@ -1305,7 +1305,7 @@ p_xend_C_Cend_Hid(fsm fsm, lex_state lex_state, act_state act_state, state ZIs)
 
 		errno = 0;
 
-		u = strtoul(lex_state->buf.a, &e, 16);
+		u = strtoul(lex_state->buf.a, &e, 10);
 
 		if ((u == ULONG_MAX && errno == ERANGE) || u > FSM_END_ID_MAX) {
 			err(lex_state, "end id %s out of range: expected 0..%u inclusive",
-- 
2.43.0


From b945847552466703ab177cecca9ade8a882bd776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:06 +0000
Subject: [PATCH 39/80] fix: fsm_print_fsm: print the end states of an
 automaton without a start

---
 src/libfsm/print/fsm.c | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/libfsm/print/fsm.c b/src/libfsm/print/fsm.c
index 0275315..e5913de 100644
--- a/src/libfsm/print/fsm.c
+++ b/src/libfsm/print/fsm.c
@@ -321,16 +321,14 @@ fsm_print_fsm(FILE *f,
 
 	fprintf(f, "\n");
 
-	if (!fsm_getstart(fsm, &start)) {
-		goto done;
+	if (fsm_getstart(fsm, &start)) {
+		fprintf(f, "start: %u;\n", start);
 	}
 
-	fprintf(f, "start: %u;\n", start);
-
 	end = fsm->endcount;
 
 	if (end == 0) {
-		goto done;
+		return 0;
 	}
 
 	fprintf(f, "end:   ");
@@ -387,8 +385,6 @@ fsm_print_fsm(FILE *f,
 		fprintf(f, "%s", end > 0 ? ", " : ";\n");
 	}
 
-done:
-
 	return 0;
 }
 
-- 
2.43.0


From 81eb72ee7f1b73df426ce7626720775c3174d9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:25 +0000
Subject: [PATCH 40/80] fix: PCRE dialect: '(*' and '(*)' are not empty
 patterns

The lexer skipped '(*' without emitting a token, so that an unterminated or
empty verb was silently read as nothing.
---
 src/libre/dialect/pcre/lexer.c  | 5 ++---
 src/libre/dialect/pcre/lexer.lx | 2 +-
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/libre/dialect/pcre/lexer.c b/src/libre/dialect/pcre/lexer.c
index da8f825..d2c4791 100644
--- a/src/libre/dialect/pcre/lexer.c
+++ b/src/libre/dialect/pcre/lexer.c
@@ -2486,7 +2486,7 @@ z7(struct lx_pcre_lx *lx)
 			break;
 
 		case S18: /* e.g. "(*" */
-			lx_pcre_ungetc(lx, c); lx_pcre_dynpop(lx->buf_opaque); return lx->z = z6, lx->z(lx);
+			lx_pcre_ungetc(lx, c); lx_pcre_dynpop(lx->buf_opaque); return lx->z = z6, TOK_UNSUPPORTED;
 
 		case S19: /* e.g. "(\077#" */
 			lx_pcre_ungetc(lx, c); lx_pcre_dynpop(lx->buf_opaque); return lx->z = z5, lx->z(lx);
@@ -2913,7 +2913,7 @@ z7(struct lx_pcre_lx *lx)
 	case S15: return TOK_START;
 	case S16: return TOK_CLOSE;
 	case S17: return lx->z = z4, TOK_FLAGS;
-	case S18: return lx->z = z6, lx->z(lx);
+	case S18: return lx->z = z6, TOK_UNSUPPORTED;
 	case S19: return lx->z = z5, lx->z(lx);
 	case S21: return TOK_UNSUPPORTED;
 	case S24: return TOK_OPENCAPTURE;
@@ -2943,7 +2943,6 @@ z7(struct lx_pcre_lx *lx)
 	}
 
 		switch (state) {
-		case S18:
 		case S19:
 		case S29:
 		case S32:
diff --git a/src/libre/dialect/pcre/lexer.lx b/src/libre/dialect/pcre/lexer.lx
index 17e3148..01f34ec 100644
--- a/src/libre/dialect/pcre/lexer.lx
+++ b/src/libre/dialect/pcre/lexer.lx
@@ -149,7 +149,7 @@
 '(?<!' -> $unsupported;
 
 # various backtracking control things that aren't supported
-'(*' .. ')' {
+'(*' -> $unsupported .. ')' {
 	# PCRE2, taking from Perl 5.28
 	'positive_lookahead:'  -> $unsupported;
 	'negative_lookahead:'  -> $unsupported;
-- 
2.43.0


From 09321b075214914b5829a1bbbd9b22512b0b55ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:03 +0000
Subject: [PATCH 41/80] fix: do not assert on nested finite repetitions such as
 (?:a{2}){3}

The assertion does not hold for every pair of finite ranges, and nothing
depends on it: a pair which isn't combined is left as it was.
---
 src/libre/ast_rewrite.c | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/src/libre/ast_rewrite.c b/src/libre/ast_rewrite.c
index 592dd58..4b976ed 100644
--- a/src/libre/ast_rewrite.c
+++ b/src/libre/ast_rewrite.c
@@ -490,16 +490,6 @@ rewrite_repeat(struct ast_expr_pool **poolp, struct ast_expr *n, enum re_flags f
 			return 1;
 		}
 
-		/*
-		 * a{h,i}{j,k} is equivalent to a{h*j,i*k} if it's possible to combine,
-		 * and it's possible iff the range of the result is not more than
-		 * the sum of the ranges of the two inputs.
-		 */
-		if (i != AST_COUNT_UNBOUNDED && k != AST_COUNT_UNBOUNDED) {
-			/* I don't know why this is true */
-			assert(w - v > i - h + k - j);
-		}
-
 		/*
 		 * a{h,}{j,}
 		 * a{h,i}{j,}
-- 
2.43.0


From 3a7f76268344361fa6fb389f898ae01bc4ed2c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:16 +0000
Subject: [PATCH 42/80] fix: counted repetition of a pattern containing anchors

Each copy of a counted repetition was made by duplicating the compiled
subgraph, with the links anchors make to the start and end of the whole
automaton. '(^|a){2}' rejected the empty string, '(a$|b){2}' accepted 'a',
and '(^a){2}' failed an assertion. Spell these repetitions out instead.
---
 src/libre/ast_rewrite.c | 119 +++++++++++++++++++++++++++++++++++++++-
 1 file changed, 118 insertions(+), 1 deletion(-)

diff --git a/src/libre/ast_rewrite.c b/src/libre/ast_rewrite.c
index 4b976ed..208ac9c 100644
--- a/src/libre/ast_rewrite.c
+++ b/src/libre/ast_rewrite.c
@@ -406,6 +406,122 @@ empty:
 	return 1;
 }
 
+static int
+contains_anchor(const struct ast_expr *n)
+{
+	size_t i;
+
+	switch (n->type) {
+	case AST_EXPR_ANCHOR:
+		return 1;
+
+	case AST_EXPR_CONCAT:
+		for (i = 0; i < n->u.concat.count; i++) {
+			if (contains_anchor(n->u.concat.n[i])) {
+				return 1;
+			}
+		}
+		return 0;
+
+	case AST_EXPR_ALT:
+		for (i = 0; i < n->u.alt.count; i++) {
+			if (contains_anchor(n->u.alt.n[i])) {
+				return 1;
+			}
+		}
+		return 0;
+
+	case AST_EXPR_REPEAT:
+		return contains_anchor(n->u.repeat.e);
+
+	case AST_EXPR_GROUP:
+		return contains_anchor(n->u.group.e);
+
+	default:
+		return 0;
+	}
+}
+
+/*
+ * What an anchor means depends on what may come before and after it, and that
+ * differs between the copies of a counted repetition. So these are spelled out:
+ * a{2,4} becomes aaa?a? and a{2,} becomes aaa*.
+ */
+static int
+expand_anchored_repeat(struct ast_expr_pool **poolp, struct ast_expr *n)
+{
+	struct ast_expr *cat;
+	struct ast_count count;
+	unsigned i, pieces;
+
+	if (n->type != AST_EXPR_REPEAT || !contains_anchor(n->u.repeat.e)) {
+		return 1;
+	}
+
+	/* an anchor alone adds nothing when repeated, nor when optional */
+	if (n->u.repeat.e->type == AST_EXPR_ANCHOR) {
+		struct ast_expr *dead = n->u.repeat.e;
+
+		if (n->u.repeat.min == 0) {
+			ast_expr_free(*poolp, dead);
+
+			n->type = AST_EXPR_EMPTY;
+
+			return 1;
+		}
+
+		*n = *dead;
+
+		dead->type = AST_EXPR_EMPTY;
+		ast_expr_free(*poolp, dead);
+
+		return 1;
+	}
+
+	/* ?, * and + stand for themselves */
+	if (n->u.repeat.min <= 1 && (n->u.repeat.max == 1 || n->u.repeat.max == AST_COUNT_UNBOUNDED)) {
+		return 1;
+	}
+
+	cat = ast_make_expr_concat(poolp, n->re_flags);
+	if (cat == NULL) {
+		return 0;
+	}
+
+	memset(&count, 0, sizeof count);
+	count.min = 0;
+	count.max = n->u.repeat.max == AST_COUNT_UNBOUNDED ? AST_COUNT_UNBOUNDED : 1;
+
+	pieces = n->u.repeat.max == AST_COUNT_UNBOUNDED ? n->u.repeat.min + 1 : n->u.repeat.max;
+
+	for (i = 0; i < pieces; i++) {
+		struct ast_expr *e = n->u.repeat.e;
+
+		/* the last piece takes the original */
+		if (i + 1 < pieces && !ast_expr_clone(poolp, &e)) {
+			return 0;
+		}
+
+		if (i >= n->u.repeat.min) {
+			e = ast_make_expr_repeat(poolp, n->re_flags, e, count);
+			if (e == NULL) {
+				return 0;
+			}
+		}
+
+		if (!ast_add_expr_concat(cat, e)) {
+			return 0;
+		}
+	}
+
+	*n = *cat;
+
+	cat->type = AST_EXPR_EMPTY;
+	ast_expr_free(*poolp, cat);
+
+	return 1;
+}
+
 static int
 rewrite_repeat(struct ast_expr_pool **poolp, struct ast_expr *n, enum re_flags flags)
 {
@@ -688,7 +804,8 @@ rewrite(struct ast_expr_pool **poolp, struct ast_expr *n, enum re_flags flags)
 		return 1;
 
 	case AST_EXPR_REPEAT:
-		return rewrite_repeat(poolp, n, flags);
+		return rewrite_repeat(poolp, n, flags)
+			&& expand_anchored_repeat(poolp, n);
 
 	case AST_EXPR_GROUP:
 		if (!rewrite(poolp, n->u.group.e, flags)) {
-- 
2.43.0


From 92d70831b3e6660261351677e80ec08231976bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:57 +0000
Subject: [PATCH 43/80] fix: pincered anchors need not concern a newline in
 dialects without RE_END_NL

'(^$|a)|(^|a)' failed an assertion in the native dialect.
---
 src/libre/ast_compile.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libre/ast_compile.c b/src/libre/ast_compile.c
index 5d31ef0..0340ea3 100644
--- a/src/libre/ast_compile.c
+++ b/src/libre/ast_compile.c
@@ -707,7 +707,8 @@ comp_iter(struct comp_env *env,
 				return 0;
 			}
 			y = env->end_nl;
-		} else if (n->type == AST_EXPR_ANCHOR
+		} else if (env->re_flags & RE_END_NL
+		    && n->type == AST_EXPR_ANCHOR
 		    && n->u.anchor.type == AST_ANCHOR_START
 		    && n->flags & AST_FLAG_CONSTRAINED_AT_END) {
 			/* the start anchor is constrained, so only
-- 
2.43.0


From 0d7138fcded7b8822520ebdf3e7f6f52f9b62216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:29 +0000
Subject: [PATCH 44/80] fix: alternatives that can never match do not make the
 whole alternation empty

---
 src/libre/ast_rewrite.c | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/src/libre/ast_rewrite.c b/src/libre/ast_rewrite.c
index 208ac9c..041591d 100644
--- a/src/libre/ast_rewrite.c
+++ b/src/libre/ast_rewrite.c
@@ -323,6 +323,25 @@ rewrite_alt(struct ast_expr_pool **poolp, struct ast_expr *n, enum re_flags flag
 		}
 	}
 
+	/* a tombstone can never match, so it is no alternative at all */
+	{
+		size_t satisfiable = 0;
+
+		for (i = 0; i < n->u.alt.count; i++) {
+			if (n->u.alt.n[i]->type == AST_EXPR_TOMBSTONE) {
+				continue;
+			}
+
+			n->u.alt.n[satisfiable++] = n->u.alt.n[i];
+		}
+
+		if (satisfiable == 0 && n->u.alt.count > 0) {
+			goto tombstone;
+		}
+
+		n->u.alt.count = satisfiable;
+	}
+
 	/*
 	 * Empty children do have a semantic effect; for dialects with anchors,
 	 * they affect the anchoring. So we cannot remove those in general here.
@@ -403,6 +422,15 @@ empty:
 
 	n->type = AST_EXPR_EMPTY;
 
+	return 1;
+
+tombstone:
+
+	free(n->u.alt.n);
+	n->u.alt.n = NULL;
+
+	n->type = AST_EXPR_TOMBSTONE;
+
 	return 1;
 }
 
-- 
2.43.0


From 781d41a52faba732757a592d08c48ae9c78c08e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:45 +0000
Subject: [PATCH 45/80] fix: refuse, rather than misread, a class that can
 match a newline after an end anchor

---
 src/libre/ast_analysis.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/libre/ast_analysis.c b/src/libre/ast_analysis.c
index 5a6b41b..da7d170 100644
--- a/src/libre/ast_analysis.c
+++ b/src/libre/ast_analysis.c
@@ -791,6 +791,14 @@ analysis_iter_anchoring(struct anchoring_env *env, struct ast_expr *n)
 	case AST_EXPR_RANGE:
 		if (can_consume_single_newline(n)) {
 			set_flags(n, AST_FLAG_MATCHES_1NEWLINE);
+
+			if (env->newline_after_end_anchor_state == NAEAS_WOULD_MATCH_ONCE) {
+				LOG(3 - LOG_ANCHORING,
+				    "%s: CODEPOINT/RANGE: rejecting non-optional newline match after $ as unsupported\n",
+				    __func__);
+				set_flags(n, AST_FLAG_UNSATISFIABLE);
+				return AST_ANALYSIS_ERROR_UNSUPPORTED;
+			}
 		}
 		break;		/* handled outside switch/case */
 
@@ -1009,8 +1017,6 @@ analysis_iter_anchoring(struct anchoring_env *env, struct ast_expr *n)
 					all_set_past_always_consuming &= child_env.past_always_consuming;
 					any_sat = 1;
 				}
-			} else if (res == AST_ANALYSIS_ERROR_UNSUPPORTED) {
-				continue;
 			} else {
 				return res;
 			}
-- 
2.43.0


From bfb0c07bf113661e865d2987420d4859da48daed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:53 +0000
Subject: [PATCH 46/80] fix: a NUL after a backslash is an ordinary escaped
 byte, not an assertion

---
 src/libre/dialect/pcre/parser.c | 10 +++++-----
 src/libre/parser.act            |  4 ++--
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/libre/dialect/pcre/parser.c b/src/libre/dialect/pcre/parser.c
index e59fee0..74bd1d4 100644
--- a/src/libre/dialect/pcre/parser.c
+++ b/src/libre/dialect/pcre/parser.c
@@ -478,7 +478,7 @@ p_expr_C_Ccharacter_Hclass_C_Crange_Hendpoint_C_Crange_Hendpoint_Hliteral(flags
 
 		assert(lex_state->buf.a[0] == '\\');
 		assert(lex_state->buf.a[1] == 'c');
-		assert(lex_state->buf.a[2] != '\0');
+		/* lex_state->buf.a[2] may be '\0' */
 		assert(lex_state->buf.a[3] == '\0');
 
 		ZIc = lex_state->buf.a[2];
@@ -1073,7 +1073,7 @@ p_expr_C_Cliteral(flags flags, lex_state lex_state, act_state act_state, err err
 
 		assert(lex_state->buf.a[0] == '\\');
 		assert(lex_state->buf.a[1] == 'c');
-		assert(lex_state->buf.a[2] != '\0');
+		/* lex_state->buf.a[2] may be '\0' */
 		assert(lex_state->buf.a[3] == '\0');
 
 		ZIc = lex_state->buf.a[2];
@@ -1227,7 +1227,7 @@ p_expr_C_Cliteral(flags flags, lex_state lex_state, act_state act_state, err err
 #line 412 "src/libre/parser.act"
 
 		assert(lex_state->buf.a[0] == '\\');
-		assert(lex_state->buf.a[1] != '\0');
+		/* lex_state->buf.a[1] may be '\0' */
 		assert(lex_state->buf.a[2] == '\0');
 
 		ZIc = lex_state->buf.a[1];
@@ -1417,7 +1417,7 @@ p_expr_C_Ccharacter_Hclass_C_Cclass_Hterm(flags flags, lex_state lex_state, act_
 
 		assert(lex_state->buf.a[0] == '\\');
 		assert(lex_state->buf.a[1] == 'c');
-		assert(lex_state->buf.a[2] != '\0');
+		/* lex_state->buf.a[2] may be '\0' */
 		assert(lex_state->buf.a[3] == '\0');
 
 		ZI310 = lex_state->buf.a[2];
@@ -1634,7 +1634,7 @@ p_expr_C_Ccharacter_Hclass_C_Cclass_Hterm(flags flags, lex_state lex_state, act_
 #line 412 "src/libre/parser.act"
 
 		assert(lex_state->buf.a[0] == '\\');
-		assert(lex_state->buf.a[1] != '\0');
+		/* lex_state->buf.a[1] may be '\0' */
 		assert(lex_state->buf.a[2] == '\0');
 
 		ZIc = lex_state->buf.a[1];
diff --git a/src/libre/parser.act b/src/libre/parser.act
index 984036c..c99df51 100644
--- a/src/libre/parser.act
+++ b/src/libre/parser.act
@@ -411,7 +411,7 @@
 
 	NOESC: () -> (c :char, start :pos, end :pos) = @{
 		assert(lex_state->buf.a[0] == '\\');
-		assert(lex_state->buf.a[1] != '\0');
+		/* lex_state->buf.a[1] may be '\0' */
 		assert(lex_state->buf.a[2] == '\0');
 
 		@c = lex_state->buf.a[1];
@@ -442,7 +442,7 @@
 	CONTROL: () -> (c :char, start :pos, end :pos) = @{
 		assert(lex_state->buf.a[0] == '\\');
 		assert(lex_state->buf.a[1] == 'c');
-		assert(lex_state->buf.a[2] != '\0');
+		/* lex_state->buf.a[2] may be '\0' */
 		assert(lex_state->buf.a[3] == '\0');
 
 		@c = lex_state->buf.a[2];
-- 
2.43.0


From 56ed99de96971c567f93772208f6b92f70d9d5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:02 +0000
Subject: [PATCH 47/80] fix: nothing follows an end anchor, or precedes a start
 anchor, under RE_ANCHORED

---
 src/libre/ast_compile.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/libre/ast_compile.c b/src/libre/ast_compile.c
index 0340ea3..f5c1035 100644
--- a/src/libre/ast_compile.c
+++ b/src/libre/ast_compile.c
@@ -431,6 +431,14 @@ decide_linking(struct comp_env *env,
 	/* If the regex is implicitly anchored and the dialect does
 	 * not support anchoring, linking is always top-down. */
 	if ((env->re_flags & RE_ANCHORED)) {
+		/* An explicit anchor still ties its own side to the start or
+		 * end of input, so that what's on the other side of it can't
+		 * match anything, as for "a$b*" and "a*^b". */
+		if (n->type == AST_EXPR_ANCHOR
+		    && side == (n->u.anchor.type == AST_ANCHOR_START ? LINK_START : LINK_END)) {
+			return LINK_GLOBAL;
+		}
+
 		return LINK_TOP_DOWN;
 	}
 
-- 
2.43.0


From bc8c7428a6a85e4a0de91e18165efa15d4feee34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:32 +0000
Subject: [PATCH 48/80] fix: an empty character class matches nothing, not the
 empty string

---
 src/libre/ast_rewrite.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/libre/ast_rewrite.c b/src/libre/ast_rewrite.c
index 041591d..656ad65 100644
--- a/src/libre/ast_rewrite.c
+++ b/src/libre/ast_rewrite.c
@@ -335,7 +335,7 @@ rewrite_alt(struct ast_expr_pool **poolp, struct ast_expr *n, enum re_flags flag
 			n->u.alt.n[satisfiable++] = n->u.alt.n[i];
 		}
 
-		if (satisfiable == 0 && n->u.alt.count > 0) {
+		if (satisfiable == 0) {
 			goto tombstone;
 		}
 
@@ -711,6 +711,7 @@ tombstone:
 static int
 rewrite_subtract(struct ast_expr_pool **poolp, struct ast_expr *n, enum re_flags flags)
 {
+	static const struct ast_expr zero;
 	int empty;
 
 	assert(n != NULL);
@@ -733,6 +734,17 @@ rewrite_subtract(struct ast_expr_pool **poolp, struct ast_expr *n, enum re_flags
 		return 0;
 	}
 
+	/* Subtracting nothing, as for the empty class [^\E] */
+	if (n->u.subtract.b->type == AST_EXPR_TOMBSTONE) {
+		struct ast_expr *a = n->u.subtract.a;
+
+		ast_expr_free(*poolp, n->u.subtract.b);
+		*n = *a;
+		*a = zero;
+
+		return 1;
+	}
+
 	/* TODO: If the rhs operand is 00-ff, the result is always empty
 	 * (unless RE_UNICODE is set) */
 
-- 
2.43.0


From 3d6443536b3e6d6f2ff884921ce2b16e1c6fd000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:41 +0000
Subject: [PATCH 49/80] fix: PCRE dialect: \c at the end of a pattern is an
 error

---
 src/libre/dialect/pcre/lexer.c  | 2 +-
 src/libre/dialect/pcre/lexer.lx | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libre/dialect/pcre/lexer.c b/src/libre/dialect/pcre/lexer.c
index d2c4791..e1e0d32 100644
--- a/src/libre/dialect/pcre/lexer.c
+++ b/src/libre/dialect/pcre/lexer.c
@@ -2925,7 +2925,7 @@ z7(struct lx_pcre_lx *lx)
 	case S30: return TOK_END;
 	case S31: return TOK_UNSUPPORTED;
 	case S32: return lx->z = z0, lx->z(lx);
-	case S33: return TOK_NOESC;
+	case S33: return TOK_UNSUPPORTED;
 	case S34: return TOK_NOESC;
 	case S35: return TOK_NOESC;
 	case S36: return TOK_HEX;
diff --git a/src/libre/dialect/pcre/lexer.lx b/src/libre/dialect/pcre/lexer.lx
index 01f34ec..aa3708f 100644
--- a/src/libre/dialect/pcre/lexer.lx
+++ b/src/libre/dialect/pcre/lexer.lx
@@ -81,6 +81,7 @@
 '\a' -> $esc;
 '\e' -> $esc;
 '\c' /./ -> $control;
+'\c'     -> $unsupported; # \c at end of pattern
 
 # character type escapes
 # Note, this needs a double underscore because sid expects any '_'
-- 
2.43.0


From 47a58234249dc02113adec68243c539b73416353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:43 +0000
Subject: [PATCH 50/80] fix: print the end anchor as $ in pcre output when it
 matches before a trailing newline

---
 src/libre/print/pcre.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libre/print/pcre.c b/src/libre/print/pcre.c
index 974a364..09d444a 100644
--- a/src/libre/print/pcre.c
+++ b/src/libre/print/pcre.c
@@ -222,7 +222,8 @@ pp_iter(FILE *f, const struct fsm_options *opt, enum re_flags *re_flags, struct
 
 	case AST_EXPR_ANCHOR:
 		assert(n->u.anchor.type == AST_ANCHOR_START || n->u.anchor.type == AST_ANCHOR_END);
-		fprintf(f, "%s", n->u.anchor.type == AST_ANCHOR_START ? "^" : "\\z");
+		fprintf(f, "%s", n->u.anchor.type == AST_ANCHOR_START ? "^"
+			: n->u.anchor.is_end_nl ? "$" : "\\z");
 		break;
 
 	case AST_EXPR_SUBTRACT:
-- 
2.43.0


From 6f9076219abeeca32c4f805245ee459d95c8d42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:51 +0000
Subject: [PATCH 51/80] fix: print a full range as [\x00-\xff] in pcre output
 unless RE_SINGLE is set

---
 src/libre/print/pcre.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libre/print/pcre.c b/src/libre/print/pcre.c
index 09d444a..eacf8ad 100644
--- a/src/libre/print/pcre.c
+++ b/src/libre/print/pcre.c
@@ -237,7 +237,8 @@ pp_iter(FILE *f, const struct fsm_options *opt, enum re_flags *re_flags, struct
 		if (n->u.range.from.u.literal.c == 0x00 &&
 			n->u.range.to.u.literal.c == 0xff)
 		{
-			fprintf(f, ".");
+			/* a dot excludes newlines unless RE_SINGLE is set */
+			fprintf(f, "%s", *re_flags & RE_SINGLE ? "." : "[\\x00-\\xff]");
 			break;
 		}
 
-- 
2.43.0


From 6b8e1c6093c14c0e3fd65e85307c1b59e3d60c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:58 +0000
Subject: [PATCH 52/80] fix: print {0} and {1} repetitions in pcre output
 instead of failing an assertion

---
 src/libre/print/pcre.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/libre/print/pcre.c b/src/libre/print/pcre.c
index eacf8ad..a9d13a4 100644
--- a/src/libre/print/pcre.c
+++ b/src/libre/print/pcre.c
@@ -175,11 +175,9 @@ pp_iter(FILE *f, const struct fsm_options *opt, enum re_flags *re_flags, struct
 			const char *op;
 		} a[] = {
 #define _ AST_COUNT_UNBOUNDED
-			{ 0, 0, NULL },
 			{ 0, _, "*"  },
 			{ 0, 1, "?"  },
-			{ 1, _, "+"  },
-			{ 1, 1, NULL }
+			{ 1, _, "+"  }
 #undef _
 		};
 
-- 
2.43.0


From 30c32aeb9280911e17a3b594f3fd5246523016d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:43 +0000
Subject: [PATCH 53/80] fix: carry outputs and ids along the failure links of
 the Aho-Corasick trie itself

---
 src/libre/ac.c | 33 ++++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/src/libre/ac.c b/src/libre/ac.c
index e941260..47da64c 100644
--- a/src/libre/ac.c
+++ b/src/libre/ac.c
@@ -174,6 +174,29 @@ trie_add_word(struct trie_graph *g, const char *w, size_t n, const fsm_end_id_t
 	return g;
 }
 
+/* whatever is output at a state's suffix is also output at that state */
+static int
+inherit_output(struct trie_state *st)
+{
+	struct state_iter si;
+	fsm_state_t id;
+
+	if (!st->fail->output) {
+		return 1;
+	}
+
+	st->output = 1;
+
+	state_set_reset(st->fail->endids, &si);
+	while (state_set_next(&si, &id)) {
+		if (!state_set_add(&st->endids, NULL, id)) {
+			return 0;
+		}
+	}
+
+	return 1;
+}
+
 int
 trie_add_failure_edges(struct trie_graph *g) {
 	struct trie_state **q;
@@ -197,6 +220,11 @@ trie_add_failure_edges(struct trie_graph *g) {
 		}
 
 		st->fail = g->root;
+		if (!inherit_output(st)) {
+			free(q);
+			return -1;
+		}
+
 		q[top++] = st;
 	}
 
@@ -233,7 +261,10 @@ trie_add_failure_edges(struct trie_graph *g) {
 				nx->fail = fs;
 			}
 
-			nx->output = nx->output | fs->output;
+			if (!inherit_output(nx)) {
+				free(q);
+				return -1;
+			}
 		}
 	}
 
-- 
2.43.0


From b8435c1a9b367a6c9f8d8f434aa384e6565fe7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:53 +0000
Subject: [PATCH 54/80] fix: keep eager matches on the first edges of a
 repeated pattern group

---
 src/libfsm/union.c | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/libfsm/union.c b/src/libfsm/union.c
index 4b07ca6..4a450ff 100644
--- a/src/libfsm/union.c
+++ b/src/libfsm/union.c
@@ -503,6 +503,19 @@ replace_labeled_edge(struct fsm *nfa, fsm_state_t from_state, fsm_state_t old_to
 	return true;
 }
 
+/* Where an edge among the anchored_firsts or repeatable_firsts should lead
+ * in the combined NFA. An edge straight to the unanchored_end_loop is an
+ * eager match. */
+static fsm_state_t
+first_edge_dst(const struct analysis_info *ainfo, fsm_state_t to)
+{
+	if (to == ainfo->unanchored_end_loop && ainfo->eager_match_state != NO_STATE) {
+		return ainfo->eager_match_state;
+	}
+
+	return to;
+}
+
 /* Make a couple changes to the group NFA so that it can be combined correctly:
  *
  * - If the group NFA has an unanchored_end_loop, add a new state,
@@ -870,7 +883,7 @@ fsm_union_repeated_pattern_group(size_t nfa_count,
 			assert(global_anchored_start < merged->statecount);
 			struct fsm_state *anchored_start = &merged->states[global_anchored_start];
 			if (!edge_set_add_bulk(&anchored_start->edges, merged->alloc,
-				info.symbols, info.to)) {
+				info.symbols, first_edge_dst(ainfo, info.to))) {
 				goto fail;
 			}
 			if (log) {
@@ -885,7 +898,7 @@ fsm_union_repeated_pattern_group(size_t nfa_count,
 		while (edge_set_group_iter_next(&iter, &info)) {
 			struct fsm_state *unanchored_start = &merged->states[global_unanchored_start_loop];
 			if (!edge_set_add_bulk(&unanchored_start->edges, merged->alloc,
-				info.symbols, info.to)) {
+				info.symbols, first_edge_dst(ainfo, info.to))) {
 				goto fail;
 			}
 
-- 
2.43.0


From 6714900d92e32ff83e3aac24cf0937d3f7b4b897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:00 +0000
Subject: [PATCH 55/80] fix: note the end state as an anchored end for a strict
 end anchor, too

---
 src/libre/ast_compile.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/libre/ast_compile.c b/src/libre/ast_compile.c
index f5c1035..97c888f 100644
--- a/src/libre/ast_compile.c
+++ b/src/libre/ast_compile.c
@@ -913,6 +913,17 @@ comp_iter(struct comp_env *env,
 				return 0;
 			}
 		}
+
+		if (env->fsm->linkage_info != NULL
+		    && y == env->end
+		    && n->u.anchor.type == AST_ANCHOR_END) {
+			/* A strict end anchor, without a trailing newline,
+			 * links directly to the global end. */
+			if (!state_set_add(&env->fsm->linkage_info->anchored_ends,
+				env->fsm->alloc, y)) {
+				return 0;
+			}
+		}
 		break;
 
 	case AST_EXPR_SUBTRACT: {
-- 
2.43.0


From ab92e32ddbe0ac366b94785f29bd643c85d14248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:08 +0000
Subject: [PATCH 56/80] fix: only treat a group pattern as always matching when
 it is empty without an end anchor

---
 src/libfsm/union.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/libfsm/union.c b/src/libfsm/union.c
index 4a450ff..34f95eb 100644
--- a/src/libfsm/union.c
+++ b/src/libfsm/union.c
@@ -38,6 +38,7 @@
 /* State/edge info gathered about an NFA. Used by fsm_union_repeated_pattern_group. */
 struct analysis_info {
 	bool nullable;          /* Does the NFA match the empty string? */
+	bool nullable_unanchored_end; /* Does the NFA match the empty string without an end anchor? */
 	fsm_state_t start;	/* start state */
 
 	/* The states with a /./ self edge representing the unanchored
@@ -424,6 +425,11 @@ analyze_group_nfa(const struct fsm *nfa, struct analysis_info *ainfo)
 	 * trivially match, but otherwise it would never match. */
 	ainfo->nullable = start_state_epsilon_closure_matches_empty_string(nfa, eclosures[ainfo->start]);
 
+	/* An NFA that also has an unanchored end may only match the empty string
+	 * by way of an end anchor, as for /(?:^|a)(?:b|$)/. */
+	ainfo->nullable_unanchored_end = ainfo->unanchored_end_loop != NO_STATE
+	    && state_set_contains(eclosures[ainfo->start], ainfo->unanchored_end_loop);
+
 	/* Collect states that lead to an anchored end or eager match. */
 	for (size_t s_i = 0; s_i < state_count; s_i++) {
 		fsm_state_t indirect_dst = NO_STATE;
@@ -528,8 +534,7 @@ first_edge_dst(const struct analysis_info *ainfo, fsm_state_t to)
 static bool
 modify_group_nfa(struct fsm *nfa, size_t id, struct analysis_info *ainfo, size_t id_base)
 {
-	const bool nullable_and_unanchored_end = ainfo->nullable
-	    && ainfo->unanchored_end_loop != NO_STATE;
+	const bool nullable_and_unanchored_end = ainfo->nullable_unanchored_end;
 	const bool log = 0 || (LOG_ANALYZE_GROUP_NFA > 0);
 
 	/* Add the eager match state if there are eager match states
@@ -838,7 +843,7 @@ fsm_union_repeated_pattern_group(size_t nfa_count,
 			/* If the NFA matches the empty string and is not anchored at the end, then
 			 * add an epsilon edge from the global start directly to its eager match state.
 			 * This ensures all inputs will match this group NFA when combined. */
-			if (ainfo->nullable) {
+			if (ainfo->nullable_unanchored_end) {
 				assert(ainfo->unanchored_end_loop != NO_STATE);
 				if (!fsm_addedge_epsilon(merged, global_start, ainfo->eager_match_state)) {
 					goto fail;
@@ -848,7 +853,9 @@ fsm_union_repeated_pattern_group(size_t nfa_count,
 					    global_start, ainfo->eager_match_state);
 				}
 			}
-		} else {
+		}
+
+		if (!ainfo->nullable_unanchored_end) {
 			/* If the NFA matches an end-anchored empty string, then add an epsilon edge from
 			 * the global start to an anchored end, which has an endid. */
 			if (ainfo->nullable && !state_set_empty(ainfo->anchored_ends)) {
-- 
2.43.0


From a709236615c38445fbf0ad5357176bdd95b34cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:37 +0000
Subject: [PATCH 57/80] fix: idmap: make room for values at multiples of 64

---
 src/adt/idmap.c | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/adt/idmap.c b/src/adt/idmap.c
index e3facfa..28fe959 100644
--- a/src/adt/idmap.c
+++ b/src/adt/idmap.c
@@ -40,12 +40,8 @@ struct idmap {
 
 static unsigned
 value_words(unsigned max_value) {
-	if (max_value == 0) {
-		/* Still allocate one word, for storing 0. */
-		return 1;
-	} else {
-		return u64bitset_words(max_value);
-	}
+	/* values from 0 to max_value, inclusive */
+	return u64bitset_words((size_t)max_value + 1);
 }
 
 struct idmap *
-- 
2.43.0


From d81a5d8c60d262b59f9f2b5565706226623a1305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:46 +0000
Subject: [PATCH 58/80] fix: size a bitmap as 256 bits, so inverting and
 counting agree

---
 include/adt/bitmap.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/adt/bitmap.h b/include/adt/bitmap.h
index 61c4f9a..dfd731a 100644
--- a/include/adt/bitmap.h
+++ b/include/adt/bitmap.h
@@ -17,7 +17,7 @@ struct fsm_state;
 struct fsm_options;
 
 struct bm {
-	uint64_t map[(UCHAR_MAX + 1)/sizeof(uint64_t)];
+	uint64_t map[(UCHAR_MAX + 1)/64];
 };
 
 int
-- 
2.43.0


From c4cba4ecfa02f0cf3c9ec87d68d6ccef3833f034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:13 +0000
Subject: [PATCH 59/80] fix: fsm(1): read every file given with -x, and exit
 with success after -G

---
 src/fsm/main.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fsm/main.c b/src/fsm/main.c
index f9d1bb3..c77bf2b 100644
--- a/src/fsm/main.c
+++ b/src/fsm/main.c
@@ -738,7 +738,7 @@ main(int argc, char *argv[])
 			if (xfiles) {
 				FILE *f;
 
-				f = xopen(argv[0]);
+				f = xopen(argv[i]);
 
 				e = fsm_exec(fsm, fsm_fgetc, f, &state, NULL);
 
@@ -770,7 +770,7 @@ main(int argc, char *argv[])
 	}
 
 	if (generate_bounds > 0) {
-		r = fsm_generate_matches(fsm, generate_bounds, 0, fsm_generate_cb_printf_escaped, &opt);
+		r |= !fsm_generate_matches(fsm, generate_bounds, 0, fsm_generate_cb_printf_escaped, &opt);
 	}
 
 	fsm_free(fsm);
-- 
2.43.0


From 216805c9b5ddb1d12173e69e050c9160dbb372ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:21 +0000
Subject: [PATCH 60/80] fix: re(1): -z with several patterns matching one text,
 and with --

---
 src/re/main.c | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/re/main.c b/src/re/main.c
index 9059af9..a5da321 100644
--- a/src/re/main.c
+++ b/src/re/main.c
@@ -818,6 +818,7 @@ main(int argc, char *argv[])
 	fsm_to_cleanup = fsm;
 
 	{
+		int sep = 0;
 		int i;
 
 		for (i = 0; i < argc - !(fsm_lang != FSM_PRINT_NONE || example || isliteral || !!query || argc <= 1); i++) {
@@ -827,9 +828,7 @@ main(int argc, char *argv[])
 			/* TODO: handle possible "dialect:" prefix */
 
 			if (0 == strcmp(argv[i], "--")) {
-				argc--;
-				argv++;
-
+				sep = 1;
 				break;
 			}
 
@@ -928,8 +927,9 @@ main(int argc, char *argv[])
 		matchv = argv;
 		matchc = i;
 
-		argc -= i;
-		argv += i;
+		/* the "--" itself is neither a pattern nor text */
+		argc -= i + sep;
+		argv += i + sep;
 	}
 
 	if (query) {
@@ -1150,12 +1150,14 @@ main(int argc, char *argv[])
 				}
 
 				if (patterns) {
-					fsm_end_id_t ids[1];
+					fsm_end_id_t *ids;
 					size_t count, i;
 					int res;
 
 					count = fsm_endid_count(fsm, state);
-					assert(count == 1);
+					assert(count >= 1);
+
+					ids = xmalloc(count * sizeof *ids);
 
 					res = fsm_endid_get(fsm, state, count, ids);
 					assert(res == 1);
@@ -1164,6 +1166,8 @@ main(int argc, char *argv[])
 						/* TODO: print nicely */
 						printf("match: /%s/\n", matchv[ids[i]]);
 					}
+
+					free(ids);
 				}
 			}
 		}
-- 
2.43.0


From 4d18d1935792b0b3e386b6f0e3564ab2e2768ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:10 +0000
Subject: [PATCH 61/80] fix: fsm(1): don't restrict the character set of an
 operation which failed

---
 src/fsm/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fsm/main.c b/src/fsm/main.c
index c77bf2b..7c8b266 100644
--- a/src/fsm/main.c
+++ b/src/fsm/main.c
@@ -588,7 +588,7 @@ main(int argc, char *argv[])
 		 * We can't include \0 here because optarg is a string, and I don't
 		 * want to invent a syntax for character sets.
 		 */
-		if (charset != NULL) {
+		if (charset != NULL && q != NULL) {
 			if (!fsm_determinise(q)) {
 				perror("fsm_determinise");
 				exit(EXIT_FAILURE);
-- 
2.43.0


From b368882d3c9126cc5b31dde7ec9af269f1037093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:29 +0000
Subject: [PATCH 62/80] fix: clear .visited on the result of fsm_walk2

---
 src/libfsm/walk2.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/libfsm/walk2.c b/src/libfsm/walk2.c
index 6d6ab02..9223765 100644
--- a/src/libfsm/walk2.c
+++ b/src/libfsm/walk2.c
@@ -514,6 +514,7 @@ fsm_walk2(const struct fsm *a, const struct fsm *b,
 	fsm_state_t sa, sb;
 	struct fsm_walk2_tuple *tup0;
 	struct fsm *new;
+	fsm_state_t i;
 	int have_a, have_b;
 
 	assert(a != NULL);
@@ -590,6 +591,11 @@ fsm_walk2(const struct fsm *a, const struct fsm *b,
 	new = data.new;
 	data.new = NULL; /* avoid freeing new FSM */
 
+	/* .visited is only meaningful within a single operation */
+	for (i = 0; i < new->statecount; i++) {
+		new->states[i].visited = 0;
+	}
+
 	fsm_walk2_data_free(a, &data);
 
 	return new;
-- 
2.43.0


From a4c95f40827241fbdc005ce51ddf37524fb2d704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:37 +0000
Subject: [PATCH 63/80] fix: lx: mappings which match nothing have no start
 state to merge

---
 src/lx/main.c     | 7 ++++++-
 src/lx/parser.act | 2 +-
 src/lx/parser.c   | 4 ++--
 3 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/lx/main.c b/src/lx/main.c
index 92098bf..b5fc3e6 100644
--- a/src/lx/main.c
+++ b/src/lx/main.c
@@ -410,7 +410,12 @@ zone_minimise(void *arg)
 				assert(!"failed");
 			}
 
-			(void) fsm_getstart(m->fsm, &ms);
+			/* a mapping which matches nothing */
+			if (!fsm_getstart(m->fsm, &ms)) {
+				fsm_free(m->fsm);
+				m->fsm = NULL;
+				continue;
+			}
 
 			z->fsm = fsm_merge(z->fsm, m->fsm, &combine_info);
 			if (z->fsm == NULL) {
diff --git a/src/lx/parser.act b/src/lx/parser.act
index 0db0c3b..80452c6 100644
--- a/src/lx/parser.act
+++ b/src/lx/parser.act
@@ -324,7 +324,7 @@
 			fsm_state_t ms;
 			struct fsm_combine_info combine_info;
 
-			if (m->token == NULL) {
+			if (m->token == NULL || !fsm_getstart(m->fsm, &ms)) {
 				continue;
 			}
 
diff --git a/src/lx/parser.c b/src/lx/parser.c
index 4ab69ce..0e726ad 100644
--- a/src/lx/parser.c
+++ b/src/lx/parser.c
@@ -287,7 +287,7 @@ p_pattern(lex_state lex_state, act_state act_state, zone ZIz, fsm *ZOr)
 			fsm_state_t ms;
 			struct fsm_combine_info combine_info;
 
-			if (m->token == NULL) {
+			if (m->token == NULL || !fsm_getstart(m->fsm, &ms)) {
 				continue;
 			}
 
@@ -720,7 +720,7 @@ p_list_Hof_Hthings_C_Cthing(lex_state lex_state, act_state act_state, ast ZIa, z
 			fsm_state_t ms;
 			struct fsm_combine_info combine_info;
 
-			if (m->token == NULL) {
+			if (m->token == NULL || !fsm_getstart(m->fsm, &ms)) {
 				continue;
 			}
 
-- 
2.43.0


From 562ea698f0805ddc261af99e3b5c535c1a96c6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:45 +0000
Subject: [PATCH 64/80] fix: lx: unknown variables in nested zones

---
 src/lx/parser.act | 2 +-
 src/lx/parser.c   | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lx/parser.act b/src/lx/parser.act
index 80452c6..6bed514 100644
--- a/src/lx/parser.act
+++ b/src/lx/parser.act
@@ -286,7 +286,7 @@
 				break;
 			}
 
-			if (@z->parent == NULL) {
+			if (z->parent == NULL) {
 				/* TODO: use *err */
 				err(lex_state, "No such variable: %s", @s);
 				@!;
diff --git a/src/lx/parser.c b/src/lx/parser.c
index 0e726ad..365eb39 100644
--- a/src/lx/parser.c
+++ b/src/lx/parser.c
@@ -227,7 +227,7 @@ p_pattern(lex_state lex_state, act_state act_state, zone ZIz, fsm *ZOr)
 				break;
 			}
 
-			if ((ZIz)->parent == NULL) {
+			if (z->parent == NULL) {
 				/* TODO: use *err */
 				err(lex_state, "No such variable: %s", (ZIn));
 				goto ZL1;
@@ -3224,7 +3224,7 @@ p_252(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 				break;
 			}
 
-			if ((*ZIz)->parent == NULL) {
+			if (z->parent == NULL) {
 				/* TODO: use *err */
 				err(lex_state, "No such variable: %s", (*ZIn));
 				goto ZL1;
-- 
2.43.0


From fb20066766a2a013049d53c83d4559640432374b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:54 +0000
Subject: [PATCH 65/80] fix: lx: use after free of a zone's exit

---
 src/lx/parser.act |  6 +++---
 src/lx/parser.c   | 54 +++++++++++++++++++++++------------------------
 2 files changed, 30 insertions(+), 30 deletions(-)

diff --git a/src/lx/parser.act b/src/lx/parser.act
index 6bed514..785c0c4 100644
--- a/src/lx/parser.act
+++ b/src/lx/parser.act
@@ -738,13 +738,13 @@
 		if (@b == NULL) {
 			@q = @a;
 		} else {
-			@b = fsm_clone(@b);
-			if (@b == NULL) {
+			struct fsm *b = fsm_clone(@b);
+			if (b == NULL) {
 				perror("fsm_clone");
 				@!;
 			}
 
-			@q = fsm_subtract(@a, @b);
+			@q = fsm_subtract(@a, b);
 			if (@q == NULL) {
 				perror("fsm_subtract");
 				@!;
diff --git a/src/lx/parser.c b/src/lx/parser.c
index 365eb39..70c9fd6 100644
--- a/src/lx/parser.c
+++ b/src/lx/parser.c
@@ -405,13 +405,13 @@ p_list_Hof_Hthings_C_Cthing(lex_state lex_state, act_state act_state, ast ZIa, z
 		if ((ZIexit) == NULL) {
 			(ZI233) = (ZI231);
 		} else {
-			(ZIexit) = fsm_clone((ZIexit));
-			if ((ZIexit) == NULL) {
+			struct fsm *b = fsm_clone((ZIexit));
+			if (b == NULL) {
 				perror("fsm_clone");
 				goto ZL1;
 			}
 
-			(ZI233) = fsm_subtract((ZI231), (ZIexit));
+			(ZI233) = fsm_subtract((ZI231), b);
 			if ((ZI233) == NULL) {
 				perror("fsm_subtract");
 				goto ZL1;
@@ -480,13 +480,13 @@ p_list_Hof_Hthings_C_Cthing(lex_state lex_state, act_state act_state, ast ZIa, z
 		if ((ZIexit) == NULL) {
 			(ZI241) = (ZI239);
 		} else {
-			(ZIexit) = fsm_clone((ZIexit));
-			if ((ZIexit) == NULL) {
+			struct fsm *b = fsm_clone((ZIexit));
+			if (b == NULL) {
 				perror("fsm_clone");
 				goto ZL1;
 			}
 
-			(ZI241) = fsm_subtract((ZI239), (ZIexit));
+			(ZI241) = fsm_subtract((ZI239), b);
 			if ((ZI241) == NULL) {
 				perror("fsm_subtract");
 				goto ZL1;
@@ -570,13 +570,13 @@ p_list_Hof_Hthings_C_Cthing(lex_state lex_state, act_state act_state, ast ZIa, z
 		if ((ZIexit) == NULL) {
 			(ZI250) = (ZI248);
 		} else {
-			(ZIexit) = fsm_clone((ZIexit));
-			if ((ZIexit) == NULL) {
+			struct fsm *b = fsm_clone((ZIexit));
+			if (b == NULL) {
 				perror("fsm_clone");
 				goto ZL1;
 			}
 
-			(ZI250) = fsm_subtract((ZI248), (ZIexit));
+			(ZI250) = fsm_subtract((ZI248), b);
 			if ((ZI250) == NULL) {
 				perror("fsm_subtract");
 				goto ZL1;
@@ -645,13 +645,13 @@ p_list_Hof_Hthings_C_Cthing(lex_state lex_state, act_state act_state, ast ZIa, z
 		if ((ZIexit) == NULL) {
 			(ZI225) = (ZI223);
 		} else {
-			(ZIexit) = fsm_clone((ZIexit));
-			if ((ZIexit) == NULL) {
+			struct fsm *b = fsm_clone((ZIexit));
+			if (b == NULL) {
 				perror("fsm_clone");
 				goto ZL1;
 			}
 
-			(ZI225) = fsm_subtract((ZI223), (ZIexit));
+			(ZI225) = fsm_subtract((ZI223), b);
 			if ((ZI225) == NULL) {
 				perror("fsm_subtract");
 				goto ZL1;
@@ -776,13 +776,13 @@ p_list_Hof_Hthings_C_Cthing(lex_state lex_state, act_state act_state, ast ZIa, z
 		if ((ZIexit) == NULL) {
 			(ZI261) = (ZI259);
 		} else {
-			(ZIexit) = fsm_clone((ZIexit));
-			if ((ZIexit) == NULL) {
+			struct fsm *b = fsm_clone((ZIexit));
+			if (b == NULL) {
 				perror("fsm_clone");
 				goto ZL1;
 			}
 
-			(ZI261) = fsm_subtract((ZI259), (ZIexit));
+			(ZI261) = fsm_subtract((ZI259), b);
 			if ((ZI261) == NULL) {
 				perror("fsm_subtract");
 				goto ZL1;
@@ -836,13 +836,13 @@ p_list_Hof_Hthings_C_Cthing(lex_state lex_state, act_state act_state, ast ZIa, z
 		if ((ZIexit) == NULL) {
 			(ZI270) = (ZI268);
 		} else {
-			(ZIexit) = fsm_clone((ZIexit));
-			if ((ZIexit) == NULL) {
+			struct fsm *b = fsm_clone((ZIexit));
+			if (b == NULL) {
 				perror("fsm_clone");
 				goto ZL1;
 			}
 
-			(ZI270) = fsm_subtract((ZI268), (ZIexit));
+			(ZI270) = fsm_subtract((ZI268), b);
 			if ((ZI270) == NULL) {
 				perror("fsm_subtract");
 				goto ZL1;
@@ -2171,13 +2171,13 @@ ZL2_list_Hof_Hthings_C_Czone_Hthing_C_Clist_Hof_Hzone_Hfrom_Hmappings_C_Clist_Ho
 		if ((ZIexit) == NULL) {
 			(ZIq) = (ZIr);
 		} else {
-			(ZIexit) = fsm_clone((ZIexit));
-			if ((ZIexit) == NULL) {
+			struct fsm *b = fsm_clone((ZIexit));
+			if (b == NULL) {
 				perror("fsm_clone");
 				goto ZL1;
 			}
 
-			(ZIq) = fsm_subtract((ZIr), (ZIexit));
+			(ZIq) = fsm_subtract((ZIr), b);
 			if ((ZIq) == NULL) {
 				perror("fsm_subtract");
 				goto ZL1;
@@ -2919,13 +2919,13 @@ p_251(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 		if ((ZIchild_Hexit) == NULL) {
 			(ZIv) = (ZIw);
 		} else {
-			(ZIchild_Hexit) = fsm_clone((ZIchild_Hexit));
-			if ((ZIchild_Hexit) == NULL) {
+			struct fsm *b = fsm_clone((ZIchild_Hexit));
+			if (b == NULL) {
 				perror("fsm_clone");
 				goto ZL5;
 			}
 
-			(ZIv) = fsm_subtract((ZIw), (ZIchild_Hexit));
+			(ZIv) = fsm_subtract((ZIw), b);
 			if ((ZIv) == NULL) {
 				perror("fsm_subtract");
 				goto ZL5;
@@ -3261,13 +3261,13 @@ p_252(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 		if ((*ZIexit) == NULL) {
 			(ZI280) = (ZI278);
 		} else {
-			(*ZIexit) = fsm_clone((*ZIexit));
-			if ((*ZIexit) == NULL) {
+			struct fsm *b = fsm_clone((*ZIexit));
+			if (b == NULL) {
 				perror("fsm_clone");
 				goto ZL1;
 			}
 
-			(ZI280) = fsm_subtract((ZI278), (*ZIexit));
+			(ZI280) = fsm_subtract((ZI278), b);
 			if ((ZI280) == NULL) {
 				perror("fsm_subtract");
 				goto ZL1;
-- 
2.43.0


From 3f1aca51fc557541506678ce83c67f91b5605bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:02 +0000
Subject: [PATCH 66/80] fix: lx: clone a mapping's fsm before it is consumed

---
 src/lx/parser.c   | 32 ++++++++++++++++----------------
 src/lx/parser.sid |  3 +--
 2 files changed, 17 insertions(+), 18 deletions(-)

diff --git a/src/lx/parser.c b/src/lx/parser.c
index 70c9fd6..d32b275 100644
--- a/src/lx/parser.c
+++ b/src/lx/parser.c
@@ -2431,6 +2431,21 @@ p_list_Hof_Hthings_C_Czone_Hthing_C_Czone_Hto_Hmapping(lex_state lex_state, act_
 			RESTORE_LEXER;
 			goto ZL1;
 		}
+		/* BEGINNING OF ACTION: clone */
+		{
+#line 755 "src/lx/parser.act"
+
+		assert((ZIr) != NULL);
+
+		(ZIexit) = fsm_clone((ZIr));
+		if ((ZIexit) == NULL) {
+			perror("fsm_clone");
+			goto ZL1;
+		}
+	
+#line 2447 "src/lx/parser.c"
+		}
+		/* END OF ACTION: clone */
 		/* BEGINNING OF ACTION: add-mapping */
 		{
 #line 449 "src/lx/parser.act"
@@ -2466,24 +2481,9 @@ p_list_Hof_Hthings_C_Czone_Hthing_C_Czone_Hto_Hmapping(lex_state lex_state, act_
 			nmappings++;
 		}
 	
-#line 2470 "src/lx/parser.c"
-		}
-		/* END OF ACTION: add-mapping */
-		/* BEGINNING OF ACTION: clone */
-		{
-#line 755 "src/lx/parser.act"
-
-		assert((ZIr) != NULL);
-
-		(ZIexit) = fsm_clone((ZIr));
-		if ((ZIexit) == NULL) {
-			perror("fsm_clone");
-			goto ZL1;
-		}
-	
 #line 2485 "src/lx/parser.c"
 		}
-		/* END OF ACTION: clone */
+		/* END OF ACTION: add-mapping */
 	}
 	goto ZL0;
 ZL1:;
diff --git a/src/lx/parser.sid b/src/lx/parser.sid
index 3c375e2..9af2f0b 100644
--- a/src/lx/parser.sid
+++ b/src/lx/parser.sid
@@ -372,9 +372,8 @@
 			zone-to-mapping: (a :ast, parent :zone, child :zone) -> (exit :fsm) = {
 				(r, t) = token-mapping(parent);
 
-				<add-mapping>(a, child, parent, r, t);
-
 				exit = <clone>(r);
+				<add-mapping>(a, child, parent, r, t);
 			};
 
 			list-of-zone-to-mappings: (a :ast, parent :zone, child :zone) -> (exit :fsm) [
-- 
2.43.0


From b690add06080e99d1fabb93ba7876d24b4d80d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:10 +0000
Subject: [PATCH 67/80] fix: lx: fdgetc returned bytes above 0x7f as negative

---
 src/lx/print/c.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lx/print/c.c b/src/lx/print/c.c
index 3340f0d..93f9c30 100644
--- a/src/lx/print/c.c
+++ b/src/lx/print/c.c
@@ -495,7 +495,7 @@ print_lgetc(FILE *f, const struct fsm_options *opt)
 		fprintf(f, "\t\td->len = r;\n");
 		fprintf(f, "\t}\n");
 		fprintf(f, "\n");
-		fprintf(f, "\treturn d->len--, *d->p++;\n");
+		fprintf(f, "\treturn d->len--, (unsigned char) *d->p++;\n");
 		fprintf(f, "}\n");
 		fprintf(f, "\n");
 	}
-- 
2.43.0


From 20b85dfbbeeb9b2c53a4373cbec7a4ab36745c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:19 +0000
Subject: [PATCH 68/80] fix: lx: dead ends are the mappings of zones with an
 exit to their parent

---
 src/lx/ast.c     |  5 +++++
 src/lx/ast.h     |  1 +
 src/lx/print/c.c | 13 ++++++++++---
 3 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/lx/ast.c b/src/lx/ast.c
index a3776b6..686f89f 100644
--- a/src/lx/ast.c
+++ b/src/lx/ast.c
@@ -85,6 +85,7 @@ ast_addzone(struct ast *ast, struct ast_zone *parent)
 	new->ml   = NULL;
 	new->fsm  = NULL;
 	new->vl   = NULL;
+	new->paired = 0;
 
 	new->parent = parent;
 
@@ -103,6 +104,10 @@ ast_addmapping(struct ast_zone *z, struct fsm *fsm,
 	assert(z != NULL);
 	assert(fsm != NULL);
 
+	if (to != NULL && to == z->parent) {
+		z->paired = 1;
+	}
+
 	for (m = z->ml; m != NULL; m = m->next) {
 		assert(m->fsm != NULL);
 
diff --git a/src/lx/ast.h b/src/lx/ast.h
index 1f7fcf5..6d6ae15 100644
--- a/src/lx/ast.h
+++ b/src/lx/ast.h
@@ -22,6 +22,7 @@ struct ast_zone {
 	struct ast_mapping *ml;
 	struct fsm *fsm;
 	struct var *vl;
+	int paired; /* has a mapping which exits to its parent */
 
 	struct ast_zone *parent;
 	struct ast_zone *next;
diff --git a/src/lx/print/c.c b/src/lx/print/c.c
index 93f9c30..d8081e4 100644
--- a/src/lx/print/c.c
+++ b/src/lx/print/c.c
@@ -167,15 +167,22 @@ endid_represents_dead_end(fsm_end_id_t endid, const struct ast *ast)
 		return false;
 	}
 
-	/* For each zone, check if this endid is associated with its z->ml zone.
-	 * If so, that endid is the "dead end" for that zone.
+	/* For each zone which is exited by a pattern, check if this endid is
+	 * associated with one of its mappings. If so, input which ends there
+	 * is missing the exit, and that endid is a "dead end" for that zone.
 	 *
 	 * The total number of zones and end ids (each corresponding to mapping)
 	 * should stay small enough that linear search is fine. If this becomes
 	 * prohibitively expensive, then build a bitset of dead-end IDs upfront
 	 * in one pass. */
 	for (struct ast_zone *z = ast->zl; z != NULL; z = z->next) {
-		if (z->ml == m) { return true; }
+		const struct ast_mapping *p;
+
+		if (!z->paired) { continue; }
+
+		for (p = z->ml; p != NULL; p = p->next) {
+			if (p == m) { return true; }
+		}
 	}
 
 	return false;
-- 
2.43.0


From 7c39c7423b448e13b8d1c05bf0e71a6d1f8864f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:28 +0000
Subject: [PATCH 69/80] fix: lx: fill the token buffer for -k str and pair when
 positions are excluded

---
 src/lx/print/c.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lx/print/c.c b/src/lx/print/c.c
index d8081e4..fa2ce48 100644
--- a/src/lx/print/c.c
+++ b/src/lx/print/c.c
@@ -352,7 +352,7 @@ advance_c(FILE *f, const struct fsm_options *opt, const char *cur_char_var, void
 	case FSM_IO_PAIR:
 		/* When libfsm's generated code advances a character, update
 		 * lx's token name buffer and position bookkeeping. */
-		if (~api_exclude & API_POS) {
+		if (~api_exclude & (API_POS | API_BUF)) {
 			fprintf(f, "\t\tif (!%sadvance_end(lx, %s)) { return %sERROR; }\n",
 			    prefix.api, cur_char_var, prefix.tok);
 		}
@@ -515,7 +515,7 @@ print_io(FILE *f, const struct fsm_options *opt)
 		fprintf(stderr, " io");
 	}
 
-	if (opt->io == FSM_IO_GETC || (~api_exclude & API_POS)) {
+	if (opt->io == FSM_IO_GETC || (~api_exclude & (API_POS | API_BUF))) {
 		fprintf(f, "static int\n");
 		fprintf(f, "%sadvance_end(struct %slx *lx, int c)\n", prefix.api, prefix.lx);
 		fprintf(f, "{\n");
-- 
2.43.0


From ed4376eecdf83d825980e4653fcefa9846e86941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:36 +0000
Subject: [PATCH 70/80] fix: lx: allocate mapping ids under the lock

---
 src/lx/ast.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/lx/ast.c b/src/lx/ast.c
index 686f89f..684624b 100644
--- a/src/lx/ast.c
+++ b/src/lx/ast.c
@@ -153,10 +153,11 @@ static struct ast_mapping **mappings = NULL;
 int
 ast_setendmapping(struct fsm *fsm, struct ast_mapping *m)
 {
-	const fsm_end_id_t id = mapping_count;
+	fsm_end_id_t id;
 	fsm_end_id_t nceil = 0;
 
 	lx_mutex_lock();
+	id = mapping_count;
 	if (mappings == NULL) {
 		nceil = DEF_MAPPINGS;
 	} else if (mapping_count == mapping_ceil) {
@@ -176,6 +177,9 @@ ast_setendmapping(struct fsm *fsm, struct ast_mapping *m)
 		mapping_ceil = nceil;
 	}
 
+	mappings[id] = m;
+	mapping_count++;
+
 	lx_mutex_unlock();
 
 	if (fsm_setendid(fsm, id)) {
@@ -183,8 +187,6 @@ ast_setendmapping(struct fsm *fsm, struct ast_mapping *m)
 			fprintf(stderr, "ast_setendmapping: saving mapping %p at mappings[%d]\n",
 			    (void *)m, id);
 		}
-		mappings[id] = m;
-		mapping_count++;
 		return 1;
 	}
 	return 0;
-- 
2.43.0


From f13f62e3015db1fb358762d38eb55a7741a9934c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:40 +0000
Subject: [PATCH 71/80] fix: vm v2 address table indexes that do not fit their
 16 bits

---
 src/libfsm/vm/v2.c | 33 ++++++++++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/src/libfsm/vm/v2.c b/src/libfsm/vm/v2.c
index e217f6d..9a1be8f 100644
--- a/src/libfsm/vm/v2.c
+++ b/src/libfsm/vm/v2.c
@@ -39,6 +39,9 @@ encode_opasm_v2(const struct dfavm_vm_op *instr, size_t ninstr)
 	uint32_t *enc;
 	uint32_t *abuf;
 	uint32_t alen,acap;
+	uint32_t *slots; /* 1 + index into abuf, per destination */
+
+	slots = NULL;
 
 	ret = malloc(sizeof *ret);
 	if (ret == NULL) {
@@ -100,7 +103,19 @@ encode_opasm_v2(const struct dfavm_vm_op *instr, size_t ninstr)
 					/* allocate address in address table */
 					instr_bits = VM_V2_OP_IBRANCH;
 
-					if (alen >= acap) {
+					if (slots == NULL) {
+						slots = calloc(ninstr, sizeof *slots);
+						if (slots == NULL) {
+							goto error;
+						}
+					}
+
+					if (slots[dest_state] == 0 && alen > UINT16_MAX) {
+						/* no room for the index */
+						goto error;
+					}
+
+					if (slots[dest_state] == 0 && alen >= acap) {
 						size_t new_acap;
 						uint32_t *new_abuf;
 
@@ -123,12 +138,16 @@ encode_opasm_v2(const struct dfavm_vm_op *instr, size_t ninstr)
 						vm->abuf = new_abuf;
 					}
 
-					assert(alen < acap);
 					assert(abuf != NULL);
 
-					abuf[alen] = dest_state;
-					dest_arg = alen++;
-					vm->alen = alen;
+					if (slots[dest_state] == 0) {
+						assert(alen < acap);
+						abuf[alen] = dest_state;
+						slots[dest_state] = ++alen;
+						vm->alen = alen;
+					}
+
+					dest_arg = slots[dest_state] - 1;
 				}
 
 				cmp_bits   = op->cmp;
@@ -154,9 +173,13 @@ encode_opasm_v2(const struct dfavm_vm_op *instr, size_t ninstr)
 		enc[i] = instr;
 	}
 
+	free(slots);
+
 	return ret;
 
 error:
+	free(slots);
+
 	if (ret != NULL) {
 		free(ret);
 	}
-- 
2.43.0


From 4a8f75c781291085b0b5c6e9a4f1a7b8f7177e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:48 +0000
Subject: [PATCH 72/80] fix: rx names the general patterns of a conflict

---
 src/rx/main.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rx/main.c b/src/rx/main.c
index 4ac357b..b9c0929 100644
--- a/src/rx/main.c
+++ b/src/rx/main.c
@@ -610,10 +610,10 @@ conflict(FILE *f, const struct fsm_options *opt,
 
 		for (size_t j = 0; j < env->general->count; j++) {
 			// TODO: delimiters per dialect, centralise with libre's re_perror()
-			if (env->general->a[i].id == state_metadata->end_ids[i]) {
+			if (env->general->a[j].id == state_metadata->end_ids[i]) {
 				fprintf(stderr, "#%u: /%s/\n",
 					state_metadata->end_ids[i],
-					env->general->a[i].s);
+					env->general->a[j].s);
 				goto next;
 			}
 		}
-- 
2.43.0


From a7b761f54daa8b394c62df2866f50853a4cf8c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:56 +0000
Subject: [PATCH 73/80] fix: rx accepts a last line without its newline

---
 src/rx/main.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/rx/main.c b/src/rx/main.c
index b9c0929..6e8ed5c 100644
--- a/src/rx/main.c
+++ b/src/rx/main.c
@@ -124,9 +124,8 @@ xgetline(FILE *f)
 		exit(EXIT_FAILURE);
 	}
 
-	/* n == 0 for an empty line */
-	if (n > 0) {
-		assert(buf[n - 1] == '\n');
+	/* the last line of a file may be missing its newline */
+	if (n > 0 && buf[n - 1] == '\n') {
 		buf[n - 1] = '\0';
 	}
 
-- 
2.43.0


From ee41f15371c1d04c754c68a0ae5fe10b52ef82fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:04 +0000
Subject: [PATCH 74/80] fix: rx reports the id of a pattern declined when
 compiled

---
 src/rx/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rx/main.c b/src/rx/main.c
index 6e8ed5c..38d063b 100644
--- a/src/rx/main.c
+++ b/src/rx/main.c
@@ -1252,7 +1252,7 @@ main(int argc, char *argv[])
 				general.a[i].dialect, strict,
 				general.a[i].s, flags, general.a[i].id);
 			if (fsm == NULL) {
-				append_pattern(&declined, i, general.a[i].dialect, general.a[i].s);
+				append_pattern(&declined, general.a[i].id, general.a[i].dialect, general.a[i].s);
 				continue;
 			}
 
-- 
2.43.0


From 564f437865940c24bc1486ef895fc8d1f8d86fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:12 +0000
Subject: [PATCH 75/80] fix: rx -i declines unsupported patterns instead of
 failing

---
 src/rx/main.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/rx/main.c b/src/rx/main.c
index 38d063b..456f115 100644
--- a/src/rx/main.c
+++ b/src/rx/main.c
@@ -501,15 +501,15 @@ build_pattern_fsm(bool show_stats,
 // TODO: RE_SINGLE here? i think it shouldn't have any effect when \n isn't present in the charset
 	fsm = re_comp(dialect, fsm_sgetc, &q, alloc, flags, &err);
 
+	if (fsm == NULL && err.e == RE_EUNSUPPORTED) {
+		return NULL;
+	}
+
 	if (strict && fsm == NULL) {
 		re_perror(dialect, &err, NULL, s);
 		exit(EXIT_FAILURE);
 	}
 
-	if (fsm == NULL && err.e == RE_EUNSUPPORTED) {
-		return NULL;
-	}
-
 	/*
 	 * An unsatisfiable regex compiles to an FSM that matches nothing,
 	 * so that unioning it with other regexes will still work.
@@ -1156,7 +1156,7 @@ main(int argc, char *argv[])
 				break;
 
 			default:
-				if (strict) {
+				if (strict && r != CATEGORY_UNSUPPORTED) {
 					exit(EXIT_FAILURE);
 				}
 
-- 
2.43.0


From 43550b989a4a8aad37f2a68a4cd9bacda08c5769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:20 +0000
Subject: [PATCH 76/80] fix: rx -F i applies to literal dialect patterns

---
 src/rx/main.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rx/main.c b/src/rx/main.c
index 456f115..75b75cf 100644
--- a/src/rx/main.c
+++ b/src/rx/main.c
@@ -285,8 +285,9 @@ categorize(enum re_dialect dialect, enum re_flags flags,
 	 * categorize empirically based on the dialect. We can't do this
 	 * inside re_is_literal() because that uses the getc callback,
 	 * and this shortcut depends on the storage for the input string s.
+	 * A case insensitive literal isn't a literal string.
 	 */
-	if (dialect == RE_LITERAL) {
+	if (dialect == RE_LITERAL && !(flags & RE_ICASE)) {
 		*lit_s_out = s;
 		*lit_n_out = strlen(s);
 		*strings_flags = RE_STRINGS_ANCHOR_LEFT | RE_STRINGS_ANCHOR_RIGHT;
-- 
2.43.0


From 72597836f1959fb5cdfe00257df4aa1fe878b7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:19 +0000
Subject: [PATCH 77/80] fix: keep the minimum of an anchored repetition, whose
 maximum was set below it

---
 src/libre/ast_analysis.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libre/ast_analysis.c b/src/libre/ast_analysis.c
index da7d170..83f95db 100644
--- a/src/libre/ast_analysis.c
+++ b/src/libre/ast_analysis.c
@@ -1132,7 +1132,7 @@ analysis_iter_anchoring(struct anchoring_env *env, struct ast_expr *n)
 			LOG(3 - LOG_ANCHORING,
 			    "%s: REPEAT: repeating ANCHORED_START subtree >0 times -> ANCHORED_START\n", __func__);
 			set_flags(n, AST_FLAG_ANCHORED_START);
-			n->u.repeat.max = 1;
+			n->u.repeat.max = n->u.repeat.min;
 		}
 
 		if (can_consume_single_newline(n->u.repeat.e)) {
@@ -1143,7 +1143,7 @@ analysis_iter_anchoring(struct anchoring_env *env, struct ast_expr *n)
 			LOG(3 - LOG_ANCHORING,
 			    "%s: REPEAT: repeating ANCHORED_END subtree >0 times -> ANCHORED_END\n", __func__);
 			set_flags(n, n->u.repeat.e->flags & END_ANCHOR_FLAG_MASK);
-			n->u.repeat.max = 1;
+			n->u.repeat.max = n->u.repeat.min;
 		}
 
 		/* If there's a {0,_} repeat group after an end anchor that always consumes
-- 
2.43.0


From e9ca634087f79526c9619bb2a573a1a4b189feee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:03 +0000
Subject: [PATCH 78/80] fix: fsm_union_array shifts earlier bases when the
 later operand's states come first, with or without captures

---
 src/libfsm/union.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libfsm/union.c b/src/libfsm/union.c
index 34f95eb..c9c221c 100644
--- a/src/libfsm/union.c
+++ b/src/libfsm/union.c
@@ -195,7 +195,7 @@ fsm_union_array(size_t fsm_count,
 		/* If the first argument didn't get its states put first
 		 * in the union, then shift the bases for everything
 		 * that has been combined into it so far. */
-		if (ci.capture_base_a > 0) {
+		if (ci.base_a > 0) {
 			size_t shift_i;
 			for (shift_i = 0; shift_i < i; shift_i++) {
 				bases[shift_i].state += ci.base_a;
-- 
2.43.0


From 192d133857d49f75679b1c0aa29712ec13b2443c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:11 +0000
Subject: [PATCH 79/80] fix: a capture's end is not recorded before its start

---
 src/libfsm/capture.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/libfsm/capture.c b/src/libfsm/capture.c
index d928a7b..41aff84 100644
--- a/src/libfsm/capture.c
+++ b/src/libfsm/capture.c
@@ -740,6 +740,11 @@ fsm_capture_update_captures(const struct fsm *fsm,
 			fprintf(stderr, "COMMIT [%u]\n",
 			    b->action.id);
 #endif
+			if (captures[capture_id].pos[0] == FSM_CAPTURE_NO_POS
+			    || captures[capture_id].pos[0] == offset) {
+				break; /* not started, or only just: ignore */
+			}
+
 			captures[capture_id].pos[1] = offset | COMMITTED_CAPTURE_FLAG;
 #if LOG_CAPTURE > 0
 			fprintf(stderr, " -- set capture[%u].[1] to %lu (with COMMIT flag)\n", b->action.id, offset);
-- 
2.43.0


From 164cc8664cc6fa8e3f3b55b34fcd5c7ae6e54329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:20 +0000
Subject: [PATCH 80/80] fix: capture actions are renumbered with the states
 when states are removed

---
 src/libfsm/capture.c | 62 ++++++++++++++++++++++++++++++++++++++++++++
 src/libfsm/capture.h |  6 +++++
 src/libfsm/state.c   |  9 +++++--
 3 files changed, 75 insertions(+), 2 deletions(-)

diff --git a/src/libfsm/capture.c b/src/libfsm/capture.c
index 41aff84..033aafd 100644
--- a/src/libfsm/capture.c
+++ b/src/libfsm/capture.c
@@ -633,6 +633,68 @@ fsm_capture_rebase_capture_action_states(struct fsm *fsm, fsm_state_t base)
 	}
 }
 
+int
+fsm_capture_compact(struct fsm *fsm,
+    const fsm_state_t *mapping, size_t mapping_count)
+{
+	struct fsm_capture_info *ci = fsm->capture_info;
+	struct fsm_capture_action_bucket *nbuckets;
+	size_t i, nused = 0;
+	const size_t mask = ci->bucket_count - 1;
+
+	if (ci->buckets_used == 0) {
+		return 1;
+	}
+
+	nbuckets = f_malloc(fsm->alloc, ci->bucket_count * sizeof(nbuckets[0]));
+	if (nbuckets == NULL) {
+		return 0;
+	}
+
+	for (i = 0; i < ci->bucket_count; i++) {
+		nbuckets[i].state = CAPTURE_NO_STATE;
+	}
+
+	for (i = 0; i < ci->bucket_count; i++) {
+		struct fsm_capture_action_bucket b = ci->buckets[i];
+		uint64_t h;
+		size_t b_i;
+
+		if (b.state == CAPTURE_NO_STATE) {
+			continue;
+		}
+
+		assert(b.state < mapping_count);
+		b.state = mapping[b.state];
+		if (b.state == FSM_STATE_REMAP_NO_STATE) {
+			continue;
+		}
+
+		if (b.action.to != CAPTURE_NO_STATE) {
+			assert(b.action.to < mapping_count);
+			b.action.to = mapping[b.action.to];
+			if (b.action.to == FSM_STATE_REMAP_NO_STATE) {
+				continue;
+			}
+		}
+
+		h = hash_id(b.state);
+		for (b_i = 0; b_i < ci->bucket_count; b_i++) {
+			struct fsm_capture_action_bucket *dst_b = &nbuckets[(h + b_i) & mask];
+			if (dst_b->state == CAPTURE_NO_STATE) {
+				*dst_b = b;
+				nused++;
+				break;
+			}
+		}
+	}
+
+	f_free(fsm->alloc, ci->buckets);
+	ci->buckets = nbuckets;
+	ci->buckets_used = nused;
+	return 1;
+}
+
 struct fsm_capture *
 fsm_capture_alloc(const struct fsm *fsm)
 {
diff --git a/src/libfsm/capture.h b/src/libfsm/capture.h
index 4c0ba47..4a938ca 100644
--- a/src/libfsm/capture.h
+++ b/src/libfsm/capture.h
@@ -53,6 +53,12 @@ fsm_capture_add_action(struct fsm *fsm,
     fsm_state_t state, enum capture_action_type type,
     unsigned id, fsm_state_t to);
 
+/* Renumber the capture actions' states according to a mapping, discarding
+ * actions for states mapped to FSM_STATE_REMAP_NO_STATE. */
+int
+fsm_capture_compact(struct fsm *fsm,
+    const fsm_state_t *mapping, size_t mapping_count);
+
 /* Callback for iterating over capture actions.
  * Return 1 to continue, return 0 to halt.
  * If TO is not meaningful for a particular type, it will be
diff --git a/src/libfsm/state.c b/src/libfsm/state.c
index 04c5b71..573d3f3 100644
--- a/src/libfsm/state.c
+++ b/src/libfsm/state.c
@@ -18,6 +18,7 @@
 #include <adt/edgeset.h>
 
 #include "internal.h"
+#include "capture.h"
 #include "endids.h"
 #include "eager_output.h"
 
@@ -126,7 +127,7 @@ fsm_removestate(struct fsm *fsm, fsm_state_t state)
 	assert(fsm != NULL);
 	assert(state < fsm->statecount);
 
-	/* End ids and eager outputs are kept by state number, outside the state
+	/* End ids, eager outputs and capture actions are kept by state number, outside the state
 	 * itself. Those of the removed state go with it, and those of the
 	 * last state follow that to its new number. */
 	mapping = f_malloc(fsm->alloc, fsm->statecount * sizeof mapping[0]);
@@ -141,7 +142,8 @@ fsm_removestate(struct fsm *fsm, fsm_state_t state)
 	mapping[state] = FSM_STATE_REMAP_NO_STATE;
 
 	if (!fsm_endid_compact(fsm, mapping, fsm->statecount)
-		|| !fsm_eager_output_compact(fsm, mapping, fsm->statecount)) {
+		|| !fsm_eager_output_compact(fsm, mapping, fsm->statecount)
+		|| !fsm_capture_compact(fsm, mapping, fsm->statecount)) {
 		f_free(fsm->alloc, mapping);
 		return 0;
 	}
@@ -295,6 +297,9 @@ fsm_compact_states(struct fsm *fsm,
 	if (!fsm_eager_output_compact(fsm, mapping, orig_statecount)) {
 		return 0;
 	}
+	if (!fsm_capture_compact(fsm, mapping, orig_statecount)) {
+		return 0;
+	}
 
 	assert(dst == kept);
 	assert(kept == fsm->statecount);
-- 
2.43.0

