From c21976cf422bff8e4241c8141b74b7dfe763ae15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:47 +0000
Subject: [PATCH 001/142] fix: stateset: do not leak a new set when its array
 cannot be allocated

---
 src/adt/stateset.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/adt/stateset.c b/src/adt/stateset.c
index c2cc8b8..6c803c0 100644
--- a/src/adt/stateset.c
+++ b/src/adt/stateset.c
@@ -193,6 +193,7 @@ state_set_create(const struct fsm_alloc *a)
 
 	set->a = f_malloc(a, SET_INITIAL * sizeof *set->a);
 	if (set->a == NULL) {
+		f_free(a, set);
 		return NULL;
 	}
 
-- 
2.43.0


From 2768deb84af872f359265de080a5dca281711c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:47 +0000
Subject: [PATCH 002/142] fix: stateset: keep a singleton's element when
 growing the set fails

---
 src/adt/stateset.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/adt/stateset.c b/src/adt/stateset.c
index 6c803c0..d781f33 100644
--- a/src/adt/stateset.c
+++ b/src/adt/stateset.c
@@ -236,6 +236,7 @@ state_set_add(struct state_set **setp, const struct fsm_alloc *alloc,
 	}
 
 	if (IS_SINGLETON(*setp)) {
+		struct state_set *prev = *setp;
 		fsm_state_t a[2];
 
 		a[0] = SINGLETON_DECODE(*setp);
@@ -243,7 +244,14 @@ state_set_add(struct state_set **setp, const struct fsm_alloc *alloc,
 
 		*setp = NULL;
 
-		return state_set_add_bulk(setp, alloc, a, sizeof a / sizeof *a);
+		if (!state_set_add_bulk(setp, alloc, a, sizeof a / sizeof *a)) {
+			/* keep what was there */
+			state_set_free(*setp);
+			*setp = prev;
+			return 0;
+		}
+
+		return 1;
 	}
 
 	set = *setp;
@@ -315,11 +323,13 @@ state_set_add_bulk(struct state_set **setp, const struct fsm_alloc *alloc,
 
 		prev = SINGLETON_DECODE(*setp);
 
-		*setp = state_set_create(alloc);
-		if (*setp == NULL) {
+		set = state_set_create(alloc);
+		if (set == NULL) {
 			return 0;
 		}
 
+		*setp = set;
+
 		assert(!IS_SINGLETON(*setp));
 
 		if (!state_set_add(setp, alloc, prev)) {
-- 
2.43.0


From c72e0e1b493e0cfa9d3b6ae4772be3681f32f2ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:47 +0000
Subject: [PATCH 003/142] fix: stateset: stay sorted after renumbering states

---
 src/adt/stateset.c | 52 +++++++++++++++++++++++++++++-----------------
 1 file changed, 33 insertions(+), 19 deletions(-)

diff --git a/src/adt/stateset.c b/src/adt/stateset.c
index d781f33..2694e01 100644
--- a/src/adt/stateset.c
+++ b/src/adt/stateset.c
@@ -300,6 +300,32 @@ state_set_add(struct state_set **setp, const struct fsm_alloc *alloc,
 	return 1;
 }
 
+/* Sort, and remove any duplicates. */
+static void
+state_set_normalise(struct state_set *set)
+{
+	size_t i, curr = 1, max = set->i;
+
+	if (max < 2) {
+		return;
+	}
+
+	qsort(&set->a[0], max, sizeof set->a[0], state_set_cmpptr);
+
+	for (i = 1; i < max; i++) {
+		int cmp = state_set_cmpval(set->a[i-1], set->a[i]);
+
+		assert(cmp <= 0);
+		assert(curr <= i);
+
+		if (cmp != 0) {
+			set->a[curr++] = set->a[i];
+		}
+	}
+
+	set->i = curr;
+}
+
 int
 state_set_add_bulk(struct state_set **setp, const struct fsm_alloc *alloc,
 	const fsm_state_t *a, size_t n)
@@ -365,25 +391,9 @@ state_set_add_bulk(struct state_set **setp, const struct fsm_alloc *alloc,
 	}
 
 	memcpy(&set->a[set->i], &a[0], n * sizeof a[0]);
+	set->i += n;
 
-	qsort(&set->a[0], set->i+n, sizeof set->a[0], state_set_cmpptr);
-
-	/* remove any duplicates */
-	{
-		size_t i, curr = 1, max = set->i + n;
-		for (i = 1; i < max; i++) {
-			int cmp = state_set_cmpval(set->a[i-1], set->a[i]);
-
-			assert(cmp <= 0);
-			assert(curr <= i);
-
-			if (cmp != 0) {
-				set->a[curr++] = set->a[i];
-			}
-		}
-
-		set->i = curr;
-	}
+	state_set_normalise(set);
 
 	return 1;
 }
@@ -431,7 +441,6 @@ state_set_compact(struct state_set **setp,
 		if (new_id == FSM_STATE_REMAP_NO_STATE) {
 			*setp = NULL;
 		} else {
-			assert(new_id <= s);
 			*setp = SINGLETON_ENCODE(new_id);
 		}
 		return;
@@ -464,6 +473,9 @@ state_set_compact(struct state_set **setp,
 	set->i -= removed;
 	assert(set->i == dst);
 
+	/* remapping need not preserve order */
+	state_set_normalise(set);
+
 #if LOG_COMPACT
 	for (i = 0; i < set->i; i++) {
 		fprintf(stderr, "state_set_compact: now set->a[%zu/%zu]: %d\n", i, set->i, set->a[i]);
@@ -678,4 +690,6 @@ state_set_replace(struct state_set **setp, fsm_state_t old, fsm_state_t new)
 			set->a[i] = new;
 		}
 	}
+
+	state_set_normalise(set);
 }
-- 
2.43.0


From 9b0053c117a98863671dbf91cd2b531d8328c9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:47 +0000
Subject: [PATCH 004/142] fix: set: release a set through the allocator it came
 from

---
 src/adt/set.inc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/adt/set.inc b/src/adt/set.inc
index 58f091f..2cf6742 100644
--- a/src/adt/set.inc
+++ b/src/adt/set.inc
@@ -97,6 +97,7 @@ set_create(const struct fsm_alloc *a,
 
 	set->a = f_malloc(a, SET_INITIAL * sizeof *set->a);
 	if (set->a == NULL) {
+		f_free(a, set);
 		return NULL;
 	}
 
@@ -169,7 +170,7 @@ set_free(struct set *set)
 	assert(set != NULL);
 	assert(set->a != NULL);
 
-	free(set->a);
-	free(set);
+	f_free(set->alloc, set->a);
+	f_free(set->alloc, set);
 }
 
-- 
2.43.0


From 6e4130cad89cb1eaefa035bb2eaeff9ab8d47467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:09 +0000
Subject: [PATCH 005/142] fix: idmap: claim a bucket only once its values are
 allocated

---
 src/adt/idmap.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/adt/idmap.c b/src/adt/idmap.c
index e3facfa..f5a0011 100644
--- a/src/adt/idmap.c
+++ b/src/adt/idmap.c
@@ -214,7 +214,6 @@ idmap_set(struct idmap *m, fsm_state_t state_id,
 			res = 1;
 			goto done;
 		} else if (b->state == NO_STATE) {
-			b->state = state_id;
 			assert(b->values == NULL);
 
 			const unsigned vw = value_words(m->max_value);
@@ -223,6 +222,7 @@ idmap_set(struct idmap *m, fsm_state_t state_id,
 			if (b->values == NULL) {
 				goto done;
 			}
+			b->state = state_id;
 			m->buckets_used++;
 
 			u64bitset_set(b->values, value);
-- 
2.43.0


From 1bef42f03ea6249c35f7e5e6e92bfee8a9bee103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:09 +0000
Subject: [PATCH 006/142] fix: internedstateset: check the buffer that was just
 allocated

---
 src/adt/internedstateset.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/adt/internedstateset.c b/src/adt/internedstateset.c
index 990d9c9..624c64c 100644
--- a/src/adt/internedstateset.c
+++ b/src/adt/internedstateset.c
@@ -84,7 +84,7 @@ interned_state_set_pool_alloc(const struct fsm_alloc *a)
 	if (sets == NULL) { goto cleanup; }
 
 	buf = f_malloc(a, DEF_BUF * sizeof(buf[0]));
-	if (sets == NULL) { goto cleanup; }
+	if (buf == NULL) { goto cleanup; }
 
 	buckets = f_malloc(a, DEF_BUCKETS * sizeof(buckets[0]));
 	if (buckets == NULL) { goto cleanup; }
-- 
2.43.0


From b01d8719ab1f7b046bf8daa4a5d7b95cc989a050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:09 +0000
Subject: [PATCH 007/142] fix: edgeset: do not read past the last group when
 removing one

---
 src/adt/edgeset.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/adt/edgeset.c b/src/adt/edgeset.c
index 178ddbc..5a8385e 100644
--- a/src/adt/edgeset.c
+++ b/src/adt/edgeset.c
@@ -803,7 +803,7 @@ edge_set_remove_state(struct edge_set **pset, fsm_state_t state)
 	while (i < set->count) {
 		const struct edge_group *eg = &set->groups[i];
 		if (eg->to == state) {
-			const size_t to_mv = set->count - i;
+			const size_t to_mv = set->count - i - 1;
 			memmove(&set->groups[i],
 			    &set->groups[i + 1],
 			    to_mv * sizeof(*eg));
@@ -1086,7 +1086,7 @@ edge_set_replace_state(struct edge_set **pset, const struct fsm_alloc *alloc,
 	for (i = 0; i < set->count; i++) {
 		struct edge_group *eg = &set->groups[i];
 		if (eg->to == old) {
-			const size_t to_mv = set->count - i;
+			const size_t to_mv = set->count - i - 1;
 			unsigned char label;
 			if (!find_first_group_label(eg, &label)) {
 				return 1; /* ignore empty group */
-- 
2.43.0


From 68e3f224eba69b851063141ce06a92ff625191a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:09 +0000
Subject: [PATCH 008/142] fix: edgeset: copying an empty set adds nothing

---
 src/adt/edgeset.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/adt/edgeset.c b/src/adt/edgeset.c
index 5a8385e..30cb6eb 100644
--- a/src/adt/edgeset.c
+++ b/src/adt/edgeset.c
@@ -708,17 +708,16 @@ edge_set_copy(struct edge_set **dst, const struct fsm_alloc *alloc,
 	    (void *)src, (void *)*dst);
 #endif
 
+	if (edge_set_empty(src)) {
+		return 1;
+	}
+
 	if (*dst != NULL) {
 		/* The other `edge_set_copy` copies in the
 		 * edges from src if *dst already exists. */
 		return edge_set_copy_into(dst, alloc, src);
 	}
 
-	if (edge_set_empty(src)) {
-		*dst = NULL;
-		return 1;
-	}
-
 	set = f_malloc(alloc, sizeof(*set));
 	if (set == NULL) {
 		return 0;
-- 
2.43.0


From cc30344a3f259bd5d490ee0fac2e777ba116867c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:21 +0000
Subject: [PATCH 009/142] fix: idmap: leave room for the largest value when it
 is a multiple of 64

---
 src/adt/idmap.c | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/adt/idmap.c b/src/adt/idmap.c
index f5a0011..2b5c315 100644
--- a/src/adt/idmap.c
+++ b/src/adt/idmap.c
@@ -40,12 +40,8 @@ struct idmap {
 
 static unsigned
 value_words(unsigned max_value) {
-	if (max_value == 0) {
-		/* Still allocate one word, for storing 0. */
-		return 1;
-	} else {
-		return u64bitset_words(max_value);
-	}
+	/* bits 0 to max_value, inclusive */
+	return u64bitset_words((size_t)max_value + 1);
 }
 
 struct idmap *
-- 
2.43.0


From a53f91ac418b0815a8013a228673b0f83e9c9baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:42 +0000
Subject: [PATCH 010/142] fix: fsm_new: release what was built, once, when an
 allocation fails

---
 src/libfsm/fsm.c | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/libfsm/fsm.c b/src/libfsm/fsm.c
index 866650a..35af8b0 100644
--- a/src/libfsm/fsm.c
+++ b/src/libfsm/fsm.c
@@ -77,6 +77,7 @@ fsm_new_statealloc(const struct fsm_alloc *alloc, size_t statealloc)
 	new->endcount     = 0;
 	new->capture_info = NULL;
 	new->endid_info   = NULL;
+	new->eager_output_info = NULL;
 	new->linkage_info = NULL;
 
 	new->states = f_malloc(new->alloc, new->statealloc * sizeof *new->states);
@@ -88,27 +89,28 @@ fsm_new_statealloc(const struct fsm_alloc *alloc, size_t statealloc)
 	fsm_clearstart(new);
 
 	if (!fsm_capture_init(new)) {
-		f_free(new->alloc, new->states);
-		f_free(new->alloc, new);
-		return NULL;
+		goto error;
 	}
 
 	if (!fsm_endid_init(new)) {
-		f_free(new->alloc, new->states);
-		f_free(new->alloc, new);
-		fsm_capture_free(new);
-		return NULL;
+		goto error;
 	}
 
 	if (!fsm_eager_output_init(new)) {
-		f_free(new->alloc, new->states);
-		f_free(new->alloc, new);
-		fsm_capture_free(new);
-		fsm_endid_free(new);
-		return NULL;
+		goto error;
 	}
 
 	return new;
+
+error:
+
+	fsm_capture_free(new);
+	fsm_endid_free(new);
+	fsm_eager_output_free(new);
+	f_free(new->alloc, new->states);
+	f_free(new->alloc, new);
+
+	return NULL;
 }
 
 struct fsm *
-- 
2.43.0


From 4c774d0585cdc9461174e2a5cba4a339a3c42499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:00 +0000
Subject: [PATCH 011/142] fix: endids: release the ids of removed states, and
 keep the bucket count right

---
 src/libfsm/endids.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/libfsm/endids.c b/src/libfsm/endids.c
index 6d8e885..2ce25a5 100644
--- a/src/libfsm/endids.c
+++ b/src/libfsm/endids.c
@@ -1068,7 +1068,11 @@ fsm_endid_compact(struct fsm *fsm, fsm_state_t *mapping, size_t mapping_count)
 
 		assert(ob->state < mapping_count);
 		const fsm_state_t nstate = mapping[ob->state];
-		if (nstate == FSM_STATE_REMAP_NO_STATE) { continue; }
+		if (nstate == FSM_STATE_REMAP_NO_STATE) {
+			f_free(fsm->alloc, ob->ids);
+			ei->buckets_used--;
+			continue;
+		}
 
 		const uint64_t hash = hash_id(nstate);
 
-- 
2.43.0


From cd7452103f116b2e192bc948c5f51309eba728a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:24 +0000
Subject: [PATCH 012/142] fix: fsm_compact_states: allocate before changing
 anything, so failure leaves the automaton as it was

---
 src/adt/edgeset.c         | 33 ++++++++++++++++++++++++++++++
 src/libfsm/eager_output.c | 31 +++++++++++------------------
 src/libfsm/eager_output.h | 11 ++++++++--
 src/libfsm/endids.c       | 30 ++++++++++------------------
 src/libfsm/endids.h       | 11 ++++++++--
 src/libfsm/state.c        | 42 ++++++++++++++++++++++++++++++---------
 6 files changed, 107 insertions(+), 51 deletions(-)

diff --git a/src/adt/edgeset.c b/src/adt/edgeset.c
index 30cb6eb..4d88465 100644
--- a/src/adt/edgeset.c
+++ b/src/adt/edgeset.c
@@ -6,6 +6,7 @@
 
 #include <assert.h>
 #include <stddef.h>
+#include <stdbool.h>
 #include <string.h>
 #include <stdio.h>
 #include <inttypes.h>
@@ -874,6 +875,38 @@ edge_set_compact(struct edge_set **pset, const struct fsm_alloc *alloc,
 
 	assert(set->count > 0);
 
+	/* If the remaining states stay distinct and in order then the
+	 * groups can be condensed in place, which cannot fail. */
+	{
+		bool in_order = true, any = false;
+		fsm_state_t prev = 0;
+
+		for (i = 0; i < set->count && in_order; i++) {
+			const fsm_state_t new_to = remap(set->groups[i].to, opaque);
+			if (new_to == FSM_STATE_REMAP_NO_STATE) {
+				continue;
+			}
+			in_order = !any || new_to > prev;
+			prev = new_to;
+			any = true;
+		}
+
+		if (in_order) {
+			for (i = 0; i < set->count; i++) {
+				const fsm_state_t new_to = remap(set->groups[i].to, opaque);
+				if (new_to == FSM_STATE_REMAP_NO_STATE) {
+					continue;
+				}
+				set->groups[ncount] = set->groups[i];
+				set->groups[ncount].to = new_to;
+				ncount++;
+			}
+
+			set->count = ncount;
+			return 1;
+		}
+	}
+
 	info = f_malloc(alloc, set->count * sizeof(info[0]));
 	if (info == NULL) {
 		return 0;
diff --git a/src/libfsm/eager_output.c b/src/libfsm/eager_output.c
index a6dcdc8..41c3e81 100644
--- a/src/libfsm/eager_output.c
+++ b/src/libfsm/eager_output.c
@@ -376,28 +376,21 @@ fsm_eager_output_dump(FILE *f, const struct fsm *fsm)
 	fprintf(f, "== %zu total\n", env.count);
 }
 
-int
-fsm_eager_output_compact(struct fsm *fsm, fsm_state_t *mapping, size_t mapping_count)
+void *
+fsm_eager_output_compact_alloc(const struct fsm *fsm)
 {
-	/* Don't reallocate unless something has actually changed. */
-	bool changes = false;
-	for (size_t i = 0; i < mapping_count; i++) {
-		if (mapping[i] != i) {
-			changes = true;
-			break;
-		}
-	}
+	const struct eager_output_info *eoi = fsm->eager_output_info;
 
-	/* nothing to do */
-	if (!changes) { return 1; }
+	return f_calloc(fsm->alloc,
+	    eoi->htab.bucket_count, sizeof(eoi->htab.buckets[0]));
+}
 
+void
+fsm_eager_output_compact(struct fsm *fsm, const fsm_state_t *mapping, size_t mapping_count,
+    void *space)
+{
 	struct eager_output_info *eoi = fsm->eager_output_info;
-
-	struct eager_output_bucket *nbuckets = f_calloc(fsm->alloc,
-	    eoi->htab.bucket_count, sizeof(nbuckets[0]));
-	if (nbuckets == NULL) {
-		return 0;
-	}
+	struct eager_output_bucket *nbuckets = space;
 
 	const uint64_t mask = eoi->htab.bucket_count - 1;
 	assert((eoi->htab.bucket_count & mask) == 0);
@@ -410,6 +403,7 @@ fsm_eager_output_compact(struct fsm *fsm, fsm_state_t *mapping, size_t mapping_c
 		const fsm_state_t nstate = mapping[ob->state];
 		if (nstate == FSM_STATE_REMAP_NO_STATE) {
 			f_free(fsm->alloc, ob->entry);
+			eoi->htab.buckets_used--;
 			continue;
 		}
 
@@ -431,5 +425,4 @@ fsm_eager_output_compact(struct fsm *fsm, fsm_state_t *mapping, size_t mapping_c
 
 	f_free(fsm->alloc, eoi->htab.buckets);
 	eoi->htab.buckets = nbuckets;
-	return 1;
 }
diff --git a/src/libfsm/eager_output.h b/src/libfsm/eager_output.h
index b90da93..dfdbb70 100644
--- a/src/libfsm/eager_output.h
+++ b/src/libfsm/eager_output.h
@@ -48,7 +48,14 @@ fsm_eager_output_iter_all(const struct fsm *fsm,
     fsm_eager_output_iter_cb *cb, void *opaque);
 
 /* Compact eager output metadata. */
-int
-fsm_eager_output_compact(struct fsm *fsm, fsm_state_t *mapping, size_t mapping_count);
+/* Compacting is in two steps, so that it cannot fail half way:
+ * allocate the space for the result first (NULL on error), then hand
+ * that over. */
+void *
+fsm_eager_output_compact_alloc(const struct fsm *fsm);
+
+void
+fsm_eager_output_compact(struct fsm *fsm, const fsm_state_t *mapping, size_t mapping_count,
+    void *space);
 
 #endif
diff --git a/src/libfsm/endids.c b/src/libfsm/endids.c
index 2ce25a5..112f85e 100644
--- a/src/libfsm/endids.c
+++ b/src/libfsm/endids.c
@@ -1031,28 +1031,21 @@ fsm_increndids(struct fsm * fsm, int delta)
 	fsm_mapendids(fsm, incr_remap, &delta);
 }
 
-int
-fsm_endid_compact(struct fsm *fsm, fsm_state_t *mapping, size_t mapping_count)
+void *
+fsm_endid_compact_alloc(const struct fsm *fsm)
 {
-	/* Don't reallocate unless something has actually changed. */
-	bool changes = false;
-	for (size_t i = 0; i < mapping_count; i++) {
-		if (mapping[i] != i) {
-			changes = true;
-			break;
-		}
-	}
+	const struct endid_info *ei = fsm->endid_info;
 
-	/* nothing to do */
-	if (!changes) { return 1; }
+	return f_malloc(fsm->alloc,
+	    ei->bucket_count * sizeof(ei->buckets[0]));
+}
 
+void
+fsm_endid_compact(struct fsm *fsm, const fsm_state_t *mapping, size_t mapping_count,
+    void *space)
+{
 	struct endid_info *ei = fsm->endid_info;
-
-	struct endid_info_bucket *nbuckets = f_malloc(fsm->alloc,
-	    ei->bucket_count * sizeof(nbuckets[0]));
-	if (nbuckets == NULL) {
-		return 0;
-	}
+	struct endid_info_bucket *nbuckets = space;
 
 	const uint64_t mask = ei->bucket_count - 1;
 	assert((ei->bucket_count & mask) == 0);
@@ -1092,5 +1085,4 @@ fsm_endid_compact(struct fsm *fsm, fsm_state_t *mapping, size_t mapping_count)
 
 	f_free(fsm->alloc, ei->buckets);
 	ei->buckets = nbuckets;
-	return 1;
 }
diff --git a/src/libfsm/endids.h b/src/libfsm/endids.h
index 944ec1d..994a658 100644
--- a/src/libfsm/endids.h
+++ b/src/libfsm/endids.h
@@ -63,7 +63,14 @@ fsm_endid_iter_state(const struct fsm *fsm, fsm_state_t state,
 void
 fsm_endid_dump(FILE *f, const struct fsm *fsm);
 
-int
-fsm_endid_compact(struct fsm *fsm, fsm_state_t *mapping, size_t mapping_count);
+/* Compacting is in two steps, so that it cannot fail half way:
+ * allocate the space for the result first (NULL on error), then hand
+ * that over. */
+void *
+fsm_endid_compact_alloc(const struct fsm *fsm);
+
+void
+fsm_endid_compact(struct fsm *fsm, const fsm_state_t *mapping, size_t mapping_count,
+    void *space);
 
 #endif
diff --git a/src/libfsm/state.c b/src/libfsm/state.c
index 786bc3a..51c713c 100644
--- a/src/libfsm/state.c
+++ b/src/libfsm/state.c
@@ -181,6 +181,7 @@ fsm_compact_states(struct fsm *fsm,
 	fsm_state_t i, old_start = FSM_STATE_REMAP_NO_STATE;
 	fsm_state_t dst;
 	size_t kept, removed_count;
+	void *endid_space, *eager_output_space;
 	const fsm_state_t orig_statecount = fsm->statecount;
 
 	fsm_state_t *mapping = f_malloc(fsm->alloc,
@@ -196,14 +197,39 @@ fsm_compact_states(struct fsm *fsm,
 			kept++;
 		} else {
 			mapping[i] = FSM_STATE_REMAP_NO_STATE;
-			/* for endpoint accounting */
-			fsm_setend(fsm, i, 0);
 		}
 #if LOG_COMPACT > 0
 		fprintf(stderr, "fsm_compact_states: mapping[%u] == %d, kept %zu\n", i, mapping[i], kept);
 #endif
 	}
 
+	/* Nothing to do. */
+	if (kept == orig_statecount) {
+		f_free(fsm->alloc, mapping);
+		if (removed != NULL) {
+			*removed = 0;
+		}
+		return 1;
+	}
+
+	/* Allocate everything needed before changing anything. Renumbering
+	 * edges in order does not allocate. */
+	endid_space = fsm_endid_compact_alloc(fsm);
+	eager_output_space = fsm_eager_output_compact_alloc(fsm);
+	if (endid_space == NULL || eager_output_space == NULL) {
+		f_free(fsm->alloc, endid_space);
+		f_free(fsm->alloc, eager_output_space);
+		f_free(fsm->alloc, mapping);
+		return 0;
+	}
+
+	for (i = 0; i < orig_statecount; i++) {
+		if (mapping[i] == FSM_STATE_REMAP_NO_STATE) {
+			/* for endpoint accounting */
+			fsm_setend(fsm, i, 0);
+		}
+	}
+
 	/* Clear start state, if doomed. */
 	if (fsm_getstart(fsm, &old_start)) {
 		if (mapping[old_start] == FSM_STATE_REMAP_NO_STATE) {
@@ -229,7 +255,9 @@ fsm_compact_states(struct fsm *fsm,
 #endif
 		state_set_compact(&s->epsilons, mapping_cb, mapping);
 		if (fsm->states[i].edges != NULL) {
-			edge_set_compact(&s->edges, fsm->alloc, mapping_cb, mapping);
+			int r = edge_set_compact(&s->edges, fsm->alloc, mapping_cb, mapping);
+			assert(r); /* in order */
+			(void) r;
 		}
 	}
 
@@ -260,12 +288,8 @@ fsm_compact_states(struct fsm *fsm,
 	}
 
 	/* Remap end metadata */
-	if (!fsm_endid_compact(fsm, mapping, orig_statecount)) {
-		return 0;
-	}
-	if (!fsm_eager_output_compact(fsm, mapping, orig_statecount)) {
-		return 0;
-	}
+	fsm_endid_compact(fsm, mapping, orig_statecount, endid_space);
+	fsm_eager_output_compact(fsm, mapping, orig_statecount, eager_output_space);
 
 	assert(dst == kept);
 	assert(kept == fsm->statecount);
-- 
2.43.0


From 2e54b08c8439940aebdc7b9379d9bae0eb346594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:59 +0000
Subject: [PATCH 013/142] fix: string sets: find words which end inside others,
 and allow building a set twice

---
 src/libre/ac.c         | 74 +++++++++++++++++++++++++++++++++++++-----
 src/libre/ac.h         |  4 +++
 src/libre/re_strings.c |  3 ++
 3 files changed, 72 insertions(+), 9 deletions(-)

diff --git a/src/libre/ac.c b/src/libre/ac.c
index e941260..611ce37 100644
--- a/src/libre/ac.c
+++ b/src/libre/ac.c
@@ -174,6 +174,22 @@ trie_add_word(struct trie_graph *g, const char *w, size_t n, const fsm_end_id_t
 	return g;
 }
 
+void
+trie_reset(struct trie_graph *g)
+{
+	struct trie_pool *p;
+	size_t i;
+
+	assert(g != NULL);
+
+	for (p = g->pool; p != NULL; p = p->next) {
+		for (i = 0; i < p->n; i++) {
+			p->states[i].fail = NULL;
+			p->states[i].have_st = 0;
+		}
+	}
+}
+
 int
 trie_add_failure_edges(struct trie_graph *g) {
 	struct trie_state **q;
@@ -233,7 +249,6 @@ trie_add_failure_edges(struct trie_graph *g) {
 				nx->fail = fs;
 			}
 
-			nx->output = nx->output | fs->output;
 		}
 	}
 
@@ -244,6 +259,42 @@ trie_add_failure_edges(struct trie_graph *g) {
 	return 0;
 }
 
+/*
+ * The words which end on arriving at a state are the state's own word,
+ * and those of every state along its chain of failure links.
+ * This is found by walking the links rather than stored,
+ * because the links differ from one build to the next.
+ */
+static const struct trie_state *
+next_suffix(const struct trie_state *ts)
+{
+	return ts->fail == ts ? NULL : ts->fail;
+}
+
+static int
+is_output(const struct trie_state *ts)
+{
+	for ( ; ts != NULL; ts = next_suffix(ts)) {
+		if (ts->output) {
+			return 1;
+		}
+	}
+
+	return 0;
+}
+
+static int
+has_endids(const struct trie_state *ts)
+{
+	for ( ; ts != NULL; ts = next_suffix(ts)) {
+		if (!state_set_empty(ts->endids)) {
+			return 1;
+		}
+	}
+
+	return 0;
+}
+
 static struct trie_state *
 find_next_state(struct trie_state *s, int sym)
 {
@@ -290,7 +341,7 @@ trie_to_fsm_state(struct trie_state *ts, struct fsm *fsm,
 	assert(fsm != NULL);
 	assert(q != NULL);
 
-	if (ts->output && have_end && state_set_empty(ts->endids)) {
+	if (have_end && is_output(ts) && !has_endids(ts)) {
 		*q = single_end;
 		return 1;
 	}
@@ -325,15 +376,20 @@ trie_to_fsm_state(struct trie_state *ts, struct fsm *fsm,
 		}
 	}
 
-	if (ts->output) {
+	if (is_output(ts)) {
+		const struct trie_state *p;
+
 		fsm_setend(fsm, st, 1);
 
-		struct state_iter si;
-		fsm_state_t state;
-		state_set_reset(ts->endids, &si);
-		while (state_set_next(&si, &state)) {
-			if (!fsm_endid_set(fsm, st, (fsm_end_id_t) state)) {
-				return 0;
+		for (p = ts; p != NULL; p = next_suffix(p)) {
+			struct state_iter si;
+			fsm_state_t state;
+
+			state_set_reset(p->endids, &si);
+			while (state_set_next(&si, &state)) {
+				if (!fsm_endid_set(fsm, st, (fsm_end_id_t) state)) {
+					return 0;
+				}
 			}
 		}
 	}
diff --git a/src/libre/ac.h b/src/libre/ac.h
index c8a4f19..0b81ea0 100644
--- a/src/libre/ac.h
+++ b/src/libre/ac.h
@@ -24,6 +24,10 @@ struct trie_graph *
 trie_add_word(struct trie_graph *g, const char *w, size_t n,
 	const fsm_end_id_t *endid);
 
+/* forget what a previous build left behind */
+void
+trie_reset(struct trie_graph *g);
+
 int
 trie_add_failure_edges(struct trie_graph *g);
 
diff --git a/src/libre/re_strings.c b/src/libre/re_strings.c
index 39a9b5c..dbe57f5 100644
--- a/src/libre/re_strings.c
+++ b/src/libre/re_strings.c
@@ -91,6 +91,9 @@ re_strings_build(struct re_strings *g,
 
 	fsm = NULL;
 
+	/* a set may be built more than once */
+	trie_reset((struct trie_graph *) g);
+
 	if ((flags & RE_STRINGS_ANCHOR_LEFT) == 0) {
 		if (trie_add_failure_edges((struct trie_graph *) g) < 0) {
 			goto error;
-- 
2.43.0


From 10b0e150a0bbd1909cf234116c005855a7290330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:59 +0000
Subject: [PATCH 014/142] fix: string sets: report failure to record a word's
 id

---
 src/libre/ac.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/libre/ac.c b/src/libre/ac.c
index 611ce37..24c3a9d 100644
--- a/src/libre/ac.c
+++ b/src/libre/ac.c
@@ -163,14 +163,17 @@ trie_add_word(struct trie_graph *g, const char *w, size_t n, const fsm_end_id_t
 		st = nx;
 	}
 
+	if (endid != NULL) {
+		if (!state_set_add(&st->endids, NULL, (fsm_state_t)*endid)) {
+			return NULL;
+		}
+	}
+
 	st->output = 1;
 	if (g->depth < n) {
 		g->depth = n;
 	}
 
-	if (endid != NULL) {
-		state_set_add(&st->endids, NULL, (fsm_state_t)*endid);
-	}
 	return g;
 }
 
-- 
2.43.0


From e14068108cc52d8290229f5c26d3affd32e2ebf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:20 +0000
Subject: [PATCH 015/142] fix: edgeset: clear the label set for a state without
 edges too, so minimising does not compare garbage

---
 src/adt/edgeset.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/adt/edgeset.c b/src/adt/edgeset.c
index 4d88465..a787bf7 100644
--- a/src/adt/edgeset.c
+++ b/src/adt/edgeset.c
@@ -431,6 +431,8 @@ edge_set_check_edges_with_EC_mapping(const struct edge_set *set,
 {
 	size_t i;
 
+	memset(labels, 0x00, (256/64)*sizeof(labels[0]));
+
 	if (set == NULL) {
 		return 0;
 	}
@@ -440,8 +442,6 @@ edge_set_check_edges_with_EC_mapping(const struct edge_set *set,
 	    label, (void *)set);
 #endif
 
-	memset(labels, 0x00, (256/64)*sizeof(labels[0]));
-
 	/* Find the state the label leads to, if any. */
 	const size_t offset = label/64;
 	const uint64_t bit = (uint64_t)1 << (label & 63);
-- 
2.43.0


From 41c358edc541be691859bf29c303e236c647e37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:47 +0000
Subject: [PATCH 016/142] fix: walk2: do not leave states marked as visited in
 the result

---
 src/libfsm/walk2.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/libfsm/walk2.c b/src/libfsm/walk2.c
index 6d6ab02..b7f1c29 100644
--- a/src/libfsm/walk2.c
+++ b/src/libfsm/walk2.c
@@ -511,7 +511,7 @@ fsm_walk2(const struct fsm *a, const struct fsm *b,
 	static const struct fsm_walk2_data zero;
 	struct fsm_walk2_data data = zero;
 
-	fsm_state_t sa, sb;
+	fsm_state_t sa, sb, i;
 	struct fsm_walk2_tuple *tup0;
 	struct fsm *new;
 	int have_a, have_b;
@@ -590,6 +590,11 @@ fsm_walk2(const struct fsm *a, const struct fsm *b,
 	new = data.new;
 	data.new = NULL; /* avoid freeing new FSM */
 
+	/* .visited is only meaningful within a single operation */
+	for (i = 0; i < new->statecount; i++) {
+		new->states[i].visited = 0;
+	}
+
 	fsm_walk2_data_free(a, &data);
 
 	return new;
-- 
2.43.0


From dbf7558e7e28ff48315fb136caa4f28431572c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:47 +0000
Subject: [PATCH 017/142] fix: fsm_trim: clear the marks when interrupted by a
 failure

---
 src/libfsm/trim.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/libfsm/trim.c b/src/libfsm/trim.c
index c37965f..eb74394 100644
--- a/src/libfsm/trim.c
+++ b/src/libfsm/trim.c
@@ -566,6 +566,11 @@ fsm_trim(struct fsm *fsm, enum fsm_trim_mode mode,
 	return ret;
 
 cleanup:
+	/* marking may have been interrupted */
+	for (i = 0; i < fsm->statecount; i++) {
+		fsm->states[i].visited = 0;
+	}
+
 	if (marks != NULL) {
 		f_free(fsm->alloc, marks);
 	}
-- 
2.43.0


From a25bfbc3c83960dd0b0c9d7de6cde56f1ad08b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:47 +0000
Subject: [PATCH 018/142] fix: fsm_removestate: renumber end ids, eager outputs
 and the start state too

---
 src/libfsm/state.c | 82 +++++++++++++++++++++++++++++++++-------------
 1 file changed, 60 insertions(+), 22 deletions(-)

diff --git a/src/libfsm/state.c b/src/libfsm/state.c
index 51c713c..00ca904 100644
--- a/src/libfsm/state.c
+++ b/src/libfsm/state.c
@@ -34,7 +34,7 @@ fsm_addstate(struct fsm *fsm, fsm_state_t *state)
 	/* TODO: something better than one contigious realloc */
 	if (fsm->statecount == fsm->statealloc) {
 		const size_t factor = 2; /* a guess */
-		const size_t n = fsm->statealloc * factor;
+		const size_t n = fsm->statealloc == 0 ? 1 : fsm->statealloc * factor;
 		struct fsm_state *tmp;
 		size_t i;
 
@@ -115,14 +115,46 @@ otherwise realloc to += twice as much more
 	return 1;
 }
 
+static fsm_state_t
+mapping_cb(fsm_state_t id, const void *opaque)
+{
+	const fsm_state_t *mapping = opaque;
+	return mapping[id];
+}
+
 int
 fsm_removestate(struct fsm *fsm, fsm_state_t state)
 {
-	fsm_state_t start, i;
+	fsm_state_t start, last, i;
+	fsm_state_t *mapping;
+	void *endid_space, *eager_output_space;
 
 	assert(fsm != NULL);
 	assert(state < fsm->statecount);
 
+	last = fsm->statecount - 1;
+
+	/* Allocate everything needed before changing anything. */
+	mapping = f_malloc(fsm->alloc, fsm->statecount * sizeof(mapping[0]));
+	if (mapping == NULL) {
+		return 0;
+	}
+
+	endid_space = fsm_endid_compact_alloc(fsm);
+	eager_output_space = fsm_eager_output_compact_alloc(fsm);
+	if (endid_space == NULL || eager_output_space == NULL) {
+		f_free(fsm->alloc, endid_space);
+		f_free(fsm->alloc, eager_output_space);
+		f_free(fsm->alloc, mapping);
+		return 0;
+	}
+
+	for (i = 0; i <= last; i++) {
+		mapping[i] = i;
+	}
+	mapping[last]  = state;
+	mapping[state] = FSM_STATE_REMAP_NO_STATE;
+
 	/* for endcount accounting */
 	fsm_setend(fsm, state, 0);
 
@@ -136,12 +168,6 @@ fsm_removestate(struct fsm *fsm, fsm_state_t state)
 	state_set_free(fsm->states[state].epsilons);
 	edge_set_free(fsm->alloc, fsm->states[state].edges);
 
-	if (fsm_getstart(fsm, &start) && start == state) {
-		fsm_clearstart(fsm);
-	}
-
-	assert(fsm->statecount >= 1);
-
 	/*
 	 * In order to avoid a hole, we move the last state over the removed index.
 	 * This need a pass over all transitions to renumber any which point to
@@ -149,26 +175,38 @@ fsm_removestate(struct fsm *fsm, fsm_state_t state)
 	 * TODO: this is terribly expensive. I would rather a mechanism for keeping
 	 * a hole, perhaps done by ranges over a globally-shared state array.
 	 */
-	if (state < fsm->statecount - 1) {
-		fsm->states[state] = fsm->states[fsm->statecount - 1];
+	if (state < last) {
+		fsm->states[state] = fsm->states[last];
 
-		for (i = 0; i < fsm->statecount - 1; i++) {
-			state_set_replace(&fsm->states[i].epsilons, fsm->statecount - 1, state);
-			if (!edge_set_replace_state(&fsm->states[i].edges, fsm->alloc, fsm->statecount - 1, state)) {
-				return 0;
-			}
+		for (i = 0; i < last; i++) {
+			int r;
+
+			state_set_replace(&fsm->states[i].epsilons, last, state);
+
+			/* this does not grow the set */
+			r = edge_set_replace_state(&fsm->states[i].edges, fsm->alloc, last, state);
+			assert(r);
+			(void) r;
 		}
 	}
 
 	fsm->statecount--;
-	return 1;
-}
 
-static fsm_state_t
-mapping_cb(fsm_state_t id, const void *opaque)
-{
-	const fsm_state_t *mapping = opaque;
-	return mapping[id];
+	fsm_endid_compact(fsm, mapping, last + 1, endid_space);
+	fsm_eager_output_compact(fsm, mapping, last + 1, eager_output_space);
+
+	f_free(fsm->alloc, mapping);
+
+	if (fsm->hasstart) {
+		start = fsm->start;
+		if (start == state) {
+			fsm_clearstart(fsm);
+		} else if (start == last) {
+			fsm_setstart(fsm, state);
+		}
+	}
+
+	return 1;
 }
 
 #define LOG_COMPACT 0
-- 
2.43.0


From ba8d44886682d03755a1b4246d3e6b3411898174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:47 +0000
Subject: [PATCH 019/142] fix: fsm_mergestates: keep the end flag, ids and
 start state of the merged state

---
 src/libfsm/mergestates.c | 55 +++++++++++++++++++++++++++-------------
 1 file changed, 37 insertions(+), 18 deletions(-)

diff --git a/src/libfsm/mergestates.c b/src/libfsm/mergestates.c
index 77d5e2f..58d2e75 100644
--- a/src/libfsm/mergestates.c
+++ b/src/libfsm/mergestates.c
@@ -6,22 +6,25 @@
 
 #include <assert.h>
 #include <stdlib.h>
+#include <stdio.h>
 
 #include <fsm/fsm.h>
+#include <fsm/pred.h>
 
+#include <adt/alloc.h>
 #include <adt/set.h>
 #include <adt/stateset.h>
 #include <adt/edgeset.h>
 
 #include "internal.h"
+#include "endids.h"
 
 int
 fsm_mergestates(struct fsm *fsm, fsm_state_t a, fsm_state_t b,
 	fsm_state_t *q)
 {
-	struct fsm_edge e;
-	struct edge_iter it;
 	fsm_state_t i;
+	size_t id_count;
 
 	assert(fsm != NULL);
 	assert(a < fsm->statecount);
@@ -35,35 +38,51 @@ fsm_mergestates(struct fsm *fsm, fsm_state_t a, fsm_state_t b,
 		return 0;
 	}
 
-	/* edges to b */
-	for (i = 0; i < fsm->statecount; i++) {
-		if (state_set_contains(fsm->states[i].epsilons, b)) {
-			state_set_remove(&fsm->states[i].epsilons, b);
+	/* a accepts wherever b did, with b's end ids */
+	if (fsm_isend(fsm, b)) {
+		fsm_setend(fsm, a, 1);
+	}
+
+	id_count = fsm_endid_count(fsm, b);
+	if (id_count > 0) {
+		fsm_end_id_t *ids;
+		int r;
+
+		ids = f_malloc(fsm->alloc, id_count * sizeof *ids);
+		if (ids == NULL) {
+			return 0;
+		}
 
-			if (!fsm_addedge_epsilon(fsm, i, a)) {
-				return 0;
-			}
+		r = fsm_endid_get(fsm, b, id_count, ids) == 1
+		 && fsm_endid_set_bulk(fsm, a, id_count, ids, FSM_ENDID_BULK_APPEND);
+
+		f_free(fsm->alloc, ids);
+
+		if (!r) {
+			return 0;
 		}
+	}
 
-		for (edge_set_reset(fsm->states[i].edges, &it); edge_set_next(&it, &e); ) {
-			if (e.state != b) {
-				continue;
-			}
+	/* edges to b */
+	for (i = 0; i < fsm->statecount; i++) {
+		state_set_replace(&fsm->states[i].epsilons, b, a);
 
-			if (!fsm_addedge_literal(fsm, i, a, e.symbol)) {
-				return 0;
-			}
+		if (!edge_set_replace_state(&fsm->states[i].edges, fsm->alloc, b, a)) {
+			return 0;
 		}
+	}
 
-		edge_set_remove_state(&fsm->states[i].edges, b);
+	if (fsm->hasstart && fsm->start == b) {
+		fsm_setstart(fsm, a);
 	}
 
+	/* removing b moves the last state into its place */
 	if (!fsm_removestate(fsm, b)) {
 		return 0;
 	}
 
 	if (q != NULL) {
-		*q = a;
+		*q = a == fsm->statecount ? b : a;
 	}
 
 	return 1;
-- 
2.43.0


From f1214a70c0a8c8865397c48b6bd43ef00fc7dc83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:25 +0000
Subject: [PATCH 020/142] fix: fsm_consolidate, fsm_shuffle: release the copy
 and report when an allocation fails

---
 src/libfsm/consolidate.c | 7 +++++--
 src/libfsm/shuffle.c     | 1 +
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/libfsm/consolidate.c b/src/libfsm/consolidate.c
index 55c3bfd..ca303aa 100644
--- a/src/libfsm/consolidate.c
+++ b/src/libfsm/consolidate.c
@@ -133,8 +133,10 @@ fsm_consolidate(const struct fsm *src,
 				src->states[src_i].edges)) {
 				goto cleanup;
 			}
-			edge_set_compact(&dst->states[dst_i].edges,
-			    dst->alloc, mapping_cb, &closure);
+			if (!edge_set_compact(&dst->states[dst_i].edges,
+				dst->alloc, mapping_cb, &closure)) {
+				goto cleanup;
+			}
 
 			if (fsm_isend(src, src_i)) {
 				fsm_setend(dst, dst_i, 1);
@@ -170,6 +172,7 @@ fsm_consolidate(const struct fsm *src,
 cleanup:
 
 	if (seen != NULL) { f_free(src->alloc, seen); }
+	if (dst != NULL) { fsm_free(dst); }
 	return NULL;
 }
 
diff --git a/src/libfsm/shuffle.c b/src/libfsm/shuffle.c
index 0a7269d..431e140 100644
--- a/src/libfsm/shuffle.c
+++ b/src/libfsm/shuffle.c
@@ -74,6 +74,7 @@ fsm_shuffle(struct fsm *fsm, unsigned seed)
 	populate_mapping(mapping, state_count, (uint32_t)seed);
 
 	dst = fsm_consolidate(fsm, mapping, state_count);
+	if (dst == NULL) { goto cleanup; }
 	fsm_move(fsm, dst);
 	dst = NULL;
 
-- 
2.43.0


From 01540b06dfb3672020c39284d62c44acb8a7ca4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:34 +0000
Subject: [PATCH 021/142] fix: fsm_merge leaves both operands intact when it
 fails

---
 src/libfsm/merge.c | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/libfsm/merge.c b/src/libfsm/merge.c
index 267b5b1..4077931 100644
--- a/src/libfsm/merge.c
+++ b/src/libfsm/merge.c
@@ -108,18 +108,15 @@ merge(struct fsm *dst, struct fsm *src,
 	 * significantly. */
 
 	if (!copy_capture_actions(dst, src)) {
-		/* non-recoverable -- destructive operation */
-		return NULL;
+		goto error;
 	}
 
 	if (!copy_end_ids(dst, src, *base_src)) {
-		/* non-recoverable -- destructive operation */
-		return NULL;
+		goto error;
 	}
 
 	if (!copy_eager_output_ids(dst, src, *base_src)) {
-		/* non-recoverable -- destructive operation */
-		return NULL;
+		goto error;
 	}
 
 	f_free(src->alloc, src->states);
@@ -133,6 +130,21 @@ merge(struct fsm *dst, struct fsm *src,
 	fsm_free(src);
 
 	return dst;
+
+error:
+
+	/* The states belong to dst now, so that dst and src are
+	 * both still for the caller to free, separately. */
+	f_free(src->alloc, src->states);
+	src->states = NULL;
+	src->statealloc = 0;
+	src->statecount = 0;
+	src->endcount = 0;
+
+	fsm_clearstart(src);
+	fsm_clearstart(dst);
+
+	return NULL;
 }
 
 static int
-- 
2.43.0


From f208a5e441c0d80d659c32a317f234b7e54f51a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:34 +0000
Subject: [PATCH 022/142] fix: fsm_union and fsm_union_array free their
 operands on failure, and the repeated-group union frees what it holds

---
 src/libfsm/union.c | 57 ++++++++++++++++++++++++++++++++--------------
 1 file changed, 40 insertions(+), 17 deletions(-)

diff --git a/src/libfsm/union.c b/src/libfsm/union.c
index 4b07ca6..da4df76 100644
--- a/src/libfsm/union.c
+++ b/src/libfsm/union.c
@@ -103,7 +103,7 @@ fsm_union(struct fsm *a, struct fsm *b,
 
 	if (a->alloc != b->alloc) {
 		errno = EINVAL;
-		return NULL;
+		goto error_operands;
 	}
 
 	if (a->statecount == 0) { fsm_free(a); return b; }
@@ -111,11 +111,13 @@ fsm_union(struct fsm *a, struct fsm *b,
 
 	if (!fsm_getstart(a, &sa) || !fsm_getstart(b, &sb)) {
 		errno = EINVAL;
-		return NULL;
+		goto error_operands;
 	}
 
 	q = fsm_merge(a, b, combine_info);
-	assert(q != NULL);
+	if (q == NULL) {
+		goto error_operands;
+	}
 
 	sa += combine_info->base_a;
 	sb += combine_info->base_b;
@@ -153,6 +155,13 @@ error:
 
 	fsm_free(q);
 
+	return NULL;
+
+error_operands:
+
+	fsm_free(a);
+	fsm_free(b);
+
 	return NULL;
 }
 
@@ -173,12 +182,12 @@ fsm_union_array(size_t fsm_count,
 		struct fsm *combined = fsm_union(res, fsms[i], &ci);
 		fsms[i] = NULL;
 		if (combined == NULL) {
-			while (i < fsm_count) {
+			/* res and fsms[i] are freed by fsm_union() */
+			for (i++; i < fsm_count; i++) {
 				fsm_free(fsms[i]);
-				i++;
+				fsms[i] = NULL;
 			}
 
-			fsm_free(res);
 			return NULL;
 		}
 
@@ -194,7 +203,7 @@ fsm_union_array(size_t fsm_count,
 		/* If the first argument didn't get its states put first
 		 * in the union, then shift the bases for everything
 		 * that has been combined into it so far. */
-		if (ci.capture_base_a > 0) {
+		if (ci.base_a > 0 || ci.capture_base_a > 0) {
 			size_t shift_i;
 			for (shift_i = 0; shift_i < i; shift_i++) {
 				bases[shift_i].state += ci.base_a;
@@ -350,7 +359,7 @@ analyze_group_nfa(const struct fsm *nfa, struct analysis_info *ainfo)
 			if (eps_i == s_i) { continue; }
 
 			if (!state_set_add(&ainfo->reachable_from_nonstart_state, nfa->alloc, eps_i)) {
-				return false;
+				goto alloc_fail;
 			}
 		}
 
@@ -362,7 +371,7 @@ analyze_group_nfa(const struct fsm *nfa, struct analysis_info *ainfo)
 			if (info.to == s_i) { continue; }
 
 			if (!state_set_add(&ainfo->reachable_from_nonstart_state, nfa->alloc, info.to)) {
-				return false;
+				goto alloc_fail;
 			}
 		}
 	}
@@ -459,7 +468,6 @@ analyze_group_nfa(const struct fsm *nfa, struct analysis_info *ainfo)
 	return true;
 
 alloc_fail:
-	fprintf(stderr, "alloc fail\n");
 	if (eclosures != NULL) {
 		closure_free(nfa, eclosures, state_count);
 	}
@@ -494,6 +502,7 @@ replace_labeled_edge(struct fsm *nfa, fsm_state_t from_state, fsm_state_t old_to
 		if (info.to == old_to) { *found = true; }
 		if (!edge_set_add_bulk(&new_edges, nfa->alloc, info.symbols,
 			info.to == old_to ? new_to : info.to)) {
+			edge_set_free(nfa->alloc, new_edges);
 			return false;
 		}
 	}
@@ -684,6 +693,7 @@ fsm_union_repeated_pattern_group(size_t nfa_count,
 	const bool log = 0 || LOG_UNION_REPEATED_PATTERN_GROUP;
 
 	struct analysis_info *ainfos = f_calloc(alloc, nfa_count, sizeof(ainfos[0]));
+	struct fsm *res = NULL;
 	if (ainfos == NULL) { goto fail; }
 
 	size_t est_total_states = 0;
@@ -691,7 +701,7 @@ fsm_union_repeated_pattern_group(size_t nfa_count,
 		assert(nfas[i]);
 		if (nfas[i]->alloc != alloc) {
 			errno = EINVAL;
-			return NULL;
+			goto fail;
 		}
 
 		/* Any NFAs passed to this function must be built with
@@ -700,7 +710,7 @@ fsm_union_repeated_pattern_group(size_t nfa_count,
 		 * linking. */
 		if (nfas[i]->linkage_info == NULL) {
 			errno = EINVAL;
-			return NULL;
+			goto fail;
 		}
 
 		const size_t count = fsm_countstates(nfas[i]);
@@ -742,8 +752,8 @@ fsm_union_repeated_pattern_group(size_t nfa_count,
 
 	est_total_states += 5;	/* new start and end, new unanchored start and end loops */
 
-	struct fsm *res = fsm_new_statealloc(alloc, est_total_states);
-	if (res == NULL) { return NULL; }
+	res = fsm_new_statealloc(alloc, est_total_states);
+	if (res == NULL) { goto fail; }
 
 	/* The new overall start state */
 	fsm_state_t global_start;
@@ -784,7 +794,11 @@ fsm_union_repeated_pattern_group(size_t nfa_count,
 		/* Call fsm_merge; the argument order shouldn't matter. */
 		struct fsm_combine_info combine_info;
 		struct fsm *merged = fsm_merge(res, fsm, &combine_info);
-		if (merged == NULL) { goto fail; }
+		if (merged == NULL) {
+			fsm_free(fsm);
+			goto fail;
+		}
+		res = merged;
 
 		if (log) {
 			fprintf(stderr, "merged: bases a %d and b %d\n", combine_info.base_a, combine_info.base_b);
@@ -909,8 +923,6 @@ fsm_union_repeated_pattern_group(size_t nfa_count,
 				    global_unanchored_start_loop, ainfo->unanchored_start_loop);
 			}
 		}
-
-		res = merged;
 	}
 
 	/* Link the global start to the global unanchored start loop and anchored start states. */
@@ -975,5 +987,16 @@ fail:
 		f_free(alloc, ainfos);
 	}
 
+	for (size_t i = 0; i < nfa_count; i++) {
+		if (nfas[i] != NULL) {
+			fsm_free(nfas[i]);
+			nfas[i] = NULL;
+		}
+	}
+
+	if (res != NULL) {
+		fsm_free(res);
+	}
+
 	return NULL;
 }
-- 
2.43.0


From 528c0ae508c98e432ec6df11fcbc9e8055c4cb45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:34 +0000
Subject: [PATCH 023/142] fix: fsm_concat frees its operands on failure, and
 clears every end of the left one

---
 src/libfsm/concat.c | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/libfsm/concat.c b/src/libfsm/concat.c
index 9f87802..f97469c 100644
--- a/src/libfsm/concat.c
+++ b/src/libfsm/concat.c
@@ -23,6 +23,7 @@ fsm_concat(struct fsm *a, struct fsm *b,
 	struct fsm *q;
 	fsm_state_t ea, sb;
 	fsm_state_t sq;
+	fsm_state_t i;
 	struct fsm_combine_info combine_info_internal;
 
 	if (combine_info == NULL) {
@@ -37,8 +38,8 @@ fsm_concat(struct fsm *a, struct fsm *b,
 		return NULL;
 	}
 
-	if (a->statecount == 0) { return b; }
-	if (b->statecount == 0) { return a; }
+	if (a->statecount == 0) { fsm_free(a); return b; }
+	if (b->statecount == 0) { fsm_free(b); return a; }
 
 	if (!fsm_has(a, fsm_isend)) {
 		errno = EINVAL;
@@ -54,17 +55,22 @@ fsm_concat(struct fsm *a, struct fsm *b,
 		return NULL;
 	}
 
-	fsm_setend(a, ea, 1);
+	/* none of a's ends are ends of the concatenation */
+	for (i = 0; i < a->statecount; i++) {
+		fsm_setend(a, i, 0);
+	}
 
 	q = fsm_merge(a, b, combine_info);
-	assert(q != NULL);
+	if (q == NULL) {
+		fsm_free(a);
+		fsm_free(b);
+		return NULL;
+	}
 
 	sq += combine_info->base_a;
 	ea += combine_info->base_a;
 	sb += combine_info->base_b;
 
-	fsm_setend(q, ea, 0);
-
 	/*
 	 * The textbook approach is to create epsilon transition(s) from the end
 	 * state of one FSM to the start state of the next FSM.
-- 
2.43.0


From f9c8d286bede777a5c1ba2fe8f3d1985b819a645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:34 +0000
Subject: [PATCH 024/142] fix: fsm_complete leaves the caller's automaton alone
 on failure

---
 src/libfsm/complete.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/libfsm/complete.c b/src/libfsm/complete.c
index d74f4d6..786dd8a 100644
--- a/src/libfsm/complete.c
+++ b/src/libfsm/complete.c
@@ -32,7 +32,6 @@ fsm_complete(struct fsm *fsm,
 
 	if (!fsm_all(fsm, fsm_isdfa)) {
 		if (!fsm_determinise(fsm)) {
-			fsm_free(fsm);
 			return 0;
 		}
 	}
-- 
2.43.0


From 2bb8fbc81aaeaee3cccb0b40f4a933c5cc6b1ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:34 +0000
Subject: [PATCH 025/142] fix: fsm_complement determinises a complete automaton
 first

---
 src/libfsm/complement.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libfsm/complement.c b/src/libfsm/complement.c
index 53d61c0..d0de7e7 100644
--- a/src/libfsm/complement.c
+++ b/src/libfsm/complement.c
@@ -22,9 +22,9 @@ fsm_complement(struct fsm *fsm)
 
 	assert(fsm != NULL);
 
-	if (!fsm_all(fsm, fsm_iscomplete)) {
+	/* an NFA may be complete too */
+	if (!fsm_all(fsm, fsm_isdfa) || !fsm_all(fsm, fsm_iscomplete)) {
 		if (!fsm_complete(fsm, fsm_isany)) {
-			fsm_free(fsm);
 			return 0;
 		}
 	}
-- 
2.43.0


From 68a323b43230f27f2f9c43f5a2b1fdee449e3a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:34 +0000
Subject: [PATCH 026/142] fix: fsm_setend keeps the end count for any non-zero
 argument

---
 src/libfsm/end.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libfsm/end.c b/src/libfsm/end.c
index 5a4aa0d..c0eb220 100644
--- a/src/libfsm/end.c
+++ b/src/libfsm/end.c
@@ -26,7 +26,7 @@ fsm_setend(struct fsm *fsm, fsm_state_t state, int end)
 		return;
 	}
 
-	switch (end) {
+	switch (!!end) {
 	case 0:
 		assert(fsm->endcount > 0);
 		fsm->endcount--;
-- 
2.43.0


From 708bd21a3d476a4f9ba6d43d4301a5a11146e587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:34 +0000
Subject: [PATCH 027/142] fix: epsilon closure reports allocation failure and
 leaves no stale marks

---
 src/libfsm/closure.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/libfsm/closure.c b/src/libfsm/closure.c
index 165fa49..875a5df 100644
--- a/src/libfsm/closure.c
+++ b/src/libfsm/closure.c
@@ -34,7 +34,7 @@ epsilon_closure_single(const struct fsm *fsm, struct state_set **closures, fsm_s
 
 	q = queue_new(fsm->alloc, fsm->statecount);
 	if (q == NULL) {
-		return 1;
+		return 0;
 	}
 
 	fsm->states[s].visited = 1;
@@ -122,6 +122,10 @@ start:
 
 error:
 
+	for (p = 0; p < fsm->statecount; p++) {
+		fsm->states[p].visited = 0;
+	}
+
 	queue_free(q);
 
 	return 0;
@@ -145,7 +149,9 @@ epsilon_closure(const struct fsm *fsm)
 		fsm->states[s].visited = 0;
 
 		closures[s] = NULL;
+	}
 
+	for (s = 0; s < fsm->statecount; s++) {
 		/*
 		 * In the simplest case of having no epsilon transitions, the
 		 * epsilon closure contains only itself. We populate that case
@@ -173,7 +179,9 @@ epsilon_closure(const struct fsm *fsm)
 			continue;
 		}
 
-		epsilon_closure_single(fsm, closures, s);
+		if (!epsilon_closure_single(fsm, closures, s)) {
+			goto error;
+		}
 	}
 
 	return closures;
-- 
2.43.0


From 15879001a45315f36ddab2cf5209a6b9dff1f5c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:34 +0000
Subject: [PATCH 028/142] fix: fsm_remove_epsilons checks allocation failure
 while remapping captures

---
 src/libfsm/epsilons.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/libfsm/epsilons.c b/src/libfsm/epsilons.c
index 926e6d9..67b775e 100644
--- a/src/libfsm/epsilons.c
+++ b/src/libfsm/epsilons.c
@@ -369,6 +369,9 @@ remap_capture_actions(struct fsm *nfa, struct state_set **eclosures)
 	 * It can't be added during the iteration, because that would
 	 * modify the hash table as it's being iterated over. */
 	fsm_capture_action_iter(nfa, remap_capture_action_cb, &env);
+	if (!env.ok) {
+		goto cleanup;
+	}
 
 	/* Now that we're done iterating, add those actions. */
 	for (i = 0; i < env.count; i++) {
-- 
2.43.0


From fba1b506c94b57eb08723228ccb8c32ed463452f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:34 +0000
Subject: [PATCH 029/142] fix: fsm_equal reports errors, and treats no start
 state as the empty language

---
 src/libfsm/equal.c | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/libfsm/equal.c b/src/libfsm/equal.c
index 02489b0..78d16f5 100644
--- a/src/libfsm/equal.c
+++ b/src/libfsm/equal.c
@@ -118,6 +118,9 @@ subsetof(const struct fsm *a, const struct fsm *b)
 int
 fsm_equal(const struct fsm *a, const struct fsm *b)
 {
+	fsm_state_t start;
+	int ea, eb, r;
+
 	assert(a != NULL);
 	assert(b != NULL);
 
@@ -126,8 +129,19 @@ fsm_equal(const struct fsm *a, const struct fsm *b)
 		return -1;
 	}
 
-	if (fsm_empty(a) && fsm_empty(b)) {
-		return 1;
+	/* without a start state, nothing matches */
+	ea = fsm_getstart(a, &start) ? fsm_empty(a) : 1;
+	if (ea == -1) {
+		return -1;
+	}
+
+	eb = fsm_getstart(b, &start) ? fsm_empty(b) : 1;
+	if (eb == -1) {
+		return -1;
+	}
+
+	if (ea || eb) {
+		return ea == eb;
 	}
 
 	/*
@@ -136,6 +150,11 @@ fsm_equal(const struct fsm *a, const struct fsm *b)
 	 * This is equivalent finding that (a \ b) \u (b \ a) is empty.
 	 */
 
-	return subsetof(a, b) && subsetof(b, a);
+	r = subsetof(a, b);
+	if (r != 1) {
+		return r;
+	}
+
+	return subsetof(b, a);
 }
 
-- 
2.43.0


From 768b36809daeba97d12ea31470cfbf1ba76bf1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:34 +0000
Subject: [PATCH 030/142] fix: fsm_empty passes on errors

---
 src/libfsm/empty.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/libfsm/empty.c b/src/libfsm/empty.c
index 7039215..f89dbd5 100644
--- a/src/libfsm/empty.c
+++ b/src/libfsm/empty.c
@@ -21,6 +21,7 @@ int
 fsm_empty(const struct fsm *fsm)
 {
 	fsm_state_t start;
+	int r;
 
 	assert(fsm != NULL);
 
@@ -34,10 +35,11 @@ fsm_empty(const struct fsm *fsm)
 	 * Note this includes the empty string (when the start state matches).
 	 */
 
-	if (fsm_reachableany(fsm, start, fsm_isend)) {
-		return 0;
+	r = fsm_reachableany(fsm, start, fsm_isend);
+	if (r == -1) {
+		return -1;
 	}
 
-	return 1;
+	return !r;
 }
 
-- 
2.43.0


From c1760a0fe633835508fedc7ee6fe71d9076adf18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:34 +0000
Subject: [PATCH 031/142] fix: fsm_reverse leaves the automaton intact when it
 fails

---
 src/libfsm/reverse.c | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/src/libfsm/reverse.c b/src/libfsm/reverse.c
index c709373..de7b531 100644
--- a/src/libfsm/reverse.c
+++ b/src/libfsm/reverse.c
@@ -113,8 +113,6 @@ fsm_reverse(struct fsm *fsm)
 				return 0;
 			}
 		}
-
-		fsm_setstart(fsm, start);
 	}
 
 	edges = f_malloc(fsm->alloc, sizeof *edges * fsm->statecount);
@@ -124,7 +122,7 @@ fsm_reverse(struct fsm *fsm)
 	}
 
 	epsilons = f_malloc(fsm->alloc, sizeof *epsilons * fsm->statecount);
-	if (edges == NULL) {
+	if (epsilons == NULL) {
 		state_set_free(endset);
 		f_free(fsm->alloc, edges);
 		return 0;
@@ -164,7 +162,7 @@ fsm_reverse(struct fsm *fsm)
 
 				for (state_set_reset(fsm->states[i].epsilons, &jt); state_set_next(&jt, &se); ) {
 					if (!state_set_add(&epsilons[se], fsm->alloc, i)) {
-						goto error1;
+						goto error;
 					}
 				}
 			}
@@ -172,7 +170,7 @@ fsm_reverse(struct fsm *fsm)
 				assert(e.state < fsm->statecount);
 
 				if (!edge_set_add(&edges[e.state], fsm->alloc, e.symbol, i)) {
-					return 0;
+					goto error;
 				}
 			}
 		}
@@ -208,7 +206,7 @@ fsm_reverse(struct fsm *fsm)
 			}
 
 			if (!state_set_add(&epsilons[start], fsm->alloc, s)) {
-				goto error1;
+				goto error;
 			}
 		}
 	} else {
@@ -230,6 +228,9 @@ fsm_reverse(struct fsm *fsm)
 		}
 	}
 
+	/* nothing can fail from here on */
+	fsm_setstart(fsm, start);
+
 	{
 		struct state_iter it;
 		fsm_state_t s;
@@ -279,22 +280,17 @@ fsm_reverse(struct fsm *fsm)
 
 	return 1;
 
-error1:
+error:
 
 	{
 		fsm_state_t i;
 
 		for (i = 0; i < fsm->statecount; i++) {
-			state_set_free(fsm->states[i].epsilons);
-			edge_set_free(fsm->alloc, fsm->states[i].edges);
-
-			fsm->states[i].epsilons = epsilons[i];
-			fsm->states[i].edges = edges[i];
+			state_set_free(epsilons[i]);
+			edge_set_free(fsm->alloc, edges[i]);
 		}
 	}
 
-error:
-
 	state_set_free(endset);
 
 	f_free(fsm->alloc, epsilons);
-- 
2.43.0


From 45658d5ff92e38ecb0ee5405dd0c6967d5fa3f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:34 +0000
Subject: [PATCH 032/142] fix: fsm_determinise frees its result on failure, and
 the state limit counts exactly

---
 src/libfsm/determinise.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/libfsm/determinise.c b/src/libfsm/determinise.c
index 3f748ae..eb356fa 100644
--- a/src/libfsm/determinise.c
+++ b/src/libfsm/determinise.c
@@ -30,6 +30,7 @@ fsm_determinise_with_config(struct fsm *nfa,
 	struct interned_state_set_pool *issp = NULL;
 	struct map map = { NULL, 0, 0, NULL };
 	struct mapping *curr = NULL;
+	struct fsm *dfa = NULL;
 	size_t dfacount = 0;
 	const size_t state_limit = config == NULL
 	    ? 0
@@ -163,7 +164,7 @@ fsm_determinise_with_config(struct fsm *nfa,
 			} else {
 				/* not found -- add a new one and push it to the stack for processing */
 
-				if (state_limit != 0 && dfacount > state_limit) {
+				if (state_limit != 0 && dfacount >= state_limit) {
 					res = FSM_DETERMINISE_WITH_CONFIG_STATE_LIMIT_REACHED;
 					goto cleanup;
 				}
@@ -193,7 +194,6 @@ fsm_determinise_with_config(struct fsm *nfa,
 	{
 		struct map_iter it;
 		struct mapping *m;
-		struct fsm *dfa;
 
 		dfa = fsm_new(nfa->alloc);
 		if (dfa == NULL) {
@@ -274,6 +274,7 @@ fsm_determinise_with_config(struct fsm *nfa,
 		}
 
 		fsm_move(nfa, dfa);
+		dfa = NULL;
 	}
 
 #if EXPENSIVE_CHECKS
@@ -286,6 +287,10 @@ fsm_determinise_with_config(struct fsm *nfa,
 	res = FSM_DETERMINISE_WITH_CONFIG_OK;
 
 cleanup:
+	if (dfa != NULL) {
+		fsm_free(dfa);
+	}
+
 	map_free(&map);
 	stack_free(stack);
 	interned_state_set_pool_free(issp);
-- 
2.43.0


From 873e7712d22304b56ec9c1bb4c71d1183167cc5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:34 +0000
Subject: [PATCH 033/142] fix: fsm_print frees conflict tables and cleans up on
 failure

---
 src/libfsm/print.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/libfsm/print.c b/src/libfsm/print.c
index bdb092d..194189d 100644
--- a/src/libfsm/print.c
+++ b/src/libfsm/print.c
@@ -38,7 +38,7 @@ print_hook_args(FILE *f,
 		assert(lang_opaque == NULL);
 	}
 
-	if (hooks->accept != NULL) {
+	if (hooks->args != NULL) {
 		return hooks->args(f, opt,
 			lang_opaque, hooks->hook_opaque);
 	} else if (default_args != NULL) {
@@ -199,6 +199,7 @@ print_conflicts(FILE *f, const struct fsm *fsm,
 
 		ids = f_malloc(fsm->alloc, count * sizeof *ids);
 		if (ids == NULL) {
+			f_free(fsm->alloc, example);
 			goto error;
 		}
 
@@ -220,13 +221,12 @@ print_conflicts(FILE *f, const struct fsm *fsm,
 			&state_metadata,
 			example))
 		{
-			goto error;
-		}
-
-		if (example != NULL) {
 			f_free(fsm->alloc, example);
+			f_free(fsm->alloc, ids);
+			goto error;
 		}
 
+		f_free(fsm->alloc, example);
 		f_free(fsm->alloc, ids);
 
 		conflicts++;
@@ -378,6 +378,7 @@ fsm_print(FILE *f, const struct fsm *fsm,
 	struct ret_list retlist;
 
 	if (!build_retlist(&retlist, ir)) {
+		free_retlist(&retlist);
 		free_ir(fsm, ir);
 		goto error;
 	}
@@ -386,6 +387,7 @@ fsm_print(FILE *f, const struct fsm *fsm,
 
 	/* TODO: non-const a */
 	if (!dfavm_compile_ir(&a, ir, &retlist, vm_opts)) {
+		dfavm_opasm_finalize_op(&a);
 		free_retlist(&retlist);
 		free_ir(fsm, ir);
 		return -1;
-- 
2.43.0


From 581f5b165db1e81fa1a977e273828c66253e16b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:34 +0000
Subject: [PATCH 034/142] fix: IR construction cleans up on allocation failure

---
 src/libfsm/print/ir.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/libfsm/print/ir.c b/src/libfsm/print/ir.c
index d8e29b2..c3dcadb 100644
--- a/src/libfsm/print/ir.c
+++ b/src/libfsm/print/ir.c
@@ -144,7 +144,6 @@ make_groups(const struct fsm *fsm, fsm_state_t state,
 
 		p = f_malloc(fsm->alloc, sizeof *p * (n - i)); /* worst case */
 		if (p == NULL) {
-			j++;
 			goto error;
 		}
 
@@ -166,7 +165,7 @@ make_groups(const struct fsm *fsm, fsm_state_t state,
 
 			tmp = f_realloc(fsm->alloc, p, sizeof *p * k);
 			if (tmp == NULL) {
-				j++;
+				f_free(fsm->alloc, p);
 				goto error;
 			}
 
@@ -412,6 +411,7 @@ make_state(const struct fsm *fsm, fsm_state_t state,
 		cs->u.error.error.ranges = make_holes(fsm, &bm, &cs->u.error.error.n);
 		if (cs->u.error.error.ranges == NULL) {
 			free_groups(fsm, groups, n);
+			cs->strategy = IR_NONE;
 			return -1;
 		}
 
@@ -547,6 +547,9 @@ make_ir(const struct fsm *fsm, const struct fsm_options *opt)
 
 		ir->states[i].eager_outputs = NULL;
 
+		ir->states[i].example  = NULL;
+		ir->states[i].strategy = IR_NONE;
+
 		if (fsm_isend(fsm, i)) {
 			fsm_end_id_t *ids;
 			size_t count;
@@ -593,7 +596,7 @@ make_ir(const struct fsm *fsm, const struct fsm_options *opt)
 			char *example;
 
 			if (!make_example(fsm, i, &example)) {
-				goto error_example;
+				goto error;
 			}
 
 			ir->states[i].example = example;
@@ -624,13 +627,10 @@ empty:
 
 	return ir;
 
-error_example:
-
-	i++;
-
 error:
 
-	ir->n = i;
+	/* including what was built for state i so far */
+	ir->n = i + 1;
 	free_ir(fsm, ir);
 
 	return NULL;
-- 
2.43.0


From 19035d2dd03cedec0c4829fbdcb51f702beb61ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:35 +0000
Subject: [PATCH 035/142] fix: VM compilation cleans up on failure, and load
 reads all four length bytes

---
 src/libfsm/vm.c    |  5 ++---
 src/libfsm/vm/ir.c | 20 +++++++++++++++++++-
 src/libfsm/vm/v1.c |  3 ++-
 src/libfsm/vm/v2.c |  2 ++
 4 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/src/libfsm/vm.c b/src/libfsm/vm.c
index 0eb4fa1..fdf7ac9 100644
--- a/src/libfsm/vm.c
+++ b/src/libfsm/vm.c
@@ -105,6 +105,7 @@ fsm_vm_compile_with_options(const struct fsm *fsm,
 	}
 
 	if (!build_retlist(&retlist, ir)) {
+		free_retlist(&retlist);
 		free_ir(fsm, ir);
 		return NULL;
 	}
@@ -112,6 +113,7 @@ fsm_vm_compile_with_options(const struct fsm *fsm,
 	a = zero;
 
 	if (!dfavm_compile_ir(&a, ir, &retlist, vmopts)) {
+		dfavm_opasm_finalize_op(&a);
 		free_retlist(&retlist);
 		free_ir(fsm, ir);
 		return NULL;
@@ -120,9 +122,6 @@ fsm_vm_compile_with_options(const struct fsm *fsm,
 	free_ir(fsm, ir);
 
 	vm = dfavm_compile_vm(&a, vmopts);
-	if (vm == NULL) {
-		return NULL;
-	}
 
 	free_retlist(&retlist);
 	dfavm_opasm_finalize_op(&a);
diff --git a/src/libfsm/vm/ir.c b/src/libfsm/vm/ir.c
index 4930f4b..8df89c9 100644
--- a/src/libfsm/vm/ir.c
+++ b/src/libfsm/vm/ir.c
@@ -630,9 +630,15 @@ initial_translate_table(struct dfavm_assembler_ir *a, const struct ret_list *ret
 
 	best_op = NULL;
 	best_count = xlate_table_ranges(a, retlist, table, &best_op);
+	if (best_count == -1) {
+		return -1;
+	}
 
 	op = NULL;
 	count = xlate_table_cases(a, retlist, table, &op);
+	if (count == -1) {
+		return -1;
+	}
 
 	if (count < best_count) {
 		opasm_free_list(a,best_op);
@@ -766,17 +772,26 @@ initial_translate_state(struct dfavm_assembler_ir *a, const struct ir *ir,
 	}
 
 	*opp = opasm_new_fetch(a, retlist, ind, (st->isend) ? VM_END_SUCC : VM_END_FAIL, st);
+	if (*opp == NULL) {
+		return NULL;
+	}
 	opp = &(*opp)->next;
 	assert(*opp == NULL);
 
 	switch (st->strategy) {
 	case IR_NONE:
 		*opp = opasm_new_stop(a, retlist, VM_CMP_ALWAYS, 0, VM_END_FAIL, st);
+		if (*opp == NULL) {
+			return NULL;
+		}
 		opp = &(*opp)->next;
 		break;
 
 	case IR_SAME:
 		*opp = opasm_new_branch(a, retlist, VM_CMP_ALWAYS, 0, st->u.same.to, st);
+		if (*opp == NULL) {
+			return NULL;
+		}
 		opp = &(*opp)->next;
 		break;
 
@@ -1089,6 +1104,9 @@ dfavm_compile_ir(struct dfavm_assembler_ir *a, const struct ir *ir, const struct
 
 	for (i=0; i < a->nstates; i++) {
 		a->ops[i] = initial_translate_state(a, ir, retlist, i);
+		if (a->ops[i] == NULL) {
+			return 0;
+		}
 	}
 
 	fixup_dests(a);
@@ -1130,7 +1148,7 @@ empty:
 
 	a->ops[0] = opasm_new_stop(a, retlist, VM_CMP_ALWAYS, 0, VM_END_FAIL, NULL);
 	if (a->ops[0] == NULL) {
-		return -1;
+		return 0;
 	}
 
 	a->linked = a->ops[0];
diff --git a/src/libfsm/vm/v1.c b/src/libfsm/vm/v1.c
index c9af206..2c48432 100644
--- a/src/libfsm/vm/v1.c
+++ b/src/libfsm/vm/v1.c
@@ -62,7 +62,7 @@ dfavm_load_v1(FILE *f, struct dfavm_v1 *vm)
 	}
 
 	len = ((uint32_t)ilen[0] << 0) | ((uint32_t)ilen[1] << 8) |
-		((uint32_t)ilen[1] << 16) | ((uint32_t)ilen[1] << 24);
+		((uint32_t)ilen[2] << 16) | ((uint32_t)ilen[3] << 24);
 
 	instr = malloc(len);
 	if (instr == NULL) {
@@ -220,6 +220,7 @@ encode_opasm_v1(const struct dfavm_vm_op *instr, size_t ninstr, size_t total_byt
 
 error:
 	if (ret != NULL) {
+		free(ret->u.v1.ops);
 		free(ret);
 	}
 	return NULL;
diff --git a/src/libfsm/vm/v2.c b/src/libfsm/vm/v2.c
index e217f6d..a99eadd 100644
--- a/src/libfsm/vm/v2.c
+++ b/src/libfsm/vm/v2.c
@@ -158,6 +158,8 @@ encode_opasm_v2(const struct dfavm_vm_op *instr, size_t ninstr)
 
 error:
 	if (ret != NULL) {
+		free(ret->u.v2.ops);
+		free(ret->u.v2.abuf);
 		free(ret);
 	}
 
-- 
2.43.0


From 5375881b19cd8dc455480851158fa0ed6fd5bcf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:35 +0000
Subject: [PATCH 036/142] fix: a repeated anchored subtree keeps its minimum
 count

---
 src/libre/ast_analysis.c | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/libre/ast_analysis.c b/src/libre/ast_analysis.c
index 5a6b41b..d8db92b 100644
--- a/src/libre/ast_analysis.c
+++ b/src/libre/ast_analysis.c
@@ -94,6 +94,24 @@ prune_repeat_node(struct ast_expr *n)
 	n->u.repeat.max = 0;
 }
 
+/* Repeating an anchored subtree more than once is the same as matching it
+ * once, because every other repetition would need to be empty. Returns 0
+ * if that cannot be, because the subtree always consumes input. */
+static int
+limit_repeat_to_once(struct ast_expr *n)
+{
+	assert(n->type == AST_EXPR_REPEAT && n->u.repeat.min > 0);
+
+	if (n->u.repeat.min > 1 && always_consumes_input(n->u.repeat.e)) {
+		return 0;
+	}
+
+	n->u.repeat.min = 1;
+	n->u.repeat.max = 1;
+
+	return 1;
+}
+
 static enum ast_analysis_res
 analysis_iter(struct ast_expr *n)
 {
@@ -1126,7 +1144,10 @@ analysis_iter_anchoring(struct anchoring_env *env, struct ast_expr *n)
 			LOG(3 - LOG_ANCHORING,
 			    "%s: REPEAT: repeating ANCHORED_START subtree >0 times -> ANCHORED_START\n", __func__);
 			set_flags(n, AST_FLAG_ANCHORED_START);
-			n->u.repeat.max = 1;
+			if (!limit_repeat_to_once(n)) {
+				set_flags(n, AST_FLAG_UNSATISFIABLE);
+				return AST_ANALYSIS_UNSATISFIABLE;
+			}
 		}
 
 		if (can_consume_single_newline(n->u.repeat.e)) {
@@ -1137,7 +1158,10 @@ analysis_iter_anchoring(struct anchoring_env *env, struct ast_expr *n)
 			LOG(3 - LOG_ANCHORING,
 			    "%s: REPEAT: repeating ANCHORED_END subtree >0 times -> ANCHORED_END\n", __func__);
 			set_flags(n, n->u.repeat.e->flags & END_ANCHOR_FLAG_MASK);
-			n->u.repeat.max = 1;
+			if (!limit_repeat_to_once(n)) {
+				set_flags(n, AST_FLAG_UNSATISFIABLE);
+				return AST_ANALYSIS_UNSATISFIABLE;
+			}
 		}
 
 		/* If there's a {0,_} repeat group after an end anchor that always consumes
-- 
2.43.0


From 9ca266a14367d9181289022be2345fbb15373f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:35 +0000
Subject: [PATCH 037/142] fix: pattern compilation frees subtraction and union
 operands on failure

---
 src/libre/ast_compile.c | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/libre/ast_compile.c b/src/libre/ast_compile.c
index 5d31ef0..e7641a1 100644
--- a/src/libre/ast_compile.c
+++ b/src/libre/ast_compile.c
@@ -150,14 +150,17 @@ fsm_unionxy(struct fsm *a, struct fsm *b, fsm_state_t x, fsm_state_t y)
 	assert(y < a->statecount);
 
 	if (!fsm_getstart(a, &sa)) {
+		fsm_free(b);
 		return 0;
 	}
 
 	if (!fsm_getstart(b, &sb)) {
+		fsm_free(b);
 		return 0;
 	}
 
 	if (!fsm_collate(b, &end, fsm_isend)) {
+		fsm_free(b);
 		return 0;
 	}
 
@@ -173,6 +176,7 @@ fsm_unionxy(struct fsm *a, struct fsm *b, fsm_state_t x, fsm_state_t y)
 
 	q = fsm_mergeab(a, b, &base_b);
 	if (q == NULL) {
+		fsm_free(b);
 		return 0;
 	}
 
@@ -931,6 +935,8 @@ comp_iter(struct comp_env *env,
 
 		q = fsm_subtract(a, b);
 		if (q == NULL) {
+			fsm_free(a);
+			fsm_free(b);
 			return 0;
 		}
 
@@ -941,9 +947,15 @@ comp_iter(struct comp_env *env,
 		 * overall or not.
 		 */
 
-		if (fsm_empty(q)) {
-			EPSILON(x, y);
-			break;
+		switch (fsm_empty(q)) {
+		case -1:
+			fsm_free(q);
+			return 0;
+
+		case 1:
+			/* nothing to match here */
+			fsm_free(q);
+			return 1;
 		}
 
 		if (!fsm_unionxy(env->fsm, q, x, y)) {
-- 
2.43.0


From 0f08bf8186e299d56cf3ec1aa0a7a8acc41572dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:35 +0000
Subject: [PATCH 038/142] fix: AST rewriting frees subtraction operands on
 failure

---
 src/libre/ast_rewrite.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/libre/ast_rewrite.c b/src/libre/ast_rewrite.c
index 592dd58..134dec8 100644
--- a/src/libre/ast_rewrite.c
+++ b/src/libre/ast_rewrite.c
@@ -644,12 +644,18 @@ rewrite_subtract(struct ast_expr_pool **poolp, struct ast_expr *n, enum re_flags
 
 		q = fsm_subtract(a, b);
 		if (q == NULL) {
+			fsm_free(a);
+			fsm_free(b);
 			return 0;
 		}
 
 		empty = fsm_empty(q);
 
 		fsm_free(q);
+
+		if (empty == -1) {
+			return 0;
+		}
 	}
 
 	if (empty) {
-- 
2.43.0


From 02e245688d6286ee3558f96388cc879e37e16d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:35 +0000
Subject: [PATCH 039/142] fix: lx does not free an automaton the union already
 freed

---
 src/lx/main.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/lx/main.c b/src/lx/main.c
index 92098bf..d16bd4a 100644
--- a/src/lx/main.c
+++ b/src/lx/main.c
@@ -298,14 +298,12 @@ zone_equal(const struct ast_zone *a, const struct ast_zone *b)
 
 	y = fsm_clone(b->fsm);
 	if (y == NULL) {
-		fsm_free(y);
+		fsm_free(x);
 		return -1;
 	}
 
 	q = fsm_union(x, y, NULL);
 	if (q == NULL) {
-		fsm_free(x);
-		fsm_free(y);
 		return -1;
 	}
 
-- 
2.43.0


From dbe176888b956cb9b70a4872e218d54fb5b94868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:04 +0000
Subject: [PATCH 040/142] fix: nested exact repetitions do not trip an
 assertion

---
 src/libre/ast_rewrite.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libre/ast_rewrite.c b/src/libre/ast_rewrite.c
index 134dec8..41d9b74 100644
--- a/src/libre/ast_rewrite.c
+++ b/src/libre/ast_rewrite.c
@@ -496,8 +496,8 @@ rewrite_repeat(struct ast_expr_pool **poolp, struct ast_expr *n, enum re_flags f
 		 * the sum of the ranges of the two inputs.
 		 */
 		if (i != AST_COUNT_UNBOUNDED && k != AST_COUNT_UNBOUNDED) {
-			/* I don't know why this is true */
-			assert(w - v > i - h + k - j);
+			/* these are equal for a{h,h}{j,j} only */
+			assert(w - v >= i - h + k - j);
 		}
 
 		/*
-- 
2.43.0


From 2ebceba136f29b1993d2a029984dc8c14fcb7dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:04 +0000
Subject: [PATCH 041/142] fix: a state which stops being an end state drops its
 end ids

---
 src/libfsm/end.c    |  5 +++++
 src/libfsm/endids.c | 41 ++++++++++++++++++++++++++++++++++++++++-
 src/libfsm/endids.h |  4 ++++
 3 files changed, 49 insertions(+), 1 deletion(-)

diff --git a/src/libfsm/end.c b/src/libfsm/end.c
index c0eb220..4f085f3 100644
--- a/src/libfsm/end.c
+++ b/src/libfsm/end.c
@@ -5,6 +5,7 @@
  */
 
 #include <assert.h>
+#include <stdio.h>
 #include <stdlib.h>
 
 #include <fsm/fsm.h>
@@ -13,6 +14,7 @@
 #include <adt/set.h>
 
 #include "internal.h"
+#include "endids.h"
 
 void
 fsm_setend(struct fsm *fsm, fsm_state_t state, int end)
@@ -31,6 +33,9 @@ fsm_setend(struct fsm *fsm, fsm_state_t state, int end)
 		assert(fsm->endcount > 0);
 		fsm->endcount--;
 		fsm->states[state].end = 0;
+
+		/* an id left behind would return if this is ever an end again */
+		fsm_endid_clear(fsm, state);
 		break;
 
 	case 1:
diff --git a/src/libfsm/endids.c b/src/libfsm/endids.c
index 112f85e..4ca6d46 100644
--- a/src/libfsm/endids.c
+++ b/src/libfsm/endids.c
@@ -463,6 +463,35 @@ fsm_endid_set(struct fsm *fsm,
 	}
 }
 
+void
+fsm_endid_clear(struct fsm *fsm, fsm_state_t state)
+{
+	struct endid_info *ei;
+	uint64_t hash, mask;
+	size_t i;
+
+	assert(fsm != NULL);
+	ei = fsm->endid_info;
+	assert(ei != NULL);
+
+	hash = hash_id(state);
+	mask = ei->bucket_count - 1;
+
+	for (i = 0; i < ei->bucket_count; i++) {
+		struct endid_info_bucket *b = &ei->buckets[(hash + i) & mask];
+
+		if (b->state == BUCKET_NO_STATE) {
+			return; /* not found */
+		}
+
+		if (b->state == state) {
+			/* the bucket stays, for collisions past it */
+			b->ids->count = 0;
+			return;
+		}
+	}
+}
+
 static int
 cmp_endids(const void *pa, const void *pb)
 {
@@ -492,6 +521,13 @@ fsm_endid_set_bulk(struct fsm *fsm,
 	ei = fsm->endid_info;
 	assert(ei != NULL);
 
+	if (num_ids == 0) {
+		if (op == FSM_ENDID_BULK_REPLACE) {
+			fsm_endid_clear(fsm, state);
+		}
+		return 1;
+	}
+
 	b = endid_find_bucket(fsm, state);
 	if (b == NULL) {
 		return 0;
@@ -612,7 +648,7 @@ fsm_mapendids(struct fsm *fsm,
 	for (i = 0; i < ei->bucket_count; i++) {
 		struct endid_info_bucket *b = &ei->buckets[i];
 
-		if (b->state != BUCKET_NO_STATE) {
+		if (b->state != BUCKET_NO_STATE && b->ids->count > 0) {
 			int ret;
 			size_t nwritten = 0;
 
@@ -894,6 +930,9 @@ fsm_endid_iter_bulk(const struct fsm *fsm,
 		}
 
 		count = b->ids->count;
+		if (count == 0) {
+			continue;
+		}
 
 		assert(b->state < state_count);
 		if (!cb(b->state, &b->ids->ids[0], count, opaque)) {
diff --git a/src/libfsm/endids.h b/src/libfsm/endids.h
index 994a658..b95b0b9 100644
--- a/src/libfsm/endids.h
+++ b/src/libfsm/endids.h
@@ -32,6 +32,10 @@ int
 fsm_endid_set_bulk(struct fsm *fsm,
     fsm_state_t state, size_t num_ids, const fsm_end_id_t *ids, enum fsm_endid_bulk_op op);
 
+/* Removes every end id from a state. This does not allocate. */
+void
+fsm_endid_clear(struct fsm *fsm, fsm_state_t state);
+
 int
 fsm_endid_carry(const struct fsm *src_fsm, const struct state_set *src_set,
     struct fsm *dst_fsm, fsm_state_t dst_state);
-- 
2.43.0


From 7f896aae7456bef459efe5b29e875a79378b9b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:35 +0000
Subject: [PATCH 042/142] fix: fsm_minimise keeps non-end states with different
 eager outputs apart

---
 src/libfsm/minimise.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/libfsm/minimise.c b/src/libfsm/minimise.c
index a2ff1b8..ebcc88a 100644
--- a/src/libfsm/minimise.c
+++ b/src/libfsm/minimise.c
@@ -778,7 +778,9 @@ split_ecs_by_end_metadata(struct min_env *env, const struct fsm *fsm)
 			const bool has_eager_outputs = fsm_eager_output_state_has_eager_output(fsm, s);
 
 			if (!is_end && !has_eager_outputs) {
-				break; /* skip */
+				/* others in this EC may still have eager outputs */
+				s = env->jump[s];
+				continue;
 			}
 
 			if (!collect_end_ids(fsm, s, &e->end)) {
-- 
2.43.0


From 75b6d0265936f5339f7099188a66f83d65e43560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:20 +0000
Subject: [PATCH 043/142] fix: a start-anchored pattern in a group whose first
 byte completes it is reported

---
 src/libfsm/union.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/libfsm/union.c b/src/libfsm/union.c
index da4df76..f12feaa 100644
--- a/src/libfsm/union.c
+++ b/src/libfsm/union.c
@@ -883,6 +883,14 @@ fsm_union_repeated_pattern_group(size_t nfa_count,
 		while (edge_set_group_iter_next(&iter, &info)) {
 			assert(global_anchored_start < merged->statecount);
 			struct fsm_state *anchored_start = &merged->states[global_anchored_start];
+
+			/* These were collected before modify_group_nfa moved
+			 * edges to the unanchored end loop away from it. */
+			if (info.to == ainfo->unanchored_end_loop
+			    && ainfo->eager_match_state != NO_STATE) {
+				info.to = ainfo->eager_match_state;
+			}
+
 			if (!edge_set_add_bulk(&anchored_start->edges, merged->alloc,
 				info.symbols, info.to)) {
 				goto fail;
@@ -898,6 +906,13 @@ fsm_union_repeated_pattern_group(size_t nfa_count,
 		edge_set_group_iter_reset(ainfo->repeatable_firsts, EDGE_GROUP_ITER_ALL, &iter);
 		while (edge_set_group_iter_next(&iter, &info)) {
 			struct fsm_state *unanchored_start = &merged->states[global_unanchored_start_loop];
+
+			/* As above. */
+			if (info.to == ainfo->unanchored_end_loop
+			    && ainfo->eager_match_state != NO_STATE) {
+				info.to = ainfo->eager_match_state;
+			}
+
 			if (!edge_set_add_bulk(&unanchored_start->edges, merged->alloc,
 				info.symbols, info.to)) {
 				goto fail;
-- 
2.43.0


From 3aee83f96bfe55a69aeb4e065526b2e06699918d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:49 +0000
Subject: [PATCH 044/142] fix: \z is an anchored end for a group of patterns
 too

---
 src/libre/ast_compile.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/libre/ast_compile.c b/src/libre/ast_compile.c
index e7641a1..473ce71 100644
--- a/src/libre/ast_compile.c
+++ b/src/libre/ast_compile.c
@@ -721,6 +721,13 @@ comp_iter(struct comp_env *env,
 			}
 			y = env->end_nl;
 		} else {
+			/* an anchored end without the optional newline, e.g. \z */
+			if (env->fsm->linkage_info != NULL) {
+				if (!state_set_add(&env->fsm->linkage_info->anchored_ends,
+					env->fsm->alloc, env->end)) {
+					return 0;
+				}
+			}
 			y = env->end;
 		}
 		break;
-- 
2.43.0


From 4344f0a4c8b4aca67c96705815c8617d5ecd39d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:00 +0000
Subject: [PATCH 045/142] fix: a group pattern nullable only at an anchored end
 does not match everything

---
 src/libfsm/union.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/libfsm/union.c b/src/libfsm/union.c
index f12feaa..bc4673d 100644
--- a/src/libfsm/union.c
+++ b/src/libfsm/union.c
@@ -38,6 +38,7 @@
 /* State/edge info gathered about an NFA. Used by fsm_union_repeated_pattern_group. */
 struct analysis_info {
 	bool nullable;          /* Does the NFA match the empty string? */
+	bool nullable_unanchored_end; /* ...with an unanchored end? */
 	fsm_state_t start;	/* start state */
 
 	/* The states with a /./ self edge representing the unanchored
@@ -433,6 +434,11 @@ analyze_group_nfa(const struct fsm *nfa, struct analysis_info *ainfo)
 	 * trivially match, but otherwise it would never match. */
 	ainfo->nullable = start_state_epsilon_closure_matches_empty_string(nfa, eclosures[ainfo->start]);
 
+	/* "" may also match by an anchored end only, as in `a|^$`, which says
+	 * nothing about other input. */
+	ainfo->nullable_unanchored_end = ainfo->unanchored_end_loop != NO_STATE
+	    && state_set_contains(eclosures[ainfo->start], ainfo->unanchored_end_loop);
+
 	/* Collect states that lead to an anchored end or eager match. */
 	for (size_t s_i = 0; s_i < state_count; s_i++) {
 		fsm_state_t indirect_dst = NO_STATE;
@@ -524,8 +530,7 @@ replace_labeled_edge(struct fsm *nfa, fsm_state_t from_state, fsm_state_t old_to
 static bool
 modify_group_nfa(struct fsm *nfa, size_t id, struct analysis_info *ainfo, size_t id_base)
 {
-	const bool nullable_and_unanchored_end = ainfo->nullable
-	    && ainfo->unanchored_end_loop != NO_STATE;
+	const bool nullable_and_unanchored_end = ainfo->nullable_unanchored_end;
 	const bool log = 0 || (LOG_ANALYZE_GROUP_NFA > 0);
 
 	/* Add the eager match state if there are eager match states
@@ -839,7 +844,7 @@ fsm_union_repeated_pattern_group(size_t nfa_count,
 			/* If the NFA matches the empty string and is not anchored at the end, then
 			 * add an epsilon edge from the global start directly to its eager match state.
 			 * This ensures all inputs will match this group NFA when combined. */
-			if (ainfo->nullable) {
+			if (ainfo->nullable_unanchored_end) {
 				assert(ainfo->unanchored_end_loop != NO_STATE);
 				if (!fsm_addedge_epsilon(merged, global_start, ainfo->eager_match_state)) {
 					goto fail;
@@ -849,7 +854,9 @@ fsm_union_repeated_pattern_group(size_t nfa_count,
 					    global_start, ainfo->eager_match_state);
 				}
 			}
-		} else {
+		}
+
+		if (!ainfo->nullable_unanchored_end) {
 			/* If the NFA matches an end-anchored empty string, then add an epsilon edge from
 			 * the global start to an anchored end, which has an endid. */
 			if (ainfo->nullable && !state_set_empty(ainfo->anchored_ends)) {
-- 
2.43.0


From 36e3ac5a5ff275e7e47b3c333b927598121f79b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:49 +0000
Subject: [PATCH 046/142] fix: a group pattern anchored at its start other than
 by its first node is linked

---
 src/libfsm/union.c | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/libfsm/union.c b/src/libfsm/union.c
index bc4673d..ab0ead3 100644
--- a/src/libfsm/union.c
+++ b/src/libfsm/union.c
@@ -429,6 +429,31 @@ analyze_group_nfa(const struct fsm *nfa, struct analysis_info *ainfo)
 		}
 	}
 
+	/* Likewise for whatever else the start state leads to without passing
+	 * through the unanchored start loop, as in `$\A`. */
+	{
+		struct state_iter si;
+		state_set_reset(eclosures[ainfo->start], &si);
+		fsm_state_t cs_i;
+		while (state_set_next(&si, &cs_i)) {
+			struct edge_group_iter egi;
+			struct edge_group_iter_info info;
+
+			if (ainfo->unanchored_start_loop != NO_STATE
+			    && state_set_contains(eclosures[ainfo->unanchored_start_loop], cs_i)) {
+				continue;
+			}
+
+			edge_set_group_iter_reset(nfa->states[cs_i].edges, EDGE_GROUP_ITER_ALL, &egi);
+			while (edge_set_group_iter_next(&egi, &info)) {
+				if (!edge_set_add_bulk(&ainfo->anchored_firsts,
+					nfa->alloc, info.symbols, info.to)) {
+					goto alloc_fail;
+				}
+			}
+		}
+	}
+
 	/* If the start state always matches, set a flag noting that it will need special handling
 	 * later. It's arguably pointless to combine "" with other regexes, because it will always
 	 * trivially match, but otherwise it would never match. */
-- 
2.43.0


From 6afa2b7c3ede81cc186a1a2852221e8ad94b6cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:34 +0000
Subject: [PATCH 047/142] fix: fsm_vm_match_file runs the program for empty
 input too

---
 src/libfsm/vm.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/libfsm/vm.c b/src/libfsm/vm.c
index fdf7ac9..860825c 100644
--- a/src/libfsm/vm.c
+++ b/src/libfsm/vm.c
@@ -211,6 +211,12 @@ fsm_vm_match_file(const struct fsm_dfavm *vm, FILE *f)
 		return 0;
 	}
 
+	/* the input may be empty, in which case nothing has run yet */
+	result = vm_match(vm, &st, buf, 0);
+	if (result != VM_MATCHING) {
+		return result == VM_SUCCESS;
+	}
+
 	return vm_end(vm, &st) == VM_SUCCESS;
 }
 
-- 
2.43.0


From 9e85d328a0a8e26515a90484e8557a28e85cbbe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:00 +0000
Subject: [PATCH 048/142] fix: fsm_generate_matches trims before it reads the
 start state and state count

---
 src/libfsm/gen.c | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/src/libfsm/gen.c b/src/libfsm/gen.c
index 8b85514..5600673 100644
--- a/src/libfsm/gen.c
+++ b/src/libfsm/gen.c
@@ -292,6 +292,24 @@ gen_init(struct gen_ctx *ctx, struct fsm *fsm)
 		return false;
 	}
 
+	/* Trim the FSM. This eliminates paths will never produce
+	 * matching input, and also populates an array of the shortest
+	 * distance to an end for each state -- which lets us eliminate
+	 * pointless searching when the remaining space in the buffer
+	 * wouldn't be enough to reach any end state, which has a
+	 * dramatic impact on performance. */
+	long trim_res = fsm_trim(fsm, FSM_TRIM_START_AND_END_REACHABLE, &ctx->sed);
+	if (trim_res < 0) {
+		return false;
+	}
+
+	/* Trimming renumbers states, and removes the start state if no
+	 * end is reachable from it. */
+	if (!fsm_getstart(ctx->fsm, &start)) {
+		ctx->done = true;
+		return true;
+	}
+
 	if (!grow_buf(ctx)) {
 		return false;
 	}
@@ -308,17 +326,6 @@ gen_init(struct gen_ctx *ctx, struct fsm *fsm)
 		return false;
 	}
 
-	/* Trim the FSM. This eliminates paths will never produce
-	 * matching input, and also populates an array of the shortest
-	 * distance to an end for each state -- which lets us eliminate
-	 * pointless searching when the remaining space in the buffer
-	 * wouldn't be enough to reach any end state, which has a
-	 * dramatic impact on performance. */
-	long trim_res = fsm_trim(fsm, FSM_TRIM_START_AND_END_REACHABLE, &ctx->sed);
-	if (trim_res < 0) {
-		return false;
-	}
-
 	for (size_t i = 0; i < count; i++) {
 		ctx->state_counts[i] = NO_COUNT;
 	}
-- 
2.43.0


From 16899b4681f8db5176e1c917690fb136b273be78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:43 +0000
Subject: [PATCH 049/142] fix: Go output goes to the given stream, and reports
 hook failures

---
 src/libfsm/print/go.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/libfsm/print/go.c b/src/libfsm/print/go.c
index 1f6b7a0..fb19185 100644
--- a/src/libfsm/print/go.c
+++ b/src/libfsm/print/go.c
@@ -334,12 +334,16 @@ fsm_print_gofrag(FILE *f,
 		switch (op->instr) {
 		case VM_OP_STOP:
 			print_cond(f, op, opt);
-			print_end(f, op, opt, hooks, retlist, op->u.stop.end_bits);
+			if (-1 == print_end(f, op, opt, hooks, retlist, op->u.stop.end_bits)) {
+				return -1;
+			}
 			break;
 
 		case VM_OP_FETCH:
 			print_fetch(f, opt);
-			print_end(f, op, opt, hooks, retlist, op->u.fetch.end_bits);
+			if (-1 == print_end(f, op, opt, hooks, retlist, op->u.fetch.end_bits)) {
+				return -1;
+			}
 			break;
 
 		case VM_OP_BRANCH:
@@ -444,7 +448,7 @@ fsm_print_go(FILE *f,
 			break;
 
 		case AMBIG_MULTIPLE:
-			fprintf(stdout, "(bool, []uint)");
+			fprintf(f, "(bool, []uint)");
 			break;
 
 		default:
-- 
2.43.0


From 803817af1dc1dee070166aabc1d56692c3e92314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:43 +0000
Subject: [PATCH 050/142] fix: Rust output reports hook failures, and fragments
 succeed

---
 src/libfsm/print/rust.c | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/libfsm/print/rust.c b/src/libfsm/print/rust.c
index c1fcf5b..45acbad 100644
--- a/src/libfsm/print/rust.c
+++ b/src/libfsm/print/rust.c
@@ -421,7 +421,9 @@ fsm_print_rustfrag(FILE *f,
 
 				fprintf(f, "                    ");
 				fprintf(f, "None => ");
-				print_end(f, op, opt, hooks, retlist, op->u.fetch.end_bits);
+				if (-1 == print_end(f, op, opt, hooks, retlist, op->u.fetch.end_bits)) {
+					return -1;
+				}
 				fprintf(f, ",\n");
 				fprintf(f, "                    ");
 
@@ -495,8 +497,7 @@ fsm_print_rust(FILE *f,
 	fprintf(f, "// generated\n");
 
 	if (opt->fragment) {
-		fsm_print_rustfrag(f, opt, hooks, retlist, ops, cp);
-		goto error;
+		return fsm_print_rustfrag(f, opt, hooks, retlist, ops, cp);
 	}
 
 	fprintf(f, "\n");
@@ -550,15 +551,13 @@ fsm_print_rust(FILE *f,
 	fprintf(f, " {\n");
 	fprintf(f, "    use Label::*;\n");
 
-	fsm_print_rustfrag(f, opt, hooks, retlist, ops, cp);
+	if (-1 == fsm_print_rustfrag(f, opt, hooks, retlist, ops, cp)) {
+		return -1;
+	}
 
 	fprintf(f, "}\n");
 	fprintf(f, "\n");
 
 	return 0;
-
-error:
-
-	return -1;
 }
 
-- 
2.43.0


From fbe47640dc4adb33b2df969e3071e0ed1b74f317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:31 +0000
Subject: [PATCH 051/142] fix: read end ids in the fsm text format as decimal,
 as they are printed

---
 src/libfsm/parser.act | 2 +-
 src/libfsm/parser.c   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libfsm/parser.act b/src/libfsm/parser.act
index 2596c3c..7b9d4f5 100644
--- a/src/libfsm/parser.act
+++ b/src/libfsm/parser.act
@@ -258,7 +258,7 @@
 
 		errno = 0;
 
-		u = strtoul(lex_state->buf.a, &e, 16);
+		u = strtoul(lex_state->buf.a, &e, 10);
 
 		if ((u == ULONG_MAX && errno == ERANGE) || u > FSM_END_ID_MAX) {
 			err(lex_state, "end id %s out of range: expected 0..%u inclusive",
diff --git a/src/libfsm/parser.c b/src/libfsm/parser.c
index ec9bf4f..2d90b41 100644
--- a/src/libfsm/parser.c
+++ b/src/libfsm/parser.c
@@ -1305,7 +1305,7 @@ p_xend_C_Cend_Hid(fsm fsm, lex_state lex_state, act_state act_state, state ZIs)
 
 		errno = 0;
 
-		u = strtoul(lex_state->buf.a, &e, 16);
+		u = strtoul(lex_state->buf.a, &e, 10);
 
 		if ((u == ULONG_MAX && errno == ERANGE) || u > FSM_END_ID_MAX) {
 			err(lex_state, "end id %s out of range: expected 0..%u inclusive",
-- 
2.43.0


From 826261ff902c567b1c640bb7eabad5b1f854b2fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:48 +0000
Subject: [PATCH 052/142] fix: no example for states of an FSM with epsilons
 when making the IR

---
 src/libfsm/print/ir.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/libfsm/print/ir.c b/src/libfsm/print/ir.c
index c3dcadb..f65c286 100644
--- a/src/libfsm/print/ir.c
+++ b/src/libfsm/print/ir.c
@@ -448,6 +448,12 @@ make_example(const struct fsm *fsm, fsm_state_t s, char **example)
 		return 1;
 	}
 
+	/* fsm_example() doesn't cater for epsilons */
+	if (fsm_has(fsm, fsm_hasepsilons)) {
+		*example = NULL;
+		return 1;
+	}
+
 	count = fsm_countstates(fsm);
 
 	/*
-- 
2.43.0


From 6536ca5369ef8383c348d149d2bbf7f7a0116719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:48 +0000
Subject: [PATCH 053/142] fix: free the end ids when a hook fails while
 printing

---
 src/libfsm/print/dot.c  | 2 ++
 src/libfsm/print/fsm.c  | 2 ++
 src/libfsm/print/json.c | 1 +
 3 files changed, 5 insertions(+)

diff --git a/src/libfsm/print/dot.c b/src/libfsm/print/dot.c
index 69cce10..ca28a0f 100644
--- a/src/libfsm/print/dot.c
+++ b/src/libfsm/print/dot.c
@@ -267,6 +267,7 @@ print_dotfrag(FILE *f,
 				&state_metadata,
 				default_accept, &s))
 			{
+				f_free(fsm->alloc, ids);
 				return -1;
 			}
 
@@ -276,6 +277,7 @@ print_dotfrag(FILE *f,
 				if (-1 == print_hook_comment(f, opt, hooks,
 					&state_metadata))
 				{
+					f_free(fsm->alloc, ids);
 					return -1;
 				}
 			}
diff --git a/src/libfsm/print/fsm.c b/src/libfsm/print/fsm.c
index 0275315..07f50e2 100644
--- a/src/libfsm/print/fsm.c
+++ b/src/libfsm/print/fsm.c
@@ -371,12 +371,14 @@ fsm_print_fsm(FILE *f,
 			default_accept,
 			NULL))
 		{
+			f_free(fsm->alloc, ids);
 			return -1;
 		}
 
 		if (-1 == print_hook_comment(f, opt, hooks,
 			&state_metadata))
 		{
+			f_free(fsm->alloc, ids);
 			return -1;
 		}
 
diff --git a/src/libfsm/print/json.c b/src/libfsm/print/json.c
index b1e9f0c..a2300d5 100644
--- a/src/libfsm/print/json.c
+++ b/src/libfsm/print/json.c
@@ -289,6 +289,7 @@ fsm_print_json(FILE *f,
 				&state_metadata,
 				NULL, NULL))
 			{
+				f_free(fsm->alloc, ids);
 				return -1;
 			}
 
-- 
2.43.0


From fa086f79a98fafb2db448d6089d63db7ec1f94f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:58 +0000
Subject: [PATCH 054/142] fix: printing code for a DFA that accepts at once but
 has unreachable states

---
 src/libfsm/print/go.c   | 4 ++--
 src/libfsm/print/rust.c | 4 ++--
 src/libfsm/print/vmc.c  | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/libfsm/print/go.c b/src/libfsm/print/go.c
index fb19185..49d39a5 100644
--- a/src/libfsm/print/go.c
+++ b/src/libfsm/print/go.c
@@ -297,8 +297,8 @@ fsm_print_gofrag(FILE *f,
 	/*
 	 * Only declare variables if we're actually going to use them.
 	 */
-	if (ops->cmp == VM_CMP_ALWAYS && ops->instr == VM_OP_STOP) {
-		assert(ops->next == NULL);
+	if (ops->cmp == VM_CMP_ALWAYS && ops->instr == VM_OP_STOP && ops->next == NULL) {
+		/* nothing to declare */
 	} else {
 		switch (opt->io) {
 		case FSM_IO_PAIR:
diff --git a/src/libfsm/print/rust.c b/src/libfsm/print/rust.c
index 45acbad..a200a17 100644
--- a/src/libfsm/print/rust.c
+++ b/src/libfsm/print/rust.c
@@ -280,8 +280,8 @@ fsm_print_rustfrag(FILE *f,
 	/*
 	 * Only declare variables if we're actually going to use them.
 	 */
-	if (ops->cmp == VM_CMP_ALWAYS && ops->instr == VM_OP_STOP) {
-		assert(ops->next == NULL);
+	if (ops->cmp == VM_CMP_ALWAYS && ops->instr == VM_OP_STOP && ops->next == NULL) {
+		/* nothing to declare */
 		fprintf(f, "\n");
 	} else {
 		switch (opt->io) {
diff --git a/src/libfsm/print/vmc.c b/src/libfsm/print/vmc.c
index b427a9c..508a95b 100644
--- a/src/libfsm/print/vmc.c
+++ b/src/libfsm/print/vmc.c
@@ -414,8 +414,8 @@ fsm_print_cfrag(FILE *f,
 	/*
 	 * Only declare variables if we're actually going to use them.
 	 */
-	if (ops->cmp == VM_CMP_ALWAYS && ops->instr == VM_OP_STOP) {
-		assert(ops->next == NULL);
+	if (ops->cmp == VM_CMP_ALWAYS && ops->instr == VM_OP_STOP && ops->next == NULL) {
+		/* nothing to declare */
 	} else {
 		switch (opt->io) {
 		case FSM_IO_GETC:
-- 
2.43.0


From abe541d23fd25921110578bfc52774bb8c576992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:24 +0000
Subject: [PATCH 055/142] fix: initialise the shared tombstone node statically,
 so concurrent parses don't write to it

---
 src/libre/ast.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/libre/ast.c b/src/libre/ast.c
index 43da60e..90f59b8 100644
--- a/src/libre/ast.c
+++ b/src/libre/ast.c
@@ -26,7 +26,7 @@
  * Note: this is a single-instance node, which other functions
  * should not modify.
  */
-static struct ast_expr the_tombstone;
+static struct ast_expr the_tombstone = { .type = AST_EXPR_TOMBSTONE };
 struct ast_expr *ast_expr_tombstone = &the_tombstone;
 
 struct ast_expr *
@@ -89,9 +89,6 @@ ast_new(void)
 
 	*res = zero;
 
-	/* XXX: not thread-safe */
-	the_tombstone.type = AST_EXPR_TOMBSTONE;
-
 	return res;
 }
 
-- 
2.43.0


From 2cd8741d12a7c242a7669d0be8c902acca0d1641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:24 +0000
Subject: [PATCH 056/142] fix: report errors for a failed rewrite and for
 running out of memory in re_comp()

---
 src/libre/re.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/libre/re.c b/src/libre/re.c
index 013e2b5..3340ea4 100644
--- a/src/libre/re.c
+++ b/src/libre/re.c
@@ -116,6 +116,9 @@ re_parse(enum re_dialect dialect, int (*getc)(void *opaque), void *opaque,
 
 	if (!ast_rewrite(ast, flags)) {
 		ast_free(ast);
+		if (err != NULL && err->e == RE_ESUCCESS) {
+			err->e = RE_EERRNO;
+		}
 		return NULL;
 	}
 
@@ -216,8 +219,7 @@ re_comp(enum re_dialect dialect, int (*getc)(void *opaque), void *opaque,
 	ast_free(ast);
 
 	if (new == NULL) {
-		/* XXX: this can happen e.g. on malloc failure */
-		assert(err == NULL || err->e != RE_ESUCCESS);
+		/* this can happen e.g. on malloc failure */
 		goto error;
 	}
 
-- 
2.43.0


From 316715c274586cc86c4692170c86aaafe3d08fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:24 +0000
Subject: [PATCH 057/142] fix: handle running out of memory when parsing a
 regexp

---
 src/libre/dialect/glob/parser.c    | 16 ++++++++++------
 src/libre/dialect/like/parser.c    | 16 ++++++++++------
 src/libre/dialect/literal/parser.c | 16 ++++++++++------
 src/libre/dialect/native/parser.c  | 16 ++++++++++------
 src/libre/dialect/pcre/parser.c    | 16 ++++++++++------
 src/libre/dialect/sql/parser.c     | 16 ++++++++++------
 src/libre/parser.act               | 14 +++++++++-----
 7 files changed, 69 insertions(+), 41 deletions(-)

diff --git a/src/libre/dialect/glob/parser.c b/src/libre/dialect/glob/parser.c
index b20798f..a18fa2a 100644
--- a/src/libre/dialect/glob/parser.c
+++ b/src/libre/dialect/glob/parser.c
@@ -662,12 +662,16 @@ ZL0:;
 		assert(f != NULL);
 		assert(end != NULL);
 
-		ast = ast_new();
-
 		if (err == NULL) {
 			err = &dummy;
 		}
 
+		ast = ast_new();
+		if (ast == NULL) {
+			err->e = RE_EERRNO;
+			return NULL;
+		}
+
 		lex_state    = &lex_state_s;
 		lex_state->p = lex_state->a;
 
@@ -725,9 +729,9 @@ ZL0:;
 		}
 
 		if (ast->expr == NULL) {
-			/* We shouldn't get here, it means there's error
-			 * checking missing elsewhere. */
-			if (err->e == RE_ESUCCESS) { assert(!"unreached"); }
+			/* We get here when an action fails without setting
+			 * an error; that's for running out of memory. */
+			err->e = RE_EERRNO;
 			goto error;
 		}
 
@@ -782,6 +786,6 @@ ZL0:;
 		return NULL;
 	}
 
-#line 786 "src/libre/dialect/glob/parser.c"
+#line 790 "src/libre/dialect/glob/parser.c"
 
 /* END OF FILE */
diff --git a/src/libre/dialect/like/parser.c b/src/libre/dialect/like/parser.c
index 008bd2b..e3298be 100644
--- a/src/libre/dialect/like/parser.c
+++ b/src/libre/dialect/like/parser.c
@@ -662,12 +662,16 @@ ZL0:;
 		assert(f != NULL);
 		assert(end != NULL);
 
-		ast = ast_new();
-
 		if (err == NULL) {
 			err = &dummy;
 		}
 
+		ast = ast_new();
+		if (ast == NULL) {
+			err->e = RE_EERRNO;
+			return NULL;
+		}
+
 		lex_state    = &lex_state_s;
 		lex_state->p = lex_state->a;
 
@@ -725,9 +729,9 @@ ZL0:;
 		}
 
 		if (ast->expr == NULL) {
-			/* We shouldn't get here, it means there's error
-			 * checking missing elsewhere. */
-			if (err->e == RE_ESUCCESS) { assert(!"unreached"); }
+			/* We get here when an action fails without setting
+			 * an error; that's for running out of memory. */
+			err->e = RE_EERRNO;
 			goto error;
 		}
 
@@ -782,6 +786,6 @@ ZL0:;
 		return NULL;
 	}
 
-#line 786 "src/libre/dialect/like/parser.c"
+#line 790 "src/libre/dialect/like/parser.c"
 
 /* END OF FILE */
diff --git a/src/libre/dialect/literal/parser.c b/src/libre/dialect/literal/parser.c
index 5d1dc82..b395451 100644
--- a/src/libre/dialect/literal/parser.c
+++ b/src/libre/dialect/literal/parser.c
@@ -575,12 +575,16 @@ ZL0:;
 		assert(f != NULL);
 		assert(end != NULL);
 
-		ast = ast_new();
-
 		if (err == NULL) {
 			err = &dummy;
 		}
 
+		ast = ast_new();
+		if (ast == NULL) {
+			err->e = RE_EERRNO;
+			return NULL;
+		}
+
 		lex_state    = &lex_state_s;
 		lex_state->p = lex_state->a;
 
@@ -638,9 +642,9 @@ ZL0:;
 		}
 
 		if (ast->expr == NULL) {
-			/* We shouldn't get here, it means there's error
-			 * checking missing elsewhere. */
-			if (err->e == RE_ESUCCESS) { assert(!"unreached"); }
+			/* We get here when an action fails without setting
+			 * an error; that's for running out of memory. */
+			err->e = RE_EERRNO;
 			goto error;
 		}
 
@@ -695,6 +699,6 @@ ZL0:;
 		return NULL;
 	}
 
-#line 699 "src/libre/dialect/literal/parser.c"
+#line 703 "src/libre/dialect/literal/parser.c"
 
 /* END OF FILE */
diff --git a/src/libre/dialect/native/parser.c b/src/libre/dialect/native/parser.c
index 63c5f8c..f687801 100644
--- a/src/libre/dialect/native/parser.c
+++ b/src/libre/dialect/native/parser.c
@@ -3071,12 +3071,16 @@ ZL0:;
 		assert(f != NULL);
 		assert(end != NULL);
 
-		ast = ast_new();
-
 		if (err == NULL) {
 			err = &dummy;
 		}
 
+		ast = ast_new();
+		if (ast == NULL) {
+			err->e = RE_EERRNO;
+			return NULL;
+		}
+
 		lex_state    = &lex_state_s;
 		lex_state->p = lex_state->a;
 
@@ -3134,9 +3138,9 @@ ZL0:;
 		}
 
 		if (ast->expr == NULL) {
-			/* We shouldn't get here, it means there's error
-			 * checking missing elsewhere. */
-			if (err->e == RE_ESUCCESS) { assert(!"unreached"); }
+			/* We get here when an action fails without setting
+			 * an error; that's for running out of memory. */
+			err->e = RE_EERRNO;
 			goto error;
 		}
 
@@ -3191,6 +3195,6 @@ ZL0:;
 		return NULL;
 	}
 
-#line 3195 "src/libre/dialect/native/parser.c"
+#line 3199 "src/libre/dialect/native/parser.c"
 
 /* END OF FILE */
diff --git a/src/libre/dialect/pcre/parser.c b/src/libre/dialect/pcre/parser.c
index e59fee0..e039da5 100644
--- a/src/libre/dialect/pcre/parser.c
+++ b/src/libre/dialect/pcre/parser.c
@@ -4355,12 +4355,16 @@ ZL0:;
 		assert(f != NULL);
 		assert(end != NULL);
 
-		ast = ast_new();
-
 		if (err == NULL) {
 			err = &dummy;
 		}
 
+		ast = ast_new();
+		if (ast == NULL) {
+			err->e = RE_EERRNO;
+			return NULL;
+		}
+
 		lex_state    = &lex_state_s;
 		lex_state->p = lex_state->a;
 
@@ -4418,9 +4422,9 @@ ZL0:;
 		}
 
 		if (ast->expr == NULL) {
-			/* We shouldn't get here, it means there's error
-			 * checking missing elsewhere. */
-			if (err->e == RE_ESUCCESS) { assert(!"unreached"); }
+			/* We get here when an action fails without setting
+			 * an error; that's for running out of memory. */
+			err->e = RE_EERRNO;
 			goto error;
 		}
 
@@ -4475,6 +4479,6 @@ ZL0:;
 		return NULL;
 	}
 
-#line 4479 "src/libre/dialect/pcre/parser.c"
+#line 4483 "src/libre/dialect/pcre/parser.c"
 
 /* END OF FILE */
diff --git a/src/libre/dialect/sql/parser.c b/src/libre/dialect/sql/parser.c
index e7a4c2e..115fa6d 100644
--- a/src/libre/dialect/sql/parser.c
+++ b/src/libre/dialect/sql/parser.c
@@ -2068,12 +2068,16 @@ ZL0:;
 		assert(f != NULL);
 		assert(end != NULL);
 
-		ast = ast_new();
-
 		if (err == NULL) {
 			err = &dummy;
 		}
 
+		ast = ast_new();
+		if (ast == NULL) {
+			err->e = RE_EERRNO;
+			return NULL;
+		}
+
 		lex_state    = &lex_state_s;
 		lex_state->p = lex_state->a;
 
@@ -2131,9 +2135,9 @@ ZL0:;
 		}
 
 		if (ast->expr == NULL) {
-			/* We shouldn't get here, it means there's error
-			 * checking missing elsewhere. */
-			if (err->e == RE_ESUCCESS) { assert(!"unreached"); }
+			/* We get here when an action fails without setting
+			 * an error; that's for running out of memory. */
+			err->e = RE_EERRNO;
 			goto error;
 		}
 
@@ -2188,6 +2192,6 @@ ZL0:;
 		return NULL;
 	}
 
-#line 2192 "src/libre/dialect/sql/parser.c"
+#line 2196 "src/libre/dialect/sql/parser.c"
 
 /* END OF FILE */
diff --git a/src/libre/parser.act b/src/libre/parser.act
index 984036c..65445fd 100644
--- a/src/libre/parser.act
+++ b/src/libre/parser.act
@@ -1084,12 +1084,16 @@
 		assert(f != NULL);
 		assert(end != NULL);
 
-		ast = ast_new();
-
 		if (err == NULL) {
 			err = &dummy;
 		}
 
+		ast = ast_new();
+		if (ast == NULL) {
+			err->e = RE_EERRNO;
+			return NULL;
+		}
+
 		lex_state    = &lex_state_s;
 		lex_state->p = lex_state->a;
 
@@ -1147,9 +1151,9 @@
 		}
 
 		if (ast->expr == NULL) {
-			/* We shouldn't get here, it means there's error
-			 * checking missing elsewhere. */
-			if (err->e == RE_ESUCCESS) { assert(!"unreached"); }
+			/* We get here when an action fails without setting
+			 * an error; that's for running out of memory. */
+			err->e = RE_EERRNO;
 			goto error;
 		}
 
-- 
2.43.0


From aec5a43a4a32c50530eaed76fea59dfb8a5a3d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:16 +0000
Subject: [PATCH 058/142] fix: a generated lexer gives an error for a token it
 could not store, rather than a part of the token

---
 src/libfsm/lexer.c                |  7 ++++++-
 src/libfsm/lexer.h                |  1 +
 src/libre/dialect/glob/lexer.c    |  7 ++++++-
 src/libre/dialect/glob/lexer.h    |  1 +
 src/libre/dialect/like/lexer.c    |  7 ++++++-
 src/libre/dialect/like/lexer.h    |  1 +
 src/libre/dialect/literal/lexer.c |  7 ++++++-
 src/libre/dialect/literal/lexer.h |  1 +
 src/libre/dialect/native/lexer.c  |  7 ++++++-
 src/libre/dialect/native/lexer.h  |  1 +
 src/libre/dialect/pcre/lexer.c    |  7 ++++++-
 src/libre/dialect/pcre/lexer.h    |  1 +
 src/libre/dialect/sql/lexer.c     |  7 ++++++-
 src/libre/dialect/sql/lexer.h     |  1 +
 src/lx/lexer.c                    |  7 ++++++-
 src/lx/lexer.h                    |  1 +
 src/lx/print/c.c                  | 18 +++++++++++++++---
 src/lx/print/h.c                  |  3 +++
 18 files changed, 74 insertions(+), 11 deletions(-)

diff --git a/src/libfsm/lexer.c b/src/libfsm/lexer.c
index 3bf26b3..1461dc6 100644
--- a/src/libfsm/lexer.c
+++ b/src/libfsm/lexer.c
@@ -55,7 +55,7 @@ lx_getc(struct lx *lx)
 		}
 	}
 
-	if (!lx_advance_end(lx, c)) { return EOF; }
+	if (!lx_advance_end(lx, c)) { lx->push_failed = 1; return EOF; }
 
 	return c;
 }
@@ -1737,6 +1737,11 @@ lx_next(struct lx *lx)
 
 	t = lx->z(lx);
 
+	if (lx->push_failed) {
+		lx->lgetc = NULL;
+		return TOK_ERROR;
+	}
+
 	if (lx->push != NULL) {
 		if (-1 == lx->push(lx->buf_opaque, '\0')) {
 			return TOK_ERROR;
diff --git a/src/libfsm/lexer.h b/src/libfsm/lexer.h
index 68e55b6..4508a2b 100644
--- a/src/libfsm/lexer.h
+++ b/src/libfsm/lexer.h
@@ -49,6 +49,7 @@ struct lx {
 	int  (*push) (void *buf_opaque, char c);
 	int  (*clear)(void *buf_opaque);
 	void (*free) (void *buf_opaque);
+	int push_failed; /* nothing could be stored for the last character */
 
 	enum lx_token (*z)(struct lx *lx);
 };
diff --git a/src/libre/dialect/glob/lexer.c b/src/libre/dialect/glob/lexer.c
index 2a4d33a..3a53773 100644
--- a/src/libre/dialect/glob/lexer.c
+++ b/src/libre/dialect/glob/lexer.c
@@ -50,7 +50,7 @@ lx_glob_getc(struct lx_glob_lx *lx)
 		}
 	}
 
-	if (!lx_glob_advance_end(lx, c)) { return EOF; }
+	if (!lx_glob_advance_end(lx, c)) { lx->push_failed = 1; return EOF; }
 
 	return c;
 }
@@ -306,6 +306,11 @@ lx_glob_next(struct lx_glob_lx *lx)
 
 	t = lx->z(lx);
 
+	if (lx->push_failed) {
+		lx->lgetc = NULL;
+		return TOK_ERROR;
+	}
+
 	if (lx->push != NULL) {
 		if (-1 == lx->push(lx->buf_opaque, '\0')) {
 			return TOK_ERROR;
diff --git a/src/libre/dialect/glob/lexer.h b/src/libre/dialect/glob/lexer.h
index 0bc09a6..33d1cd2 100644
--- a/src/libre/dialect/glob/lexer.h
+++ b/src/libre/dialect/glob/lexer.h
@@ -36,6 +36,7 @@ struct lx_glob_lx {
 	int  (*push) (void *buf_opaque, char c);
 	int  (*clear)(void *buf_opaque);
 	void (*free) (void *buf_opaque);
+	int push_failed; /* nothing could be stored for the last character */
 
 	enum lx_glob_token (*z)(struct lx_glob_lx *lx);
 };
diff --git a/src/libre/dialect/like/lexer.c b/src/libre/dialect/like/lexer.c
index 2edc365..9a3a225 100644
--- a/src/libre/dialect/like/lexer.c
+++ b/src/libre/dialect/like/lexer.c
@@ -50,7 +50,7 @@ lx_like_getc(struct lx_like_lx *lx)
 		}
 	}
 
-	if (!lx_like_advance_end(lx, c)) { return EOF; }
+	if (!lx_like_advance_end(lx, c)) { lx->push_failed = 1; return EOF; }
 
 	return c;
 }
@@ -306,6 +306,11 @@ lx_like_next(struct lx_like_lx *lx)
 
 	t = lx->z(lx);
 
+	if (lx->push_failed) {
+		lx->lgetc = NULL;
+		return TOK_ERROR;
+	}
+
 	if (lx->push != NULL) {
 		if (-1 == lx->push(lx->buf_opaque, '\0')) {
 			return TOK_ERROR;
diff --git a/src/libre/dialect/like/lexer.h b/src/libre/dialect/like/lexer.h
index 5f6cc47..acb415d 100644
--- a/src/libre/dialect/like/lexer.h
+++ b/src/libre/dialect/like/lexer.h
@@ -36,6 +36,7 @@ struct lx_like_lx {
 	int  (*push) (void *buf_opaque, char c);
 	int  (*clear)(void *buf_opaque);
 	void (*free) (void *buf_opaque);
+	int push_failed; /* nothing could be stored for the last character */
 
 	enum lx_like_token (*z)(struct lx_like_lx *lx);
 };
diff --git a/src/libre/dialect/literal/lexer.c b/src/libre/dialect/literal/lexer.c
index f13bdbc..94d8bb2 100644
--- a/src/libre/dialect/literal/lexer.c
+++ b/src/libre/dialect/literal/lexer.c
@@ -50,7 +50,7 @@ lx_literal_getc(struct lx_literal_lx *lx)
 		}
 	}
 
-	if (!lx_literal_advance_end(lx, c)) { return EOF; }
+	if (!lx_literal_advance_end(lx, c)) { lx->push_failed = 1; return EOF; }
 
 	return c;
 }
@@ -289,6 +289,11 @@ lx_literal_next(struct lx_literal_lx *lx)
 
 	t = lx->z(lx);
 
+	if (lx->push_failed) {
+		lx->lgetc = NULL;
+		return TOK_ERROR;
+	}
+
 	if (lx->push != NULL) {
 		if (-1 == lx->push(lx->buf_opaque, '\0')) {
 			return TOK_ERROR;
diff --git a/src/libre/dialect/literal/lexer.h b/src/libre/dialect/literal/lexer.h
index 8136082..8f5c063 100644
--- a/src/libre/dialect/literal/lexer.h
+++ b/src/libre/dialect/literal/lexer.h
@@ -34,6 +34,7 @@ struct lx_literal_lx {
 	int  (*push) (void *buf_opaque, char c);
 	int  (*clear)(void *buf_opaque);
 	void (*free) (void *buf_opaque);
+	int push_failed; /* nothing could be stored for the last character */
 
 	enum lx_literal_token (*z)(struct lx_literal_lx *lx);
 };
diff --git a/src/libre/dialect/native/lexer.c b/src/libre/dialect/native/lexer.c
index b186340..39f2ce8 100644
--- a/src/libre/dialect/native/lexer.c
+++ b/src/libre/dialect/native/lexer.c
@@ -52,7 +52,7 @@ lx_native_getc(struct lx_native_lx *lx)
 		}
 	}
 
-	if (!lx_native_advance_end(lx, c)) { return EOF; }
+	if (!lx_native_advance_end(lx, c)) { lx->push_failed = 1; return EOF; }
 
 	return c;
 }
@@ -1328,6 +1328,11 @@ lx_native_next(struct lx_native_lx *lx)
 
 	t = lx->z(lx);
 
+	if (lx->push_failed) {
+		lx->lgetc = NULL;
+		return TOK_ERROR;
+	}
+
 	if (lx->push != NULL) {
 		if (-1 == lx->push(lx->buf_opaque, '\0')) {
 			return TOK_ERROR;
diff --git a/src/libre/dialect/native/lexer.h b/src/libre/dialect/native/lexer.h
index 9a4363e..4e881dd 100644
--- a/src/libre/dialect/native/lexer.h
+++ b/src/libre/dialect/native/lexer.h
@@ -58,6 +58,7 @@ struct lx_native_lx {
 	int  (*push) (void *buf_opaque, char c);
 	int  (*clear)(void *buf_opaque);
 	void (*free) (void *buf_opaque);
+	int push_failed; /* nothing could be stored for the last character */
 
 	enum lx_native_token (*z)(struct lx_native_lx *lx);
 };
diff --git a/src/libre/dialect/pcre/lexer.c b/src/libre/dialect/pcre/lexer.c
index da8f825..47910aa 100644
--- a/src/libre/dialect/pcre/lexer.c
+++ b/src/libre/dialect/pcre/lexer.c
@@ -57,7 +57,7 @@ lx_pcre_getc(struct lx_pcre_lx *lx)
 		}
 	}
 
-	if (!lx_pcre_advance_end(lx, c)) { return EOF; }
+	if (!lx_pcre_advance_end(lx, c)) { lx->push_failed = 1; return EOF; }
 
 	return c;
 }
@@ -3458,6 +3458,11 @@ lx_pcre_next(struct lx_pcre_lx *lx)
 
 	t = lx->z(lx);
 
+	if (lx->push_failed) {
+		lx->lgetc = NULL;
+		return TOK_ERROR;
+	}
+
 	if (lx->push != NULL) {
 		if (-1 == lx->push(lx->buf_opaque, '\0')) {
 			return TOK_ERROR;
diff --git a/src/libre/dialect/pcre/lexer.h b/src/libre/dialect/pcre/lexer.h
index c39ca6d..df1fbbe 100644
--- a/src/libre/dialect/pcre/lexer.h
+++ b/src/libre/dialect/pcre/lexer.h
@@ -77,6 +77,7 @@ struct lx_pcre_lx {
 	int  (*push) (void *buf_opaque, char c);
 	int  (*clear)(void *buf_opaque);
 	void (*free) (void *buf_opaque);
+	int push_failed; /* nothing could be stored for the last character */
 
 	enum lx_pcre_token (*z)(struct lx_pcre_lx *lx);
 };
diff --git a/src/libre/dialect/sql/lexer.c b/src/libre/dialect/sql/lexer.c
index 87459e7..905e02d 100644
--- a/src/libre/dialect/sql/lexer.c
+++ b/src/libre/dialect/sql/lexer.c
@@ -52,7 +52,7 @@ lx_sql_getc(struct lx_sql_lx *lx)
 		}
 	}
 
-	if (!lx_sql_advance_end(lx, c)) { return EOF; }
+	if (!lx_sql_advance_end(lx, c)) { lx->push_failed = 1; return EOF; }
 
 	return c;
 }
@@ -869,6 +869,11 @@ lx_sql_next(struct lx_sql_lx *lx)
 
 	t = lx->z(lx);
 
+	if (lx->push_failed) {
+		lx->lgetc = NULL;
+		return TOK_ERROR;
+	}
+
 	if (lx->push != NULL) {
 		if (-1 == lx->push(lx->buf_opaque, '\0')) {
 			return TOK_ERROR;
diff --git a/src/libre/dialect/sql/lexer.h b/src/libre/dialect/sql/lexer.h
index 704dc4b..d2f785b 100644
--- a/src/libre/dialect/sql/lexer.h
+++ b/src/libre/dialect/sql/lexer.h
@@ -51,6 +51,7 @@ struct lx_sql_lx {
 	int  (*push) (void *buf_opaque, char c);
 	int  (*clear)(void *buf_opaque);
 	void (*free) (void *buf_opaque);
+	int push_failed; /* nothing could be stored for the last character */
 
 	enum lx_sql_token (*z)(struct lx_sql_lx *lx);
 };
diff --git a/src/lx/lexer.c b/src/lx/lexer.c
index ed7ca6d..ae5955b 100644
--- a/src/lx/lexer.c
+++ b/src/lx/lexer.c
@@ -54,7 +54,7 @@ lx_getc(struct lx *lx)
 		}
 	}
 
-	if (!lx_advance_end(lx, c)) { return EOF; }
+	if (!lx_advance_end(lx, c)) { lx->push_failed = 1; return EOF; }
 
 	return c;
 }
@@ -1327,6 +1327,11 @@ lx_next(struct lx *lx)
 
 	t = lx->z(lx);
 
+	if (lx->push_failed) {
+		lx->lgetc = NULL;
+		return TOK_ERROR;
+	}
+
 	if (lx->push != NULL) {
 		if (-1 == lx->push(lx->buf_opaque, '\0')) {
 			return TOK_ERROR;
diff --git a/src/lx/lexer.h b/src/lx/lexer.h
index 994bc6a..af90609 100644
--- a/src/lx/lexer.h
+++ b/src/lx/lexer.h
@@ -60,6 +60,7 @@ struct lx {
 	int  (*push) (void *buf_opaque, char c);
 	int  (*clear)(void *buf_opaque);
 	void (*free) (void *buf_opaque);
+	int push_failed; /* nothing could be stored for the last character */
 
 	enum lx_token (*z)(struct lx *lx);
 };
diff --git a/src/lx/print/c.c b/src/lx/print/c.c
index 3340f0d..3c18fd3 100644
--- a/src/lx/print/c.c
+++ b/src/lx/print/c.c
@@ -579,9 +579,13 @@ print_io(FILE *f, const struct fsm_options *opt)
 		fprintf(f, "\t}\n");
 		fprintf(f, "\n");
 
-		/* FIXME: This should distinguish between alloc failure
-		 * and EOF, but will require layers of interface changes. */
-		fprintf(f, "\tif (!%sadvance_end(lx, c)) { return EOF; }\n", prefix.api);
+		/* This looks like EOF to the caller; push_failed distinguishes
+		 * the two for %snext(), which gives an error for the token. */
+		if (api_exclude & API_BUF) {
+			fprintf(f, "\tif (!%sadvance_end(lx, c)) { return EOF; }\n", prefix.api);
+		} else {
+			fprintf(f, "\tif (!%sadvance_end(lx, c)) { lx->push_failed = 1; return EOF; }\n", prefix.api);
+		}
 		fprintf(f, "\n");
 
 		fprintf(f, "\treturn c;\n");
@@ -1261,6 +1265,14 @@ lx_print_c(FILE *f, const struct ast *ast, const struct fsm_options *opt)
 		fprintf(f, "\tt = lx->z(lx);\n");
 		fprintf(f, "\n");
 
+		if ((~api_exclude & API_BUF) && opt->io == FSM_IO_GETC) {
+			fprintf(f, "\tif (lx->push_failed) {\n");
+			fprintf(f, "\t\tlx->lgetc = NULL;\n");
+			fprintf(f, "\t\treturn %sERROR;\n", prefix.tok);
+			fprintf(f, "\t}\n");
+			fprintf(f, "\n");
+		}
+
 		if (~api_exclude & API_BUF) {
 			fprintf(f, "\tif (lx->push != NULL) {\n");
 			fprintf(f, "\t\tif (-1 == lx->push(lx->buf_opaque, '\\0')) {\n");
diff --git a/src/lx/print/h.c b/src/lx/print/h.c
index 01a34c6..6946071 100644
--- a/src/lx/print/h.c
+++ b/src/lx/print/h.c
@@ -105,6 +105,9 @@ lx_print_h(FILE *f, const struct ast *ast, const struct fsm_options *opt)
 		fprintf(f, "\tint  (*push) (void *buf_opaque, char c);\n");
 		fprintf(f, "\tint  (*clear)(void *buf_opaque);\n");
 		fprintf(f, "\tvoid (*free) (void *buf_opaque);\n");
+		if (opt->io == FSM_IO_GETC) {
+			fprintf(f, "\tint push_failed; /* nothing could be stored for the last character */\n");
+		}
 		fprintf(f, "\n");
 	}
 
-- 
2.43.0


From 573eb96e5424e405387f6dbe4fb134b7174e8120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:04 +0000
Subject: [PATCH 059/142] fix: fail determinisation when a state set can't be
 allocated

---
 src/libfsm/determinise.c | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/libfsm/determinise.c b/src/libfsm/determinise.c
index eb356fa..cac2757 100644
--- a/src/libfsm/determinise.c
+++ b/src/libfsm/determinise.c
@@ -247,6 +247,9 @@ fsm_determinise_with_config(struct fsm *nfa,
 			 * states are end states.
 			 */
 			ss = interned_state_set_get_state_set(ac_env.issp, iss_id);
+			if (ss == NULL) {
+				goto cleanup;
+			}
 			if (!state_set_has(nfa, ss, fsm_isend)) {
 				continue;
 			}
@@ -730,6 +733,9 @@ build_reverse_mappings(const struct map *map, struct interned_state_set_pool *is
 		interned_state_set_id iss_id = m->iss;
 		assert(m->dfastate < dst_dfa->statecount);
 		ss = interned_state_set_get_state_set(issp, iss_id);
+		if (ss == NULL) {
+			goto cleanup;
+		}
 
 		fsm_state_t state;
 		for (state_set_reset(ss, &si); state_set_next(&si, &state); ) {
@@ -908,11 +914,16 @@ analyze_closures__pairwise_grouping(struct analyze_closures_env *env,
 	fprintf(stderr, "%s: iss_id %lu\n", __func__, iss_id);
 #endif
 
-	analyze_closures__init_groups(env);
+	if (!analyze_closures__init_groups(env)) {
+		return 0;
+	}
 
 	INIT_TIMERS();
 	TIME(&pre);
 	struct state_set *ss = interned_state_set_get_state_set(env->issp, iss_id);
+	if (ss == NULL) {
+		return 0;
+	}
 	const size_t set_count = state_set_count(ss);
 
 #if LOG_DETERMINISE_STATE_SETS || LOG_GROUPING > 1
@@ -941,13 +952,13 @@ analyze_closures__pairwise_grouping(struct analyze_closures_env *env,
 		    env->pbuf[0],
 		    nceil * sizeof(env->pbuf[0]));
 		if (a == NULL) { return 0; }
+		env->pbuf[0] = a;
 		fsm_state_t *b = f_realloc(env->alloc,
 		    env->pbuf[1],
 		    nceil * sizeof(env->pbuf[1]));
 		if (b == NULL) { return 0; }
-		env->pbuf_ceil = nceil;
-		env->pbuf[0] = a;
 		env->pbuf[1] = b;
+		env->pbuf_ceil = nceil;
 	}
 
 	{
@@ -1078,7 +1089,9 @@ cache_single_state_analysis(struct analyze_closures_env *env, fsm_state_t state_
 	struct edge_group_iter iter;
 	struct edge_group_iter_info info;
 
-	analyze_closures__init_groups(env);
+	if (!analyze_closures__init_groups(env)) {
+		return 0;
+	}
 	assert(env->group_count == 0);
 
 	/* collect groups */
@@ -2624,7 +2637,9 @@ remap_eager_outputs(const struct map *map, struct interned_state_set_pool *issp,
 	struct map_iter iter;
 	for (struct mapping *b = map_first(map, &iter); b != NULL; b = map_next(&iter)) {
 		struct state_set *ss = interned_state_set_get_state_set(issp, b->iss);
-		assert(ss != NULL);
+		if (ss == NULL) {
+			return 0;
+		}
 
 		struct state_iter it;
 		fsm_state_t s;
-- 
2.43.0


From 3de01b371be11865c367c955d2c449054c2c8494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:57 +0000
Subject: [PATCH 060/142] fix: leave both operands usable when merging fails

---
 src/libfsm/merge.c | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/libfsm/merge.c b/src/libfsm/merge.c
index 4077931..adb29c3 100644
--- a/src/libfsm/merge.c
+++ b/src/libfsm/merge.c
@@ -48,11 +48,19 @@ merge(struct fsm *dst, struct fsm *src,
 	fsm_state_t *base_dst, fsm_state_t *base_src,
 	unsigned *capture_base_dst, unsigned *capture_base_src)
 {
+	struct fsm *empty;
+
 	assert(dst != NULL);
 	assert(src != NULL);
 	assert(base_src != NULL);
 	assert(base_dst != NULL);
 
+	/* to leave in place of src on failure */
+	empty = fsm_new_statealloc(src->alloc, 1);
+	if (empty == NULL) {
+		return NULL;
+	}
+
 	if (dst->statealloc < src->statecount + dst->statecount) {
 		void *tmp;
 
@@ -62,6 +70,7 @@ merge(struct fsm *dst, struct fsm *src,
 		 * or let realloc do that internally */
 		tmp = f_realloc(dst->alloc, dst->states, newalloc * sizeof *dst->states);
 		if (tmp == NULL) {
+			fsm_free(empty);
 			return NULL;
 		}
 
@@ -128,20 +137,17 @@ merge(struct fsm *dst, struct fsm *src,
 	fsm_clearstart(dst);
 
 	fsm_free(src);
+	fsm_free(empty);
 
 	return dst;
 
 error:
 
-	/* The states belong to dst now, so that dst and src are
-	 * both still for the caller to free, separately. */
-	f_free(src->alloc, src->states);
-	src->states = NULL;
-	src->statealloc = 0;
+	/* The states belong to dst now, which leaves src empty.
+	 * Both are still for the caller to free, separately. */
 	src->statecount = 0;
-	src->endcount = 0;
+	fsm_move(src, empty);
 
-	fsm_clearstart(src);
 	fsm_clearstart(dst);
 
 	return NULL;
-- 
2.43.0


From 49347af8b8cd826ff1e961b5a003b9c4b7e5bc95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:11 +0000
Subject: [PATCH 061/142] fix: handle running out of memory when reading the
 fsm text format

---
 src/libfsm/parser.act |  36 +++++--
 src/libfsm/parser.c   | 226 +++++++++++++++++++++++++-----------------
 2 files changed, 163 insertions(+), 99 deletions(-)

diff --git a/src/libfsm/parser.act b/src/libfsm/parser.act
index 7b9d4f5..2e53aa3 100644
--- a/src/libfsm/parser.act
+++ b/src/libfsm/parser.act
@@ -26,6 +26,8 @@
 
 %header% @{
 
+	#define _POSIX_C_SOURCE 200809L
+
 	#include <assert.h>
 	#include <string.h>
 	#include <stdlib.h>
@@ -35,8 +37,6 @@
 
 	#include <fsm/fsm.h>
 
-	#include <adt/xalloc.h>
-
 	#include "internal.h"
 
 	#include "lexer.h"
@@ -123,11 +123,17 @@
 	grow_state_hash_table(struct act_stateset *htab)
 	{
 		const size_t ncount = 2 * htab->bucket_count;
-		struct act_statelist **nbuckets = xcalloc(ncount, sizeof(*nbuckets));
+		struct act_statelist **nbuckets = calloc(ncount, sizeof(*nbuckets));
 		size_t max_chain_length = 0;
 		size_t old_i;
 		unsigned mask = ncount - 1;
 
+		if (nbuckets == NULL) {
+			perror("calloc");
+			/* XXX: don't exit in library code */
+			exit(EXIT_FAILURE);
+		}
+
 		for (old_i = 0; old_i < htab->bucket_count; old_i++) {
 			struct act_statelist *p, *next;
 			size_t chain_length = 0;
@@ -248,8 +254,12 @@
 	@};
 
 	IDENT: () -> (s :string) = @{
-		/* XXX: don't exit in library code */
-		@s = xstrdup(lex_state->buf.a);
+		@s = strdup(lex_state->buf.a);
+		if (@s == NULL) {
+			perror("strdup");
+			/* XXX: don't exit in library code */
+			exit(EXIT_FAILURE);
+		}
 	@};
 
 	ENDID: () -> (id :endid) = @{
@@ -317,8 +327,12 @@
 				exit(EXIT_FAILURE);
 			}
 
-			/* XXX: don't exit in library code */
-			new->id = xstrdup(@n);
+			new->id = strdup(@n);
+			if (new->id == NULL) {
+				perror("strdup");
+				/* XXX: don't exit in library code */
+				exit(EXIT_FAILURE);
+			}
 
 			if (!fsm_addstate(fsm, &@s)) {
 				perror("fsm_addstate");
@@ -441,8 +455,11 @@
 		lx->clear      = lx_dynclear;
 		lx->free       = lx_dynfree;
 
-		act_state_s.states.buckets = xcalloc(DEF_BUCKETS, sizeof(act_state_s.states.buckets));
-		assert(act_state_s.states.buckets != NULL);
+		act_state_s.states.buckets = calloc(DEF_BUCKETS, sizeof(act_state_s.states.buckets));
+		if (act_state_s.states.buckets == NULL) {
+			perror("calloc");
+			return NULL;
+		}
 		act_state_s.states.bucket_count = DEF_BUCKETS;
 		act_state_s.states.longest_chain_length = 0;
 
@@ -452,6 +469,7 @@
 		new = fsm_new(alloc);
 		if (new == NULL) {
 			perror("fsm_new");
+			free(act_state_s.states.buckets);
 			return NULL;
 		}
 
diff --git a/src/libfsm/parser.c b/src/libfsm/parser.c
index 2d90b41..a38775b 100644
--- a/src/libfsm/parser.c
+++ b/src/libfsm/parser.c
@@ -12,6 +12,8 @@
 #line 27 "src/libfsm/parser.act"
 
 
+	#define _POSIX_C_SOURCE 200809L
+
 	#include <assert.h>
 	#include <string.h>
 	#include <stdlib.h>
@@ -21,8 +23,6 @@
 
 	#include <fsm/fsm.h>
 
-	#include <adt/xalloc.h>
-
 	#include "internal.h"
 
 	#include "lexer.h"
@@ -109,11 +109,17 @@
 	grow_state_hash_table(struct act_stateset *htab)
 	{
 		const size_t ncount = 2 * htab->bucket_count;
-		struct act_statelist **nbuckets = xcalloc(ncount, sizeof(*nbuckets));
+		struct act_statelist **nbuckets = calloc(ncount, sizeof(*nbuckets));
 		size_t max_chain_length = 0;
 		size_t old_i;
 		unsigned mask = ncount - 1;
 
+		if (nbuckets == NULL) {
+			perror("calloc");
+			/* XXX: don't exit in library code */
+			exit(EXIT_FAILURE);
+		}
+
 		for (old_i = 0; old_i < htab->bucket_count; old_i++) {
 			struct act_statelist *p, *next;
 			size_t chain_length = 0;
@@ -136,7 +142,7 @@
 		htab->longest_chain_length = max_chain_length;
 	}
 
-#line 140 "src/libfsm/parser.c"
+#line 146 "src/libfsm/parser.c"
 
 
 #ifndef ERROR_TERMINAL
@@ -179,14 +185,14 @@ p_label(fsm fsm, lex_state lex_state, act_state act_state, char *ZOc)
 				{
 					/* BEGINNING OF EXTRACT: CHAR */
 					{
-#line 243 "src/libfsm/parser.act"
+#line 249 "src/libfsm/parser.act"
 
 		assert(lex_state->buf.a[0] != '\0');
 		assert(lex_state->buf.a[1] == '\0');
 
 		ZIc = lex_state->buf.a[0];
 	
-#line 190 "src/libfsm/parser.c"
+#line 196 "src/libfsm/parser.c"
 					}
 					/* END OF EXTRACT: CHAR */
 					ADVANCE_LEXER;
@@ -196,7 +202,7 @@ p_label(fsm fsm, lex_state lex_state, act_state act_state, char *ZOc)
 				{
 					/* BEGINNING OF EXTRACT: ESC */
 					{
-#line 167 "src/libfsm/parser.act"
+#line 173 "src/libfsm/parser.act"
 
 		assert(0 == strncmp(lex_state->buf.a, "\\", 1));
 		assert(2 == strlen(lex_state->buf.a));
@@ -214,7 +220,7 @@ p_label(fsm fsm, lex_state lex_state, act_state act_state, char *ZOc)
 		default:              break;
 		}
 	
-#line 218 "src/libfsm/parser.c"
+#line 224 "src/libfsm/parser.c"
 					}
 					/* END OF EXTRACT: ESC */
 					ADVANCE_LEXER;
@@ -224,7 +230,7 @@ p_label(fsm fsm, lex_state lex_state, act_state act_state, char *ZOc)
 				{
 					/* BEGINNING OF EXTRACT: HEX */
 					{
-#line 214 "src/libfsm/parser.act"
+#line 220 "src/libfsm/parser.act"
 
 		unsigned long u;
 		char *e;
@@ -253,7 +259,7 @@ p_label(fsm fsm, lex_state lex_state, act_state act_state, char *ZOc)
 
 		ZIc = (char) (unsigned char) u;
 	
-#line 257 "src/libfsm/parser.c"
+#line 263 "src/libfsm/parser.c"
 					}
 					/* END OF EXTRACT: HEX */
 					ADVANCE_LEXER;
@@ -263,7 +269,7 @@ p_label(fsm fsm, lex_state lex_state, act_state act_state, char *ZOc)
 				{
 					/* BEGINNING OF EXTRACT: OCT */
 					{
-#line 185 "src/libfsm/parser.act"
+#line 191 "src/libfsm/parser.act"
 
 		unsigned long u;
 		char *e;
@@ -292,7 +298,7 @@ p_label(fsm fsm, lex_state lex_state, act_state act_state, char *ZOc)
 
 		ZIc = (char) (unsigned char) u;
 	
-#line 296 "src/libfsm/parser.c"
+#line 302 "src/libfsm/parser.c"
 					}
 					/* END OF EXTRACT: OCT */
 					ADVANCE_LEXER;
@@ -338,12 +344,16 @@ ZL2_items:;
 							case (TOK_IDENT):
 								/* BEGINNING OF EXTRACT: IDENT */
 								{
-#line 250 "src/libfsm/parser.act"
+#line 256 "src/libfsm/parser.act"
 
-		/* XXX: don't exit in library code */
-		ZIa = xstrdup(lex_state->buf.a);
+		ZIa = strdup(lex_state->buf.a);
+		if (ZIa == NULL) {
+			perror("strdup");
+			/* XXX: don't exit in library code */
+			exit(EXIT_FAILURE);
+		}
 	
-#line 347 "src/libfsm/parser.c"
+#line 357 "src/libfsm/parser.c"
 								}
 								/* END OF EXTRACT: IDENT */
 								break;
@@ -489,11 +499,11 @@ p_xstart(fsm fsm, lex_state lex_state, act_state act_state)
 				{
 					/* BEGINNING OF ACTION: err-expected-start */
 					{
-#line 402 "src/libfsm/parser.act"
+#line 416 "src/libfsm/parser.act"
 
 		err_expected(lex_state, "'start:'");
 	
-#line 497 "src/libfsm/parser.c"
+#line 507 "src/libfsm/parser.c"
 					}
 					/* END OF ACTION: err-expected-start */
 				}
@@ -507,12 +517,16 @@ p_xstart(fsm fsm, lex_state lex_state, act_state act_state)
 					case (TOK_IDENT):
 						/* BEGINNING OF EXTRACT: IDENT */
 						{
-#line 250 "src/libfsm/parser.act"
+#line 256 "src/libfsm/parser.act"
 
-		/* XXX: don't exit in library code */
-		ZIn = xstrdup(lex_state->buf.a);
+		ZIn = strdup(lex_state->buf.a);
+		if (ZIn == NULL) {
+			perror("strdup");
+			/* XXX: don't exit in library code */
+			exit(EXIT_FAILURE);
+		}
 	
-#line 516 "src/libfsm/parser.c"
+#line 530 "src/libfsm/parser.c"
 						}
 						/* END OF EXTRACT: IDENT */
 						break;
@@ -530,7 +544,7 @@ p_xstart(fsm fsm, lex_state lex_state, act_state act_state)
 			}
 			/* BEGINNING OF ACTION: add-state */
 			{
-#line 282 "src/libfsm/parser.act"
+#line 292 "src/libfsm/parser.act"
 
 		struct act_statelist *p;
 		const unsigned hash = hash_of_id((ZIn));
@@ -569,8 +583,12 @@ p_xstart(fsm fsm, lex_state lex_state, act_state act_state)
 				exit(EXIT_FAILURE);
 			}
 
-			/* XXX: don't exit in library code */
-			new->id = xstrdup((ZIn));
+			new->id = strdup((ZIn));
+			if (new->id == NULL) {
+				perror("strdup");
+				/* XXX: don't exit in library code */
+				exit(EXIT_FAILURE);
+			}
 
 			if (!fsm_addstate(fsm, &(ZIs))) {
 				perror("fsm_addstate");
@@ -583,25 +601,25 @@ p_xstart(fsm fsm, lex_state lex_state, act_state act_state)
 			act_state->states.buckets[bucket_id] = new;
 		}
 	
-#line 587 "src/libfsm/parser.c"
+#line 605 "src/libfsm/parser.c"
 			}
 			/* END OF ACTION: add-state */
 			/* BEGINNING OF ACTION: mark-start */
 			{
-#line 335 "src/libfsm/parser.act"
+#line 349 "src/libfsm/parser.act"
 
 		fsm_setstart(fsm, (ZIs));
 	
-#line 596 "src/libfsm/parser.c"
+#line 614 "src/libfsm/parser.c"
 			}
 			/* END OF ACTION: mark-start */
 			/* BEGINNING OF ACTION: free */
 			{
-#line 349 "src/libfsm/parser.act"
+#line 363 "src/libfsm/parser.act"
 
 		free((ZIn));
 	
-#line 605 "src/libfsm/parser.c"
+#line 623 "src/libfsm/parser.c"
 			}
 			/* END OF ACTION: free */
 		}
@@ -639,11 +657,11 @@ p_xend(fsm fsm, lex_state lex_state, act_state act_state)
 				{
 					/* BEGINNING OF ACTION: err-expected-end */
 					{
-#line 406 "src/libfsm/parser.act"
+#line 420 "src/libfsm/parser.act"
 
 		err_expected(lex_state, "'end:'");
 	
-#line 647 "src/libfsm/parser.c"
+#line 665 "src/libfsm/parser.c"
 					}
 					/* END OF ACTION: err-expected-end */
 				}
@@ -687,12 +705,16 @@ p_xend_C_Cend_Hstate(fsm fsm, lex_state lex_state, act_state act_state, state *Z
 				case (TOK_IDENT):
 					/* BEGINNING OF EXTRACT: IDENT */
 					{
-#line 250 "src/libfsm/parser.act"
+#line 256 "src/libfsm/parser.act"
 
-		/* XXX: don't exit in library code */
-		ZIn = xstrdup(lex_state->buf.a);
+		ZIn = strdup(lex_state->buf.a);
+		if (ZIn == NULL) {
+			perror("strdup");
+			/* XXX: don't exit in library code */
+			exit(EXIT_FAILURE);
+		}
 	
-#line 696 "src/libfsm/parser.c"
+#line 718 "src/libfsm/parser.c"
 					}
 					/* END OF EXTRACT: IDENT */
 					break;
@@ -705,7 +727,7 @@ p_xend_C_Cend_Hstate(fsm fsm, lex_state lex_state, act_state act_state, state *Z
 		/* END OF INLINE: ident */
 		/* BEGINNING OF ACTION: add-state */
 		{
-#line 282 "src/libfsm/parser.act"
+#line 292 "src/libfsm/parser.act"
 
 		struct act_statelist *p;
 		const unsigned hash = hash_of_id((ZIn));
@@ -744,8 +766,12 @@ p_xend_C_Cend_Hstate(fsm fsm, lex_state lex_state, act_state act_state, state *Z
 				exit(EXIT_FAILURE);
 			}
 
-			/* XXX: don't exit in library code */
-			new->id = xstrdup((ZIn));
+			new->id = strdup((ZIn));
+			if (new->id == NULL) {
+				perror("strdup");
+				/* XXX: don't exit in library code */
+				exit(EXIT_FAILURE);
+			}
 
 			if (!fsm_addstate(fsm, &(ZIs))) {
 				perror("fsm_addstate");
@@ -758,25 +784,25 @@ p_xend_C_Cend_Hstate(fsm fsm, lex_state lex_state, act_state act_state, state *Z
 			act_state->states.buckets[bucket_id] = new;
 		}
 	
-#line 762 "src/libfsm/parser.c"
+#line 788 "src/libfsm/parser.c"
 		}
 		/* END OF ACTION: add-state */
 		/* BEGINNING OF ACTION: mark-end */
 		{
-#line 339 "src/libfsm/parser.act"
+#line 353 "src/libfsm/parser.act"
 
 		fsm_setend(fsm, (ZIs), 1);
 	
-#line 771 "src/libfsm/parser.c"
+#line 797 "src/libfsm/parser.c"
 		}
 		/* END OF ACTION: mark-end */
 		/* BEGINNING OF ACTION: free */
 		{
-#line 349 "src/libfsm/parser.act"
+#line 363 "src/libfsm/parser.act"
 
 		free((ZIn));
 	
-#line 780 "src/libfsm/parser.c"
+#line 806 "src/libfsm/parser.c"
 		}
 		/* END OF ACTION: free */
 	}
@@ -810,7 +836,7 @@ p_fsm(fsm fsm, lex_state lex_state, act_state act_state)
 		ADVANCE_LEXER;
 		/* BEGINNING OF ACTION: free-statelist */
 		{
-#line 353 "src/libfsm/parser.act"
+#line 367 "src/libfsm/parser.act"
 
 		struct act_statelist *p;
 		struct act_statelist *next;
@@ -825,7 +851,7 @@ p_fsm(fsm fsm, lex_state lex_state, act_state act_state)
 			}
 		}
 	
-#line 829 "src/libfsm/parser.c"
+#line 855 "src/libfsm/parser.c"
 		}
 		/* END OF ACTION: free-statelist */
 	}
@@ -834,12 +860,12 @@ ZL1:;
 	{
 		/* BEGINNING OF ACTION: err-syntax */
 		{
-#line 410 "src/libfsm/parser.act"
+#line 424 "src/libfsm/parser.act"
 
 		err(lex_state, "Syntax error");
 		exit(EXIT_FAILURE);
 	
-#line 843 "src/libfsm/parser.c"
+#line 869 "src/libfsm/parser.c"
 		}
 		/* END OF ACTION: err-syntax */
 	}
@@ -865,11 +891,11 @@ ZL1:;
 	{
 		/* BEGINNING OF ACTION: err-expected-comma */
 		{
-#line 398 "src/libfsm/parser.act"
+#line 412 "src/libfsm/parser.act"
 
 		err_expected(lex_state, "','");
 	
-#line 873 "src/libfsm/parser.c"
+#line 899 "src/libfsm/parser.c"
 		}
 		/* END OF ACTION: err-expected-comma */
 	}
@@ -895,11 +921,11 @@ ZL1:;
 	{
 		/* BEGINNING OF ACTION: err-expected-sep */
 		{
-#line 390 "src/libfsm/parser.act"
+#line 404 "src/libfsm/parser.act"
 
 		err_expected(lex_state, "';'");
 	
-#line 903 "src/libfsm/parser.c"
+#line 929 "src/libfsm/parser.c"
 		}
 		/* END OF ACTION: err-expected-sep */
 	}
@@ -923,12 +949,16 @@ p_78(fsm fsm, lex_state lex_state, act_state act_state, string *ZIa)
 					case (TOK_IDENT):
 						/* BEGINNING OF EXTRACT: IDENT */
 						{
-#line 250 "src/libfsm/parser.act"
+#line 256 "src/libfsm/parser.act"
 
-		/* XXX: don't exit in library code */
-		ZIb = xstrdup(lex_state->buf.a);
+		ZIb = strdup(lex_state->buf.a);
+		if (ZIb == NULL) {
+			perror("strdup");
+			/* XXX: don't exit in library code */
+			exit(EXIT_FAILURE);
+		}
 	
-#line 932 "src/libfsm/parser.c"
+#line 962 "src/libfsm/parser.c"
 						}
 						/* END OF EXTRACT: IDENT */
 						break;
@@ -941,7 +971,7 @@ p_78(fsm fsm, lex_state lex_state, act_state act_state, string *ZIa)
 			/* END OF INLINE: ident */
 			/* BEGINNING OF ACTION: add-state */
 			{
-#line 282 "src/libfsm/parser.act"
+#line 292 "src/libfsm/parser.act"
 
 		struct act_statelist *p;
 		const unsigned hash = hash_of_id((*ZIa));
@@ -980,8 +1010,12 @@ p_78(fsm fsm, lex_state lex_state, act_state act_state, string *ZIa)
 				exit(EXIT_FAILURE);
 			}
 
-			/* XXX: don't exit in library code */
-			new->id = xstrdup((*ZIa));
+			new->id = strdup((*ZIa));
+			if (new->id == NULL) {
+				perror("strdup");
+				/* XXX: don't exit in library code */
+				exit(EXIT_FAILURE);
+			}
 
 			if (!fsm_addstate(fsm, &(ZIx))) {
 				perror("fsm_addstate");
@@ -994,12 +1028,12 @@ p_78(fsm fsm, lex_state lex_state, act_state act_state, string *ZIa)
 			act_state->states.buckets[bucket_id] = new;
 		}
 	
-#line 998 "src/libfsm/parser.c"
+#line 1032 "src/libfsm/parser.c"
 			}
 			/* END OF ACTION: add-state */
 			/* BEGINNING OF ACTION: add-state */
 			{
-#line 282 "src/libfsm/parser.act"
+#line 292 "src/libfsm/parser.act"
 
 		struct act_statelist *p;
 		const unsigned hash = hash_of_id((ZIb));
@@ -1038,8 +1072,12 @@ p_78(fsm fsm, lex_state lex_state, act_state act_state, string *ZIa)
 				exit(EXIT_FAILURE);
 			}
 
-			/* XXX: don't exit in library code */
-			new->id = xstrdup((ZIb));
+			new->id = strdup((ZIb));
+			if (new->id == NULL) {
+				perror("strdup");
+				/* XXX: don't exit in library code */
+				exit(EXIT_FAILURE);
+			}
 
 			if (!fsm_addstate(fsm, &(ZIy))) {
 				perror("fsm_addstate");
@@ -1052,25 +1090,25 @@ p_78(fsm fsm, lex_state lex_state, act_state act_state, string *ZIa)
 			act_state->states.buckets[bucket_id] = new;
 		}
 	
-#line 1056 "src/libfsm/parser.c"
+#line 1094 "src/libfsm/parser.c"
 			}
 			/* END OF ACTION: add-state */
 			/* BEGINNING OF ACTION: free */
 			{
-#line 349 "src/libfsm/parser.act"
+#line 363 "src/libfsm/parser.act"
 
 		free((*ZIa));
 	
-#line 1065 "src/libfsm/parser.c"
+#line 1103 "src/libfsm/parser.c"
 			}
 			/* END OF ACTION: free */
 			/* BEGINNING OF ACTION: free */
 			{
-#line 349 "src/libfsm/parser.act"
+#line 363 "src/libfsm/parser.act"
 
 		free((ZIb));
 	
-#line 1074 "src/libfsm/parser.c"
+#line 1112 "src/libfsm/parser.c"
 			}
 			/* END OF ACTION: free */
 			/* BEGINNING OF INLINE: 48 */
@@ -1081,14 +1119,14 @@ p_78(fsm fsm, lex_state lex_state, act_state act_state, string *ZIa)
 						ADVANCE_LEXER;
 						/* BEGINNING OF ACTION: add-edge-any */
 						{
-#line 375 "src/libfsm/parser.act"
+#line 389 "src/libfsm/parser.act"
 
 		if (!fsm_addedge_any(fsm, (ZIx), (ZIy))) {
 			perror("fsm_addedge_any");
 			exit(EXIT_FAILURE);
 		}
 	
-#line 1092 "src/libfsm/parser.c"
+#line 1130 "src/libfsm/parser.c"
 						}
 						/* END OF ACTION: add-edge-any */
 					}
@@ -1104,14 +1142,14 @@ p_78(fsm fsm, lex_state lex_state, act_state act_state, string *ZIa)
 						}
 						/* BEGINNING OF ACTION: add-edge-literal */
 						{
-#line 368 "src/libfsm/parser.act"
+#line 382 "src/libfsm/parser.act"
 
 		if (!fsm_addedge_literal(fsm, (ZIx), (ZIy), (ZIc))) {
 			perror("fsm_addedge_literal");
 			exit(EXIT_FAILURE);
 		}
 	
-#line 1115 "src/libfsm/parser.c"
+#line 1153 "src/libfsm/parser.c"
 						}
 						/* END OF ACTION: add-edge-literal */
 					}
@@ -1120,14 +1158,14 @@ p_78(fsm fsm, lex_state lex_state, act_state act_state, string *ZIa)
 					{
 						/* BEGINNING OF ACTION: add-edge-epsilon */
 						{
-#line 382 "src/libfsm/parser.act"
+#line 396 "src/libfsm/parser.act"
 
 		if (!fsm_addedge_epsilon(fsm, (ZIx), (ZIy))) {
 			perror("fsm_addedge_epsilon");
 			exit(EXIT_FAILURE);
 		}
 	
-#line 1131 "src/libfsm/parser.c"
+#line 1169 "src/libfsm/parser.c"
 						}
 						/* END OF ACTION: add-edge-epsilon */
 					}
@@ -1138,11 +1176,11 @@ p_78(fsm fsm, lex_state lex_state, act_state act_state, string *ZIa)
 				{
 					/* BEGINNING OF ACTION: err-expected-trans */
 					{
-#line 394 "src/libfsm/parser.act"
+#line 408 "src/libfsm/parser.act"
 
 		err_expected(lex_state, "transition");
 	
-#line 1146 "src/libfsm/parser.c"
+#line 1184 "src/libfsm/parser.c"
 					}
 					/* END OF ACTION: err-expected-trans */
 				}
@@ -1162,7 +1200,7 @@ p_78(fsm fsm, lex_state lex_state, act_state act_state, string *ZIa)
 
 			/* BEGINNING OF ACTION: add-state */
 			{
-#line 282 "src/libfsm/parser.act"
+#line 292 "src/libfsm/parser.act"
 
 		struct act_statelist *p;
 		const unsigned hash = hash_of_id((*ZIa));
@@ -1201,8 +1239,12 @@ p_78(fsm fsm, lex_state lex_state, act_state act_state, string *ZIa)
 				exit(EXIT_FAILURE);
 			}
 
-			/* XXX: don't exit in library code */
-			new->id = xstrdup((*ZIa));
+			new->id = strdup((*ZIa));
+			if (new->id == NULL) {
+				perror("strdup");
+				/* XXX: don't exit in library code */
+				exit(EXIT_FAILURE);
+			}
 
 			if (!fsm_addstate(fsm, &(ZI51))) {
 				perror("fsm_addstate");
@@ -1215,16 +1257,16 @@ p_78(fsm fsm, lex_state lex_state, act_state act_state, string *ZIa)
 			act_state->states.buckets[bucket_id] = new;
 		}
 	
-#line 1219 "src/libfsm/parser.c"
+#line 1261 "src/libfsm/parser.c"
 			}
 			/* END OF ACTION: add-state */
 			/* BEGINNING OF ACTION: free */
 			{
-#line 349 "src/libfsm/parser.act"
+#line 363 "src/libfsm/parser.act"
 
 		free((*ZIa));
 	
-#line 1228 "src/libfsm/parser.c"
+#line 1270 "src/libfsm/parser.c"
 			}
 			/* END OF ACTION: free */
 			p_76 (fsm, lex_state, act_state);
@@ -1298,7 +1340,7 @@ p_xend_C_Cend_Hid(fsm fsm, lex_state lex_state, act_state act_state, state ZIs)
 		case (TOK_ENDID):
 			/* BEGINNING OF EXTRACT: ENDID */
 			{
-#line 255 "src/libfsm/parser.act"
+#line 265 "src/libfsm/parser.act"
 
 		unsigned long u;
 		char *e;
@@ -1323,7 +1365,7 @@ p_xend_C_Cend_Hid(fsm fsm, lex_state lex_state, act_state act_state, state ZIs)
 
 		ZIid = (fsm_end_id_t) u;
 	
-#line 1327 "src/libfsm/parser.c"
+#line 1369 "src/libfsm/parser.c"
 			}
 			/* END OF EXTRACT: ENDID */
 			break;
@@ -1333,13 +1375,13 @@ p_xend_C_Cend_Hid(fsm fsm, lex_state lex_state, act_state act_state, state ZIs)
 		ADVANCE_LEXER;
 		/* BEGINNING OF ACTION: mark-end-id */
 		{
-#line 343 "src/libfsm/parser.act"
+#line 357 "src/libfsm/parser.act"
 
 		if (!fsm_endid_set(fsm, (ZIs), (ZIid))) {
 			goto ZL1;
 		}
 	
-#line 1343 "src/libfsm/parser.c"
+#line 1385 "src/libfsm/parser.c"
 		}
 		/* END OF ACTION: mark-end-id */
 	}
@@ -1351,7 +1393,7 @@ ZL1:;
 
 /* BEGINNING OF TRAILER */
 
-#line 415 "src/libfsm/parser.act"
+#line 429 "src/libfsm/parser.act"
 
 
 	struct fsm *fsm_parse(FILE *f, const struct fsm_alloc *alloc) {
@@ -1381,8 +1423,11 @@ ZL1:;
 		lx->clear      = lx_dynclear;
 		lx->free       = lx_dynfree;
 
-		act_state_s.states.buckets = xcalloc(DEF_BUCKETS, sizeof(act_state_s.states.buckets));
-		assert(act_state_s.states.buckets != NULL);
+		act_state_s.states.buckets = calloc(DEF_BUCKETS, sizeof(act_state_s.states.buckets));
+		if (act_state_s.states.buckets == NULL) {
+			perror("calloc");
+			return NULL;
+		}
 		act_state_s.states.bucket_count = DEF_BUCKETS;
 		act_state_s.states.longest_chain_length = 0;
 
@@ -1392,6 +1437,7 @@ ZL1:;
 		new = fsm_new(alloc);
 		if (new == NULL) {
 			perror("fsm_new");
+			free(act_state_s.states.buckets);
 			return NULL;
 		}
 
@@ -1416,6 +1462,6 @@ ZL1:;
 		return new;
 	}
 
-#line 1420 "src/libfsm/parser.c"
+#line 1466 "src/libfsm/parser.c"
 
 /* END OF FILE */
-- 
2.43.0


From 278dae6d1e3f9af936885d71375fa5392931399d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:43 +0000
Subject: [PATCH 062/142] fix: free the character set when intersecting with it
 fails

---
 src/libfsm/charset.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libfsm/charset.c b/src/libfsm/charset.c
index 3f987ea..f9b6f84 100644
--- a/src/libfsm/charset.c
+++ b/src/libfsm/charset.c
@@ -73,7 +73,7 @@ fsm_intersect_charset(struct fsm *a, size_t n, const char *charset)
 	 */
 	q = fsm_walk2(a, b, FSM_WALK2_BOTH, FSM_WALK2_BOTH);
 	if (q == NULL) {
-		return NULL;
+		goto error;
 	}
 
 	fsm_free(a);
-- 
2.43.0


From 3d70525ff299a016e1348be3a0e221dd2353a433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:43 +0000
Subject: [PATCH 063/142] fix: undo the complement when trimming it fails

---
 src/libfsm/complement.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libfsm/complement.c b/src/libfsm/complement.c
index d0de7e7..df0916b 100644
--- a/src/libfsm/complement.c
+++ b/src/libfsm/complement.c
@@ -40,6 +40,10 @@ fsm_complement(struct fsm *fsm)
 	}
 
 	if (fsm_trim(fsm, FSM_TRIM_START_REACHABLE, NULL) < 0) {
+		/* undo the complement, for the caller to keep what they had */
+		for (i = 0; i < fsm->statecount; i++) {
+			fsm_setend(fsm, i, !fsm_isend(fsm, i));
+		}
 		return 0;
 	}
 
-- 
2.43.0


From f2dbe96e73430204a471463d15709fcbd1806e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:43 +0000
Subject: [PATCH 064/142] fix: xstrdup() and xstrndup() abort on failure, like
 the others here

---
 src/adt/xalloc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/adt/xalloc.c b/src/adt/xalloc.c
index 3c9f0dd..e5c0992 100644
--- a/src/adt/xalloc.c
+++ b/src/adt/xalloc.c
@@ -23,7 +23,7 @@ xstrdup(const char *s)
 	new = strdup(s);
 	if (new == NULL) {
 		perror("strdup");
-		return NULL;
+		abort();
 	}
 
 	return new;
@@ -39,7 +39,7 @@ xstrndup(const char *s, size_t n)
 	new = strndup(s, n);
 	if (new == NULL) {
 		perror("strndup");
-		return NULL;
+		abort();
 	}
 
 	return new;
-- 
2.43.0


From 741bdf2f6d951dad3d875f844e013f1b645e236b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:14 +0000
Subject: [PATCH 065/142] fix: running out of memory while parsing a regexp
 isn't a syntax error

---
 src/libfsm/lexer.c                 |   1 +
 src/libre/dialect/glob/lexer.c     |   1 +
 src/libre/dialect/glob/parser.c    |  67 +++--
 src/libre/dialect/like/lexer.c     |   1 +
 src/libre/dialect/like/parser.c    |  67 +++--
 src/libre/dialect/literal/lexer.c  |   1 +
 src/libre/dialect/literal/parser.c |  45 +--
 src/libre/dialect/native/lexer.c   |   1 +
 src/libre/dialect/native/parser.c  | 286 ++++++++++--------
 src/libre/dialect/pcre/lexer.c     |   1 +
 src/libre/dialect/pcre/parser.c    | 456 ++++++++++++++++-------------
 src/libre/dialect/sql/lexer.c      |   1 +
 src/libre/dialect/sql/parser.c     | 233 ++++++++-------
 src/libre/parser.act               |  22 +-
 src/lx/lexer.c                     |   1 +
 src/lx/print/c.c                   |   3 +
 16 files changed, 692 insertions(+), 495 deletions(-)

diff --git a/src/libfsm/lexer.c b/src/libfsm/lexer.c
index 1461dc6..c70a6d9 100644
--- a/src/libfsm/lexer.c
+++ b/src/libfsm/lexer.c
@@ -1744,6 +1744,7 @@ lx_next(struct lx *lx)
 
 	if (lx->push != NULL) {
 		if (-1 == lx->push(lx->buf_opaque, '\0')) {
+			lx->push_failed = 1;
 			return TOK_ERROR;
 		}
 	}
diff --git a/src/libre/dialect/glob/lexer.c b/src/libre/dialect/glob/lexer.c
index 3a53773..c7bc2be 100644
--- a/src/libre/dialect/glob/lexer.c
+++ b/src/libre/dialect/glob/lexer.c
@@ -313,6 +313,7 @@ lx_glob_next(struct lx_glob_lx *lx)
 
 	if (lx->push != NULL) {
 		if (-1 == lx->push(lx->buf_opaque, '\0')) {
+			lx->push_failed = 1;
 			return TOK_ERROR;
 		}
 	}
diff --git a/src/libre/dialect/glob/parser.c b/src/libre/dialect/glob/parser.c
index a18fa2a..2a83701 100644
--- a/src/libre/dialect/glob/parser.c
+++ b/src/libre/dialect/glob/parser.c
@@ -304,13 +304,14 @@ ZL2_list_Hof_Hatoms:;
 		}
 		/* BEGINNING OF ACTION: ast-add-concat */
 		{
-#line 1040 "src/libre/parser.act"
+#line 1053 "src/libre/parser.act"
 
 		if (!ast_add_expr_concat((ZIcat), (ZIa))) {
+			err->e = RE_EERRNO;
 			goto ZL1;
 		}
 	
-#line 314 "src/libre/dialect/glob/parser.c"
+#line 315 "src/libre/dialect/glob/parser.c"
 		}
 		/* END OF ACTION: ast-add-concat */
 		/* BEGINNING OF INLINE: 115 */
@@ -353,19 +354,20 @@ p_list_Hof_Hatoms_C_Catom(flags flags, lex_state lex_state, act_state act_state,
 		/* TODO: or the unicode equivalent */
 		(ZIa) = (*flags & RE_SINGLE) ? &class_any : &class_notnl;
 	
-#line 357 "src/libre/dialect/glob/parser.c"
+#line 358 "src/libre/dialect/glob/parser.c"
 			}
 			/* END OF ACTION: class-any */
 			/* BEGINNING OF ACTION: ast-make-named */
 			{
-#line 1033 "src/libre/parser.act"
+#line 1045 "src/libre/parser.act"
 
 		(ZIe) = ast_make_expr_named(act_state->poolp, *flags, (ZIa));
 		if ((ZIe) == NULL) {
+			err->e = RE_EERRNO;
 			goto ZL1;
 		}
 	
-#line 369 "src/libre/dialect/glob/parser.c"
+#line 371 "src/libre/dialect/glob/parser.c"
 			}
 			/* END OF ACTION: ast-make-named */
 		}
@@ -391,20 +393,21 @@ p_list_Hof_Hatoms_C_Catom(flags flags, lex_state lex_state, act_state act_state,
 
 		ZIc = lex_state->buf.a[0];
 	
-#line 395 "src/libre/dialect/glob/parser.c"
+#line 397 "src/libre/dialect/glob/parser.c"
 			}
 			/* END OF EXTRACT: CHAR */
 			ADVANCE_LEXER;
 			/* BEGINNING OF ACTION: ast-make-literal */
 			{
-#line 874 "src/libre/parser.act"
+#line 877 "src/libre/parser.act"
 
 		(ZIe) = ast_make_expr_literal(act_state->poolp, *flags, (ZIc));
 		if ((ZIe) == NULL) {
+			err->e = RE_EERRNO;
 			goto ZL1;
 		}
 	
-#line 408 "src/libre/dialect/glob/parser.c"
+#line 411 "src/libre/dialect/glob/parser.c"
 			}
 			/* END OF ACTION: ast-make-literal */
 		}
@@ -423,19 +426,20 @@ p_list_Hof_Hatoms_C_Catom(flags flags, lex_state lex_state, act_state act_state,
 		/* TODO: or the unicode equivalent */
 		(ZIa) = (*flags & RE_SINGLE) ? &class_any : &class_notnl;
 	
-#line 427 "src/libre/dialect/glob/parser.c"
+#line 430 "src/libre/dialect/glob/parser.c"
 			}
 			/* END OF ACTION: class-any */
 			/* BEGINNING OF ACTION: ast-make-named */
 			{
-#line 1033 "src/libre/parser.act"
+#line 1045 "src/libre/parser.act"
 
 		(ZIg) = ast_make_expr_named(act_state->poolp, *flags, (ZIa));
 		if ((ZIg) == NULL) {
+			err->e = RE_EERRNO;
 			goto ZL1;
 		}
 	
-#line 439 "src/libre/dialect/glob/parser.c"
+#line 443 "src/libre/dialect/glob/parser.c"
 			}
 			/* END OF ACTION: ast-make-named */
 			/* BEGINNING OF ACTION: count-zero-or-more */
@@ -444,12 +448,12 @@ p_list_Hof_Hatoms_C_Catom(flags flags, lex_state lex_state, act_state act_state,
 
 		(ZIc) = ast_make_count(0, AST_COUNT_UNBOUNDED);
 	
-#line 448 "src/libre/dialect/glob/parser.c"
+#line 452 "src/libre/dialect/glob/parser.c"
 			}
 			/* END OF ACTION: count-zero-or-more */
 			/* BEGINNING OF ACTION: ast-make-piece */
 			{
-#line 897 "src/libre/parser.act"
+#line 901 "src/libre/parser.act"
 
 		if ((ZIc).min == 0 && (ZIc).max == 0) {
 			(ZIe) = ast_make_expr_empty(act_state->poolp, *flags);
@@ -459,11 +463,11 @@ p_list_Hof_Hatoms_C_Catom(flags flags, lex_state lex_state, act_state act_state,
 			(ZIe) = ast_make_expr_repeat(act_state->poolp, *flags, (ZIg), (ZIc));
 		}
 		if ((ZIe) == NULL) {
-			err->e = RE_EXEOF;
+			err->e = RE_EERRNO;
 			goto ZL1;
 		}
 	
-#line 467 "src/libre/dialect/glob/parser.c"
+#line 471 "src/libre/dialect/glob/parser.c"
 			}
 			/* END OF ACTION: ast-make-piece */
 		}
@@ -485,7 +489,7 @@ ZL1:;
 		}
 		goto ZL2;
 	
-#line 489 "src/libre/dialect/glob/parser.c"
+#line 493 "src/libre/dialect/glob/parser.c"
 		}
 		/* END OF ACTION: err-expected-atom */
 		/* BEGINNING OF ACTION: ast-make-empty */
@@ -494,10 +498,11 @@ ZL1:;
 
 		(ZIe) = ast_make_expr_empty(act_state->poolp, *flags);
 		if ((ZIe) == NULL) {
+			err->e = RE_EERRNO;
 			goto ZL2;
 		}
 	
-#line 501 "src/libre/dialect/glob/parser.c"
+#line 506 "src/libre/dialect/glob/parser.c"
 		}
 		/* END OF ACTION: ast-make-empty */
 	}
@@ -523,11 +528,11 @@ p_re__glob(flags flags, lex_state lex_state, act_state act_state, err err, t_ast
 
 		/* BEGINNING OF ACTION: make-group-id */
 		{
-#line 881 "src/libre/parser.act"
+#line 885 "src/libre/parser.act"
 
 		(ZIid) = act_state->group_id++;
 	
-#line 531 "src/libre/dialect/glob/parser.c"
+#line 536 "src/libre/dialect/glob/parser.c"
 		}
 		/* END OF ACTION: make-group-id */
 		/* BEGINNING OF INLINE: 119 */
@@ -537,14 +542,15 @@ p_re__glob(flags flags, lex_state lex_state, act_state act_state, err err, t_ast
 				{
 					/* BEGINNING OF ACTION: ast-make-concat */
 					{
-#line 860 "src/libre/parser.act"
+#line 861 "src/libre/parser.act"
 
 		(ZIe) = ast_make_expr_concat(act_state->poolp, *flags);
 		if ((ZIe) == NULL) {
+			err->e = RE_EERRNO;
 			goto ZL1;
 		}
 	
-#line 548 "src/libre/dialect/glob/parser.c"
+#line 554 "src/libre/dialect/glob/parser.c"
 					}
 					/* END OF ACTION: ast-make-concat */
 					p_list_Hof_Hatoms (flags, lex_state, act_state, err, ZIe);
@@ -562,10 +568,11 @@ p_re__glob(flags flags, lex_state lex_state, act_state act_state, err err, t_ast
 
 		(ZIe) = ast_make_expr_empty(act_state->poolp, *flags);
 		if ((ZIe) == NULL) {
+			err->e = RE_EERRNO;
 			goto ZL1;
 		}
 	
-#line 569 "src/libre/dialect/glob/parser.c"
+#line 576 "src/libre/dialect/glob/parser.c"
 					}
 					/* END OF ACTION: ast-make-empty */
 				}
@@ -575,14 +582,15 @@ p_re__glob(flags flags, lex_state lex_state, act_state act_state, err err, t_ast
 		/* END OF INLINE: 119 */
 		/* BEGINNING OF ACTION: ast-make-group */
 		{
-#line 911 "src/libre/parser.act"
+#line 915 "src/libre/parser.act"
 
 		(ZInode) = ast_make_expr_group(act_state->poolp, *flags, (ZIe), (ZIid));
 		if ((ZInode) == NULL) {
+			err->e = RE_EERRNO;
 			goto ZL1;
 		}
 	
-#line 586 "src/libre/dialect/glob/parser.c"
+#line 594 "src/libre/dialect/glob/parser.c"
 		}
 		/* END OF ACTION: ast-make-group */
 		/* BEGINNING OF INLINE: 120 */
@@ -608,7 +616,7 @@ p_re__glob(flags flags, lex_state lex_state, act_state act_state, err err, t_ast
 		}
 		goto ZL1;
 	
-#line 612 "src/libre/dialect/glob/parser.c"
+#line 620 "src/libre/dialect/glob/parser.c"
 				}
 				/* END OF ACTION: err-expected-eof */
 			}
@@ -626,7 +634,7 @@ ZL0:;
 
 /* BEGINNING OF TRAILER */
 
-#line 1052 "src/libre/parser.act"
+#line 1067 "src/libre/parser.act"
 
 
 	static int
@@ -723,6 +731,11 @@ ZL0:;
 
 		lx->free(lx->buf_opaque);
 
+		if (lx->push_failed) {
+			/* a token couldn't be stored; that isn't about syntax */
+			err->e = RE_EERRNO;
+		}
+
 		if (err->e != RE_ESUCCESS) {
 			/* TODO: free internals allocated during parsing (are there any?) */
 			goto error;
@@ -786,6 +799,6 @@ ZL0:;
 		return NULL;
 	}
 
-#line 790 "src/libre/dialect/glob/parser.c"
+#line 803 "src/libre/dialect/glob/parser.c"
 
 /* END OF FILE */
diff --git a/src/libre/dialect/like/lexer.c b/src/libre/dialect/like/lexer.c
index 9a3a225..ea6d80c 100644
--- a/src/libre/dialect/like/lexer.c
+++ b/src/libre/dialect/like/lexer.c
@@ -313,6 +313,7 @@ lx_like_next(struct lx_like_lx *lx)
 
 	if (lx->push != NULL) {
 		if (-1 == lx->push(lx->buf_opaque, '\0')) {
+			lx->push_failed = 1;
 			return TOK_ERROR;
 		}
 	}
diff --git a/src/libre/dialect/like/parser.c b/src/libre/dialect/like/parser.c
index e3298be..ff801f2 100644
--- a/src/libre/dialect/like/parser.c
+++ b/src/libre/dialect/like/parser.c
@@ -304,13 +304,14 @@ ZL2_list_Hof_Hatoms:;
 		}
 		/* BEGINNING OF ACTION: ast-add-concat */
 		{
-#line 1040 "src/libre/parser.act"
+#line 1053 "src/libre/parser.act"
 
 		if (!ast_add_expr_concat((ZIcat), (ZIa))) {
+			err->e = RE_EERRNO;
 			goto ZL1;
 		}
 	
-#line 314 "src/libre/dialect/like/parser.c"
+#line 315 "src/libre/dialect/like/parser.c"
 		}
 		/* END OF ACTION: ast-add-concat */
 		/* BEGINNING OF INLINE: 115 */
@@ -353,19 +354,20 @@ p_list_Hof_Hatoms_C_Catom(flags flags, lex_state lex_state, act_state act_state,
 		/* TODO: or the unicode equivalent */
 		(ZIa) = (*flags & RE_SINGLE) ? &class_any : &class_notnl;
 	
-#line 357 "src/libre/dialect/like/parser.c"
+#line 358 "src/libre/dialect/like/parser.c"
 			}
 			/* END OF ACTION: class-any */
 			/* BEGINNING OF ACTION: ast-make-named */
 			{
-#line 1033 "src/libre/parser.act"
+#line 1045 "src/libre/parser.act"
 
 		(ZIe) = ast_make_expr_named(act_state->poolp, *flags, (ZIa));
 		if ((ZIe) == NULL) {
+			err->e = RE_EERRNO;
 			goto ZL1;
 		}
 	
-#line 369 "src/libre/dialect/like/parser.c"
+#line 371 "src/libre/dialect/like/parser.c"
 			}
 			/* END OF ACTION: ast-make-named */
 		}
@@ -391,20 +393,21 @@ p_list_Hof_Hatoms_C_Catom(flags flags, lex_state lex_state, act_state act_state,
 
 		ZIc = lex_state->buf.a[0];
 	
-#line 395 "src/libre/dialect/like/parser.c"
+#line 397 "src/libre/dialect/like/parser.c"
 			}
 			/* END OF EXTRACT: CHAR */
 			ADVANCE_LEXER;
 			/* BEGINNING OF ACTION: ast-make-literal */
 			{
-#line 874 "src/libre/parser.act"
+#line 877 "src/libre/parser.act"
 
 		(ZIe) = ast_make_expr_literal(act_state->poolp, *flags, (ZIc));
 		if ((ZIe) == NULL) {
+			err->e = RE_EERRNO;
 			goto ZL1;
 		}
 	
-#line 408 "src/libre/dialect/like/parser.c"
+#line 411 "src/libre/dialect/like/parser.c"
 			}
 			/* END OF ACTION: ast-make-literal */
 		}
@@ -423,19 +426,20 @@ p_list_Hof_Hatoms_C_Catom(flags flags, lex_state lex_state, act_state act_state,
 		/* TODO: or the unicode equivalent */
 		(ZIa) = (*flags & RE_SINGLE) ? &class_any : &class_notnl;
 	
-#line 427 "src/libre/dialect/like/parser.c"
+#line 430 "src/libre/dialect/like/parser.c"
 			}
 			/* END OF ACTION: class-any */
 			/* BEGINNING OF ACTION: ast-make-named */
 			{
-#line 1033 "src/libre/parser.act"
+#line 1045 "src/libre/parser.act"
 
 		(ZIg) = ast_make_expr_named(act_state->poolp, *flags, (ZIa));
 		if ((ZIg) == NULL) {
+			err->e = RE_EERRNO;
 			goto ZL1;
 		}
 	
-#line 439 "src/libre/dialect/like/parser.c"
+#line 443 "src/libre/dialect/like/parser.c"
 			}
 			/* END OF ACTION: ast-make-named */
 			/* BEGINNING OF ACTION: count-zero-or-more */
@@ -444,12 +448,12 @@ p_list_Hof_Hatoms_C_Catom(flags flags, lex_state lex_state, act_state act_state,
 
 		(ZIc) = ast_make_count(0, AST_COUNT_UNBOUNDED);
 	
-#line 448 "src/libre/dialect/like/parser.c"
+#line 452 "src/libre/dialect/like/parser.c"
 			}
 			/* END OF ACTION: count-zero-or-more */
 			/* BEGINNING OF ACTION: ast-make-piece */
 			{
-#line 897 "src/libre/parser.act"
+#line 901 "src/libre/parser.act"
 
 		if ((ZIc).min == 0 && (ZIc).max == 0) {
 			(ZIe) = ast_make_expr_empty(act_state->poolp, *flags);
@@ -459,11 +463,11 @@ p_list_Hof_Hatoms_C_Catom(flags flags, lex_state lex_state, act_state act_state,
 			(ZIe) = ast_make_expr_repeat(act_state->poolp, *flags, (ZIg), (ZIc));
 		}
 		if ((ZIe) == NULL) {
-			err->e = RE_EXEOF;
+			err->e = RE_EERRNO;
 			goto ZL1;
 		}
 	
-#line 467 "src/libre/dialect/like/parser.c"
+#line 471 "src/libre/dialect/like/parser.c"
 			}
 			/* END OF ACTION: ast-make-piece */
 		}
@@ -485,7 +489,7 @@ ZL1:;
 		}
 		goto ZL2;
 	
-#line 489 "src/libre/dialect/like/parser.c"
+#line 493 "src/libre/dialect/like/parser.c"
 		}
 		/* END OF ACTION: err-expected-atom */
 		/* BEGINNING OF ACTION: ast-make-empty */
@@ -494,10 +498,11 @@ ZL1:;
 
 		(ZIe) = ast_make_expr_empty(act_state->poolp, *flags);
 		if ((ZIe) == NULL) {
+			err->e = RE_EERRNO;
 			goto ZL2;
 		}
 	
-#line 501 "src/libre/dialect/like/parser.c"
+#line 506 "src/libre/dialect/like/parser.c"
 		}
 		/* END OF ACTION: ast-make-empty */
 	}
@@ -523,11 +528,11 @@ p_re__like(flags flags, lex_state lex_state, act_state act_state, err err, t_ast
 
 		/* BEGINNING OF ACTION: make-group-id */
 		{
-#line 881 "src/libre/parser.act"
+#line 885 "src/libre/parser.act"
 
 		(ZIid) = act_state->group_id++;
 	
-#line 531 "src/libre/dialect/like/parser.c"
+#line 536 "src/libre/dialect/like/parser.c"
 		}
 		/* END OF ACTION: make-group-id */
 		/* BEGINNING OF INLINE: 119 */
@@ -537,14 +542,15 @@ p_re__like(flags flags, lex_state lex_state, act_state act_state, err err, t_ast
 				{
 					/* BEGINNING OF ACTION: ast-make-concat */
 					{
-#line 860 "src/libre/parser.act"
+#line 861 "src/libre/parser.act"
 
 		(ZIe) = ast_make_expr_concat(act_state->poolp, *flags);
 		if ((ZIe) == NULL) {
+			err->e = RE_EERRNO;
 			goto ZL1;
 		}
 	
-#line 548 "src/libre/dialect/like/parser.c"
+#line 554 "src/libre/dialect/like/parser.c"
 					}
 					/* END OF ACTION: ast-make-concat */
 					p_list_Hof_Hatoms (flags, lex_state, act_state, err, ZIe);
@@ -562,10 +568,11 @@ p_re__like(flags flags, lex_state lex_state, act_state act_state, err err, t_ast
 
 		(ZIe) = ast_make_expr_empty(act_state->poolp, *flags);
 		if ((ZIe) == NULL) {
+			err->e = RE_EERRNO;
 			goto ZL1;
 		}
 	
-#line 569 "src/libre/dialect/like/parser.c"
+#line 576 "src/libre/dialect/like/parser.c"
 					}
 					/* END OF ACTION: ast-make-empty */
 				}
@@ -575,14 +582,15 @@ p_re__like(flags flags, lex_state lex_state, act_state act_state, err err, t_ast
 		/* END OF INLINE: 119 */
 		/* BEGINNING OF ACTION: ast-make-group */
 		{
-#line 911 "src/libre/parser.act"
+#line 915 "src/libre/parser.act"
 
 		(ZInode) = ast_make_expr_group(act_state->poolp, *flags, (ZIe), (ZIid));
 		if ((ZInode) == NULL) {
+			err->e = RE_EERRNO;
 			goto ZL1;
 		}
 	
-#line 586 "src/libre/dialect/like/parser.c"
+#line 594 "src/libre/dialect/like/parser.c"
 		}
 		/* END OF ACTION: ast-make-group */
 		/* BEGINNING OF INLINE: 120 */
@@ -608,7 +616,7 @@ p_re__like(flags flags, lex_state lex_state, act_state act_state, err err, t_ast
 		}
 		goto ZL1;
 	
-#line 612 "src/libre/dialect/like/parser.c"
+#line 620 "src/libre/dialect/like/parser.c"
 				}
 				/* END OF ACTION: err-expected-eof */
 			}
@@ -626,7 +634,7 @@ ZL0:;
 
 /* BEGINNING OF TRAILER */
 
-#line 1052 "src/libre/parser.act"
+#line 1067 "src/libre/parser.act"
 
 
 	static int
@@ -723,6 +731,11 @@ ZL0:;
 
 		lx->free(lx->buf_opaque);
 
+		if (lx->push_failed) {
+			/* a token couldn't be stored; that isn't about syntax */
+			err->e = RE_EERRNO;
+		}
+
 		if (err->e != RE_ESUCCESS) {
 			/* TODO: free internals allocated during parsing (are there any?) */
 			goto error;
@@ -786,6 +799,6 @@ ZL0:;
 		return NULL;
 	}
 
-#line 790 "src/libre/dialect/like/parser.c"
+#line 803 "src/libre/dialect/like/parser.c"
 
 /* END OF FILE */
diff --git a/src/libre/dialect/literal/lexer.c b/src/libre/dialect/literal/lexer.c
index 94d8bb2..b801802 100644
--- a/src/libre/dialect/literal/lexer.c
+++ b/src/libre/dialect/literal/lexer.c
@@ -296,6 +296,7 @@ lx_literal_next(struct lx_literal_lx *lx)
 
 	if (lx->push != NULL) {
 		if (-1 == lx->push(lx->buf_opaque, '\0')) {
+			lx->push_failed = 1;
 			return TOK_ERROR;
 		}
 	}
diff --git a/src/libre/dialect/literal/parser.c b/src/libre/dialect/literal/parser.c
index b395451..07ff6a6 100644
--- a/src/libre/dialect/literal/parser.c
+++ b/src/libre/dialect/literal/parser.c
@@ -304,13 +304,14 @@ ZL2_list_Hof_Hatoms:;
 		}
 		/* BEGINNING OF ACTION: ast-add-concat */
 		{
-#line 1040 "src/libre/parser.act"
+#line 1053 "src/libre/parser.act"
 
 		if (!ast_add_expr_concat((ZIcat), (ZIa))) {
+			err->e = RE_EERRNO;
 			goto ZL1;
 		}
 	
-#line 314 "src/libre/dialect/literal/parser.c"
+#line 315 "src/libre/dialect/literal/parser.c"
 		}
 		/* END OF ACTION: ast-add-concat */
 		/* BEGINNING OF INLINE: 114 */
@@ -349,11 +350,11 @@ p_re__literal(flags flags, lex_state lex_state, act_state act_state, err err, t_
 
 		/* BEGINNING OF ACTION: make-group-id */
 		{
-#line 881 "src/libre/parser.act"
+#line 885 "src/libre/parser.act"
 
 		(ZIid) = act_state->group_id++;
 	
-#line 357 "src/libre/dialect/literal/parser.c"
+#line 358 "src/libre/dialect/literal/parser.c"
 		}
 		/* END OF ACTION: make-group-id */
 		/* BEGINNING OF INLINE: 117 */
@@ -363,14 +364,15 @@ p_re__literal(flags flags, lex_state lex_state, act_state act_state, err err, t_
 				{
 					/* BEGINNING OF ACTION: ast-make-concat */
 					{
-#line 860 "src/libre/parser.act"
+#line 861 "src/libre/parser.act"
 
 		(ZIe) = ast_make_expr_concat(act_state->poolp, *flags);
 		if ((ZIe) == NULL) {
+			err->e = RE_EERRNO;
 			goto ZL1;
 		}
 	
-#line 374 "src/libre/dialect/literal/parser.c"
+#line 376 "src/libre/dialect/literal/parser.c"
 					}
 					/* END OF ACTION: ast-make-concat */
 					p_list_Hof_Hatoms (flags, lex_state, act_state, err, ZIe);
@@ -388,10 +390,11 @@ p_re__literal(flags flags, lex_state lex_state, act_state act_state, err err, t_
 
 		(ZIe) = ast_make_expr_empty(act_state->poolp, *flags);
 		if ((ZIe) == NULL) {
+			err->e = RE_EERRNO;
 			goto ZL1;
 		}
 	
-#line 395 "src/libre/dialect/literal/parser.c"
+#line 398 "src/libre/dialect/literal/parser.c"
 					}
 					/* END OF ACTION: ast-make-empty */
 				}
@@ -401,14 +404,15 @@ p_re__literal(flags flags, lex_state lex_state, act_state act_state, err err, t_
 		/* END OF INLINE: 117 */
 		/* BEGINNING OF ACTION: ast-make-group */
 		{
-#line 911 "src/libre/parser.act"
+#line 915 "src/libre/parser.act"
 
 		(ZInode) = ast_make_expr_group(act_state->poolp, *flags, (ZIe), (ZIid));
 		if ((ZInode) == NULL) {
+			err->e = RE_EERRNO;
 			goto ZL1;
 		}
 	
-#line 412 "src/libre/dialect/literal/parser.c"
+#line 416 "src/libre/dialect/literal/parser.c"
 		}
 		/* END OF ACTION: ast-make-group */
 		/* BEGINNING OF INLINE: 119 */
@@ -434,7 +438,7 @@ p_re__literal(flags flags, lex_state lex_state, act_state act_state, err err, t_
 		}
 		goto ZL1;
 	
-#line 438 "src/libre/dialect/literal/parser.c"
+#line 442 "src/libre/dialect/literal/parser.c"
 				}
 				/* END OF ACTION: err-expected-eof */
 			}
@@ -480,7 +484,7 @@ p_list_Hof_Hatoms_C_Catom(flags flags, lex_state lex_state, act_state act_state,
 
 		ZIc = lex_state->buf.a[0];
 	
-#line 484 "src/libre/dialect/literal/parser.c"
+#line 488 "src/libre/dialect/literal/parser.c"
 			}
 			/* END OF EXTRACT: CHAR */
 			break;
@@ -490,14 +494,15 @@ p_list_Hof_Hatoms_C_Catom(flags flags, lex_state lex_state, act_state act_state,
 		ADVANCE_LEXER;
 		/* BEGINNING OF ACTION: ast-make-literal */
 		{
-#line 874 "src/libre/parser.act"
+#line 877 "src/libre/parser.act"
 
 		(ZInode) = ast_make_expr_literal(act_state->poolp, *flags, (ZIc));
 		if ((ZInode) == NULL) {
+			err->e = RE_EERRNO;
 			goto ZL1;
 		}
 	
-#line 501 "src/libre/dialect/literal/parser.c"
+#line 506 "src/libre/dialect/literal/parser.c"
 		}
 		/* END OF ACTION: ast-make-literal */
 	}
@@ -513,7 +518,7 @@ ZL1:;
 		}
 		goto ZL2;
 	
-#line 517 "src/libre/dialect/literal/parser.c"
+#line 522 "src/libre/dialect/literal/parser.c"
 		}
 		/* END OF ACTION: err-expected-atom */
 		/* BEGINNING OF ACTION: ast-make-empty */
@@ -522,10 +527,11 @@ ZL1:;
 
 		(ZInode) = ast_make_expr_empty(act_state->poolp, *flags);
 		if ((ZInode) == NULL) {
+			err->e = RE_EERRNO;
 			goto ZL2;
 		}
 	
-#line 529 "src/libre/dialect/literal/parser.c"
+#line 535 "src/libre/dialect/literal/parser.c"
 		}
 		/* END OF ACTION: ast-make-empty */
 	}
@@ -539,7 +545,7 @@ ZL0:;
 
 /* BEGINNING OF TRAILER */
 
-#line 1052 "src/libre/parser.act"
+#line 1067 "src/libre/parser.act"
 
 
 	static int
@@ -636,6 +642,11 @@ ZL0:;
 
 		lx->free(lx->buf_opaque);
 
+		if (lx->push_failed) {
+			/* a token couldn't be stored; that isn't about syntax */
+			err->e = RE_EERRNO;
+		}
+
 		if (err->e != RE_ESUCCESS) {
 			/* TODO: free internals allocated during parsing (are there any?) */
 			goto error;
@@ -699,6 +710,6 @@ ZL0:;
 		return NULL;
 	}
 
-#line 703 "src/libre/dialect/literal/parser.c"
+#line 714 "src/libre/dialect/literal/parser.c"
 
 /* END OF FILE */
diff --git a/src/libre/dialect/native/lexer.c b/src/libre/dialect/native/lexer.c
index 39f2ce8..798f715 100644
--- a/src/libre/dialect/native/lexer.c
+++ b/src/libre/dialect/native/lexer.c
@@ -1335,6 +1335,7 @@ lx_native_next(struct lx_native_lx *lx)
 
 	if (lx->push != NULL) {
 		if (-1 == lx->push(lx->buf_opaque, '\0')) {
+			lx->push_failed = 1;
 			return TOK_ERROR;
 		}
 	}
diff --git a/src/libre/dialect/native/parser.c b/src/libre/dialect/native/parser.c
index f687801..8d6c60b 100644
--- a/src/libre/dialect/native/parser.c
+++ b/src/libre/dialect/native/parser.c
@@ -696,13 +696,14 @@ ZL2_expr_C_Ccharacter_Hclass_C_Clist_Hof_Hclass_Hterms:;
 			}
 			/* BEGINNING OF ACTION: ast-add-alt */
 			{
-#line 1046 "src/libre/parser.act"
+#line 1060 "src/libre/parser.act"
 
 		if (!ast_add_expr_alt((ZIclass), (ZInode))) {
+			err->e = RE_EERRNO;
 			goto ZL1;
 		}
 	
-#line 706 "src/libre/dialect/native/parser.c"
+#line 707 "src/libre/dialect/native/parser.c"
 			}
 			/* END OF ACTION: ast-add-alt */
 			/* BEGINNING OF INLINE: expr::character-class::list-of-class-terms */
@@ -746,7 +747,7 @@ p_154(flags flags, lex_state lex_state, act_state act_state, err err)
 		(void) ZI156;
 		(void) ZI157;
 	
-#line 750 "src/libre/dialect/native/parser.c"
+#line 751 "src/libre/dialect/native/parser.c"
 			}
 			/* END OF EXTRACT: RANGE */
 			break;
@@ -767,7 +768,7 @@ ZL1:;
 		}
 		goto ZL2;
 	
-#line 771 "src/libre/dialect/native/parser.c"
+#line 772 "src/libre/dialect/native/parser.c"
 		}
 		/* END OF ACTION: err-expected-range */
 	}
@@ -795,13 +796,14 @@ ZL2_expr_C_Clist_Hof_Hpieces:;
 		}
 		/* BEGINNING OF ACTION: ast-add-concat */
 		{
-#line 1040 "src/libre/parser.act"
+#line 1053 "src/libre/parser.act"
 
 		if (!ast_add_expr_concat((ZIcat), (ZIa))) {
+			err->e = RE_EERRNO;
 			goto ZL1;
 		}
 	
-#line 805 "src/libre/dialect/native/parser.c"
+#line 807 "src/libre/dialect/native/parser.c"
 		}
 		/* END OF ACTION: ast-add-concat */
 		/* BEGINNING OF INLINE: 223 */
@@ -862,7 +864,7 @@ p_expr_C_Cliteral(flags flags, lex_state lex_state, act_state act_state, err err
 
 		ZIc = lex_state->buf.a[0];
 	
-#line 866 "src/libre/dialect/native/parser.c"
+#line 868 "src/libre/dialect/native/parser.c"
 					}
 					/* END OF EXTRACT: CHAR */
 					ADVANCE_LEXER;
@@ -901,7 +903,7 @@ p_expr_C_Cliteral(flags flags, lex_state lex_state, act_state act_state, err err
 		(void) ZI111;
 		(void) ZI112;
 	
-#line 905 "src/libre/dialect/native/parser.c"
+#line 907 "src/libre/dialect/native/parser.c"
 					}
 					/* END OF EXTRACT: ESC */
 					ADVANCE_LEXER;
@@ -962,7 +964,7 @@ p_expr_C_Cliteral(flags flags, lex_state lex_state, act_state act_state, err err
 
 		ZIc = (char) (unsigned char) u;
 	
-#line 966 "src/libre/dialect/native/parser.c"
+#line 968 "src/libre/dialect/native/parser.c"
 					}
 					/* END OF EXTRACT: HEX */
 					ADVANCE_LEXER;
@@ -1018,7 +1020,7 @@ p_expr_C_Cliteral(flags flags, lex_state lex_state, act_state act_state, err err
 
 		ZIc = (char) (unsigned char) u;
 	
-#line 1022 "src/libre/dialect/native/parser.c"
+#line 1024 "src/libre/dialect/native/parser.c"
 					}
 					/* END OF EXTRACT: OCT */
 					ADVANCE_LEXER;
@@ -1031,14 +1033,15 @@ p_expr_C_Cliteral(flags flags, lex_state lex_state, act_state act_state, err err
 		/* END OF INLINE: 109 */
 		/* BEGINNING OF ACTION: ast-make-literal */
 		{
-#line 874 "src/libre/parser.act"
+#line 877 "src/libre/parser.act"
 
 		(ZInode) = ast_make_expr_literal(act_state->poolp, *flags, (ZIc));
 		if ((ZInode) == NULL) {
+			err->e = RE_EERRNO;
 			goto ZL1;
 		}
 	
-#line 1042 "src/libre/dialect/native/parser.c"
+#line 1045 "src/libre/dialect/native/parser.c"
 		}
 		/* END OF ACTION: ast-make-literal */
 	}
@@ -1077,7 +1080,7 @@ p_expr_C_Ccharacter_Hclass_C_Cclass_Hterm(flags flags, lex_state lex_state, act_
 
 		ZI259 = lex_state->buf.a[0];
 	
-#line 1081 "src/libre/dialect/native/parser.c"
+#line 1084 "src/libre/dialect/native/parser.c"
 			}
 			/* END OF EXTRACT: CHAR */
 			ADVANCE_LEXER;
@@ -1122,7 +1125,7 @@ p_expr_C_Ccharacter_Hclass_C_Cclass_Hterm(flags flags, lex_state lex_state, act_
 		(void) ZI248;
 		(void) ZI249;
 	
-#line 1126 "src/libre/dialect/native/parser.c"
+#line 1129 "src/libre/dialect/native/parser.c"
 			}
 			/* END OF EXTRACT: ESC */
 			ADVANCE_LEXER;
@@ -1189,7 +1192,7 @@ p_expr_C_Ccharacter_Hclass_C_Cclass_Hterm(flags flags, lex_state lex_state, act_
 
 		ZI255 = (char) (unsigned char) u;
 	
-#line 1193 "src/libre/dialect/native/parser.c"
+#line 1196 "src/libre/dialect/native/parser.c"
 			}
 			/* END OF EXTRACT: HEX */
 			ADVANCE_LEXER;
@@ -1222,7 +1225,7 @@ p_expr_C_Ccharacter_Hclass_C_Cclass_Hterm(flags flags, lex_state lex_state, act_
 		(void) ZI244;
 		(void) ZI245;
 	
-#line 1226 "src/libre/dialect/native/parser.c"
+#line 1229 "src/libre/dialect/native/parser.c"
 			}
 			/* END OF EXTRACT: NAMED_CLASS */
 			ADVANCE_LEXER;
@@ -1284,7 +1287,7 @@ p_expr_C_Ccharacter_Hclass_C_Cclass_Hterm(flags flags, lex_state lex_state, act_
 
 		ZI251 = (char) (unsigned char) u;
 	
-#line 1288 "src/libre/dialect/native/parser.c"
+#line 1291 "src/libre/dialect/native/parser.c"
 			}
 			/* END OF EXTRACT: OCT */
 			ADVANCE_LEXER;
@@ -1339,7 +1342,7 @@ p_expr_C_Ccharacter_Hclass_C_Crange_Hendpoint_C_Crange_Hendpoint_Hclass(flags fl
 		(void) ZIstart;
 		(void) ZIend;
 	
-#line 1343 "src/libre/dialect/native/parser.c"
+#line 1346 "src/libre/dialect/native/parser.c"
 			}
 			/* END OF EXTRACT: NAMED_CLASS */
 			break;
@@ -1354,7 +1357,7 @@ p_expr_C_Ccharacter_Hclass_C_Crange_Hendpoint_C_Crange_Hendpoint_Hclass(flags fl
 		(ZIr).type = AST_ENDPOINT_NAMED;
 		(ZIr).u.named.class = (ZIid);
 	
-#line 1358 "src/libre/dialect/native/parser.c"
+#line 1361 "src/libre/dialect/native/parser.c"
 		}
 		/* END OF ACTION: ast-range-endpoint-class */
 	}
@@ -1397,20 +1400,21 @@ p_expr_C_Ccharacter_Hclass(flags flags, lex_state lex_state, act_state act_state
 		(void) ZIstart;
 		(void) ZI167;
 	
-#line 1401 "src/libre/dialect/native/parser.c"
+#line 1404 "src/libre/dialect/native/parser.c"
 					}
 					/* END OF EXTRACT: OPENGROUP */
 					ADVANCE_LEXER;
 					/* BEGINNING OF ACTION: ast-make-alt */
 					{
-#line 867 "src/libre/parser.act"
+#line 869 "src/libre/parser.act"
 
 		(ZInode) = ast_make_expr_alt(act_state->poolp, *flags);
 		if ((ZInode) == NULL) {
+			err->e = RE_EERRNO;
 			goto ZL1;
 		}
 	
-#line 1414 "src/libre/dialect/native/parser.c"
+#line 1418 "src/libre/dialect/native/parser.c"
 					}
 					/* END OF ACTION: ast-make-alt */
 					ZItmp = ZInode;
@@ -1438,30 +1442,31 @@ p_expr_C_Ccharacter_Hclass(flags flags, lex_state lex_state, act_state act_state
 		(void) ZIstart;
 		(void) ZI186;
 	
-#line 1442 "src/libre/dialect/native/parser.c"
+#line 1446 "src/libre/dialect/native/parser.c"
 					}
 					/* END OF EXTRACT: OPENGROUPCB */
 					ADVANCE_LEXER;
 					/* BEGINNING OF ACTION: ast-make-alt */
 					{
-#line 867 "src/libre/parser.act"
+#line 869 "src/libre/parser.act"
 
 		(ZInode) = ast_make_expr_alt(act_state->poolp, *flags);
 		if ((ZInode) == NULL) {
+			err->e = RE_EERRNO;
 			goto ZL1;
 		}
 	
-#line 1455 "src/libre/dialect/native/parser.c"
+#line 1460 "src/libre/dialect/native/parser.c"
 					}
 					/* END OF ACTION: ast-make-alt */
 					ZItmp = ZInode;
 					/* BEGINNING OF ACTION: make-literal-cbrak */
 					{
-#line 885 "src/libre/parser.act"
+#line 889 "src/libre/parser.act"
 
 		(ZIcbrak) = ']';
 	
-#line 1465 "src/libre/dialect/native/parser.c"
+#line 1470 "src/libre/dialect/native/parser.c"
 					}
 					/* END OF ACTION: make-literal-cbrak */
 					p_195 (flags, lex_state, act_state, err, &ZIstart, &ZIcbrak, &ZInode1);
@@ -1471,13 +1476,14 @@ p_expr_C_Ccharacter_Hclass(flags flags, lex_state lex_state, act_state act_state
 					}
 					/* BEGINNING OF ACTION: ast-add-alt */
 					{
-#line 1046 "src/libre/parser.act"
+#line 1060 "src/libre/parser.act"
 
 		if (!ast_add_expr_alt((ZItmp), (ZInode1))) {
+			err->e = RE_EERRNO;
 			goto ZL1;
 		}
 	
-#line 1481 "src/libre/dialect/native/parser.c"
+#line 1487 "src/libre/dialect/native/parser.c"
 					}
 					/* END OF ACTION: ast-add-alt */
 					p_expr_C_Ccharacter_Hclass_C_Clist_Hof_Hclass_Hterms (flags, lex_state, act_state, err, ZItmp);
@@ -1501,26 +1507,27 @@ p_expr_C_Ccharacter_Hclass(flags flags, lex_state lex_state, act_state act_state
 		(void) ZIstart;
 		(void) ZI178;
 	
-#line 1505 "src/libre/dialect/native/parser.c"
+#line 1511 "src/libre/dialect/native/parser.c"
 					}
 					/* END OF EXTRACT: OPENGROUPINV */
 					ADVANCE_LEXER;
 					/* BEGINNING OF ACTION: ast-make-alt */
 					{
-#line 867 "src/libre/parser.act"
+#line 869 "src/libre/parser.act"
 
 		(ZInode) = ast_make_expr_alt(act_state->poolp, *flags);
 		if ((ZInode) == NULL) {
+			err->e = RE_EERRNO;
 			goto ZL1;
 		}
 	
-#line 1518 "src/libre/dialect/native/parser.c"
+#line 1525 "src/libre/dialect/native/parser.c"
 					}
 					/* END OF ACTION: ast-make-alt */
 					ZItmp = ZInode;
 					/* BEGINNING OF ACTION: ast-make-invert */
 					{
-#line 966 "src/libre/parser.act"
+#line 975 "src/libre/parser.act"
 
 		struct ast_expr *any;
 
@@ -1550,15 +1557,17 @@ p_expr_C_Ccharacter_Hclass(flags flags, lex_state lex_state, act_state act_state
 
 		any = ast_make_expr_named(act_state->poolp, *flags, &class_any);
 		if (any == NULL) {
+			err->e = RE_EERRNO;
 			goto ZL1;
 		}
 
 		(ZInode) = ast_make_expr_subtract(act_state->poolp, *flags, any, (ZInode));
 		if ((ZInode) == NULL) {
+			err->e = RE_EERRNO;
 			goto ZL1;
 		}
 	
-#line 1562 "src/libre/dialect/native/parser.c"
+#line 1571 "src/libre/dialect/native/parser.c"
 					}
 					/* END OF ACTION: ast-make-invert */
 					p_180 (flags, lex_state, act_state, err, &ZItmp);
@@ -1585,26 +1594,27 @@ p_expr_C_Ccharacter_Hclass(flags flags, lex_state lex_state, act_state act_state
 		(void) ZIstart;
 		(void) ZI193;
 	
-#line 1589 "src/libre/dialect/native/parser.c"
+#line 1598 "src/libre/dialect/native/parser.c"
 					}
 					/* END OF EXTRACT: OPENGROUPINVCB */
 					ADVANCE_LEXER;
 					/* BEGINNING OF ACTION: ast-make-alt */
 					{
-#line 867 "src/libre/parser.act"
+#line 869 "src/libre/parser.act"
 
 		(ZInode) = ast_make_expr_alt(act_state->poolp, *flags);
 		if ((ZInode) == NULL) {
+			err->e = RE_EERRNO;
 			goto ZL1;
 		}
 	
-#line 1602 "src/libre/dialect/native/parser.c"
+#line 1612 "src/libre/dialect/native/parser.c"
 					}
 					/* END OF ACTION: ast-make-alt */
 					ZItmp = ZInode;
 					/* BEGINNING OF ACTION: ast-make-invert */
 					{
-#line 966 "src/libre/parser.act"
+#line 975 "src/libre/parser.act"
 
 		struct ast_expr *any;
 
@@ -1634,24 +1644,26 @@ p_expr_C_Ccharacter_Hclass(flags flags, lex_state lex_state, act_state act_state
 
 		any = ast_make_expr_named(act_state->poolp, *flags, &class_any);
 		if (any == NULL) {
+			err->e = RE_EERRNO;
 			goto ZL1;
 		}
 
 		(ZInode) = ast_make_expr_subtract(act_state->poolp, *flags, any, (ZInode));
 		if ((ZInode) == NULL) {
+			err->e = RE_EERRNO;
 			goto ZL1;
 		}
 	
-#line 1646 "src/libre/dialect/native/parser.c"
+#line 1658 "src/libre/dialect/native/parser.c"
 					}
 					/* END OF ACTION: ast-make-invert */
 					/* BEGINNING OF ACTION: make-literal-cbrak */
 					{
-#line 885 "src/libre/parser.act"
+#line 889 "src/libre/parser.act"
 
 		(ZIcbrak) = ']';
 	
-#line 1655 "src/libre/dialect/native/parser.c"
+#line 1667 "src/libre/dialect/native/parser.c"
 					}
 					/* END OF ACTION: make-literal-cbrak */
 					p_195 (flags, lex_state, act_state, err, &ZIstart, &ZIcbrak, &ZInode1);
@@ -1661,13 +1673,14 @@ p_expr_C_Ccharacter_Hclass(flags flags, lex_state lex_state, act_state act_state
 					}
 					/* BEGINNING OF ACTION: ast-add-alt */
 					{
-#line 1046 "src/libre/parser.act"
+#line 1060 "src/libre/parser.act"
 
 		if (!ast_add_expr_alt((ZItmp), (ZInode1))) {
+			err->e = RE_EERRNO;
 			goto ZL1;
 		}
 	
-#line 1671 "src/libre/dialect/native/parser.c"
+#line 1684 "src/libre/dialect/native/parser.c"
 					}
 					/* END OF ACTION: ast-add-alt */
 					p_expr_C_Ccharacter_Hclass_C_Clist_Hof_Hclass_Hterms (flags, lex_state, act_state, err, ZItmp);
@@ -1703,7 +1716,7 @@ p_expr_C_Ccharacter_Hclass(flags flags, lex_state lex_state, act_state act_state
 		(void) ZI201;
 		(void) ZIend;
 	
-#line 1707 "src/libre/dialect/native/parser.c"
+#line 1720 "src/libre/dialect/native/parser.c"
 					}
 					/* END OF EXTRACT: CLOSEGROUP */
 					ADVANCE_LEXER;
@@ -1714,7 +1727,7 @@ p_expr_C_Ccharacter_Hclass(flags flags, lex_state lex_state, act_state act_state
 		mark(&act_state->groupstart, &(ZIstart));
 		mark(&act_state->groupend,   &(ZIend));
 	
-#line 1718 "src/libre/dialect/native/parser.c"
+#line 1731 "src/libre/dialect/native/parser.c"
 					}
 					/* END OF ACTION: mark-group */
 				}
@@ -1738,31 +1751,33 @@ p_expr_C_Ccharacter_Hclass(flags flags, lex_state lex_state, act_state act_state
 		(void) ZI203;
 		(void) ZIend;
 	
-#line 1742 "src/libre/dialect/native/parser.c"
+#line 1755 "src/libre/dialect/native/parser.c"
 					}
 					/* END OF EXTRACT: CLOSEGROUPRANGE */
 					ADVANCE_LEXER;
 					/* BEGINNING OF ACTION: ast-make-literal */
 					{
-#line 874 "src/libre/parser.act"
+#line 877 "src/libre/parser.act"
 
 		(ZIrange) = ast_make_expr_literal(act_state->poolp, *flags, (ZIcrange));
 		if ((ZIrange) == NULL) {
+			err->e = RE_EERRNO;
 			goto ZL4;
 		}
 	
-#line 1755 "src/libre/dialect/native/parser.c"
+#line 1769 "src/libre/dialect/native/parser.c"
 					}
 					/* END OF ACTION: ast-make-literal */
 					/* BEGINNING OF ACTION: ast-add-alt */
 					{
-#line 1046 "src/libre/parser.act"
+#line 1060 "src/libre/parser.act"
 
 		if (!ast_add_expr_alt((ZItmp), (ZIrange))) {
+			err->e = RE_EERRNO;
 			goto ZL4;
 		}
 	
-#line 1766 "src/libre/dialect/native/parser.c"
+#line 1781 "src/libre/dialect/native/parser.c"
 					}
 					/* END OF ACTION: ast-add-alt */
 					/* BEGINNING OF ACTION: mark-group */
@@ -1772,7 +1787,7 @@ p_expr_C_Ccharacter_Hclass(flags flags, lex_state lex_state, act_state act_state
 		mark(&act_state->groupstart, &(ZIstart));
 		mark(&act_state->groupend,   &(ZIend));
 	
-#line 1776 "src/libre/dialect/native/parser.c"
+#line 1791 "src/libre/dialect/native/parser.c"
 					}
 					/* END OF ACTION: mark-group */
 				}
@@ -1792,7 +1807,7 @@ p_expr_C_Ccharacter_Hclass(flags flags, lex_state lex_state, act_state act_state
 		}
 		goto ZL1;
 	
-#line 1796 "src/libre/dialect/native/parser.c"
+#line 1811 "src/libre/dialect/native/parser.c"
 				}
 				/* END OF ACTION: err-expected-closegroup */
 			}
@@ -1831,7 +1846,7 @@ p_180(flags flags, lex_state lex_state, act_state act_state, err err, t_ast__exp
 		(void) ZIrstart;
 		(void) ZI181;
 	
-#line 1835 "src/libre/dialect/native/parser.c"
+#line 1850 "src/libre/dialect/native/parser.c"
 			}
 			/* END OF EXTRACT: RANGE */
 			ADVANCE_LEXER;
@@ -1842,14 +1857,15 @@ p_180(flags flags, lex_state lex_state, act_state act_state, err err, t_ast__exp
 					{
 						/* BEGINNING OF ACTION: ast-make-literal */
 						{
-#line 874 "src/libre/parser.act"
+#line 877 "src/libre/parser.act"
 
 		(ZInode1) = ast_make_expr_literal(act_state->poolp, *flags, (ZIc));
 		if ((ZInode1) == NULL) {
+			err->e = RE_EERRNO;
 			goto ZL1;
 		}
 	
-#line 1853 "src/libre/dialect/native/parser.c"
+#line 1869 "src/libre/dialect/native/parser.c"
 						}
 						/* END OF ACTION: ast-make-literal */
 					}
@@ -1870,7 +1886,7 @@ p_180(flags flags, lex_state lex_state, act_state act_state, err err, t_ast__exp
 		(ZIlower).type = AST_ENDPOINT_LITERAL;
 		(ZIlower).u.literal.c = (unsigned char) (ZIc);
 	
-#line 1874 "src/libre/dialect/native/parser.c"
+#line 1890 "src/libre/dialect/native/parser.c"
 						}
 						/* END OF ACTION: ast-range-endpoint-literal */
 						/* BEGINNING OF EXTRACT: RANGE */
@@ -1885,7 +1901,7 @@ p_180(flags flags, lex_state lex_state, act_state act_state, err err, t_ast__exp
 		(void) ZI184;
 		(void) ZI185;
 	
-#line 1889 "src/libre/dialect/native/parser.c"
+#line 1905 "src/libre/dialect/native/parser.c"
 						}
 						/* END OF EXTRACT: RANGE */
 						ADVANCE_LEXER;
@@ -1896,7 +1912,7 @@ p_180(flags flags, lex_state lex_state, act_state act_state, err err, t_ast__exp
 						}
 						/* BEGINNING OF ACTION: ast-make-range */
 						{
-#line 1004 "src/libre/parser.act"
+#line 1015 "src/libre/parser.act"
 
 		unsigned char lower, upper;
 
@@ -1922,10 +1938,11 @@ p_180(flags flags, lex_state lex_state, act_state act_state, err err, t_ast__exp
 
 		(ZInode1) = ast_make_expr_range(act_state->poolp, *flags, &(ZIlower), &(ZIupper));
 		if ((ZInode1) == NULL) {
+			err->e = RE_EERRNO;
 			goto ZL1;
 		}
 	
-#line 1929 "src/libre/dialect/native/parser.c"
+#line 1946 "src/libre/dialect/native/parser.c"
 						}
 						/* END OF ACTION: ast-make-range */
 					}
@@ -1935,13 +1952,14 @@ p_180(flags flags, lex_state lex_state, act_state act_state, err err, t_ast__exp
 			/* END OF INLINE: 182 */
 			/* BEGINNING OF ACTION: ast-add-alt */
 			{
-#line 1046 "src/libre/parser.act"
+#line 1060 "src/libre/parser.act"
 
 		if (!ast_add_expr_alt((*ZItmp), (ZInode1))) {
+			err->e = RE_EERRNO;
 			goto ZL1;
 		}
 	
-#line 1945 "src/libre/dialect/native/parser.c"
+#line 1963 "src/libre/dialect/native/parser.c"
 			}
 			/* END OF ACTION: ast-add-alt */
 		}
@@ -1987,7 +2005,7 @@ p_expr_C_Ccharacter_Hclass_C_Crange_Hendpoint_Hend(flags flags, lex_state lex_st
 		(void) ZI149;
 		(void) ZIend;
 	
-#line 1991 "src/libre/dialect/native/parser.c"
+#line 2009 "src/libre/dialect/native/parser.c"
 					}
 					/* END OF EXTRACT: RANGE */
 					ADVANCE_LEXER;
@@ -1998,7 +2016,7 @@ p_expr_C_Ccharacter_Hclass_C_Crange_Hendpoint_Hend(flags flags, lex_state lex_st
 		(ZIr).type = AST_ENDPOINT_LITERAL;
 		(ZIr).u.literal.c = (unsigned char) (ZIc);
 	
-#line 2002 "src/libre/dialect/native/parser.c"
+#line 2020 "src/libre/dialect/native/parser.c"
 					}
 					/* END OF ACTION: ast-range-endpoint-literal */
 				}
@@ -2050,7 +2068,7 @@ p_expr_C_Cpiece(flags flags, lex_state lex_state, act_state act_state, err err,
 		}
 		/* BEGINNING OF ACTION: ast-make-piece */
 		{
-#line 897 "src/libre/parser.act"
+#line 901 "src/libre/parser.act"
 
 		if ((ZIc).min == 0 && (ZIc).max == 0) {
 			(ZInode) = ast_make_expr_empty(act_state->poolp, *flags);
@@ -2060,11 +2078,11 @@ p_expr_C_Cpiece(flags flags, lex_state lex_state, act_state act_state, err err,
 			(ZInode) = ast_make_expr_repeat(act_state->poolp, *flags, (ZIe), (ZIc));
 		}
 		if ((ZInode) == NULL) {
-			err->e = RE_EXEOF;
+			err->e = RE_EERRNO;
 			goto ZL1;
 		}
 	
-#line 2068 "src/libre/dialect/native/parser.c"
+#line 2086 "src/libre/dialect/native/parser.c"
 		}
 		/* END OF ACTION: ast-make-piece */
 	}
@@ -2088,14 +2106,15 @@ p_expr(flags flags, lex_state lex_state, act_state act_state, err err, t_ast__ex
 		{
 			/* BEGINNING OF ACTION: ast-make-alt */
 			{
-#line 867 "src/libre/parser.act"
+#line 869 "src/libre/parser.act"
 
 		(ZInode) = ast_make_expr_alt(act_state->poolp, *flags);
 		if ((ZInode) == NULL) {
+			err->e = RE_EERRNO;
 			goto ZL1;
 		}
 	
-#line 2099 "src/libre/dialect/native/parser.c"
+#line 2118 "src/libre/dialect/native/parser.c"
 			}
 			/* END OF ACTION: ast-make-alt */
 			p_expr_C_Clist_Hof_Halts (flags, lex_state, act_state, err, ZInode);
@@ -2113,10 +2132,11 @@ p_expr(flags flags, lex_state lex_state, act_state act_state, err err, t_ast__ex
 
 		(ZInode) = ast_make_expr_empty(act_state->poolp, *flags);
 		if ((ZInode) == NULL) {
+			err->e = RE_EERRNO;
 			goto ZL1;
 		}
 	
-#line 2120 "src/libre/dialect/native/parser.c"
+#line 2140 "src/libre/dialect/native/parser.c"
 			}
 			/* END OF ACTION: ast-make-empty */
 		}
@@ -2136,7 +2156,7 @@ ZL1:;
 		}
 		goto ZL2;
 	
-#line 2140 "src/libre/dialect/native/parser.c"
+#line 2160 "src/libre/dialect/native/parser.c"
 		}
 		/* END OF ACTION: err-expected-alts */
 		/* BEGINNING OF ACTION: ast-make-empty */
@@ -2145,10 +2165,11 @@ ZL1:;
 
 		(ZInode) = ast_make_expr_empty(act_state->poolp, *flags);
 		if ((ZInode) == NULL) {
+			err->e = RE_EERRNO;
 			goto ZL2;
 		}
 	
-#line 2152 "src/libre/dialect/native/parser.c"
+#line 2173 "src/libre/dialect/native/parser.c"
 		}
 		/* END OF ACTION: ast-make-empty */
 	}
@@ -2170,14 +2191,15 @@ p_195(flags flags, lex_state lex_state, act_state act_state, err err, t_pos *ZIs
 		{
 			/* BEGINNING OF ACTION: ast-make-literal */
 			{
-#line 874 "src/libre/parser.act"
+#line 877 "src/libre/parser.act"
 
 		(ZInode1) = ast_make_expr_literal(act_state->poolp, *flags, (*ZIcbrak));
 		if ((ZInode1) == NULL) {
+			err->e = RE_EERRNO;
 			goto ZL1;
 		}
 	
-#line 2181 "src/libre/dialect/native/parser.c"
+#line 2203 "src/libre/dialect/native/parser.c"
 			}
 			/* END OF ACTION: ast-make-literal */
 		}
@@ -2199,7 +2221,7 @@ p_195(flags flags, lex_state lex_state, act_state act_state, err err, t_pos *ZIs
 		(ZIr).type = AST_ENDPOINT_LITERAL;
 		(ZIr).u.literal.c = (unsigned char) (*ZIcbrak);
 	
-#line 2203 "src/libre/dialect/native/parser.c"
+#line 2225 "src/libre/dialect/native/parser.c"
 			}
 			/* END OF ACTION: ast-range-endpoint-literal */
 			/* BEGINNING OF EXTRACT: RANGE */
@@ -2214,7 +2236,7 @@ p_195(flags flags, lex_state lex_state, act_state act_state, err err, t_pos *ZIs
 		(void) ZI197;
 		(void) ZI198;
 	
-#line 2218 "src/libre/dialect/native/parser.c"
+#line 2240 "src/libre/dialect/native/parser.c"
 			}
 			/* END OF EXTRACT: RANGE */
 			ADVANCE_LEXER;
@@ -2230,12 +2252,12 @@ p_195(flags flags, lex_state lex_state, act_state act_state, err err, t_pos *ZIs
 		(ZIlower).type = AST_ENDPOINT_LITERAL;
 		(ZIlower).u.literal.c = (unsigned char) (*ZIcbrak);
 	
-#line 2234 "src/libre/dialect/native/parser.c"
+#line 2256 "src/libre/dialect/native/parser.c"
 			}
 			/* END OF ACTION: ast-range-endpoint-literal */
 			/* BEGINNING OF ACTION: ast-make-range */
 			{
-#line 1004 "src/libre/parser.act"
+#line 1015 "src/libre/parser.act"
 
 		unsigned char lower, upper;
 
@@ -2261,10 +2283,11 @@ p_195(flags flags, lex_state lex_state, act_state act_state, err err, t_pos *ZIs
 
 		(ZInode1) = ast_make_expr_range(act_state->poolp, *flags, &(ZIlower), &(ZIupper));
 		if ((ZInode1) == NULL) {
+			err->e = RE_EERRNO;
 			goto ZL1;
 		}
 	
-#line 2268 "src/libre/dialect/native/parser.c"
+#line 2291 "src/libre/dialect/native/parser.c"
 			}
 			/* END OF ACTION: ast-make-range */
 		}
@@ -2294,11 +2317,11 @@ p_re__native(flags flags, lex_state lex_state, act_state act_state, err err, t_a
 
 		/* BEGINNING OF ACTION: make-group-id */
 		{
-#line 881 "src/libre/parser.act"
+#line 885 "src/libre/parser.act"
 
 		(ZIid) = act_state->group_id++;
 	
-#line 2302 "src/libre/dialect/native/parser.c"
+#line 2325 "src/libre/dialect/native/parser.c"
 		}
 		/* END OF ACTION: make-group-id */
 		p_expr (flags, lex_state, act_state, err, &ZIe);
@@ -2308,14 +2331,15 @@ p_re__native(flags flags, lex_state lex_state, act_state act_state, err err, t_a
 		}
 		/* BEGINNING OF ACTION: ast-make-group */
 		{
-#line 911 "src/libre/parser.act"
+#line 915 "src/libre/parser.act"
 
 		(ZInode) = ast_make_expr_group(act_state->poolp, *flags, (ZIe), (ZIid));
 		if ((ZInode) == NULL) {
+			err->e = RE_EERRNO;
 			goto ZL1;
 		}
 	
-#line 2319 "src/libre/dialect/native/parser.c"
+#line 2343 "src/libre/dialect/native/parser.c"
 		}
 		/* END OF ACTION: ast-make-group */
 		/* BEGINNING OF INLINE: 231 */
@@ -2341,7 +2365,7 @@ p_re__native(flags flags, lex_state lex_state, act_state act_state, err err, t_a
 		}
 		goto ZL1;
 	
-#line 2345 "src/libre/dialect/native/parser.c"
+#line 2369 "src/libre/dialect/native/parser.c"
 				}
 				/* END OF ACTION: err-expected-eof */
 			}
@@ -2422,13 +2446,14 @@ ZL2_expr_C_Clist_Hof_Halts:;
 		}
 		/* BEGINNING OF ACTION: ast-add-alt */
 		{
-#line 1046 "src/libre/parser.act"
+#line 1060 "src/libre/parser.act"
 
 		if (!ast_add_expr_alt((ZIalts), (ZIa))) {
+			err->e = RE_EERRNO;
 			goto ZL1;
 		}
 	
-#line 2432 "src/libre/dialect/native/parser.c"
+#line 2457 "src/libre/dialect/native/parser.c"
 		}
 		/* END OF ACTION: ast-add-alt */
 		/* BEGINNING OF INLINE: 229 */
@@ -2460,7 +2485,7 @@ ZL1:;
 		}
 		goto ZL4;
 	
-#line 2464 "src/libre/dialect/native/parser.c"
+#line 2489 "src/libre/dialect/native/parser.c"
 		}
 		/* END OF ACTION: err-expected-alts */
 	}
@@ -2493,7 +2518,7 @@ p_expr_C_Cpiece_C_Ccount(flags flags, lex_state lex_state, act_state act_state,
 		(void) ZI263;
 		(void) ZI264;
 	
-#line 2497 "src/libre/dialect/native/parser.c"
+#line 2522 "src/libre/dialect/native/parser.c"
 			}
 			/* END OF EXTRACT: OPENCOUNT */
 			ADVANCE_LEXER;
@@ -2521,7 +2546,7 @@ p_expr_C_Cpiece_C_Ccount(flags flags, lex_state lex_state, act_state act_state,
 
 		ZIm = (unsigned int) u;
 	
-#line 2525 "src/libre/dialect/native/parser.c"
+#line 2550 "src/libre/dialect/native/parser.c"
 				}
 				/* END OF EXTRACT: COUNT */
 				break;
@@ -2545,7 +2570,7 @@ p_expr_C_Cpiece_C_Ccount(flags flags, lex_state lex_state, act_state act_state,
 
 		(ZIc) = ast_make_count(0, 1);
 	
-#line 2549 "src/libre/dialect/native/parser.c"
+#line 2574 "src/libre/dialect/native/parser.c"
 			}
 			/* END OF ACTION: count-zero-or-one */
 		}
@@ -2559,7 +2584,7 @@ p_expr_C_Cpiece_C_Ccount(flags flags, lex_state lex_state, act_state act_state,
 
 		(ZIc) = ast_make_count(1, AST_COUNT_UNBOUNDED);
 	
-#line 2563 "src/libre/dialect/native/parser.c"
+#line 2588 "src/libre/dialect/native/parser.c"
 			}
 			/* END OF ACTION: count-one-or-more */
 		}
@@ -2573,7 +2598,7 @@ p_expr_C_Cpiece_C_Ccount(flags flags, lex_state lex_state, act_state act_state,
 
 		(ZIc) = ast_make_count(0, AST_COUNT_UNBOUNDED);
 	
-#line 2577 "src/libre/dialect/native/parser.c"
+#line 2602 "src/libre/dialect/native/parser.c"
 			}
 			/* END OF ACTION: count-zero-or-more */
 		}
@@ -2586,7 +2611,7 @@ p_expr_C_Cpiece_C_Ccount(flags flags, lex_state lex_state, act_state act_state,
 
 		(ZIc) = ast_make_count(1, 1);
 	
-#line 2590 "src/libre/dialect/native/parser.c"
+#line 2615 "src/libre/dialect/native/parser.c"
 			}
 			/* END OF ACTION: count-one */
 		}
@@ -2606,7 +2631,7 @@ ZL1:;
 		}
 		goto ZL2;
 	
-#line 2610 "src/libre/dialect/native/parser.c"
+#line 2635 "src/libre/dialect/native/parser.c"
 		}
 		/* END OF ACTION: err-expected-count */
 		/* BEGINNING OF ACTION: count-one */
@@ -2615,7 +2640,7 @@ ZL1:;
 
 		(ZIc) = ast_make_count(1, 1);
 	
-#line 2619 "src/libre/dialect/native/parser.c"
+#line 2644 "src/libre/dialect/native/parser.c"
 		}
 		/* END OF ACTION: count-one */
 	}
@@ -2645,19 +2670,20 @@ p_expr_C_Cpiece_C_Catom(flags flags, lex_state lex_state, act_state act_state, e
 		/* TODO: or the unicode equivalent */
 		(ZIa) = (*flags & RE_SINGLE) ? &class_any : &class_notnl;
 	
-#line 2649 "src/libre/dialect/native/parser.c"
+#line 2674 "src/libre/dialect/native/parser.c"
 			}
 			/* END OF ACTION: class-any */
 			/* BEGINNING OF ACTION: ast-make-named */
 			{
-#line 1033 "src/libre/parser.act"
+#line 1045 "src/libre/parser.act"
 
 		(ZIe) = ast_make_expr_named(act_state->poolp, *flags, (ZIa));
 		if ((ZIe) == NULL) {
+			err->e = RE_EERRNO;
 			goto ZL1;
 		}
 	
-#line 2661 "src/libre/dialect/native/parser.c"
+#line 2687 "src/libre/dialect/native/parser.c"
 			}
 			/* END OF ACTION: ast-make-named */
 		}
@@ -2667,14 +2693,15 @@ p_expr_C_Cpiece_C_Catom(flags flags, lex_state lex_state, act_state act_state, e
 			ADVANCE_LEXER;
 			/* BEGINNING OF ACTION: ast-make-anchor-end */
 			{
-#line 942 "src/libre/parser.act"
+#line 948 "src/libre/parser.act"
 
 		(ZIe) = ast_make_expr_anchor(act_state->poolp, *flags, AST_ANCHOR_END);
 		if ((ZIe) == NULL) {
+			err->e = RE_EERRNO;
 			goto ZL1;
 		}
 	
-#line 2678 "src/libre/dialect/native/parser.c"
+#line 2705 "src/libre/dialect/native/parser.c"
 			}
 			/* END OF ACTION: ast-make-anchor-end */
 		}
@@ -2687,11 +2714,11 @@ p_expr_C_Cpiece_C_Catom(flags flags, lex_state lex_state, act_state act_state, e
 			ADVANCE_LEXER;
 			/* BEGINNING OF ACTION: make-group-id */
 			{
-#line 881 "src/libre/parser.act"
+#line 885 "src/libre/parser.act"
 
 		(ZIid) = act_state->group_id++;
 	
-#line 2695 "src/libre/dialect/native/parser.c"
+#line 2722 "src/libre/dialect/native/parser.c"
 			}
 			/* END OF ACTION: make-group-id */
 			p_expr (flags, lex_state, act_state, err, &ZIg);
@@ -2701,14 +2728,15 @@ p_expr_C_Cpiece_C_Catom(flags flags, lex_state lex_state, act_state act_state, e
 			}
 			/* BEGINNING OF ACTION: ast-make-group */
 			{
-#line 911 "src/libre/parser.act"
+#line 915 "src/libre/parser.act"
 
 		(ZIe) = ast_make_expr_group(act_state->poolp, *flags, (ZIg), (ZIid));
 		if ((ZIe) == NULL) {
+			err->e = RE_EERRNO;
 			goto ZL1;
 		}
 	
-#line 2712 "src/libre/dialect/native/parser.c"
+#line 2740 "src/libre/dialect/native/parser.c"
 			}
 			/* END OF ACTION: ast-make-group */
 			switch (CURRENT_TERMINAL) {
@@ -2725,14 +2753,15 @@ p_expr_C_Cpiece_C_Catom(flags flags, lex_state lex_state, act_state act_state, e
 			ADVANCE_LEXER;
 			/* BEGINNING OF ACTION: ast-make-anchor-start */
 			{
-#line 935 "src/libre/parser.act"
+#line 940 "src/libre/parser.act"
 
 		(ZIe) = ast_make_expr_anchor(act_state->poolp, *flags, AST_ANCHOR_START);
 		if ((ZIe) == NULL) {
+			err->e = RE_EERRNO;
 			goto ZL1;
 		}
 	
-#line 2736 "src/libre/dialect/native/parser.c"
+#line 2765 "src/libre/dialect/native/parser.c"
 			}
 			/* END OF ACTION: ast-make-anchor-start */
 		}
@@ -2772,7 +2801,7 @@ ZL1:;
 		}
 		goto ZL2;
 	
-#line 2776 "src/libre/dialect/native/parser.c"
+#line 2805 "src/libre/dialect/native/parser.c"
 		}
 		/* END OF ACTION: err-expected-atom */
 		/* BEGINNING OF ACTION: ast-make-empty */
@@ -2781,10 +2810,11 @@ ZL1:;
 
 		(ZIe) = ast_make_expr_empty(act_state->poolp, *flags);
 		if ((ZIe) == NULL) {
+			err->e = RE_EERRNO;
 			goto ZL2;
 		}
 	
-#line 2788 "src/libre/dialect/native/parser.c"
+#line 2818 "src/libre/dialect/native/parser.c"
 		}
 		/* END OF ACTION: ast-make-empty */
 	}
@@ -2806,14 +2836,15 @@ p_246(flags flags, lex_state lex_state, act_state act_state, err err, t_ast__cla
 		{
 			/* BEGINNING OF ACTION: ast-make-named */
 			{
-#line 1033 "src/libre/parser.act"
+#line 1045 "src/libre/parser.act"
 
 		(ZInode) = ast_make_expr_named(act_state->poolp, *flags, (*ZI243));
 		if ((ZInode) == NULL) {
+			err->e = RE_EERRNO;
 			goto ZL1;
 		}
 	
-#line 2817 "src/libre/dialect/native/parser.c"
+#line 2848 "src/libre/dialect/native/parser.c"
 			}
 			/* END OF ACTION: ast-make-named */
 		}
@@ -2831,7 +2862,7 @@ p_246(flags flags, lex_state lex_state, act_state act_state, err err, t_ast__cla
 		(ZIlower).type = AST_ENDPOINT_NAMED;
 		(ZIlower).u.named.class = (*ZI243);
 	
-#line 2835 "src/libre/dialect/native/parser.c"
+#line 2866 "src/libre/dialect/native/parser.c"
 			}
 			/* END OF ACTION: ast-range-endpoint-class */
 			p_154 (flags, lex_state, act_state, err);
@@ -2847,12 +2878,12 @@ p_246(flags flags, lex_state lex_state, act_state act_state, err err, t_ast__cla
 		mark(&act_state->rangestart, &(*ZI244));
 		mark(&act_state->rangeend,   &(ZIend));
 	
-#line 2851 "src/libre/dialect/native/parser.c"
+#line 2882 "src/libre/dialect/native/parser.c"
 			}
 			/* END OF ACTION: mark-range */
 			/* BEGINNING OF ACTION: ast-make-range */
 			{
-#line 1004 "src/libre/parser.act"
+#line 1015 "src/libre/parser.act"
 
 		unsigned char lower, upper;
 
@@ -2878,10 +2909,11 @@ p_246(flags flags, lex_state lex_state, act_state act_state, err err, t_ast__cla
 
 		(ZInode) = ast_make_expr_range(act_state->poolp, *flags, &(ZIlower), &(ZIupper));
 		if ((ZInode) == NULL) {
+			err->e = RE_EERRNO;
 			goto ZL1;
 		}
 	
-#line 2885 "src/libre/dialect/native/parser.c"
+#line 2917 "src/libre/dialect/native/parser.c"
 			}
 			/* END OF ACTION: ast-make-range */
 		}
@@ -2908,14 +2940,15 @@ p_expr_C_Calt(flags flags, lex_state lex_state, act_state act_state, err err, t_
 	{
 		/* BEGINNING OF ACTION: ast-make-concat */
 		{
-#line 860 "src/libre/parser.act"
+#line 861 "src/libre/parser.act"
 
 		(ZInode) = ast_make_expr_concat(act_state->poolp, *flags);
 		if ((ZInode) == NULL) {
+			err->e = RE_EERRNO;
 			goto ZL1;
 		}
 	
-#line 2919 "src/libre/dialect/native/parser.c"
+#line 2952 "src/libre/dialect/native/parser.c"
 		}
 		/* END OF ACTION: ast-make-concat */
 		p_expr_C_Clist_Hof_Hpieces (flags, lex_state, act_state, err, ZInode);
@@ -2942,14 +2975,15 @@ p_250(flags flags, lex_state lex_state, act_state act_state, err err, t_char *ZI
 		{
 			/* BEGINNING OF ACTION: ast-make-literal */
 			{
-#line 874 "src/libre/parser.act"
+#line 877 "src/libre/parser.act"
 
 		(ZInode) = ast_make_expr_literal(act_state->poolp, *flags, (*ZI247));
 		if ((ZInode) == NULL) {
+			err->e = RE_EERRNO;
 			goto ZL1;
 		}
 	
-#line 2953 "src/libre/dialect/native/parser.c"
+#line 2987 "src/libre/dialect/native/parser.c"
 			}
 			/* END OF ACTION: ast-make-literal */
 		}
@@ -2967,7 +3001,7 @@ p_250(flags flags, lex_state lex_state, act_state act_state, err err, t_char *ZI
 		(ZIlower).type = AST_ENDPOINT_LITERAL;
 		(ZIlower).u.literal.c = (unsigned char) (*ZI247);
 	
-#line 2971 "src/libre/dialect/native/parser.c"
+#line 3005 "src/libre/dialect/native/parser.c"
 			}
 			/* END OF ACTION: ast-range-endpoint-literal */
 			p_154 (flags, lex_state, act_state, err);
@@ -2983,12 +3017,12 @@ p_250(flags flags, lex_state lex_state, act_state act_state, err err, t_char *ZI
 		mark(&act_state->rangestart, &(*ZI248));
 		mark(&act_state->rangeend,   &(ZIend));
 	
-#line 2987 "src/libre/dialect/native/parser.c"
+#line 3021 "src/libre/dialect/native/parser.c"
 			}
 			/* END OF ACTION: mark-range */
 			/* BEGINNING OF ACTION: ast-make-range */
 			{
-#line 1004 "src/libre/parser.act"
+#line 1015 "src/libre/parser.act"
 
 		unsigned char lower, upper;
 
@@ -3014,10 +3048,11 @@ p_250(flags flags, lex_state lex_state, act_state act_state, err err, t_char *ZI
 
 		(ZInode) = ast_make_expr_range(act_state->poolp, *flags, &(ZIlower), &(ZIupper));
 		if ((ZInode) == NULL) {
+			err->e = RE_EERRNO;
 			goto ZL1;
 		}
 	
-#line 3021 "src/libre/dialect/native/parser.c"
+#line 3056 "src/libre/dialect/native/parser.c"
 			}
 			/* END OF ACTION: ast-make-range */
 		}
@@ -3035,7 +3070,7 @@ ZL0:;
 
 /* BEGINNING OF TRAILER */
 
-#line 1052 "src/libre/parser.act"
+#line 1067 "src/libre/parser.act"
 
 
 	static int
@@ -3132,6 +3167,11 @@ ZL0:;
 
 		lx->free(lx->buf_opaque);
 
+		if (lx->push_failed) {
+			/* a token couldn't be stored; that isn't about syntax */
+			err->e = RE_EERRNO;
+		}
+
 		if (err->e != RE_ESUCCESS) {
 			/* TODO: free internals allocated during parsing (are there any?) */
 			goto error;
@@ -3195,6 +3235,6 @@ ZL0:;
 		return NULL;
 	}
 
-#line 3199 "src/libre/dialect/native/parser.c"
+#line 3239 "src/libre/dialect/native/parser.c"
 
 /* END OF FILE */
diff --git a/src/libre/dialect/pcre/lexer.c b/src/libre/dialect/pcre/lexer.c
index 47910aa..5b0aafc 100644
--- a/src/libre/dialect/pcre/lexer.c
+++ b/src/libre/dialect/pcre/lexer.c
@@ -3465,6 +3465,7 @@ lx_pcre_next(struct lx_pcre_lx *lx)
 
 	if (lx->push != NULL) {
 		if (-1 == lx->push(lx->buf_opaque, '\0')) {
+			lx->push_failed = 1;
 			return TOK_ERROR;
 		}
 	}
diff --git a/src/libre/dialect/pcre/parser.c b/src/libre/dialect/pcre/parser.c
index e039da5..3f15446 100644
--- a/src/libre/dialect/pcre/parser.c
+++ b/src/libre/dialect/pcre/parser.c
@@ -762,13 +762,14 @@ ZL2_expr_C_Ccharacter_Hclass_C_Clist_Hof_Hclass_Hterms:;
 			}
 			/* BEGINNING OF ACTION: ast-add-alt */
 			{
-#line 1046 "src/libre/parser.act"
+#line 1060 "src/libre/parser.act"
 
 		if (!ast_add_expr_alt((ZIclass), (ZInode))) {
+			err->e = RE_EERRNO;
 			goto ZL1;
 		}
 	
-#line 772 "src/libre/dialect/pcre/parser.c"
+#line 773 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF ACTION: ast-add-alt */
 			/* BEGINNING OF INLINE: expr::character-class::list-of-class-terms */
@@ -822,13 +823,14 @@ ZL2_expr_C_Clist_Hof_Hpieces:;
 					}
 					/* BEGINNING OF ACTION: ast-add-concat */
 					{
-#line 1040 "src/libre/parser.act"
+#line 1053 "src/libre/parser.act"
 
 		if (!ast_add_expr_concat((ZIcat), (ZIa))) {
+			err->e = RE_EERRNO;
 			goto ZL1;
 		}
 	
-#line 832 "src/libre/dialect/pcre/parser.c"
+#line 834 "src/libre/dialect/pcre/parser.c"
 					}
 					/* END OF ACTION: ast-add-concat */
 				}
@@ -874,14 +876,15 @@ p_293(flags flags, lex_state lex_state, act_state act_state, err err, t_ast__cla
 		{
 			/* BEGINNING OF ACTION: ast-make-named */
 			{
-#line 1033 "src/libre/parser.act"
+#line 1045 "src/libre/parser.act"
 
 		(ZInode) = ast_make_expr_named(act_state->poolp, *flags, (*ZI290));
 		if ((ZInode) == NULL) {
+			err->e = RE_EERRNO;
 			goto ZL1;
 		}
 	
-#line 885 "src/libre/dialect/pcre/parser.c"
+#line 888 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF ACTION: ast-make-named */
 		}
@@ -899,7 +902,7 @@ p_293(flags flags, lex_state lex_state, act_state act_state, err err, t_ast__cla
 		(ZIlower).type = AST_ENDPOINT_NAMED;
 		(ZIlower).u.named.class = (*ZI290);
 	
-#line 903 "src/libre/dialect/pcre/parser.c"
+#line 906 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF ACTION: ast-range-endpoint-class */
 			p_168 (flags, lex_state, act_state, err);
@@ -915,12 +918,12 @@ p_293(flags flags, lex_state lex_state, act_state act_state, err err, t_ast__cla
 		mark(&act_state->rangestart, &(*ZI291));
 		mark(&act_state->rangeend,   &(ZIend));
 	
-#line 919 "src/libre/dialect/pcre/parser.c"
+#line 922 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF ACTION: mark-range */
 			/* BEGINNING OF ACTION: ast-make-range */
 			{
-#line 1004 "src/libre/parser.act"
+#line 1015 "src/libre/parser.act"
 
 		unsigned char lower, upper;
 
@@ -946,10 +949,11 @@ p_293(flags flags, lex_state lex_state, act_state act_state, err err, t_ast__cla
 
 		(ZInode) = ast_make_expr_range(act_state->poolp, *flags, &(ZIlower), &(ZIupper));
 		if ((ZInode) == NULL) {
+			err->e = RE_EERRNO;
 			goto ZL1;
 		}
 	
-#line 953 "src/libre/dialect/pcre/parser.c"
+#line 957 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF ACTION: ast-make-range */
 		}
@@ -990,7 +994,7 @@ p_168(flags flags, lex_state lex_state, act_state act_state, err err)
 		(void) ZI170;
 		(void) ZI171;
 	
-#line 994 "src/libre/dialect/pcre/parser.c"
+#line 998 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF EXTRACT: RANGE */
 			break;
@@ -1011,7 +1015,7 @@ ZL1:;
 		}
 		goto ZL2;
 	
-#line 1015 "src/libre/dialect/pcre/parser.c"
+#line 1019 "src/libre/dialect/pcre/parser.c"
 		}
 		/* END OF ACTION: err-expected-range */
 	}
@@ -1056,7 +1060,7 @@ p_expr_C_Cliteral(flags flags, lex_state lex_state, act_state act_state, err err
 
 		ZIc = lex_state->buf.a[0];
 	
-#line 1060 "src/libre/dialect/pcre/parser.c"
+#line 1064 "src/libre/dialect/pcre/parser.c"
 					}
 					/* END OF EXTRACT: CHAR */
 					ADVANCE_LEXER;
@@ -1111,7 +1115,7 @@ p_expr_C_Cliteral(flags flags, lex_state lex_state, act_state act_state, err err
 		(void) ZI123;
 		(void) ZI124;
 	
-#line 1115 "src/libre/dialect/pcre/parser.c"
+#line 1119 "src/libre/dialect/pcre/parser.c"
 					}
 					/* END OF EXTRACT: CONTROL */
 					ADVANCE_LEXER;
@@ -1150,7 +1154,7 @@ p_expr_C_Cliteral(flags flags, lex_state lex_state, act_state act_state, err err
 		(void) ZI113;
 		(void) ZI114;
 	
-#line 1154 "src/libre/dialect/pcre/parser.c"
+#line 1158 "src/libre/dialect/pcre/parser.c"
 					}
 					/* END OF EXTRACT: ESC */
 					ADVANCE_LEXER;
@@ -1211,7 +1215,7 @@ p_expr_C_Cliteral(flags flags, lex_state lex_state, act_state act_state, err err
 
 		ZIc = (char) (unsigned char) u;
 	
-#line 1215 "src/libre/dialect/pcre/parser.c"
+#line 1219 "src/libre/dialect/pcre/parser.c"
 					}
 					/* END OF EXTRACT: HEX */
 					ADVANCE_LEXER;
@@ -1238,7 +1242,7 @@ p_expr_C_Cliteral(flags flags, lex_state lex_state, act_state act_state, err err
 		(void) ZI115;
 		(void) ZI116;
 	
-#line 1242 "src/libre/dialect/pcre/parser.c"
+#line 1246 "src/libre/dialect/pcre/parser.c"
 					}
 					/* END OF EXTRACT: NOESC */
 					ADVANCE_LEXER;
@@ -1294,7 +1298,7 @@ p_expr_C_Cliteral(flags flags, lex_state lex_state, act_state act_state, err err
 
 		ZIc = (char) (unsigned char) u;
 	
-#line 1298 "src/libre/dialect/pcre/parser.c"
+#line 1302 "src/libre/dialect/pcre/parser.c"
 					}
 					/* END OF EXTRACT: OCT */
 					ADVANCE_LEXER;
@@ -1323,7 +1327,7 @@ p_expr_C_Cliteral(flags flags, lex_state lex_state, act_state act_state, err err
 		(void) ZI125;
 		(void) ZI126;
 	
-#line 1327 "src/libre/dialect/pcre/parser.c"
+#line 1331 "src/libre/dialect/pcre/parser.c"
 					}
 					/* END OF EXTRACT: UNSUPPORTED */
 					ADVANCE_LEXER;
@@ -1336,7 +1340,7 @@ p_expr_C_Cliteral(flags flags, lex_state lex_state, act_state act_state, err err
 		}
 		goto ZL1;
 	
-#line 1340 "src/libre/dialect/pcre/parser.c"
+#line 1344 "src/libre/dialect/pcre/parser.c"
 					}
 					/* END OF ACTION: err-unsupported */
 				}
@@ -1348,14 +1352,15 @@ p_expr_C_Cliteral(flags flags, lex_state lex_state, act_state act_state, err err
 		/* END OF INLINE: 111 */
 		/* BEGINNING OF ACTION: ast-make-literal */
 		{
-#line 874 "src/libre/parser.act"
+#line 877 "src/libre/parser.act"
 
 		(ZInode) = ast_make_expr_literal(act_state->poolp, *flags, (ZIc));
 		if ((ZInode) == NULL) {
+			err->e = RE_EERRNO;
 			goto ZL1;
 		}
 	
-#line 1359 "src/libre/dialect/pcre/parser.c"
+#line 1364 "src/libre/dialect/pcre/parser.c"
 		}
 		/* END OF ACTION: ast-make-literal */
 	}
@@ -1394,7 +1399,7 @@ p_expr_C_Ccharacter_Hclass_C_Cclass_Hterm(flags flags, lex_state lex_state, act_
 
 		ZI306 = lex_state->buf.a[0];
 	
-#line 1398 "src/libre/dialect/pcre/parser.c"
+#line 1403 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF EXTRACT: CHAR */
 			ADVANCE_LEXER;
@@ -1455,7 +1460,7 @@ p_expr_C_Ccharacter_Hclass_C_Cclass_Hterm(flags flags, lex_state lex_state, act_
 		(void) ZI311;
 		(void) ZI312;
 	
-#line 1459 "src/libre/dialect/pcre/parser.c"
+#line 1464 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF EXTRACT: CONTROL */
 			ADVANCE_LEXER;
@@ -1468,7 +1473,7 @@ p_expr_C_Ccharacter_Hclass_C_Cclass_Hterm(flags flags, lex_state lex_state, act_
 		}
 		goto ZL1;
 	
-#line 1472 "src/libre/dialect/pcre/parser.c"
+#line 1477 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF ACTION: err-unsupported */
 			p_317 (flags, lex_state, act_state, err, &ZI310, &ZI311, &ZInode);
@@ -1512,7 +1517,7 @@ p_expr_C_Ccharacter_Hclass_C_Cclass_Hterm(flags flags, lex_state lex_state, act_
 		(void) ZI295;
 		(void) ZI296;
 	
-#line 1516 "src/libre/dialect/pcre/parser.c"
+#line 1521 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF EXTRACT: ESC */
 			ADVANCE_LEXER;
@@ -1579,7 +1584,7 @@ p_expr_C_Ccharacter_Hclass_C_Cclass_Hterm(flags flags, lex_state lex_state, act_
 
 		ZI302 = (char) (unsigned char) u;
 	
-#line 1583 "src/libre/dialect/pcre/parser.c"
+#line 1588 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF EXTRACT: HEX */
 			ADVANCE_LEXER;
@@ -1612,7 +1617,7 @@ p_expr_C_Ccharacter_Hclass_C_Cclass_Hterm(flags flags, lex_state lex_state, act_
 		(void) ZI291;
 		(void) ZI292;
 	
-#line 1616 "src/libre/dialect/pcre/parser.c"
+#line 1621 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF EXTRACT: NAMED_CLASS */
 			ADVANCE_LEXER;
@@ -1645,20 +1650,21 @@ p_expr_C_Ccharacter_Hclass_C_Cclass_Hterm(flags flags, lex_state lex_state, act_
 		(void) ZI134;
 		(void) ZI135;
 	
-#line 1649 "src/libre/dialect/pcre/parser.c"
+#line 1654 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF EXTRACT: NOESC */
 			ADVANCE_LEXER;
 			/* BEGINNING OF ACTION: ast-make-literal */
 			{
-#line 874 "src/libre/parser.act"
+#line 877 "src/libre/parser.act"
 
 		(ZInode) = ast_make_expr_literal(act_state->poolp, *flags, (ZIc));
 		if ((ZInode) == NULL) {
+			err->e = RE_EERRNO;
 			goto ZL1;
 		}
 	
-#line 1662 "src/libre/dialect/pcre/parser.c"
+#line 1668 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF ACTION: ast-make-literal */
 		}
@@ -1714,7 +1720,7 @@ p_expr_C_Ccharacter_Hclass_C_Cclass_Hterm(flags flags, lex_state lex_state, act_
 
 		ZI298 = (char) (unsigned char) u;
 	
-#line 1718 "src/libre/dialect/pcre/parser.c"
+#line 1724 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF EXTRACT: OCT */
 			ADVANCE_LEXER;
@@ -1749,7 +1755,7 @@ p_expr_C_Ccharacter_Hclass_C_Cclass_Hterm(flags flags, lex_state lex_state, act_
 		(void) ZI315;
 		(void) ZI316;
 	
-#line 1753 "src/libre/dialect/pcre/parser.c"
+#line 1759 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF EXTRACT: UNSUPPORTED */
 			ADVANCE_LEXER;
@@ -1762,7 +1768,7 @@ p_expr_C_Ccharacter_Hclass_C_Cclass_Hterm(flags flags, lex_state lex_state, act_
 		}
 		goto ZL1;
 	
-#line 1766 "src/libre/dialect/pcre/parser.c"
+#line 1772 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF ACTION: err-unsupported */
 			p_317 (flags, lex_state, act_state, err, &ZI314, &ZI315, &ZInode);
@@ -1808,7 +1814,7 @@ p_expr_C_Ccomment(flags flags, lex_state lex_state, act_state act_state, err err
 		}
 		goto ZL1;
 	
-#line 1812 "src/libre/dialect/pcre/parser.c"
+#line 1818 "src/libre/dialect/pcre/parser.c"
 		}
 		/* END OF ACTION: err-invalid-comment */
 	}
@@ -1849,7 +1855,7 @@ p_expr_C_Ccharacter_Hclass_C_Crange_Hendpoint_C_Crange_Hendpoint_Hclass(flags fl
 		(void) ZIstart;
 		(void) ZIend;
 	
-#line 1853 "src/libre/dialect/pcre/parser.c"
+#line 1859 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF EXTRACT: NAMED_CLASS */
 			break;
@@ -1864,7 +1870,7 @@ p_expr_C_Ccharacter_Hclass_C_Crange_Hendpoint_C_Crange_Hendpoint_Hclass(flags fl
 		(ZIr).type = AST_ENDPOINT_NAMED;
 		(ZIr).u.named.class = (ZIid);
 	
-#line 1868 "src/libre/dialect/pcre/parser.c"
+#line 1874 "src/libre/dialect/pcre/parser.c"
 		}
 		/* END OF ACTION: ast-range-endpoint-class */
 	}
@@ -1907,20 +1913,21 @@ p_expr_C_Ccharacter_Hclass(flags flags, lex_state lex_state, act_state act_state
 		(void) ZIstart;
 		(void) ZI181;
 	
-#line 1911 "src/libre/dialect/pcre/parser.c"
+#line 1917 "src/libre/dialect/pcre/parser.c"
 					}
 					/* END OF EXTRACT: OPENGROUP */
 					ADVANCE_LEXER;
 					/* BEGINNING OF ACTION: ast-make-alt */
 					{
-#line 867 "src/libre/parser.act"
+#line 869 "src/libre/parser.act"
 
 		(ZInode) = ast_make_expr_alt(act_state->poolp, *flags);
 		if ((ZInode) == NULL) {
+			err->e = RE_EERRNO;
 			goto ZL1;
 		}
 	
-#line 1924 "src/libre/dialect/pcre/parser.c"
+#line 1931 "src/libre/dialect/pcre/parser.c"
 					}
 					/* END OF ACTION: ast-make-alt */
 					ZItmp = ZInode;
@@ -1948,30 +1955,31 @@ p_expr_C_Ccharacter_Hclass(flags flags, lex_state lex_state, act_state act_state
 		(void) ZIstart;
 		(void) ZI200;
 	
-#line 1952 "src/libre/dialect/pcre/parser.c"
+#line 1959 "src/libre/dialect/pcre/parser.c"
 					}
 					/* END OF EXTRACT: OPENGROUPCB */
 					ADVANCE_LEXER;
 					/* BEGINNING OF ACTION: ast-make-alt */
 					{
-#line 867 "src/libre/parser.act"
+#line 869 "src/libre/parser.act"
 
 		(ZInode) = ast_make_expr_alt(act_state->poolp, *flags);
 		if ((ZInode) == NULL) {
+			err->e = RE_EERRNO;
 			goto ZL1;
 		}
 	
-#line 1965 "src/libre/dialect/pcre/parser.c"
+#line 1973 "src/libre/dialect/pcre/parser.c"
 					}
 					/* END OF ACTION: ast-make-alt */
 					ZItmp = ZInode;
 					/* BEGINNING OF ACTION: make-literal-cbrak */
 					{
-#line 885 "src/libre/parser.act"
+#line 889 "src/libre/parser.act"
 
 		(ZIcbrak) = ']';
 	
-#line 1975 "src/libre/dialect/pcre/parser.c"
+#line 1983 "src/libre/dialect/pcre/parser.c"
 					}
 					/* END OF ACTION: make-literal-cbrak */
 					p_209 (flags, lex_state, act_state, err, &ZIstart, &ZIcbrak, &ZInode1);
@@ -1981,13 +1989,14 @@ p_expr_C_Ccharacter_Hclass(flags flags, lex_state lex_state, act_state act_state
 					}
 					/* BEGINNING OF ACTION: ast-add-alt */
 					{
-#line 1046 "src/libre/parser.act"
+#line 1060 "src/libre/parser.act"
 
 		if (!ast_add_expr_alt((ZItmp), (ZInode1))) {
+			err->e = RE_EERRNO;
 			goto ZL1;
 		}
 	
-#line 1991 "src/libre/dialect/pcre/parser.c"
+#line 2000 "src/libre/dialect/pcre/parser.c"
 					}
 					/* END OF ACTION: ast-add-alt */
 					p_expr_C_Ccharacter_Hclass_C_Clist_Hof_Hclass_Hterms (flags, lex_state, act_state, err, ZItmp);
@@ -2011,26 +2020,27 @@ p_expr_C_Ccharacter_Hclass(flags flags, lex_state lex_state, act_state act_state
 		(void) ZIstart;
 		(void) ZI192;
 	
-#line 2015 "src/libre/dialect/pcre/parser.c"
+#line 2024 "src/libre/dialect/pcre/parser.c"
 					}
 					/* END OF EXTRACT: OPENGROUPINV */
 					ADVANCE_LEXER;
 					/* BEGINNING OF ACTION: ast-make-alt */
 					{
-#line 867 "src/libre/parser.act"
+#line 869 "src/libre/parser.act"
 
 		(ZInode) = ast_make_expr_alt(act_state->poolp, *flags);
 		if ((ZInode) == NULL) {
+			err->e = RE_EERRNO;
 			goto ZL1;
 		}
 	
-#line 2028 "src/libre/dialect/pcre/parser.c"
+#line 2038 "src/libre/dialect/pcre/parser.c"
 					}
 					/* END OF ACTION: ast-make-alt */
 					ZItmp = ZInode;
 					/* BEGINNING OF ACTION: ast-make-invert */
 					{
-#line 966 "src/libre/parser.act"
+#line 975 "src/libre/parser.act"
 
 		struct ast_expr *any;
 
@@ -2060,15 +2070,17 @@ p_expr_C_Ccharacter_Hclass(flags flags, lex_state lex_state, act_state act_state
 
 		any = ast_make_expr_named(act_state->poolp, *flags, &class_any);
 		if (any == NULL) {
+			err->e = RE_EERRNO;
 			goto ZL1;
 		}
 
 		(ZInode) = ast_make_expr_subtract(act_state->poolp, *flags, any, (ZInode));
 		if ((ZInode) == NULL) {
+			err->e = RE_EERRNO;
 			goto ZL1;
 		}
 	
-#line 2072 "src/libre/dialect/pcre/parser.c"
+#line 2084 "src/libre/dialect/pcre/parser.c"
 					}
 					/* END OF ACTION: ast-make-invert */
 					p_194 (flags, lex_state, act_state, err, &ZItmp);
@@ -2095,26 +2107,27 @@ p_expr_C_Ccharacter_Hclass(flags flags, lex_state lex_state, act_state act_state
 		(void) ZIstart;
 		(void) ZI207;
 	
-#line 2099 "src/libre/dialect/pcre/parser.c"
+#line 2111 "src/libre/dialect/pcre/parser.c"
 					}
 					/* END OF EXTRACT: OPENGROUPINVCB */
 					ADVANCE_LEXER;
 					/* BEGINNING OF ACTION: ast-make-alt */
 					{
-#line 867 "src/libre/parser.act"
+#line 869 "src/libre/parser.act"
 
 		(ZInode) = ast_make_expr_alt(act_state->poolp, *flags);
 		if ((ZInode) == NULL) {
+			err->e = RE_EERRNO;
 			goto ZL1;
 		}
 	
-#line 2112 "src/libre/dialect/pcre/parser.c"
+#line 2125 "src/libre/dialect/pcre/parser.c"
 					}
 					/* END OF ACTION: ast-make-alt */
 					ZItmp = ZInode;
 					/* BEGINNING OF ACTION: ast-make-invert */
 					{
-#line 966 "src/libre/parser.act"
+#line 975 "src/libre/parser.act"
 
 		struct ast_expr *any;
 
@@ -2144,24 +2157,26 @@ p_expr_C_Ccharacter_Hclass(flags flags, lex_state lex_state, act_state act_state
 
 		any = ast_make_expr_named(act_state->poolp, *flags, &class_any);
 		if (any == NULL) {
+			err->e = RE_EERRNO;
 			goto ZL1;
 		}
 
 		(ZInode) = ast_make_expr_subtract(act_state->poolp, *flags, any, (ZInode));
 		if ((ZInode) == NULL) {
+			err->e = RE_EERRNO;
 			goto ZL1;
 		}
 	
-#line 2156 "src/libre/dialect/pcre/parser.c"
+#line 2171 "src/libre/dialect/pcre/parser.c"
 					}
 					/* END OF ACTION: ast-make-invert */
 					/* BEGINNING OF ACTION: make-literal-cbrak */
 					{
-#line 885 "src/libre/parser.act"
+#line 889 "src/libre/parser.act"
 
 		(ZIcbrak) = ']';
 	
-#line 2165 "src/libre/dialect/pcre/parser.c"
+#line 2180 "src/libre/dialect/pcre/parser.c"
 					}
 					/* END OF ACTION: make-literal-cbrak */
 					p_209 (flags, lex_state, act_state, err, &ZIstart, &ZIcbrak, &ZInode1);
@@ -2171,13 +2186,14 @@ p_expr_C_Ccharacter_Hclass(flags flags, lex_state lex_state, act_state act_state
 					}
 					/* BEGINNING OF ACTION: ast-add-alt */
 					{
-#line 1046 "src/libre/parser.act"
+#line 1060 "src/libre/parser.act"
 
 		if (!ast_add_expr_alt((ZItmp), (ZInode1))) {
+			err->e = RE_EERRNO;
 			goto ZL1;
 		}
 	
-#line 2181 "src/libre/dialect/pcre/parser.c"
+#line 2197 "src/libre/dialect/pcre/parser.c"
 					}
 					/* END OF ACTION: ast-add-alt */
 					p_expr_C_Ccharacter_Hclass_C_Clist_Hof_Hclass_Hterms (flags, lex_state, act_state, err, ZItmp);
@@ -2213,7 +2229,7 @@ p_expr_C_Ccharacter_Hclass(flags flags, lex_state lex_state, act_state act_state
 		(void) ZI215;
 		(void) ZIend;
 	
-#line 2217 "src/libre/dialect/pcre/parser.c"
+#line 2233 "src/libre/dialect/pcre/parser.c"
 					}
 					/* END OF EXTRACT: CLOSEGROUP */
 					ADVANCE_LEXER;
@@ -2224,7 +2240,7 @@ p_expr_C_Ccharacter_Hclass(flags flags, lex_state lex_state, act_state act_state
 		mark(&act_state->groupstart, &(ZIstart));
 		mark(&act_state->groupend,   &(ZIend));
 	
-#line 2228 "src/libre/dialect/pcre/parser.c"
+#line 2244 "src/libre/dialect/pcre/parser.c"
 					}
 					/* END OF ACTION: mark-group */
 				}
@@ -2248,31 +2264,33 @@ p_expr_C_Ccharacter_Hclass(flags flags, lex_state lex_state, act_state act_state
 		(void) ZI217;
 		(void) ZIend;
 	
-#line 2252 "src/libre/dialect/pcre/parser.c"
+#line 2268 "src/libre/dialect/pcre/parser.c"
 					}
 					/* END OF EXTRACT: CLOSEGROUPRANGE */
 					ADVANCE_LEXER;
 					/* BEGINNING OF ACTION: ast-make-literal */
 					{
-#line 874 "src/libre/parser.act"
+#line 877 "src/libre/parser.act"
 
 		(ZIrange) = ast_make_expr_literal(act_state->poolp, *flags, (ZIcrange));
 		if ((ZIrange) == NULL) {
+			err->e = RE_EERRNO;
 			goto ZL4;
 		}
 	
-#line 2265 "src/libre/dialect/pcre/parser.c"
+#line 2282 "src/libre/dialect/pcre/parser.c"
 					}
 					/* END OF ACTION: ast-make-literal */
 					/* BEGINNING OF ACTION: ast-add-alt */
 					{
-#line 1046 "src/libre/parser.act"
+#line 1060 "src/libre/parser.act"
 
 		if (!ast_add_expr_alt((ZItmp), (ZIrange))) {
+			err->e = RE_EERRNO;
 			goto ZL4;
 		}
 	
-#line 2276 "src/libre/dialect/pcre/parser.c"
+#line 2294 "src/libre/dialect/pcre/parser.c"
 					}
 					/* END OF ACTION: ast-add-alt */
 					/* BEGINNING OF ACTION: mark-group */
@@ -2282,7 +2300,7 @@ p_expr_C_Ccharacter_Hclass(flags flags, lex_state lex_state, act_state act_state
 		mark(&act_state->groupstart, &(ZIstart));
 		mark(&act_state->groupend,   &(ZIend));
 	
-#line 2286 "src/libre/dialect/pcre/parser.c"
+#line 2304 "src/libre/dialect/pcre/parser.c"
 					}
 					/* END OF ACTION: mark-group */
 				}
@@ -2302,7 +2320,7 @@ p_expr_C_Ccharacter_Hclass(flags flags, lex_state lex_state, act_state act_state
 		}
 		goto ZL1;
 	
-#line 2306 "src/libre/dialect/pcre/parser.c"
+#line 2324 "src/libre/dialect/pcre/parser.c"
 				}
 				/* END OF ACTION: err-expected-closegroup */
 			}
@@ -2348,7 +2366,7 @@ p_expr_C_Ccharacter_Hclass_C_Crange_Hendpoint_Hend(flags flags, lex_state lex_st
 		(void) ZI163;
 		(void) ZIend;
 	
-#line 2352 "src/libre/dialect/pcre/parser.c"
+#line 2370 "src/libre/dialect/pcre/parser.c"
 					}
 					/* END OF EXTRACT: RANGE */
 					ADVANCE_LEXER;
@@ -2359,7 +2377,7 @@ p_expr_C_Ccharacter_Hclass_C_Crange_Hendpoint_Hend(flags flags, lex_state lex_st
 		(ZIr).type = AST_ENDPOINT_LITERAL;
 		(ZIr).u.literal.c = (unsigned char) (ZIc);
 	
-#line 2363 "src/libre/dialect/pcre/parser.c"
+#line 2381 "src/libre/dialect/pcre/parser.c"
 					}
 					/* END OF ACTION: ast-range-endpoint-literal */
 				}
@@ -2401,14 +2419,15 @@ p_317(flags flags, lex_state lex_state, act_state act_state, err err, t_char *ZI
 		{
 			/* BEGINNING OF ACTION: ast-make-literal */
 			{
-#line 874 "src/libre/parser.act"
+#line 877 "src/libre/parser.act"
 
 		(ZInode) = ast_make_expr_literal(act_state->poolp, *flags, (*ZI314));
 		if ((ZInode) == NULL) {
+			err->e = RE_EERRNO;
 			goto ZL1;
 		}
 	
-#line 2412 "src/libre/dialect/pcre/parser.c"
+#line 2431 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF ACTION: ast-make-literal */
 		}
@@ -2426,7 +2445,7 @@ p_317(flags flags, lex_state lex_state, act_state act_state, err err, t_char *ZI
 		(ZIlower).type = AST_ENDPOINT_LITERAL;
 		(ZIlower).u.literal.c = (unsigned char) (*ZI314);
 	
-#line 2430 "src/libre/dialect/pcre/parser.c"
+#line 2449 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF ACTION: ast-range-endpoint-literal */
 			p_168 (flags, lex_state, act_state, err);
@@ -2442,12 +2461,12 @@ p_317(flags flags, lex_state lex_state, act_state act_state, err err, t_char *ZI
 		mark(&act_state->rangestart, &(*ZI315));
 		mark(&act_state->rangeend,   &(ZIend));
 	
-#line 2446 "src/libre/dialect/pcre/parser.c"
+#line 2465 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF ACTION: mark-range */
 			/* BEGINNING OF ACTION: ast-make-range */
 			{
-#line 1004 "src/libre/parser.act"
+#line 1015 "src/libre/parser.act"
 
 		unsigned char lower, upper;
 
@@ -2473,10 +2492,11 @@ p_317(flags flags, lex_state lex_state, act_state act_state, err err, t_char *ZI
 
 		(ZInode) = ast_make_expr_range(act_state->poolp, *flags, &(ZIlower), &(ZIupper));
 		if ((ZInode) == NULL) {
+			err->e = RE_EERRNO;
 			goto ZL1;
 		}
 	
-#line 2480 "src/libre/dialect/pcre/parser.c"
+#line 2500 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF ACTION: ast-make-range */
 		}
@@ -2526,12 +2546,12 @@ p_expr_C_Cpiece(flags flags, lex_state lex_state, act_state act_state, err err,
 
 		(ZIc) = ast_make_count(1, 1);
 	
-#line 2530 "src/libre/dialect/pcre/parser.c"
+#line 2550 "src/libre/dialect/pcre/parser.c"
 					}
 					/* END OF ACTION: count-one */
 					/* BEGINNING OF ACTION: ast-make-piece */
 					{
-#line 897 "src/libre/parser.act"
+#line 901 "src/libre/parser.act"
 
 		if ((ZIc).min == 0 && (ZIc).max == 0) {
 			(ZInode) = ast_make_expr_empty(act_state->poolp, *flags);
@@ -2541,11 +2561,11 @@ p_expr_C_Cpiece(flags flags, lex_state lex_state, act_state act_state, err err,
 			(ZInode) = ast_make_expr_repeat(act_state->poolp, *flags, (ZIe), (ZIc));
 		}
 		if ((ZInode) == NULL) {
-			err->e = RE_EXEOF;
+			err->e = RE_EERRNO;
 			goto ZL1;
 		}
 	
-#line 2549 "src/libre/dialect/pcre/parser.c"
+#line 2569 "src/libre/dialect/pcre/parser.c"
 					}
 					/* END OF ACTION: ast-make-piece */
 				}
@@ -2586,7 +2606,7 @@ p_320(flags flags, lex_state lex_state, act_state act_state, err err, t_pos *ZI3
 		(void) ZI256;
 		(void) ZIend;
 	
-#line 2590 "src/libre/dialect/pcre/parser.c"
+#line 2610 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF EXTRACT: CLOSECOUNT */
 			ADVANCE_LEXER;
@@ -2597,7 +2617,7 @@ p_320(flags flags, lex_state lex_state, act_state act_state, err err, t_pos *ZI3
 		mark(&act_state->countstart, &(*ZI318));
 		mark(&act_state->countend,   &(ZIend));
 	
-#line 2601 "src/libre/dialect/pcre/parser.c"
+#line 2621 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF ACTION: mark-count */
 			/* BEGINNING OF ACTION: count-range */
@@ -2617,7 +2637,7 @@ p_320(flags flags, lex_state lex_state, act_state act_state, err err, t_pos *ZI3
 
 		(ZIc) = ast_make_count((*ZIm), (*ZIm));
 	
-#line 2621 "src/libre/dialect/pcre/parser.c"
+#line 2641 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF ACTION: count-range */
 		}
@@ -2656,14 +2676,15 @@ p_expr(flags flags, lex_state lex_state, act_state act_state, err err, t_ast__ex
 	{
 		/* BEGINNING OF ACTION: ast-make-alt */
 		{
-#line 867 "src/libre/parser.act"
+#line 869 "src/libre/parser.act"
 
 		(ZInode) = ast_make_expr_alt(act_state->poolp, *flags);
 		if ((ZInode) == NULL) {
+			err->e = RE_EERRNO;
 			goto ZL1;
 		}
 	
-#line 2667 "src/libre/dialect/pcre/parser.c"
+#line 2688 "src/libre/dialect/pcre/parser.c"
 		}
 		/* END OF ACTION: ast-make-alt */
 		p_expr_C_Clist_Hof_Halts (flags, lex_state, act_state, err, ZInode);
@@ -2684,7 +2705,7 @@ ZL1:;
 		}
 		goto ZL2;
 	
-#line 2688 "src/libre/dialect/pcre/parser.c"
+#line 2709 "src/libre/dialect/pcre/parser.c"
 		}
 		/* END OF ACTION: err-expected-alts */
 		/* BEGINNING OF ACTION: ast-make-empty */
@@ -2693,10 +2714,11 @@ ZL1:;
 
 		(ZInode) = ast_make_expr_empty(act_state->poolp, *flags);
 		if ((ZInode) == NULL) {
+			err->e = RE_EERRNO;
 			goto ZL2;
 		}
 	
-#line 2700 "src/libre/dialect/pcre/parser.c"
+#line 2722 "src/libre/dialect/pcre/parser.c"
 		}
 		/* END OF ACTION: ast-make-empty */
 	}
@@ -2730,7 +2752,7 @@ p_321(flags flags, lex_state lex_state, act_state act_state, err err, t_pos *ZI3
 		(void) ZI261;
 		(void) ZIend;
 	
-#line 2734 "src/libre/dialect/pcre/parser.c"
+#line 2756 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF EXTRACT: CLOSECOUNT */
 			ADVANCE_LEXER;
@@ -2741,7 +2763,7 @@ p_321(flags flags, lex_state lex_state, act_state act_state, err err, t_pos *ZI3
 		mark(&act_state->countstart, &(*ZI318));
 		mark(&act_state->countend,   &(ZIend));
 	
-#line 2745 "src/libre/dialect/pcre/parser.c"
+#line 2767 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF ACTION: mark-count */
 			/* BEGINNING OF ACTION: count-unbounded */
@@ -2750,7 +2772,7 @@ p_321(flags flags, lex_state lex_state, act_state act_state, err err, t_pos *ZI3
 
 		(ZIn) = AST_COUNT_UNBOUNDED;
 	
-#line 2754 "src/libre/dialect/pcre/parser.c"
+#line 2776 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF ACTION: count-unbounded */
 			/* BEGINNING OF ACTION: count-range */
@@ -2770,7 +2792,7 @@ p_321(flags flags, lex_state lex_state, act_state act_state, err err, t_pos *ZI3
 
 		(ZIc) = ast_make_count((*ZIm), (ZIn));
 	
-#line 2774 "src/libre/dialect/pcre/parser.c"
+#line 2796 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF ACTION: count-range */
 		}
@@ -2803,7 +2825,7 @@ p_321(flags flags, lex_state lex_state, act_state act_state, err err, t_pos *ZI3
 
 		ZIn = (unsigned int) u;
 	
-#line 2807 "src/libre/dialect/pcre/parser.c"
+#line 2829 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF EXTRACT: COUNT */
 			ADVANCE_LEXER;
@@ -2819,7 +2841,7 @@ p_321(flags flags, lex_state lex_state, act_state act_state, err err, t_pos *ZI3
 		(void) ZI259;
 		(void) ZIend;
 	
-#line 2823 "src/libre/dialect/pcre/parser.c"
+#line 2845 "src/libre/dialect/pcre/parser.c"
 				}
 				/* END OF EXTRACT: CLOSECOUNT */
 				break;
@@ -2834,7 +2856,7 @@ p_321(flags flags, lex_state lex_state, act_state act_state, err err, t_pos *ZI3
 		mark(&act_state->countstart, &(*ZI318));
 		mark(&act_state->countend,   &(ZIend));
 	
-#line 2838 "src/libre/dialect/pcre/parser.c"
+#line 2860 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF ACTION: mark-count */
 			/* BEGINNING OF ACTION: count-range */
@@ -2854,7 +2876,7 @@ p_321(flags flags, lex_state lex_state, act_state act_state, err err, t_pos *ZI3
 
 		(ZIc) = ast_make_count((*ZIm), (ZIn));
 	
-#line 2858 "src/libre/dialect/pcre/parser.c"
+#line 2880 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF ACTION: count-range */
 		}
@@ -2895,7 +2917,7 @@ p_194(flags flags, lex_state lex_state, act_state act_state, err err, t_ast__exp
 		(void) ZIrstart;
 		(void) ZI195;
 	
-#line 2899 "src/libre/dialect/pcre/parser.c"
+#line 2921 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF EXTRACT: RANGE */
 			ADVANCE_LEXER;
@@ -2906,14 +2928,15 @@ p_194(flags flags, lex_state lex_state, act_state act_state, err err, t_ast__exp
 					{
 						/* BEGINNING OF ACTION: ast-make-literal */
 						{
-#line 874 "src/libre/parser.act"
+#line 877 "src/libre/parser.act"
 
 		(ZInode1) = ast_make_expr_literal(act_state->poolp, *flags, (ZIc));
 		if ((ZInode1) == NULL) {
+			err->e = RE_EERRNO;
 			goto ZL1;
 		}
 	
-#line 2917 "src/libre/dialect/pcre/parser.c"
+#line 2940 "src/libre/dialect/pcre/parser.c"
 						}
 						/* END OF ACTION: ast-make-literal */
 					}
@@ -2934,7 +2957,7 @@ p_194(flags flags, lex_state lex_state, act_state act_state, err err, t_ast__exp
 		(ZIlower).type = AST_ENDPOINT_LITERAL;
 		(ZIlower).u.literal.c = (unsigned char) (ZIc);
 	
-#line 2938 "src/libre/dialect/pcre/parser.c"
+#line 2961 "src/libre/dialect/pcre/parser.c"
 						}
 						/* END OF ACTION: ast-range-endpoint-literal */
 						/* BEGINNING OF EXTRACT: RANGE */
@@ -2949,7 +2972,7 @@ p_194(flags flags, lex_state lex_state, act_state act_state, err err, t_ast__exp
 		(void) ZI198;
 		(void) ZI199;
 	
-#line 2953 "src/libre/dialect/pcre/parser.c"
+#line 2976 "src/libre/dialect/pcre/parser.c"
 						}
 						/* END OF EXTRACT: RANGE */
 						ADVANCE_LEXER;
@@ -2960,7 +2983,7 @@ p_194(flags flags, lex_state lex_state, act_state act_state, err err, t_ast__exp
 						}
 						/* BEGINNING OF ACTION: ast-make-range */
 						{
-#line 1004 "src/libre/parser.act"
+#line 1015 "src/libre/parser.act"
 
 		unsigned char lower, upper;
 
@@ -2986,10 +3009,11 @@ p_194(flags flags, lex_state lex_state, act_state act_state, err err, t_ast__exp
 
 		(ZInode1) = ast_make_expr_range(act_state->poolp, *flags, &(ZIlower), &(ZIupper));
 		if ((ZInode1) == NULL) {
+			err->e = RE_EERRNO;
 			goto ZL1;
 		}
 	
-#line 2993 "src/libre/dialect/pcre/parser.c"
+#line 3017 "src/libre/dialect/pcre/parser.c"
 						}
 						/* END OF ACTION: ast-make-range */
 					}
@@ -2999,13 +3023,14 @@ p_194(flags flags, lex_state lex_state, act_state act_state, err err, t_ast__exp
 			/* END OF INLINE: 196 */
 			/* BEGINNING OF ACTION: ast-add-alt */
 			{
-#line 1046 "src/libre/parser.act"
+#line 1060 "src/libre/parser.act"
 
 		if (!ast_add_expr_alt((*ZItmp), (ZInode1))) {
+			err->e = RE_EERRNO;
 			goto ZL1;
 		}
 	
-#line 3009 "src/libre/dialect/pcre/parser.c"
+#line 3034 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF ACTION: ast-add-alt */
 		}
@@ -3048,7 +3073,7 @@ p_expr_C_Cflags(flags flags, lex_state lex_state, act_state act_state, err err,
 
 		(ZIempty__pos) = RE_FLAGS_NONE;
 	
-#line 3052 "src/libre/dialect/pcre/parser.c"
+#line 3077 "src/libre/dialect/pcre/parser.c"
 		}
 		/* END OF ACTION: re-flag-none */
 		/* BEGINNING OF ACTION: re-flag-none */
@@ -3057,7 +3082,7 @@ p_expr_C_Cflags(flags flags, lex_state lex_state, act_state act_state, err err,
 
 		(ZIempty__neg) = RE_FLAGS_NONE;
 	
-#line 3061 "src/libre/dialect/pcre/parser.c"
+#line 3086 "src/libre/dialect/pcre/parser.c"
 		}
 		/* END OF ACTION: re-flag-none */
 		/* BEGINNING OF INLINE: 231 */
@@ -3110,7 +3135,7 @@ p_expr_C_Cflags(flags flags, lex_state lex_state, act_state act_state, err err,
 					ADVANCE_LEXER;
 					/* BEGINNING OF ACTION: ast-mask-re-flags */
 					{
-#line 926 "src/libre/parser.act"
+#line 931 "src/libre/parser.act"
 
 		/*
 		 * Note: in cases like `(?i-i)`, the negative is
@@ -3119,7 +3144,7 @@ p_expr_C_Cflags(flags flags, lex_state lex_state, act_state act_state, err err,
 		*flags |= (ZIpos);
 		*flags &= ~(ZIneg);
 	
-#line 3123 "src/libre/dialect/pcre/parser.c"
+#line 3148 "src/libre/dialect/pcre/parser.c"
 					}
 					/* END OF ACTION: ast-mask-re-flags */
 					/* BEGINNING OF ACTION: ast-make-empty */
@@ -3128,10 +3153,11 @@ p_expr_C_Cflags(flags flags, lex_state lex_state, act_state act_state, err err,
 
 		(ZInode) = ast_make_expr_empty(act_state->poolp, *flags);
 		if ((ZInode) == NULL) {
+			err->e = RE_EERRNO;
 			goto ZL5;
 		}
 	
-#line 3135 "src/libre/dialect/pcre/parser.c"
+#line 3161 "src/libre/dialect/pcre/parser.c"
 					}
 					/* END OF ACTION: ast-make-empty */
 				}
@@ -3144,16 +3170,16 @@ p_expr_C_Cflags(flags flags, lex_state lex_state, act_state act_state, err err,
 					ADVANCE_LEXER;
 					/* BEGINNING OF ACTION: ast-get-re-flags */
 					{
-#line 918 "src/libre/parser.act"
+#line 923 "src/libre/parser.act"
 
 		(ZIflags) = *flags;
 	
-#line 3152 "src/libre/dialect/pcre/parser.c"
+#line 3178 "src/libre/dialect/pcre/parser.c"
 					}
 					/* END OF ACTION: ast-get-re-flags */
 					/* BEGINNING OF ACTION: ast-mask-re-flags */
 					{
-#line 926 "src/libre/parser.act"
+#line 931 "src/libre/parser.act"
 
 		/*
 		 * Note: in cases like `(?i-i)`, the negative is
@@ -3162,7 +3188,7 @@ p_expr_C_Cflags(flags flags, lex_state lex_state, act_state act_state, err err,
 		*flags |= (ZIpos);
 		*flags &= ~(ZIneg);
 	
-#line 3166 "src/libre/dialect/pcre/parser.c"
+#line 3192 "src/libre/dialect/pcre/parser.c"
 					}
 					/* END OF ACTION: ast-mask-re-flags */
 					p_expr (flags, lex_state, act_state, err, &ZIe);
@@ -3172,11 +3198,11 @@ p_expr_C_Cflags(flags flags, lex_state lex_state, act_state act_state, err err,
 					}
 					/* BEGINNING OF ACTION: ast-set-re-flags */
 					{
-#line 922 "src/libre/parser.act"
+#line 927 "src/libre/parser.act"
 
 		*flags = (ZIflags);
 	
-#line 3180 "src/libre/dialect/pcre/parser.c"
+#line 3206 "src/libre/dialect/pcre/parser.c"
 					}
 					/* END OF ACTION: ast-set-re-flags */
 					switch (CURRENT_TERMINAL) {
@@ -3204,7 +3230,7 @@ p_expr_C_Cflags(flags flags, lex_state lex_state, act_state act_state, err err,
 		}
 		goto ZL1;
 	
-#line 3208 "src/libre/dialect/pcre/parser.c"
+#line 3234 "src/libre/dialect/pcre/parser.c"
 				}
 				/* END OF ACTION: err-expected-closeflags */
 				/* BEGINNING OF ACTION: ast-make-empty */
@@ -3213,10 +3239,11 @@ p_expr_C_Cflags(flags flags, lex_state lex_state, act_state act_state, err err,
 
 		(ZInode) = ast_make_expr_empty(act_state->poolp, *flags);
 		if ((ZInode) == NULL) {
+			err->e = RE_EERRNO;
 			goto ZL1;
 		}
 	
-#line 3220 "src/libre/dialect/pcre/parser.c"
+#line 3247 "src/libre/dialect/pcre/parser.c"
 				}
 				/* END OF ACTION: ast-make-empty */
 			}
@@ -3250,7 +3277,7 @@ p_expr_C_Cpiece_C_Clist_Hof_Hcounts(flags flags, lex_state lex_state, act_state
 		}
 		/* BEGINNING OF ACTION: ast-make-piece */
 		{
-#line 897 "src/libre/parser.act"
+#line 901 "src/libre/parser.act"
 
 		if ((ZIc).min == 0 && (ZIc).max == 0) {
 			(ZInode) = ast_make_expr_empty(act_state->poolp, *flags);
@@ -3260,11 +3287,11 @@ p_expr_C_Cpiece_C_Clist_Hof_Hcounts(flags flags, lex_state lex_state, act_state
 			(ZInode) = ast_make_expr_repeat(act_state->poolp, *flags, (ZIe), (ZIc));
 		}
 		if ((ZInode) == NULL) {
-			err->e = RE_EXEOF;
+			err->e = RE_EERRNO;
 			goto ZL1;
 		}
 	
-#line 3268 "src/libre/dialect/pcre/parser.c"
+#line 3295 "src/libre/dialect/pcre/parser.c"
 		}
 		/* END OF ACTION: ast-make-piece */
 		/* BEGINNING OF INLINE: 264 */
@@ -3282,7 +3309,7 @@ p_expr_C_Cpiece_C_Clist_Hof_Hcounts(flags flags, lex_state lex_state, act_state
 		}
 		goto ZL1;
 	
-#line 3286 "src/libre/dialect/pcre/parser.c"
+#line 3313 "src/libre/dialect/pcre/parser.c"
 					}
 					/* END OF ACTION: err-unsupported */
 				}
@@ -3299,7 +3326,7 @@ p_expr_C_Cpiece_C_Clist_Hof_Hcounts(flags flags, lex_state lex_state, act_state
 		}
 		goto ZL1;
 	
-#line 3303 "src/libre/dialect/pcre/parser.c"
+#line 3330 "src/libre/dialect/pcre/parser.c"
 					}
 					/* END OF ACTION: err-unsupported */
 				}
@@ -3398,7 +3425,7 @@ p_class_Hnamed(flags flags, lex_state lex_state, act_state act_state, err err, t
 		(void) ZIstart;
 		(void) ZIend;
 	
-#line 3402 "src/libre/dialect/pcre/parser.c"
+#line 3429 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF EXTRACT: NAMED_CLASS */
 			break;
@@ -3408,14 +3435,15 @@ p_class_Hnamed(flags flags, lex_state lex_state, act_state act_state, err err, t
 		ADVANCE_LEXER;
 		/* BEGINNING OF ACTION: ast-make-named */
 		{
-#line 1033 "src/libre/parser.act"
+#line 1045 "src/libre/parser.act"
 
 		(ZInode) = ast_make_expr_named(act_state->poolp, *flags, (ZIid));
 		if ((ZInode) == NULL) {
+			err->e = RE_EERRNO;
 			goto ZL1;
 		}
 	
-#line 3419 "src/libre/dialect/pcre/parser.c"
+#line 3447 "src/libre/dialect/pcre/parser.c"
 		}
 		/* END OF ACTION: ast-make-named */
 	}
@@ -3439,14 +3467,15 @@ p_209(flags flags, lex_state lex_state, act_state act_state, err err, t_pos *ZIs
 		{
 			/* BEGINNING OF ACTION: ast-make-literal */
 			{
-#line 874 "src/libre/parser.act"
+#line 877 "src/libre/parser.act"
 
 		(ZInode1) = ast_make_expr_literal(act_state->poolp, *flags, (*ZIcbrak));
 		if ((ZInode1) == NULL) {
+			err->e = RE_EERRNO;
 			goto ZL1;
 		}
 	
-#line 3450 "src/libre/dialect/pcre/parser.c"
+#line 3479 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF ACTION: ast-make-literal */
 		}
@@ -3468,7 +3497,7 @@ p_209(flags flags, lex_state lex_state, act_state act_state, err err, t_pos *ZIs
 		(ZIr).type = AST_ENDPOINT_LITERAL;
 		(ZIr).u.literal.c = (unsigned char) (*ZIcbrak);
 	
-#line 3472 "src/libre/dialect/pcre/parser.c"
+#line 3501 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF ACTION: ast-range-endpoint-literal */
 			/* BEGINNING OF EXTRACT: RANGE */
@@ -3483,7 +3512,7 @@ p_209(flags flags, lex_state lex_state, act_state act_state, err err, t_pos *ZIs
 		(void) ZI211;
 		(void) ZI212;
 	
-#line 3487 "src/libre/dialect/pcre/parser.c"
+#line 3516 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF EXTRACT: RANGE */
 			ADVANCE_LEXER;
@@ -3499,12 +3528,12 @@ p_209(flags flags, lex_state lex_state, act_state act_state, err err, t_pos *ZIs
 		(ZIlower).type = AST_ENDPOINT_LITERAL;
 		(ZIlower).u.literal.c = (unsigned char) (*ZIcbrak);
 	
-#line 3503 "src/libre/dialect/pcre/parser.c"
+#line 3532 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF ACTION: ast-range-endpoint-literal */
 			/* BEGINNING OF ACTION: ast-make-range */
 			{
-#line 1004 "src/libre/parser.act"
+#line 1015 "src/libre/parser.act"
 
 		unsigned char lower, upper;
 
@@ -3530,10 +3559,11 @@ p_209(flags flags, lex_state lex_state, act_state act_state, err err, t_pos *ZIs
 
 		(ZInode1) = ast_make_expr_range(act_state->poolp, *flags, &(ZIlower), &(ZIupper));
 		if ((ZInode1) == NULL) {
+			err->e = RE_EERRNO;
 			goto ZL1;
 		}
 	
-#line 3537 "src/libre/dialect/pcre/parser.c"
+#line 3567 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF ACTION: ast-make-range */
 		}
@@ -3566,13 +3596,14 @@ ZL2_expr_C_Clist_Hof_Halts:;
 		}
 		/* BEGINNING OF ACTION: ast-add-alt */
 		{
-#line 1046 "src/libre/parser.act"
+#line 1060 "src/libre/parser.act"
 
 		if (!ast_add_expr_alt((ZIalts), (ZIa))) {
+			err->e = RE_EERRNO;
 			goto ZL1;
 		}
 	
-#line 3576 "src/libre/dialect/pcre/parser.c"
+#line 3607 "src/libre/dialect/pcre/parser.c"
 		}
 		/* END OF ACTION: ast-add-alt */
 		/* BEGINNING OF INLINE: 278 */
@@ -3604,7 +3635,7 @@ ZL1:;
 		}
 		goto ZL4;
 	
-#line 3608 "src/libre/dialect/pcre/parser.c"
+#line 3639 "src/libre/dialect/pcre/parser.c"
 		}
 		/* END OF ACTION: err-expected-alts */
 	}
@@ -3637,7 +3668,7 @@ p_expr_C_Cpiece_C_Ccount(flags flags, lex_state lex_state, act_state act_state,
 		(void) ZI318;
 		(void) ZI319;
 	
-#line 3641 "src/libre/dialect/pcre/parser.c"
+#line 3672 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF EXTRACT: OPENCOUNT */
 			ADVANCE_LEXER;
@@ -3665,7 +3696,7 @@ p_expr_C_Cpiece_C_Ccount(flags flags, lex_state lex_state, act_state act_state,
 
 		ZIm = (unsigned int) u;
 	
-#line 3669 "src/libre/dialect/pcre/parser.c"
+#line 3700 "src/libre/dialect/pcre/parser.c"
 				}
 				/* END OF EXTRACT: COUNT */
 				break;
@@ -3689,7 +3720,7 @@ p_expr_C_Cpiece_C_Ccount(flags flags, lex_state lex_state, act_state act_state,
 
 		(ZIc) = ast_make_count(0, 1);
 	
-#line 3693 "src/libre/dialect/pcre/parser.c"
+#line 3724 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF ACTION: count-zero-or-one */
 		}
@@ -3703,7 +3734,7 @@ p_expr_C_Cpiece_C_Ccount(flags flags, lex_state lex_state, act_state act_state,
 
 		(ZIc) = ast_make_count(1, AST_COUNT_UNBOUNDED);
 	
-#line 3707 "src/libre/dialect/pcre/parser.c"
+#line 3738 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF ACTION: count-one-or-more */
 		}
@@ -3717,7 +3748,7 @@ p_expr_C_Cpiece_C_Ccount(flags flags, lex_state lex_state, act_state act_state,
 
 		(ZIc) = ast_make_count(0, AST_COUNT_UNBOUNDED);
 	
-#line 3721 "src/libre/dialect/pcre/parser.c"
+#line 3752 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF ACTION: count-zero-or-more */
 		}
@@ -3739,7 +3770,7 @@ ZL1:;
 		}
 		goto ZL2;
 	
-#line 3743 "src/libre/dialect/pcre/parser.c"
+#line 3774 "src/libre/dialect/pcre/parser.c"
 		}
 		/* END OF ACTION: err-expected-count */
 		/* BEGINNING OF ACTION: count-one */
@@ -3748,7 +3779,7 @@ ZL1:;
 
 		(ZIc) = ast_make_count(1, 1);
 	
-#line 3752 "src/libre/dialect/pcre/parser.c"
+#line 3783 "src/libre/dialect/pcre/parser.c"
 		}
 		/* END OF ACTION: count-one */
 	}
@@ -3774,11 +3805,11 @@ p_re__pcre(flags flags, lex_state lex_state, act_state act_state, err err, t_ast
 
 		/* BEGINNING OF ACTION: make-group-id */
 		{
-#line 881 "src/libre/parser.act"
+#line 885 "src/libre/parser.act"
 
 		(ZIid) = act_state->group_id++;
 	
-#line 3782 "src/libre/dialect/pcre/parser.c"
+#line 3813 "src/libre/dialect/pcre/parser.c"
 		}
 		/* END OF ACTION: make-group-id */
 		p_expr (flags, lex_state, act_state, err, &ZIe);
@@ -3788,14 +3819,15 @@ p_re__pcre(flags flags, lex_state lex_state, act_state act_state, err err, t_ast
 		}
 		/* BEGINNING OF ACTION: ast-make-group */
 		{
-#line 911 "src/libre/parser.act"
+#line 915 "src/libre/parser.act"
 
 		(ZInode) = ast_make_expr_group(act_state->poolp, *flags, (ZIe), (ZIid));
 		if ((ZInode) == NULL) {
+			err->e = RE_EERRNO;
 			goto ZL1;
 		}
 	
-#line 3799 "src/libre/dialect/pcre/parser.c"
+#line 3831 "src/libre/dialect/pcre/parser.c"
 		}
 		/* END OF ACTION: ast-make-group */
 		/* BEGINNING OF INLINE: 280 */
@@ -3821,7 +3853,7 @@ p_re__pcre(flags flags, lex_state lex_state, act_state act_state, err err, t_ast
 		}
 		goto ZL1;
 	
-#line 3825 "src/libre/dialect/pcre/parser.c"
+#line 3857 "src/libre/dialect/pcre/parser.c"
 				}
 				/* END OF ACTION: err-expected-eof */
 			}
@@ -3855,19 +3887,20 @@ p_expr_C_Cpiece_C_Catom(flags flags, lex_state lex_state, act_state act_state, e
 		/* TODO: or the unicode equivalent */
 		(ZIa) = (*flags & RE_SINGLE) ? &class_any : &class_notnl;
 	
-#line 3859 "src/libre/dialect/pcre/parser.c"
+#line 3891 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF ACTION: class-any */
 			/* BEGINNING OF ACTION: ast-make-named */
 			{
-#line 1033 "src/libre/parser.act"
+#line 1045 "src/libre/parser.act"
 
 		(ZIe) = ast_make_expr_named(act_state->poolp, *flags, (ZIa));
 		if ((ZIe) == NULL) {
+			err->e = RE_EERRNO;
 			goto ZL1;
 		}
 	
-#line 3871 "src/libre/dialect/pcre/parser.c"
+#line 3904 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF ACTION: ast-make-named */
 		}
@@ -3877,14 +3910,15 @@ p_expr_C_Cpiece_C_Catom(flags flags, lex_state lex_state, act_state act_state, e
 			ADVANCE_LEXER;
 			/* BEGINNING OF ACTION: ast-make-anchor-end */
 			{
-#line 942 "src/libre/parser.act"
+#line 948 "src/libre/parser.act"
 
 		(ZIe) = ast_make_expr_anchor(act_state->poolp, *flags, AST_ANCHOR_END);
 		if ((ZIe) == NULL) {
+			err->e = RE_EERRNO;
 			goto ZL1;
 		}
 	
-#line 3888 "src/libre/dialect/pcre/parser.c"
+#line 3922 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF ACTION: ast-make-anchor-end */
 		}
@@ -3894,17 +3928,18 @@ p_expr_C_Cpiece_C_Catom(flags flags, lex_state lex_state, act_state act_state, e
 			ADVANCE_LEXER;
 			/* BEGINNING OF ACTION: ast-make-anchor-end-nl */
 			{
-#line 949 "src/libre/parser.act"
+#line 956 "src/libre/parser.act"
 
 		(ZIe) = ast_make_expr_anchor(act_state->poolp, *flags, AST_ANCHOR_END);
 		if ((ZIe) == NULL) {
+			err->e = RE_EERRNO;
 			goto ZL1;
 		}
 		if (!(*flags & RE_ANCHORED)) {
 			(ZIe)->u.anchor.is_end_nl = 1;
 		}
 	
-#line 3908 "src/libre/dialect/pcre/parser.c"
+#line 3943 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF ACTION: ast-make-anchor-end-nl */
 		}
@@ -3927,129 +3962,138 @@ p_expr_C_Cpiece_C_Catom(flags flags, lex_state lex_state, act_state act_state, e
 		/* TODO: or the unicode equivalent */
 		(ZIclass__bsr) = &class_bsr;
 	
-#line 3931 "src/libre/dialect/pcre/parser.c"
+#line 3966 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF ACTION: class-bsr */
 			/* BEGINNING OF ACTION: ast-make-named */
 			{
-#line 1033 "src/libre/parser.act"
+#line 1045 "src/libre/parser.act"
 
 		(ZIbsr) = ast_make_expr_named(act_state->poolp, *flags, (ZIclass__bsr));
 		if ((ZIbsr) == NULL) {
+			err->e = RE_EERRNO;
 			goto ZL1;
 		}
 	
-#line 3943 "src/libre/dialect/pcre/parser.c"
+#line 3979 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF ACTION: ast-make-named */
 			/* BEGINNING OF ACTION: ast-make-concat */
 			{
-#line 860 "src/libre/parser.act"
+#line 861 "src/libre/parser.act"
 
 		(ZIcrlf) = ast_make_expr_concat(act_state->poolp, *flags);
 		if ((ZIcrlf) == NULL) {
+			err->e = RE_EERRNO;
 			goto ZL1;
 		}
 	
-#line 3955 "src/libre/dialect/pcre/parser.c"
+#line 3992 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF ACTION: ast-make-concat */
 			/* BEGINNING OF ACTION: make-literal-cr */
 			{
-#line 889 "src/libre/parser.act"
+#line 893 "src/libre/parser.act"
 
 		(ZIcr) = '\r';
 	
-#line 3964 "src/libre/dialect/pcre/parser.c"
+#line 4001 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF ACTION: make-literal-cr */
 			/* BEGINNING OF ACTION: ast-make-literal */
 			{
-#line 874 "src/libre/parser.act"
+#line 877 "src/libre/parser.act"
 
 		(ZIecr) = ast_make_expr_literal(act_state->poolp, *flags, (ZIcr));
 		if ((ZIecr) == NULL) {
+			err->e = RE_EERRNO;
 			goto ZL1;
 		}
 	
-#line 3976 "src/libre/dialect/pcre/parser.c"
+#line 4014 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF ACTION: ast-make-literal */
 			/* BEGINNING OF ACTION: make-literal-nl */
 			{
-#line 893 "src/libre/parser.act"
+#line 897 "src/libre/parser.act"
 
 		(ZInl) = '\n';
 	
-#line 3985 "src/libre/dialect/pcre/parser.c"
+#line 4023 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF ACTION: make-literal-nl */
 			/* BEGINNING OF ACTION: ast-make-literal */
 			{
-#line 874 "src/libre/parser.act"
+#line 877 "src/libre/parser.act"
 
 		(ZIenl) = ast_make_expr_literal(act_state->poolp, *flags, (ZInl));
 		if ((ZIenl) == NULL) {
+			err->e = RE_EERRNO;
 			goto ZL1;
 		}
 	
-#line 3997 "src/libre/dialect/pcre/parser.c"
+#line 4036 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF ACTION: ast-make-literal */
 			/* BEGINNING OF ACTION: ast-add-concat */
 			{
-#line 1040 "src/libre/parser.act"
+#line 1053 "src/libre/parser.act"
 
 		if (!ast_add_expr_concat((ZIcrlf), (ZIecr))) {
+			err->e = RE_EERRNO;
 			goto ZL1;
 		}
 	
-#line 4008 "src/libre/dialect/pcre/parser.c"
+#line 4048 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF ACTION: ast-add-concat */
 			/* BEGINNING OF ACTION: ast-add-concat */
 			{
-#line 1040 "src/libre/parser.act"
+#line 1053 "src/libre/parser.act"
 
 		if (!ast_add_expr_concat((ZIcrlf), (ZIenl))) {
+			err->e = RE_EERRNO;
 			goto ZL1;
 		}
 	
-#line 4019 "src/libre/dialect/pcre/parser.c"
+#line 4060 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF ACTION: ast-add-concat */
 			/* BEGINNING OF ACTION: ast-make-alt */
 			{
-#line 867 "src/libre/parser.act"
+#line 869 "src/libre/parser.act"
 
 		(ZIe) = ast_make_expr_alt(act_state->poolp, *flags);
 		if ((ZIe) == NULL) {
+			err->e = RE_EERRNO;
 			goto ZL1;
 		}
 	
-#line 4031 "src/libre/dialect/pcre/parser.c"
+#line 4073 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF ACTION: ast-make-alt */
 			/* BEGINNING OF ACTION: ast-add-alt */
 			{
-#line 1046 "src/libre/parser.act"
+#line 1060 "src/libre/parser.act"
 
 		if (!ast_add_expr_alt((ZIe), (ZIcrlf))) {
+			err->e = RE_EERRNO;
 			goto ZL1;
 		}
 	
-#line 4042 "src/libre/dialect/pcre/parser.c"
+#line 4085 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF ACTION: ast-add-alt */
 			/* BEGINNING OF ACTION: ast-add-alt */
 			{
-#line 1046 "src/libre/parser.act"
+#line 1060 "src/libre/parser.act"
 
 		if (!ast_add_expr_alt((ZIe), (ZIbsr))) {
+			err->e = RE_EERRNO;
 			goto ZL1;
 		}
 	
-#line 4053 "src/libre/dialect/pcre/parser.c"
+#line 4097 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF ACTION: ast-add-alt */
 		}
@@ -4063,20 +4107,20 @@ p_expr_C_Cpiece_C_Catom(flags flags, lex_state lex_state, act_state act_state, e
 			ADVANCE_LEXER;
 			/* BEGINNING OF ACTION: ast-get-re-flags */
 			{
-#line 918 "src/libre/parser.act"
+#line 923 "src/libre/parser.act"
 
 		(ZIflags) = *flags;
 	
-#line 4071 "src/libre/dialect/pcre/parser.c"
+#line 4115 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF ACTION: ast-get-re-flags */
 			/* BEGINNING OF ACTION: make-group-id */
 			{
-#line 881 "src/libre/parser.act"
+#line 885 "src/libre/parser.act"
 
 		(ZIid) = act_state->group_id++;
 	
-#line 4080 "src/libre/dialect/pcre/parser.c"
+#line 4124 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF ACTION: make-group-id */
 			p_expr (flags, lex_state, act_state, err, &ZIg);
@@ -4086,23 +4130,24 @@ p_expr_C_Cpiece_C_Catom(flags flags, lex_state lex_state, act_state act_state, e
 			}
 			/* BEGINNING OF ACTION: ast-set-re-flags */
 			{
-#line 922 "src/libre/parser.act"
+#line 927 "src/libre/parser.act"
 
 		*flags = (ZIflags);
 	
-#line 4094 "src/libre/dialect/pcre/parser.c"
+#line 4138 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF ACTION: ast-set-re-flags */
 			/* BEGINNING OF ACTION: ast-make-group */
 			{
-#line 911 "src/libre/parser.act"
+#line 915 "src/libre/parser.act"
 
 		(ZIe) = ast_make_expr_group(act_state->poolp, *flags, (ZIg), (ZIid));
 		if ((ZIe) == NULL) {
+			err->e = RE_EERRNO;
 			goto ZL1;
 		}
 	
-#line 4106 "src/libre/dialect/pcre/parser.c"
+#line 4151 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF ACTION: ast-make-group */
 			switch (CURRENT_TERMINAL) {
@@ -4119,14 +4164,15 @@ p_expr_C_Cpiece_C_Catom(flags flags, lex_state lex_state, act_state act_state, e
 			ADVANCE_LEXER;
 			/* BEGINNING OF ACTION: ast-make-anchor-start */
 			{
-#line 935 "src/libre/parser.act"
+#line 940 "src/libre/parser.act"
 
 		(ZIe) = ast_make_expr_anchor(act_state->poolp, *flags, AST_ANCHOR_START);
 		if ((ZIe) == NULL) {
+			err->e = RE_EERRNO;
 			goto ZL1;
 		}
 	
-#line 4130 "src/libre/dialect/pcre/parser.c"
+#line 4176 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF ACTION: ast-make-anchor-start */
 		}
@@ -4185,7 +4231,7 @@ ZL1:;
 		}
 		goto ZL2;
 	
-#line 4189 "src/libre/dialect/pcre/parser.c"
+#line 4235 "src/libre/dialect/pcre/parser.c"
 		}
 		/* END OF ACTION: err-expected-atom */
 		/* BEGINNING OF ACTION: ast-make-empty */
@@ -4194,10 +4240,11 @@ ZL1:;
 
 		(ZIe) = ast_make_expr_empty(act_state->poolp, *flags);
 		if ((ZIe) == NULL) {
+			err->e = RE_EERRNO;
 			goto ZL2;
 		}
 	
-#line 4201 "src/libre/dialect/pcre/parser.c"
+#line 4248 "src/libre/dialect/pcre/parser.c"
 		}
 		/* END OF ACTION: ast-make-empty */
 	}
@@ -4223,14 +4270,15 @@ p_expr_C_Calt(flags flags, lex_state lex_state, act_state act_state, err err, t_
 		{
 			/* BEGINNING OF ACTION: ast-make-concat */
 			{
-#line 860 "src/libre/parser.act"
+#line 861 "src/libre/parser.act"
 
 		(ZInode) = ast_make_expr_concat(act_state->poolp, *flags);
 		if ((ZInode) == NULL) {
+			err->e = RE_EERRNO;
 			goto ZL1;
 		}
 	
-#line 4234 "src/libre/dialect/pcre/parser.c"
+#line 4282 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF ACTION: ast-make-concat */
 			p_expr_C_Clist_Hof_Hpieces (flags, lex_state, act_state, err, ZInode);
@@ -4248,10 +4296,11 @@ p_expr_C_Calt(flags flags, lex_state lex_state, act_state act_state, err err, t_
 
 		(ZInode) = ast_make_expr_empty(act_state->poolp, *flags);
 		if ((ZInode) == NULL) {
+			err->e = RE_EERRNO;
 			goto ZL1;
 		}
 	
-#line 4255 "src/libre/dialect/pcre/parser.c"
+#line 4304 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF ACTION: ast-make-empty */
 		}
@@ -4287,25 +4336,27 @@ p_expr_C_Ctype(flags flags, lex_state lex_state, act_state act_state, err err, t
 		}
 		/* BEGINNING OF ACTION: ast-make-alt */
 		{
-#line 867 "src/libre/parser.act"
+#line 869 "src/libre/parser.act"
 
 		(ZInode) = ast_make_expr_alt(act_state->poolp, *flags);
 		if ((ZInode) == NULL) {
+			err->e = RE_EERRNO;
 			goto ZL1;
 		}
 	
-#line 4298 "src/libre/dialect/pcre/parser.c"
+#line 4348 "src/libre/dialect/pcre/parser.c"
 		}
 		/* END OF ACTION: ast-make-alt */
 		/* BEGINNING OF ACTION: ast-add-alt */
 		{
-#line 1046 "src/libre/parser.act"
+#line 1060 "src/libre/parser.act"
 
 		if (!ast_add_expr_alt((ZInode), (ZIclass))) {
+			err->e = RE_EERRNO;
 			goto ZL1;
 		}
 	
-#line 4309 "src/libre/dialect/pcre/parser.c"
+#line 4360 "src/libre/dialect/pcre/parser.c"
 		}
 		/* END OF ACTION: ast-add-alt */
 	}
@@ -4319,7 +4370,7 @@ ZL0:;
 
 /* BEGINNING OF TRAILER */
 
-#line 1052 "src/libre/parser.act"
+#line 1067 "src/libre/parser.act"
 
 
 	static int
@@ -4416,6 +4467,11 @@ ZL0:;
 
 		lx->free(lx->buf_opaque);
 
+		if (lx->push_failed) {
+			/* a token couldn't be stored; that isn't about syntax */
+			err->e = RE_EERRNO;
+		}
+
 		if (err->e != RE_ESUCCESS) {
 			/* TODO: free internals allocated during parsing (are there any?) */
 			goto error;
@@ -4479,6 +4535,6 @@ ZL0:;
 		return NULL;
 	}
 
-#line 4483 "src/libre/dialect/pcre/parser.c"
+#line 4539 "src/libre/dialect/pcre/parser.c"
 
 /* END OF FILE */
diff --git a/src/libre/dialect/sql/lexer.c b/src/libre/dialect/sql/lexer.c
index 905e02d..ed30bff 100644
--- a/src/libre/dialect/sql/lexer.c
+++ b/src/libre/dialect/sql/lexer.c
@@ -876,6 +876,7 @@ lx_sql_next(struct lx_sql_lx *lx)
 
 	if (lx->push != NULL) {
 		if (-1 == lx->push(lx->buf_opaque, '\0')) {
+			lx->push_failed = 1;
 			return TOK_ERROR;
 		}
 	}
diff --git a/src/libre/dialect/sql/parser.c b/src/libre/dialect/sql/parser.c
index 115fa6d..0876220 100644
--- a/src/libre/dialect/sql/parser.c
+++ b/src/libre/dialect/sql/parser.c
@@ -353,25 +353,27 @@ p_expr_C_Ccharacter_Hclass_C_Cclass_Hhead(flags flags, lex_state lex_state, act_
 			ADVANCE_LEXER;
 			/* BEGINNING OF ACTION: ast-make-literal */
 			{
-#line 874 "src/libre/parser.act"
+#line 877 "src/libre/parser.act"
 
 		(ZInode) = ast_make_expr_literal(act_state->poolp, *flags, (ZIc));
 		if ((ZInode) == NULL) {
+			err->e = RE_EERRNO;
 			goto ZL1;
 		}
 	
-#line 364 "src/libre/dialect/sql/parser.c"
+#line 365 "src/libre/dialect/sql/parser.c"
 			}
 			/* END OF ACTION: ast-make-literal */
 			/* BEGINNING OF ACTION: ast-add-alt */
 			{
-#line 1046 "src/libre/parser.act"
+#line 1060 "src/libre/parser.act"
 
 		if (!ast_add_expr_alt((*ZIclass), (ZInode))) {
+			err->e = RE_EERRNO;
 			goto ZL1;
 		}
 	
-#line 375 "src/libre/dialect/sql/parser.c"
+#line 377 "src/libre/dialect/sql/parser.c"
 			}
 			/* END OF ACTION: ast-add-alt */
 		}
@@ -401,11 +403,11 @@ p_re__sql(flags flags, lex_state lex_state, act_state act_state, err err, t_ast_
 
 		/* BEGINNING OF ACTION: make-group-id */
 		{
-#line 881 "src/libre/parser.act"
+#line 885 "src/libre/parser.act"
 
 		(ZIid) = act_state->group_id++;
 	
-#line 409 "src/libre/dialect/sql/parser.c"
+#line 411 "src/libre/dialect/sql/parser.c"
 		}
 		/* END OF ACTION: make-group-id */
 		p_expr (flags, lex_state, act_state, err, &ZIe);
@@ -415,14 +417,15 @@ p_re__sql(flags flags, lex_state lex_state, act_state act_state, err err, t_ast_
 		}
 		/* BEGINNING OF ACTION: ast-make-group */
 		{
-#line 911 "src/libre/parser.act"
+#line 915 "src/libre/parser.act"
 
 		(ZInode) = ast_make_expr_group(act_state->poolp, *flags, (ZIe), (ZIid));
 		if ((ZInode) == NULL) {
+			err->e = RE_EERRNO;
 			goto ZL1;
 		}
 	
-#line 426 "src/libre/dialect/sql/parser.c"
+#line 429 "src/libre/dialect/sql/parser.c"
 		}
 		/* END OF ACTION: ast-make-group */
 		/* BEGINNING OF INLINE: 191 */
@@ -448,7 +451,7 @@ p_re__sql(flags flags, lex_state lex_state, act_state act_state, err err, t_ast_
 		}
 		goto ZL1;
 	
-#line 452 "src/libre/dialect/sql/parser.c"
+#line 455 "src/libre/dialect/sql/parser.c"
 				}
 				/* END OF ACTION: err-expected-eof */
 			}
@@ -484,13 +487,14 @@ ZL2_expr_C_Ccharacter_Hclass_C_Clist_Hof_Hclass_Hterms:;
 				}
 				/* BEGINNING OF ACTION: ast-add-alt */
 				{
-#line 1046 "src/libre/parser.act"
+#line 1060 "src/libre/parser.act"
 
 		if (!ast_add_expr_alt((ZIclass), (ZInode))) {
+			err->e = RE_EERRNO;
 			goto ZL4;
 		}
 	
-#line 494 "src/libre/dialect/sql/parser.c"
+#line 498 "src/libre/dialect/sql/parser.c"
 				}
 				/* END OF ACTION: ast-add-alt */
 			}
@@ -506,7 +510,7 @@ ZL2_expr_C_Ccharacter_Hclass_C_Clist_Hof_Hclass_Hterms:;
 		}
 		goto ZL1;
 	
-#line 510 "src/libre/dialect/sql/parser.c"
+#line 514 "src/libre/dialect/sql/parser.c"
 				}
 				/* END OF ACTION: err-expected-term */
 			}
@@ -560,13 +564,14 @@ ZL2_expr_C_Clist_Hof_Hpieces:;
 		}
 		/* BEGINNING OF ACTION: ast-add-concat */
 		{
-#line 1040 "src/libre/parser.act"
+#line 1053 "src/libre/parser.act"
 
 		if (!ast_add_expr_concat((ZIcat), (ZIa))) {
+			err->e = RE_EERRNO;
 			goto ZL1;
 		}
 	
-#line 570 "src/libre/dialect/sql/parser.c"
+#line 575 "src/libre/dialect/sql/parser.c"
 		}
 		/* END OF ACTION: ast-add-concat */
 		/* BEGINNING OF INLINE: 183 */
@@ -619,7 +624,7 @@ p_expr_C_Ccharacter_Hclass_C_Cclass_Hterm(flags flags, lex_state lex_state, act_
 
 		ZI205 = lex_state->buf.a[0];
 	
-#line 623 "src/libre/dialect/sql/parser.c"
+#line 628 "src/libre/dialect/sql/parser.c"
 			}
 			/* END OF EXTRACT: CHAR */
 			ADVANCE_LEXER;
@@ -678,7 +683,7 @@ p_expr_C_Ccharacter_Hclass(flags flags, lex_state lex_state, act_state act_state
 		(void) ZIopen__start;
 		(void) ZIopen__end;
 	
-#line 682 "src/libre/dialect/sql/parser.c"
+#line 687 "src/libre/dialect/sql/parser.c"
 			}
 			/* END OF EXTRACT: OPENGROUP */
 			break;
@@ -688,14 +693,15 @@ p_expr_C_Ccharacter_Hclass(flags flags, lex_state lex_state, act_state act_state
 		ADVANCE_LEXER;
 		/* BEGINNING OF ACTION: ast-make-alt */
 		{
-#line 867 "src/libre/parser.act"
+#line 869 "src/libre/parser.act"
 
 		(ZIclass) = ast_make_expr_alt(act_state->poolp, *flags);
 		if ((ZIclass) == NULL) {
+			err->e = RE_EERRNO;
 			goto ZL1;
 		}
 	
-#line 699 "src/libre/dialect/sql/parser.c"
+#line 705 "src/libre/dialect/sql/parser.c"
 		}
 		/* END OF ACTION: ast-make-alt */
 		ZItmp = ZIclass;
@@ -723,7 +729,7 @@ p_expr_C_Ccharacter_Hclass(flags flags, lex_state lex_state, act_state act_state
 		(void) ZIclose__start;
 		(void) ZIclose__end;
 	
-#line 727 "src/libre/dialect/sql/parser.c"
+#line 733 "src/libre/dialect/sql/parser.c"
 					}
 					/* END OF EXTRACT: CLOSEGROUP */
 					ADVANCE_LEXER;
@@ -734,7 +740,7 @@ p_expr_C_Ccharacter_Hclass(flags flags, lex_state lex_state, act_state act_state
 		mark(&act_state->groupstart, &(ZIopen__start));
 		mark(&act_state->groupend,   &(ZIclose__end));
 	
-#line 738 "src/libre/dialect/sql/parser.c"
+#line 744 "src/libre/dialect/sql/parser.c"
 					}
 					/* END OF ACTION: mark-group */
 					ZInode = ZIclass;
@@ -754,20 +760,21 @@ p_expr_C_Ccharacter_Hclass(flags flags, lex_state lex_state, act_state act_state
 
 		(void) ZI158;
 	
-#line 758 "src/libre/dialect/sql/parser.c"
+#line 764 "src/libre/dialect/sql/parser.c"
 					}
 					/* END OF EXTRACT: INVERT */
 					ADVANCE_LEXER;
 					/* BEGINNING OF ACTION: ast-make-alt */
 					{
-#line 867 "src/libre/parser.act"
+#line 869 "src/libre/parser.act"
 
 		(ZImask) = ast_make_expr_alt(act_state->poolp, *flags);
 		if ((ZImask) == NULL) {
+			err->e = RE_EERRNO;
 			goto ZL3;
 		}
 	
-#line 771 "src/libre/dialect/sql/parser.c"
+#line 778 "src/libre/dialect/sql/parser.c"
 					}
 					/* END OF ACTION: ast-make-alt */
 					ZImask__tmp = ZImask;
@@ -799,7 +806,7 @@ p_expr_C_Ccharacter_Hclass(flags flags, lex_state lex_state, act_state act_state
 		(void) ZIclose__start;
 		(void) ZIclose__end;
 	
-#line 803 "src/libre/dialect/sql/parser.c"
+#line 810 "src/libre/dialect/sql/parser.c"
 								}
 								/* END OF EXTRACT: CLOSEGROUP */
 								break;
@@ -814,7 +821,7 @@ p_expr_C_Ccharacter_Hclass(flags flags, lex_state lex_state, act_state act_state
 		mark(&act_state->groupstart, &(ZIopen__start));
 		mark(&act_state->groupend,   &(ZIclose__end));
 	
-#line 818 "src/libre/dialect/sql/parser.c"
+#line 825 "src/libre/dialect/sql/parser.c"
 							}
 							/* END OF ACTION: mark-group */
 						}
@@ -830,7 +837,7 @@ p_expr_C_Ccharacter_Hclass(flags flags, lex_state lex_state, act_state act_state
 		}
 		goto ZL3;
 	
-#line 834 "src/libre/dialect/sql/parser.c"
+#line 841 "src/libre/dialect/sql/parser.c"
 							}
 							/* END OF ACTION: err-expected-closegroup */
 						}
@@ -839,14 +846,15 @@ p_expr_C_Ccharacter_Hclass(flags flags, lex_state lex_state, act_state act_state
 					/* END OF INLINE: 162 */
 					/* BEGINNING OF ACTION: ast-make-subtract */
 					{
-#line 959 "src/libre/parser.act"
+#line 967 "src/libre/parser.act"
 
 		(ZInode) = ast_make_expr_subtract(act_state->poolp, *flags, (ZIclass), (ZImask));
 		if ((ZInode) == NULL) {
+			err->e = RE_EERRNO;
 			goto ZL3;
 		}
 	
-#line 850 "src/libre/dialect/sql/parser.c"
+#line 858 "src/libre/dialect/sql/parser.c"
 					}
 					/* END OF ACTION: ast-make-subtract */
 				}
@@ -869,7 +877,7 @@ p_expr_C_Ccharacter_Hclass(flags flags, lex_state lex_state, act_state act_state
 		}
 		goto ZL1;
 	
-#line 873 "src/libre/dialect/sql/parser.c"
+#line 881 "src/libre/dialect/sql/parser.c"
 				}
 				/* END OF ACTION: err-expected-closegroup */
 				/* BEGINNING OF ACTION: ast-make-empty */
@@ -878,10 +886,11 @@ p_expr_C_Ccharacter_Hclass(flags flags, lex_state lex_state, act_state act_state
 
 		(ZInode) = ast_make_expr_empty(act_state->poolp, *flags);
 		if ((ZInode) == NULL) {
+			err->e = RE_EERRNO;
 			goto ZL1;
 		}
 	
-#line 885 "src/libre/dialect/sql/parser.c"
+#line 894 "src/libre/dialect/sql/parser.c"
 				}
 				/* END OF ACTION: ast-make-empty */
 			}
@@ -917,7 +926,7 @@ p_expr_C_Cpiece(flags flags, lex_state lex_state, act_state act_state, err err,
 		}
 		/* BEGINNING OF ACTION: ast-make-piece */
 		{
-#line 897 "src/libre/parser.act"
+#line 901 "src/libre/parser.act"
 
 		if ((ZIc).min == 0 && (ZIc).max == 0) {
 			(ZInode) = ast_make_expr_empty(act_state->poolp, *flags);
@@ -927,11 +936,11 @@ p_expr_C_Cpiece(flags flags, lex_state lex_state, act_state act_state, err err,
 			(ZInode) = ast_make_expr_repeat(act_state->poolp, *flags, (ZIe), (ZIc));
 		}
 		if ((ZInode) == NULL) {
-			err->e = RE_EXEOF;
+			err->e = RE_EERRNO;
 			goto ZL1;
 		}
 	
-#line 935 "src/libre/dialect/sql/parser.c"
+#line 944 "src/libre/dialect/sql/parser.c"
 		}
 		/* END OF ACTION: ast-make-piece */
 	}
@@ -954,14 +963,15 @@ p_expr(flags flags, lex_state lex_state, act_state act_state, err err, t_ast__ex
 	{
 		/* BEGINNING OF ACTION: ast-make-alt */
 		{
-#line 867 "src/libre/parser.act"
+#line 869 "src/libre/parser.act"
 
 		(ZInode) = ast_make_expr_alt(act_state->poolp, *flags);
 		if ((ZInode) == NULL) {
+			err->e = RE_EERRNO;
 			goto ZL1;
 		}
 	
-#line 965 "src/libre/dialect/sql/parser.c"
+#line 975 "src/libre/dialect/sql/parser.c"
 		}
 		/* END OF ACTION: ast-make-alt */
 		p_expr_C_Clist_Hof_Halts (flags, lex_state, act_state, err, ZInode);
@@ -982,7 +992,7 @@ ZL1:;
 		}
 		goto ZL2;
 	
-#line 986 "src/libre/dialect/sql/parser.c"
+#line 996 "src/libre/dialect/sql/parser.c"
 		}
 		/* END OF ACTION: err-expected-alts */
 		/* BEGINNING OF ACTION: ast-make-empty */
@@ -991,10 +1001,11 @@ ZL1:;
 
 		(ZInode) = ast_make_expr_empty(act_state->poolp, *flags);
 		if ((ZInode) == NULL) {
+			err->e = RE_EERRNO;
 			goto ZL2;
 		}
 	
-#line 998 "src/libre/dialect/sql/parser.c"
+#line 1009 "src/libre/dialect/sql/parser.c"
 		}
 		/* END OF ACTION: ast-make-empty */
 	}
@@ -1029,36 +1040,38 @@ p_204(flags flags, lex_state lex_state, act_state act_state, err err, t_ast__exp
 		(void) ZI117;
 		(void) ZI118;
 	
-#line 1033 "src/libre/dialect/sql/parser.c"
+#line 1044 "src/libre/dialect/sql/parser.c"
 			}
 			/* END OF EXTRACT: RANGE */
 			ADVANCE_LEXER;
 			/* BEGINNING OF ACTION: ast-make-literal */
 			{
-#line 874 "src/libre/parser.act"
+#line 877 "src/libre/parser.act"
 
 		(ZInode) = ast_make_expr_literal(act_state->poolp, *flags, (ZIc));
 		if ((ZInode) == NULL) {
+			err->e = RE_EERRNO;
 			goto ZL1;
 		}
 	
-#line 1046 "src/libre/dialect/sql/parser.c"
+#line 1058 "src/libre/dialect/sql/parser.c"
 			}
 			/* END OF ACTION: ast-make-literal */
 			/* BEGINNING OF ACTION: ast-add-alt */
 			{
-#line 1046 "src/libre/parser.act"
+#line 1060 "src/libre/parser.act"
 
 		if (!ast_add_expr_alt((*ZIclass), (ZInode))) {
+			err->e = RE_EERRNO;
 			goto ZL1;
 		}
 	
-#line 1057 "src/libre/dialect/sql/parser.c"
+#line 1070 "src/libre/dialect/sql/parser.c"
 			}
 			/* END OF ACTION: ast-add-alt */
 			/* BEGINNING OF ACTION: ast-make-invert */
 			{
-#line 966 "src/libre/parser.act"
+#line 975 "src/libre/parser.act"
 
 		struct ast_expr *any;
 
@@ -1088,15 +1101,17 @@ p_204(flags flags, lex_state lex_state, act_state act_state, err err, t_ast__exp
 
 		any = ast_make_expr_named(act_state->poolp, *flags, &class_any);
 		if (any == NULL) {
+			err->e = RE_EERRNO;
 			goto ZL1;
 		}
 
 		(*ZIclass) = ast_make_expr_subtract(act_state->poolp, *flags, any, (*ZIclass));
 		if ((*ZIclass) == NULL) {
+			err->e = RE_EERRNO;
 			goto ZL1;
 		}
 	
-#line 1100 "src/libre/dialect/sql/parser.c"
+#line 1115 "src/libre/dialect/sql/parser.c"
 			}
 			/* END OF ACTION: ast-make-invert */
 		}
@@ -1105,7 +1120,7 @@ p_204(flags flags, lex_state lex_state, act_state act_state, err err, t_ast__exp
 		{
 			/* BEGINNING OF ACTION: ast-make-invert */
 			{
-#line 966 "src/libre/parser.act"
+#line 975 "src/libre/parser.act"
 
 		struct ast_expr *any;
 
@@ -1135,15 +1150,17 @@ p_204(flags flags, lex_state lex_state, act_state act_state, err err, t_ast__exp
 
 		any = ast_make_expr_named(act_state->poolp, *flags, &class_any);
 		if (any == NULL) {
+			err->e = RE_EERRNO;
 			goto ZL1;
 		}
 
 		(*ZIclass) = ast_make_expr_subtract(act_state->poolp, *flags, any, (*ZIclass));
 		if ((*ZIclass) == NULL) {
+			err->e = RE_EERRNO;
 			goto ZL1;
 		}
 	
-#line 1147 "src/libre/dialect/sql/parser.c"
+#line 1164 "src/libre/dialect/sql/parser.c"
 			}
 			/* END OF ACTION: ast-make-invert */
 		}
@@ -1167,14 +1184,15 @@ p_208(flags flags, lex_state lex_state, act_state act_state, err err, t_char *ZI
 		{
 			/* BEGINNING OF ACTION: ast-make-literal */
 			{
-#line 874 "src/libre/parser.act"
+#line 877 "src/libre/parser.act"
 
 		(ZInode) = ast_make_expr_literal(act_state->poolp, *flags, (*ZI205));
 		if ((ZInode) == NULL) {
+			err->e = RE_EERRNO;
 			goto ZL1;
 		}
 	
-#line 1178 "src/libre/dialect/sql/parser.c"
+#line 1196 "src/libre/dialect/sql/parser.c"
 			}
 			/* END OF ACTION: ast-make-literal */
 		}
@@ -1197,7 +1215,7 @@ p_208(flags flags, lex_state lex_state, act_state act_state, err err, t_char *ZI
 		(ZIa).type = AST_ENDPOINT_LITERAL;
 		(ZIa).u.literal.c = (unsigned char) (*ZI205);
 	
-#line 1201 "src/libre/dialect/sql/parser.c"
+#line 1219 "src/libre/dialect/sql/parser.c"
 			}
 			/* END OF ACTION: ast-range-endpoint-literal */
 			/* BEGINNING OF EXTRACT: RANGE */
@@ -1212,7 +1230,7 @@ p_208(flags flags, lex_state lex_state, act_state act_state, err err, t_char *ZI
 		(void) ZI137;
 		(void) ZI138;
 	
-#line 1216 "src/libre/dialect/sql/parser.c"
+#line 1234 "src/libre/dialect/sql/parser.c"
 			}
 			/* END OF EXTRACT: RANGE */
 			ADVANCE_LEXER;
@@ -1233,7 +1251,7 @@ p_208(flags flags, lex_state lex_state, act_state act_state, err err, t_char *ZI
 
 		ZIcz = lex_state->buf.a[0];
 	
-#line 1237 "src/libre/dialect/sql/parser.c"
+#line 1255 "src/libre/dialect/sql/parser.c"
 				}
 				/* END OF EXTRACT: CHAR */
 				break;
@@ -1248,7 +1266,7 @@ p_208(flags flags, lex_state lex_state, act_state act_state, err err, t_char *ZI
 		(ZIz).type = AST_ENDPOINT_LITERAL;
 		(ZIz).u.literal.c = (unsigned char) (ZIcz);
 	
-#line 1252 "src/libre/dialect/sql/parser.c"
+#line 1270 "src/libre/dialect/sql/parser.c"
 			}
 			/* END OF ACTION: ast-range-endpoint-literal */
 			/* BEGINNING OF ACTION: mark-range */
@@ -1258,12 +1276,12 @@ p_208(flags flags, lex_state lex_state, act_state act_state, err err, t_char *ZI
 		mark(&act_state->rangestart, &(*ZI206));
 		mark(&act_state->rangeend,   &(ZIend));
 	
-#line 1262 "src/libre/dialect/sql/parser.c"
+#line 1280 "src/libre/dialect/sql/parser.c"
 			}
 			/* END OF ACTION: mark-range */
 			/* BEGINNING OF ACTION: ast-make-range */
 			{
-#line 1004 "src/libre/parser.act"
+#line 1015 "src/libre/parser.act"
 
 		unsigned char lower, upper;
 
@@ -1289,10 +1307,11 @@ p_208(flags flags, lex_state lex_state, act_state act_state, err err, t_char *ZI
 
 		(ZInode) = ast_make_expr_range(act_state->poolp, *flags, &(ZIa), &(ZIz));
 		if ((ZInode) == NULL) {
+			err->e = RE_EERRNO;
 			goto ZL1;
 		}
 	
-#line 1296 "src/libre/dialect/sql/parser.c"
+#line 1315 "src/libre/dialect/sql/parser.c"
 			}
 			/* END OF ACTION: ast-make-range */
 		}
@@ -1329,7 +1348,7 @@ p_211(flags flags, lex_state lex_state, act_state act_state, err err, t_pos *ZI2
 		(void) ZI176;
 		(void) ZIend;
 	
-#line 1333 "src/libre/dialect/sql/parser.c"
+#line 1352 "src/libre/dialect/sql/parser.c"
 			}
 			/* END OF EXTRACT: CLOSECOUNT */
 			ADVANCE_LEXER;
@@ -1340,7 +1359,7 @@ p_211(flags flags, lex_state lex_state, act_state act_state, err err, t_pos *ZI2
 		mark(&act_state->countstart, &(*ZI209));
 		mark(&act_state->countend,   &(ZIend));
 	
-#line 1344 "src/libre/dialect/sql/parser.c"
+#line 1363 "src/libre/dialect/sql/parser.c"
 			}
 			/* END OF ACTION: mark-count */
 			/* BEGINNING OF ACTION: count-range */
@@ -1360,7 +1379,7 @@ p_211(flags flags, lex_state lex_state, act_state act_state, err err, t_pos *ZI2
 
 		(ZIc) = ast_make_count((*ZIm), (*ZIm));
 	
-#line 1364 "src/libre/dialect/sql/parser.c"
+#line 1383 "src/libre/dialect/sql/parser.c"
 			}
 			/* END OF ACTION: count-range */
 		}
@@ -1396,7 +1415,7 @@ p_211(flags flags, lex_state lex_state, act_state act_state, err err, t_pos *ZI2
 
 		ZIn = (unsigned int) u;
 	
-#line 1400 "src/libre/dialect/sql/parser.c"
+#line 1419 "src/libre/dialect/sql/parser.c"
 				}
 				/* END OF EXTRACT: COUNT */
 				break;
@@ -1416,7 +1435,7 @@ p_211(flags flags, lex_state lex_state, act_state act_state, err err, t_pos *ZI2
 		(void) ZI179;
 		(void) ZIend;
 	
-#line 1420 "src/libre/dialect/sql/parser.c"
+#line 1439 "src/libre/dialect/sql/parser.c"
 				}
 				/* END OF EXTRACT: CLOSECOUNT */
 				break;
@@ -1431,7 +1450,7 @@ p_211(flags flags, lex_state lex_state, act_state act_state, err err, t_pos *ZI2
 		mark(&act_state->countstart, &(*ZI209));
 		mark(&act_state->countend,   &(ZIend));
 	
-#line 1435 "src/libre/dialect/sql/parser.c"
+#line 1454 "src/libre/dialect/sql/parser.c"
 			}
 			/* END OF ACTION: mark-count */
 			/* BEGINNING OF ACTION: count-range */
@@ -1451,7 +1470,7 @@ p_211(flags flags, lex_state lex_state, act_state act_state, err err, t_pos *ZI2
 
 		(ZIc) = ast_make_count((*ZIm), (ZIn));
 	
-#line 1455 "src/libre/dialect/sql/parser.c"
+#line 1474 "src/libre/dialect/sql/parser.c"
 			}
 			/* END OF ACTION: count-range */
 		}
@@ -1486,13 +1505,14 @@ ZL2_expr_C_Clist_Hof_Halts:;
 		}
 		/* BEGINNING OF ACTION: ast-add-alt */
 		{
-#line 1046 "src/libre/parser.act"
+#line 1060 "src/libre/parser.act"
 
 		if (!ast_add_expr_alt((ZIalts), (ZIa))) {
+			err->e = RE_EERRNO;
 			goto ZL1;
 		}
 	
-#line 1496 "src/libre/dialect/sql/parser.c"
+#line 1516 "src/libre/dialect/sql/parser.c"
 		}
 		/* END OF ACTION: ast-add-alt */
 		/* BEGINNING OF INLINE: 189 */
@@ -1524,7 +1544,7 @@ ZL1:;
 		}
 		goto ZL4;
 	
-#line 1528 "src/libre/dialect/sql/parser.c"
+#line 1548 "src/libre/dialect/sql/parser.c"
 		}
 		/* END OF ACTION: err-expected-alts */
 	}
@@ -1557,7 +1577,7 @@ p_expr_C_Cpiece_C_Ccount(flags flags, lex_state lex_state, act_state act_state,
 		(void) ZI209;
 		(void) ZI210;
 	
-#line 1561 "src/libre/dialect/sql/parser.c"
+#line 1581 "src/libre/dialect/sql/parser.c"
 			}
 			/* END OF EXTRACT: OPENCOUNT */
 			ADVANCE_LEXER;
@@ -1585,7 +1605,7 @@ p_expr_C_Cpiece_C_Ccount(flags flags, lex_state lex_state, act_state act_state,
 
 		ZIm = (unsigned int) u;
 	
-#line 1589 "src/libre/dialect/sql/parser.c"
+#line 1609 "src/libre/dialect/sql/parser.c"
 				}
 				/* END OF EXTRACT: COUNT */
 				break;
@@ -1609,7 +1629,7 @@ p_expr_C_Cpiece_C_Ccount(flags flags, lex_state lex_state, act_state act_state,
 
 		(ZIc) = ast_make_count(0, 1);
 	
-#line 1613 "src/libre/dialect/sql/parser.c"
+#line 1633 "src/libre/dialect/sql/parser.c"
 			}
 			/* END OF ACTION: count-zero-or-one */
 		}
@@ -1623,7 +1643,7 @@ p_expr_C_Cpiece_C_Ccount(flags flags, lex_state lex_state, act_state act_state,
 
 		(ZIc) = ast_make_count(1, AST_COUNT_UNBOUNDED);
 	
-#line 1627 "src/libre/dialect/sql/parser.c"
+#line 1647 "src/libre/dialect/sql/parser.c"
 			}
 			/* END OF ACTION: count-one-or-more */
 		}
@@ -1637,7 +1657,7 @@ p_expr_C_Cpiece_C_Ccount(flags flags, lex_state lex_state, act_state act_state,
 
 		(ZIc) = ast_make_count(0, AST_COUNT_UNBOUNDED);
 	
-#line 1641 "src/libre/dialect/sql/parser.c"
+#line 1661 "src/libre/dialect/sql/parser.c"
 			}
 			/* END OF ACTION: count-zero-or-more */
 		}
@@ -1650,7 +1670,7 @@ p_expr_C_Cpiece_C_Ccount(flags flags, lex_state lex_state, act_state act_state,
 
 		(ZIc) = ast_make_count(1, 1);
 	
-#line 1654 "src/libre/dialect/sql/parser.c"
+#line 1674 "src/libre/dialect/sql/parser.c"
 			}
 			/* END OF ACTION: count-one */
 		}
@@ -1670,7 +1690,7 @@ ZL1:;
 		}
 		goto ZL2;
 	
-#line 1674 "src/libre/dialect/sql/parser.c"
+#line 1694 "src/libre/dialect/sql/parser.c"
 		}
 		/* END OF ACTION: err-expected-count */
 		/* BEGINNING OF ACTION: count-one */
@@ -1679,7 +1699,7 @@ ZL1:;
 
 		(ZIc) = ast_make_count(1, 1);
 	
-#line 1683 "src/libre/dialect/sql/parser.c"
+#line 1703 "src/libre/dialect/sql/parser.c"
 		}
 		/* END OF ACTION: count-one */
 	}
@@ -1709,19 +1729,20 @@ p_expr_C_Cpiece_C_Catom(flags flags, lex_state lex_state, act_state act_state, e
 		/* TODO: or the unicode equivalent */
 		(ZIa) = (*flags & RE_SINGLE) ? &class_any : &class_notnl;
 	
-#line 1713 "src/libre/dialect/sql/parser.c"
+#line 1733 "src/libre/dialect/sql/parser.c"
 			}
 			/* END OF ACTION: class-any */
 			/* BEGINNING OF ACTION: ast-make-named */
 			{
-#line 1033 "src/libre/parser.act"
+#line 1045 "src/libre/parser.act"
 
 		(ZIe) = ast_make_expr_named(act_state->poolp, *flags, (ZIa));
 		if ((ZIe) == NULL) {
+			err->e = RE_EERRNO;
 			goto ZL1;
 		}
 	
-#line 1725 "src/libre/dialect/sql/parser.c"
+#line 1746 "src/libre/dialect/sql/parser.c"
 			}
 			/* END OF ACTION: ast-make-named */
 		}
@@ -1747,20 +1768,21 @@ p_expr_C_Cpiece_C_Catom(flags flags, lex_state lex_state, act_state act_state, e
 
 		ZIa = lex_state->buf.a[0];
 	
-#line 1751 "src/libre/dialect/sql/parser.c"
+#line 1772 "src/libre/dialect/sql/parser.c"
 			}
 			/* END OF EXTRACT: CHAR */
 			ADVANCE_LEXER;
 			/* BEGINNING OF ACTION: ast-make-literal */
 			{
-#line 874 "src/libre/parser.act"
+#line 877 "src/libre/parser.act"
 
 		(ZIe) = ast_make_expr_literal(act_state->poolp, *flags, (ZIa));
 		if ((ZIe) == NULL) {
+			err->e = RE_EERRNO;
 			goto ZL1;
 		}
 	
-#line 1764 "src/libre/dialect/sql/parser.c"
+#line 1786 "src/libre/dialect/sql/parser.c"
 			}
 			/* END OF ACTION: ast-make-literal */
 		}
@@ -1779,19 +1801,20 @@ p_expr_C_Cpiece_C_Catom(flags flags, lex_state lex_state, act_state act_state, e
 		/* TODO: or the unicode equivalent */
 		(ZIa) = (*flags & RE_SINGLE) ? &class_any : &class_notnl;
 	
-#line 1783 "src/libre/dialect/sql/parser.c"
+#line 1805 "src/libre/dialect/sql/parser.c"
 			}
 			/* END OF ACTION: class-any */
 			/* BEGINNING OF ACTION: ast-make-named */
 			{
-#line 1033 "src/libre/parser.act"
+#line 1045 "src/libre/parser.act"
 
 		(ZIg) = ast_make_expr_named(act_state->poolp, *flags, (ZIa));
 		if ((ZIg) == NULL) {
+			err->e = RE_EERRNO;
 			goto ZL1;
 		}
 	
-#line 1795 "src/libre/dialect/sql/parser.c"
+#line 1818 "src/libre/dialect/sql/parser.c"
 			}
 			/* END OF ACTION: ast-make-named */
 			/* BEGINNING OF ACTION: count-zero-or-more */
@@ -1800,12 +1823,12 @@ p_expr_C_Cpiece_C_Catom(flags flags, lex_state lex_state, act_state act_state, e
 
 		(ZIc) = ast_make_count(0, AST_COUNT_UNBOUNDED);
 	
-#line 1804 "src/libre/dialect/sql/parser.c"
+#line 1827 "src/libre/dialect/sql/parser.c"
 			}
 			/* END OF ACTION: count-zero-or-more */
 			/* BEGINNING OF ACTION: ast-make-piece */
 			{
-#line 897 "src/libre/parser.act"
+#line 901 "src/libre/parser.act"
 
 		if ((ZIc).min == 0 && (ZIc).max == 0) {
 			(ZIe) = ast_make_expr_empty(act_state->poolp, *flags);
@@ -1815,11 +1838,11 @@ p_expr_C_Cpiece_C_Catom(flags flags, lex_state lex_state, act_state act_state, e
 			(ZIe) = ast_make_expr_repeat(act_state->poolp, *flags, (ZIg), (ZIc));
 		}
 		if ((ZIe) == NULL) {
-			err->e = RE_EXEOF;
+			err->e = RE_EERRNO;
 			goto ZL1;
 		}
 	
-#line 1823 "src/libre/dialect/sql/parser.c"
+#line 1846 "src/libre/dialect/sql/parser.c"
 			}
 			/* END OF ACTION: ast-make-piece */
 		}
@@ -1832,11 +1855,11 @@ p_expr_C_Cpiece_C_Catom(flags flags, lex_state lex_state, act_state act_state, e
 			ADVANCE_LEXER;
 			/* BEGINNING OF ACTION: make-group-id */
 			{
-#line 881 "src/libre/parser.act"
+#line 885 "src/libre/parser.act"
 
 		(ZIid) = act_state->group_id++;
 	
-#line 1840 "src/libre/dialect/sql/parser.c"
+#line 1863 "src/libre/dialect/sql/parser.c"
 			}
 			/* END OF ACTION: make-group-id */
 			p_expr (flags, lex_state, act_state, err, &ZIg);
@@ -1846,14 +1869,15 @@ p_expr_C_Cpiece_C_Catom(flags flags, lex_state lex_state, act_state act_state, e
 			}
 			/* BEGINNING OF ACTION: ast-make-group */
 			{
-#line 911 "src/libre/parser.act"
+#line 915 "src/libre/parser.act"
 
 		(ZIe) = ast_make_expr_group(act_state->poolp, *flags, (ZIg), (ZIid));
 		if ((ZIe) == NULL) {
+			err->e = RE_EERRNO;
 			goto ZL1;
 		}
 	
-#line 1857 "src/libre/dialect/sql/parser.c"
+#line 1881 "src/libre/dialect/sql/parser.c"
 			}
 			/* END OF ACTION: ast-make-group */
 			switch (CURRENT_TERMINAL) {
@@ -1891,7 +1915,7 @@ ZL1:;
 		}
 		goto ZL2;
 	
-#line 1895 "src/libre/dialect/sql/parser.c"
+#line 1919 "src/libre/dialect/sql/parser.c"
 		}
 		/* END OF ACTION: err-expected-atom */
 		/* BEGINNING OF ACTION: ast-make-empty */
@@ -1900,10 +1924,11 @@ ZL1:;
 
 		(ZIe) = ast_make_expr_empty(act_state->poolp, *flags);
 		if ((ZIe) == NULL) {
+			err->e = RE_EERRNO;
 			goto ZL2;
 		}
 	
-#line 1907 "src/libre/dialect/sql/parser.c"
+#line 1932 "src/libre/dialect/sql/parser.c"
 		}
 		/* END OF ACTION: ast-make-empty */
 	}
@@ -1946,7 +1971,7 @@ p_expr_C_Ccharacter_Hclass_C_Cclass_Hnamed(flags flags, lex_state lex_state, act
 		(void) ZI128;
 		(void) ZI129;
 	
-#line 1950 "src/libre/dialect/sql/parser.c"
+#line 1975 "src/libre/dialect/sql/parser.c"
 			}
 			/* END OF EXTRACT: NAMED_CLASS */
 			break;
@@ -1956,14 +1981,15 @@ p_expr_C_Ccharacter_Hclass_C_Cclass_Hnamed(flags flags, lex_state lex_state, act
 		ADVANCE_LEXER;
 		/* BEGINNING OF ACTION: ast-make-named */
 		{
-#line 1033 "src/libre/parser.act"
+#line 1045 "src/libre/parser.act"
 
 		(ZInode) = ast_make_expr_named(act_state->poolp, *flags, (ZIid));
 		if ((ZInode) == NULL) {
+			err->e = RE_EERRNO;
 			goto ZL1;
 		}
 	
-#line 1967 "src/libre/dialect/sql/parser.c"
+#line 1993 "src/libre/dialect/sql/parser.c"
 		}
 		/* END OF ACTION: ast-make-named */
 	}
@@ -1986,14 +2012,15 @@ p_expr_C_Calt(flags flags, lex_state lex_state, act_state act_state, err err, t_
 		{
 			/* BEGINNING OF ACTION: ast-make-concat */
 			{
-#line 860 "src/libre/parser.act"
+#line 861 "src/libre/parser.act"
 
 		(ZInode) = ast_make_expr_concat(act_state->poolp, *flags);
 		if ((ZInode) == NULL) {
+			err->e = RE_EERRNO;
 			goto ZL1;
 		}
 	
-#line 1997 "src/libre/dialect/sql/parser.c"
+#line 2024 "src/libre/dialect/sql/parser.c"
 			}
 			/* END OF ACTION: ast-make-concat */
 			p_expr_C_Clist_Hof_Hpieces (flags, lex_state, act_state, err, ZInode);
@@ -2011,10 +2038,11 @@ p_expr_C_Calt(flags flags, lex_state lex_state, act_state act_state, err err, t_
 
 		(ZInode) = ast_make_expr_empty(act_state->poolp, *flags);
 		if ((ZInode) == NULL) {
+			err->e = RE_EERRNO;
 			goto ZL1;
 		}
 	
-#line 2018 "src/libre/dialect/sql/parser.c"
+#line 2046 "src/libre/dialect/sql/parser.c"
 			}
 			/* END OF ACTION: ast-make-empty */
 		}
@@ -2032,7 +2060,7 @@ ZL0:;
 
 /* BEGINNING OF TRAILER */
 
-#line 1052 "src/libre/parser.act"
+#line 1067 "src/libre/parser.act"
 
 
 	static int
@@ -2129,6 +2157,11 @@ ZL0:;
 
 		lx->free(lx->buf_opaque);
 
+		if (lx->push_failed) {
+			/* a token couldn't be stored; that isn't about syntax */
+			err->e = RE_EERRNO;
+		}
+
 		if (err->e != RE_ESUCCESS) {
 			/* TODO: free internals allocated during parsing (are there any?) */
 			goto error;
@@ -2192,6 +2225,6 @@ ZL0:;
 		return NULL;
 	}
 
-#line 2196 "src/libre/dialect/sql/parser.c"
+#line 2229 "src/libre/dialect/sql/parser.c"
 
 /* END OF FILE */
diff --git a/src/libre/parser.act b/src/libre/parser.act
index 65445fd..bcbc483 100644
--- a/src/libre/parser.act
+++ b/src/libre/parser.act
@@ -853,6 +853,7 @@
 	<ast-make-empty>: () -> (node :ast_expr) = @{
 		@node = ast_make_expr_empty(act_state->poolp, *flags);
 		if (@node == NULL) {
+			err->e = RE_EERRNO;
 			@!;
 		}
 	@};
@@ -860,6 +861,7 @@
 	<ast-make-concat>: () -> (node :ast_expr) = @{
 		@node = ast_make_expr_concat(act_state->poolp, *flags);
 		if (@node == NULL) {
+			err->e = RE_EERRNO;
 			@!;
 		}
 	@};
@@ -867,6 +869,7 @@
 	<ast-make-alt>: () -> (node :ast_expr) = @{
 		@node = ast_make_expr_alt(act_state->poolp, *flags);
 		if (@node == NULL) {
+			err->e = RE_EERRNO;
 			@!;
 		}
 	@};
@@ -874,6 +877,7 @@
 	<ast-make-literal>: (c :char) -> (node :ast_expr) = @{
 		@node = ast_make_expr_literal(act_state->poolp, *flags, @c);
 		if (@node == NULL) {
+			err->e = RE_EERRNO;
 			@!;
 		}
 	@};
@@ -903,7 +907,7 @@
 			@node = ast_make_expr_repeat(act_state->poolp, *flags, @e, @c);
 		}
 		if (@node == NULL) {
-			err->e = RE_EXEOF;
+			err->e = RE_EERRNO;
 			@!;
 		}
 	@};
@@ -911,6 +915,7 @@
 	<ast-make-group>: (e :ast_expr, id :group_id) -> (node :ast_expr) = @{
 		@node = ast_make_expr_group(act_state->poolp, *flags, @e, @id);
 		if (@node == NULL) {
+			err->e = RE_EERRNO;
 			@!;
 		}
 	@};
@@ -935,6 +940,7 @@
 	<ast-make-anchor-start>: () -> (node :ast_expr) = @{
 		@node = ast_make_expr_anchor(act_state->poolp, *flags, AST_ANCHOR_START);
 		if (@node == NULL) {
+			err->e = RE_EERRNO;
 			@!;
 		}
 	@};
@@ -942,6 +948,7 @@
 	<ast-make-anchor-end>: () -> (node :ast_expr) = @{
 		@node = ast_make_expr_anchor(act_state->poolp, *flags, AST_ANCHOR_END);
 		if (@node == NULL) {
+			err->e = RE_EERRNO;
 			@!;
 		}
 	@};
@@ -949,6 +956,7 @@
 	<ast-make-anchor-end-nl>: () -> (node :ast_expr) = @{
 		@node = ast_make_expr_anchor(act_state->poolp, *flags, AST_ANCHOR_END);
 		if (@node == NULL) {
+			err->e = RE_EERRNO;
 			@!;
 		}
 		if (!(*flags & RE_ANCHORED)) {
@@ -959,6 +967,7 @@
 	<ast-make-subtract>: (a :ast_expr, b :ast_expr) -> (node :ast_expr) = @{
 		@node = ast_make_expr_subtract(act_state->poolp, *flags, @a, @b);
 		if (@node == NULL) {
+			err->e = RE_EERRNO;
 			@!;
 		}
 	@};
@@ -992,11 +1001,13 @@
 
 		any = ast_make_expr_named(act_state->poolp, *flags, &class_any);
 		if (any == NULL) {
+			err->e = RE_EERRNO;
 			@!;
 		}
 
 		@node = ast_make_expr_subtract(act_state->poolp, *flags, any, @e);
 		if (@node == NULL) {
+			err->e = RE_EERRNO;
 			@!;
 		}
 	@};
@@ -1026,6 +1037,7 @@
 
 		@node = ast_make_expr_range(act_state->poolp, *flags, &@from, &@to);
 		if (@node == NULL) {
+			err->e = RE_EERRNO;
 			@!;
 		}
 	@};
@@ -1033,18 +1045,21 @@
 	<ast-make-named>: (id :ast_class_id) -> (node :ast_expr) = @{
 		@node = ast_make_expr_named(act_state->poolp, *flags, @id);
 		if (@node == NULL) {
+			err->e = RE_EERRNO;
 			@!;
 		}
 	@};
 
 	<ast-add-concat>: (cat :ast_expr, node :ast_expr) -> () = @{
 		if (!ast_add_expr_concat(@cat, @node)) {
+			err->e = RE_EERRNO;
 			@!;
 		}
 	@};
 
 	<ast-add-alt>: (alt :ast_expr, node :ast_expr) -> () = @{
 		if (!ast_add_expr_alt(@alt, @node)) {
+			err->e = RE_EERRNO;
 			@!;
 		}
 	@};
@@ -1145,6 +1160,11 @@
 
 		lx->free(lx->buf_opaque);
 
+		if (lx->push_failed) {
+			/* a token couldn't be stored; that isn't about syntax */
+			err->e = RE_EERRNO;
+		}
+
 		if (err->e != RE_ESUCCESS) {
 			/* TODO: free internals allocated during parsing (are there any?) */
 			goto error;
diff --git a/src/lx/lexer.c b/src/lx/lexer.c
index ae5955b..45bc9a7 100644
--- a/src/lx/lexer.c
+++ b/src/lx/lexer.c
@@ -1334,6 +1334,7 @@ lx_next(struct lx *lx)
 
 	if (lx->push != NULL) {
 		if (-1 == lx->push(lx->buf_opaque, '\0')) {
+			lx->push_failed = 1;
 			return TOK_ERROR;
 		}
 	}
diff --git a/src/lx/print/c.c b/src/lx/print/c.c
index 3c18fd3..a2a8570 100644
--- a/src/lx/print/c.c
+++ b/src/lx/print/c.c
@@ -1276,6 +1276,9 @@ lx_print_c(FILE *f, const struct ast *ast, const struct fsm_options *opt)
 		if (~api_exclude & API_BUF) {
 			fprintf(f, "\tif (lx->push != NULL) {\n");
 			fprintf(f, "\t\tif (-1 == lx->push(lx->buf_opaque, '\\0')) {\n");
+			if (opt->io == FSM_IO_GETC) {
+				fprintf(f, "\t\t\tlx->push_failed = 1;\n");
+			}
 			fprintf(f, "\t\t\treturn %sERROR;\n", prefix.tok);
 			fprintf(f, "\t\t}\n");
 			fprintf(f, "\t}\n");
-- 
2.43.0


From 58e7d18c5da6e9794040483bf49304ea8efdc0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:43 +0000
Subject: [PATCH 066/142] fix: trim before complementing, so a failure leaves
 the end ids alone

---
 src/libfsm/complement.c | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/libfsm/complement.c b/src/libfsm/complement.c
index df0916b..4814383 100644
--- a/src/libfsm/complement.c
+++ b/src/libfsm/complement.c
@@ -29,6 +29,15 @@ fsm_complement(struct fsm *fsm)
 		}
 	}
 
+	/*
+	 * This goes by reachability from the start state only, so it makes no
+	 * difference to trim before changing the end states. That way the FSM
+	 * is still equivalent to what the caller had, if this fails.
+	 */
+	if (fsm_trim(fsm, FSM_TRIM_START_REACHABLE, NULL) < 0) {
+		return 0;
+	}
+
 	/*
 	 * For a Complete DFA, the complement of the language matched is given by
 	 * marking all the previous end states as non-end, and all the previous
@@ -39,14 +48,6 @@ fsm_complement(struct fsm *fsm)
 		fsm_setend(fsm, i, !fsm_isend(fsm, i));
 	}
 
-	if (fsm_trim(fsm, FSM_TRIM_START_REACHABLE, NULL) < 0) {
-		/* undo the complement, for the caller to keep what they had */
-		for (i = 0; i < fsm->statecount; i++) {
-			fsm_setend(fsm, i, !fsm_isend(fsm, i));
-		}
-		return 0;
-	}
-
 	return 1;
 }
 
-- 
2.43.0


From 5bcc89c8752479c16f8c924d92dcc056de18686f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:08 +0000
Subject: [PATCH 067/142] fix: free the stack and clear visited states on
 allocation failure in fsm_detect_required_characters

---
 src/libfsm/detect_required.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libfsm/detect_required.c b/src/libfsm/detect_required.c
index 8488376..73d23ce 100644
--- a/src/libfsm/detect_required.c
+++ b/src/libfsm/detect_required.c
@@ -181,7 +181,7 @@ fsm_detect_required_characters(const struct fsm *dfa, size_t step_limit,
 				struct stack_frame *nframes = f_realloc(dfa->alloc,
 				    env.stack.frames, nceil * sizeof(nframes[0]));
 				if (nframes == NULL) {
-					return FSM_DETECT_REQUIRED_CHARACTERS_ERROR_ALLOC;
+					goto cleanup;
 				}
 
 				env.stack.frames = nframes;
-- 
2.43.0


From 93e9e61036c9288a2554e8faab7ab2ec16fd89e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:08 +0000
Subject: [PATCH 068/142] fix: repeating an anchor is still a syntax error

---
 src/libre/dialect/glob/parser.c   | 2 +-
 src/libre/dialect/like/parser.c   | 2 +-
 src/libre/dialect/native/parser.c | 2 +-
 src/libre/dialect/pcre/parser.c   | 4 ++--
 src/libre/dialect/sql/parser.c    | 4 ++--
 src/libre/parser.act              | 2 +-
 6 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/libre/dialect/glob/parser.c b/src/libre/dialect/glob/parser.c
index 2a83701..d7d7a76 100644
--- a/src/libre/dialect/glob/parser.c
+++ b/src/libre/dialect/glob/parser.c
@@ -463,7 +463,7 @@ p_list_Hof_Hatoms_C_Catom(flags flags, lex_state lex_state, act_state act_state,
 			(ZIe) = ast_make_expr_repeat(act_state->poolp, *flags, (ZIg), (ZIc));
 		}
 		if ((ZIe) == NULL) {
-			err->e = RE_EERRNO;
+			err->e = (ZIg)->type == AST_EXPR_ANCHOR ? RE_EXEOF : RE_EERRNO;
 			goto ZL1;
 		}
 	
diff --git a/src/libre/dialect/like/parser.c b/src/libre/dialect/like/parser.c
index ff801f2..c8b4427 100644
--- a/src/libre/dialect/like/parser.c
+++ b/src/libre/dialect/like/parser.c
@@ -463,7 +463,7 @@ p_list_Hof_Hatoms_C_Catom(flags flags, lex_state lex_state, act_state act_state,
 			(ZIe) = ast_make_expr_repeat(act_state->poolp, *flags, (ZIg), (ZIc));
 		}
 		if ((ZIe) == NULL) {
-			err->e = RE_EERRNO;
+			err->e = (ZIg)->type == AST_EXPR_ANCHOR ? RE_EXEOF : RE_EERRNO;
 			goto ZL1;
 		}
 	
diff --git a/src/libre/dialect/native/parser.c b/src/libre/dialect/native/parser.c
index 8d6c60b..cf59246 100644
--- a/src/libre/dialect/native/parser.c
+++ b/src/libre/dialect/native/parser.c
@@ -2078,7 +2078,7 @@ p_expr_C_Cpiece(flags flags, lex_state lex_state, act_state act_state, err err,
 			(ZInode) = ast_make_expr_repeat(act_state->poolp, *flags, (ZIe), (ZIc));
 		}
 		if ((ZInode) == NULL) {
-			err->e = RE_EERRNO;
+			err->e = (ZIe)->type == AST_EXPR_ANCHOR ? RE_EXEOF : RE_EERRNO;
 			goto ZL1;
 		}
 	
diff --git a/src/libre/dialect/pcre/parser.c b/src/libre/dialect/pcre/parser.c
index 3f15446..db557ce 100644
--- a/src/libre/dialect/pcre/parser.c
+++ b/src/libre/dialect/pcre/parser.c
@@ -2561,7 +2561,7 @@ p_expr_C_Cpiece(flags flags, lex_state lex_state, act_state act_state, err err,
 			(ZInode) = ast_make_expr_repeat(act_state->poolp, *flags, (ZIe), (ZIc));
 		}
 		if ((ZInode) == NULL) {
-			err->e = RE_EERRNO;
+			err->e = (ZIe)->type == AST_EXPR_ANCHOR ? RE_EXEOF : RE_EERRNO;
 			goto ZL1;
 		}
 	
@@ -3287,7 +3287,7 @@ p_expr_C_Cpiece_C_Clist_Hof_Hcounts(flags flags, lex_state lex_state, act_state
 			(ZInode) = ast_make_expr_repeat(act_state->poolp, *flags, (ZIe), (ZIc));
 		}
 		if ((ZInode) == NULL) {
-			err->e = RE_EERRNO;
+			err->e = (ZIe)->type == AST_EXPR_ANCHOR ? RE_EXEOF : RE_EERRNO;
 			goto ZL1;
 		}
 	
diff --git a/src/libre/dialect/sql/parser.c b/src/libre/dialect/sql/parser.c
index 0876220..e8edd28 100644
--- a/src/libre/dialect/sql/parser.c
+++ b/src/libre/dialect/sql/parser.c
@@ -936,7 +936,7 @@ p_expr_C_Cpiece(flags flags, lex_state lex_state, act_state act_state, err err,
 			(ZInode) = ast_make_expr_repeat(act_state->poolp, *flags, (ZIe), (ZIc));
 		}
 		if ((ZInode) == NULL) {
-			err->e = RE_EERRNO;
+			err->e = (ZIe)->type == AST_EXPR_ANCHOR ? RE_EXEOF : RE_EERRNO;
 			goto ZL1;
 		}
 	
@@ -1838,7 +1838,7 @@ p_expr_C_Cpiece_C_Catom(flags flags, lex_state lex_state, act_state act_state, e
 			(ZIe) = ast_make_expr_repeat(act_state->poolp, *flags, (ZIg), (ZIc));
 		}
 		if ((ZIe) == NULL) {
-			err->e = RE_EERRNO;
+			err->e = (ZIg)->type == AST_EXPR_ANCHOR ? RE_EXEOF : RE_EERRNO;
 			goto ZL1;
 		}
 	
diff --git a/src/libre/parser.act b/src/libre/parser.act
index bcbc483..c81a4f8 100644
--- a/src/libre/parser.act
+++ b/src/libre/parser.act
@@ -907,7 +907,7 @@
 			@node = ast_make_expr_repeat(act_state->poolp, *flags, @e, @c);
 		}
 		if (@node == NULL) {
-			err->e = RE_EERRNO;
+			err->e = @e->type == AST_EXPR_ANCHOR ? RE_EXEOF : RE_EERRNO;
 			@!;
 		}
 	@};
-- 
2.43.0


From a03c27e266830552712aa377629c2850f44d44fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:16 +0000
Subject: [PATCH 069/142] fix: keep the visited marks of fsm_reachableany/all
 and fsm_detect_required_characters out of the shared automaton

---
 src/libfsm/detect_required.c | 26 ++++++++++++--------------
 src/libfsm/walk/reachable.c  | 28 ++++++++++++++++------------
 2 files changed, 28 insertions(+), 26 deletions(-)

diff --git a/src/libfsm/detect_required.c b/src/libfsm/detect_required.c
index 73d23ce..83daf7b 100644
--- a/src/libfsm/detect_required.c
+++ b/src/libfsm/detect_required.c
@@ -32,6 +32,10 @@ struct dr_env {
 	const struct fsm *dfa;
 	size_t steps;
 
+	/* States on the current path. These marks are private to the
+	 * call, other readers may be traversing the same DFA. */
+	bool *visited;
+
 	/* Number of times a unique label has been required -- this is a count so that going
 	 * from 0 <-> 1 can set/clear the accumulator, but going from 1 -> 2 etc. does not. */
 	size_t counts[256];
@@ -123,12 +127,6 @@ fsm_detect_required_characters(const struct fsm *dfa, size_t step_limit,
 		goto cleanup;
 	}
 
-	#if EXPENSIVE_CHECKS
-	for (fsm_state_t s = 0; s < state_count; s++) {
-		assert(!dfa->states[s].visited);
-	}
-	#endif
-
 	for (size_t i = 0; i < 4; i++) { charmap[i] = 0; }
 
 	/* If the start state is also an end state, then
@@ -141,6 +139,9 @@ fsm_detect_required_characters(const struct fsm *dfa, size_t step_limit,
 		goto cleanup;
 	}
 
+	env.visited = f_calloc(dfa->alloc, state_count, sizeof(env.visited[0]));
+	if (env.visited == NULL) { goto cleanup; }
+
 	env.stack.frames = f_malloc(dfa->alloc, DEF_STACK_FRAMES * sizeof(env.stack.frames[0]));
 	if (env.stack.frames == NULL) { goto cleanup; }
 	env.stack.ceil = DEF_STACK_FRAMES;
@@ -150,7 +151,7 @@ fsm_detect_required_characters(const struct fsm *dfa, size_t step_limit,
 		sf0->state = start_state;
 		sf0->label = LABEL_GROUP;
 
-		dfa->states[start_state].visited = true;
+		env.visited[start_state] = true;
 
 		edge_set_group_iter_reset(dfa->states[start_state].edges,
 		    EDGE_GROUP_ITER_ALL, &sf0->iter);
@@ -171,7 +172,7 @@ fsm_detect_required_characters(const struct fsm *dfa, size_t step_limit,
 
 		if (edge_set_group_iter_next(&sf->iter, &info)) {
 			assert(info.to < state_count);
-			if (dfa->states[info.to].visited) {
+			if (env.visited[info.to]) {
 				continue; /* skip visited state */
 			}
 
@@ -189,7 +190,7 @@ fsm_detect_required_characters(const struct fsm *dfa, size_t step_limit,
 			}
 
 			/* enter state */
-			dfa->states[info.to].visited = true;
+			env.visited[info.to] = true;
 
 			struct stack_frame *nsf = &env.stack.frames[env.stack.used];
 			nsf->state = info.to;
@@ -244,7 +245,7 @@ fsm_detect_required_characters(const struct fsm *dfa, size_t step_limit,
 			}
 
 			/* clear visited */
-			dfa->states[sf->state].visited = false;
+			env.visited[sf->state] = false;
 
 			env.stack.used--;
 		}
@@ -266,10 +267,7 @@ fsm_detect_required_characters(const struct fsm *dfa, size_t step_limit,
 
 cleanup:
 	f_free(dfa->alloc, env.stack.frames);
-
-	for (fsm_state_t s = 0; s < state_count; s++) {
-		dfa->states[s].visited = false;
-	}
+	f_free(dfa->alloc, env.visited);
 
 	return res;
 }
diff --git a/src/libfsm/walk/reachable.c b/src/libfsm/walk/reachable.c
index ec0f5ee..1e949f1 100644
--- a/src/libfsm/walk/reachable.c
+++ b/src/libfsm/walk/reachable.c
@@ -23,17 +23,24 @@ fsm_reachable(const struct fsm *fsm, fsm_state_t state,
 	int r, stopcond;
 
 	fsm_state_t *q;
-	size_t i, qtop;
+	char *visited;
+	size_t qtop;
 
 	assert(state < fsm->statecount);
 	assert(predicate != NULL);
 
-	for (i=0; i < fsm->statecount; i++) {
-		fsm->states[i].visited = 0;
+	/*
+	 * The marks are private to this call rather than using .visited,
+	 * because several readers may be traversing the same fsm.
+	 */
+	visited = f_calloc(fsm->alloc, fsm->statecount, sizeof *visited);
+	if (visited == NULL) {
+		return -1;
 	}
 
 	q = f_malloc(fsm->alloc, fsm->statecount * sizeof *q);
 	if (q == NULL) {
+		f_free(fsm->alloc, visited);
 		return -1;
 	}
 
@@ -44,7 +51,7 @@ fsm_reachable(const struct fsm *fsm, fsm_state_t state,
 
 	q[0] = state;
 	qtop = 1;
-	fsm->states[state].visited = 1;
+	visited[state] = 1;
 
 	stopcond = (any) ? 1 : 0;
 
@@ -65,11 +72,11 @@ fsm_reachable(const struct fsm *fsm, fsm_state_t state,
 		}
 
 		for (edge_set_reset(fsm->states[state].edges, &it); edge_set_next(&it, &e); ) {
-			if (fsm->states[e.state].visited == 0) {
+			if (visited[e.state] == 0) {
 				assert(qtop < fsm->statecount);
 
 				q[qtop++] = e.state;
-				fsm->states[e.state].visited = 1;
+				visited[e.state] = 1;
 			}
 		}
 
@@ -78,11 +85,11 @@ fsm_reachable(const struct fsm *fsm, fsm_state_t state,
 			struct state_iter si;
 			fsm_state_t dst;
 			for (state_set_reset(fsm->states[state].epsilons, &si); state_set_next(&si, &dst); ) {
-				if (fsm->states[dst].visited == 0) {
+				if (visited[dst] == 0) {
 					assert(qtop < fsm->statecount);
 
 					q[qtop++] = dst;
-					fsm->states[dst].visited = 1;
+					visited[dst] = 1;
 				}
 			}
 		}
@@ -92,10 +99,7 @@ fsm_reachable(const struct fsm *fsm, fsm_state_t state,
 	goto cleanup;
 
 cleanup:
-	for (i=0; i < fsm->statecount; i++) {
-		fsm->states[i].visited = 0;
-	}
-
+	f_free(fsm->alloc, visited);
 	f_free(fsm->alloc, q);
 
 	return r;
-- 
2.43.0


From bbc31d3863ad1b29d797a14fa1b33384093423de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:16 +0000
Subject: [PATCH 070/142] fix: count closure pair cache hits per
 determinisation, not in static storage

---
 src/libfsm/determinise.c          | 6 ++----
 src/libfsm/determinise_internal.h | 2 ++
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/libfsm/determinise.c b/src/libfsm/determinise.c
index cac2757..25543ab 100644
--- a/src/libfsm/determinise.c
+++ b/src/libfsm/determinise.c
@@ -2058,8 +2058,6 @@ analysis_cache_save_pair(struct analyze_closures_env *env,
 	return pair_cache_save(env, RPBT_PAIR, a | RESULT_BIT, b | RESULT_BIT, result_id);
 }
 
-static size_t pair_cache_hit, pair_cache_miss;
-
 static int
 combine_pair(struct analyze_closures_env *env, fsm_state_t pa, fsm_state_t pb,
 	fsm_state_t *result_id)
@@ -2096,14 +2094,14 @@ combine_pair(struct analyze_closures_env *env, fsm_state_t pa, fsm_state_t pb,
 		fprintf(stderr, "%s: cache hit for { %d%s %d%s }: %d\n",
 		    __func__, ID_WITH_SUFFIX(pa), ID_WITH_SUFFIX(pb), *result_id);
 #endif
-		pair_cache_hit++;
+		env->htab.hits++;
 		return 1;
 	} else {
 #if LOG_GROUPING
 		fprintf(stderr, "%s: cache miss for { %d%s %d%s }\n",
 		    __func__, ID_WITH_SUFFIX(pa), ID_WITH_SUFFIX(pb));
 #endif
-		pair_cache_miss++;
+		env->htab.misses++;
 	}
 
 	assert((pa & RESULT_BIT) && (pb & RESULT_BIT));
diff --git a/src/libfsm/determinise_internal.h b/src/libfsm/determinise_internal.h
index 2e925d2..a1352fb 100644
--- a/src/libfsm/determinise_internal.h
+++ b/src/libfsm/determinise_internal.h
@@ -235,6 +235,8 @@ struct analyze_closures_env {
 	struct result_pair_htab {
 		size_t bucket_count;
 		size_t buckets_used;
+		size_t hits;
+		size_t misses;
 		struct result_pair_bucket {
 			enum result_pair_bucket_type {
 				RPBT_UNUSED,
-- 
2.43.0


From 41f9a671698ccc39fa876d66f372426f49bfa98b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:27 +0000
Subject: [PATCH 071/142] fix: free the set of unique states when it cannot
 grow while printing dot or json

---
 src/libfsm/print/dot.c  | 1 +
 src/libfsm/print/json.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/libfsm/print/dot.c b/src/libfsm/print/dot.c
index ca28a0f..213332f 100644
--- a/src/libfsm/print/dot.c
+++ b/src/libfsm/print/dot.c
@@ -136,6 +136,7 @@ print_state(FILE *f,
 
 	for (edge_set_reset(fsm->states[s].edges, &it); edge_set_next(&it, &e); ) {
 		if (!state_set_add(&unique, fsm->alloc, e.state)) {
+			state_set_free(unique);
 			return -1;
 		}
 	}
diff --git a/src/libfsm/print/json.c b/src/libfsm/print/json.c
index a2300d5..b350c8d 100644
--- a/src/libfsm/print/json.c
+++ b/src/libfsm/print/json.c
@@ -149,6 +149,7 @@ print_state(FILE *f, const struct fsm_options *opt, const struct fsm *fsm,
 
 	for (edge_set_reset(fsm->states[s].edges, &it); edge_set_next(&it, &e); ) {
 		if (!state_set_add(&unique, fsm->alloc, e.state)) {
+			state_set_free(unique);
 			return -1;
 		}
 	}
-- 
2.43.0


From bb2947275bafdd2a491beb615acd7482b7676638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:04 +0000
Subject: [PATCH 072/142] fix: fsm_mergeab: don't inspect the base state after
 a failed merge

merge() leaves *base_a unset when it cannot grow the state array, so the
assertion read an uninitialised variable when allocation failed.
---
 src/libfsm/merge.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/libfsm/merge.c b/src/libfsm/merge.c
index adb29c3..6b9de89 100644
--- a/src/libfsm/merge.c
+++ b/src/libfsm/merge.c
@@ -277,6 +277,9 @@ fsm_mergeab(struct fsm *a, struct fsm *b,
 
 	q = merge(a, b, &dummy, base_b,
 	    &capture_base_a, &capture_base_b);
+	if (q == NULL) {
+		return NULL;
+	}
 
 	assert(dummy == 0);
 
-- 
2.43.0


From a2092bf55800a5a9e4367d80f97270833aa501a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:34 +0000
Subject: [PATCH 073/142] fix: lx: allocate end ids for mappings under the lock

ast_setendmapping() read and incremented mapping_count, and wrote to
mappings[], without holding the mutex; with -C two zones minimised at
once could be given the same end id.
---
 src/lx/ast.c | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/lx/ast.c b/src/lx/ast.c
index a3776b6..ecb3657 100644
--- a/src/lx/ast.c
+++ b/src/lx/ast.c
@@ -148,7 +148,7 @@ static struct ast_mapping **mappings = NULL;
 int
 ast_setendmapping(struct fsm *fsm, struct ast_mapping *m)
 {
-	const fsm_end_id_t id = mapping_count;
+	fsm_end_id_t id;
 	fsm_end_id_t nceil = 0;
 
 	lx_mutex_lock();
@@ -171,18 +171,18 @@ ast_setendmapping(struct fsm *fsm, struct ast_mapping *m)
 		mapping_ceil = nceil;
 	}
 
+	/* zones are minimised concurrently, so the id must be taken under the lock */
+	id = mapping_count;
+	if (LOG()) {
+		fprintf(stderr, "ast_setendmapping: saving mapping %p at mappings[%d]\n",
+		    (void *)m, id);
+	}
+	mappings[id] = m;
+	mapping_count++;
+
 	lx_mutex_unlock();
 
-	if (fsm_setendid(fsm, id)) {
-		if (LOG()) {
-			fprintf(stderr, "ast_setendmapping: saving mapping %p at mappings[%d]\n",
-			    (void *)m, id);
-		}
-		mappings[id] = m;
-		mapping_count++;
-		return 1;
-	}
-	return 0;
+	return fsm_setendid(fsm, id);
 }
 
 struct ast_mapping *
-- 
2.43.0


From cf2725cba8cd12cb3da2dde7ed84fb4045516abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:34 +0000
Subject: [PATCH 074/142] fix: lx: wait for all worker threads before giving up

When a thread failed or couldn't be created, main() returned while other
workers were still using the AST. And an error attaching a mapping to its
end states was an assertion rather than an error.
---
 src/lx/main.c | 35 ++++++++++++++++++++++++++---------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/src/lx/main.c b/src/lx/main.c
index d16bd4a..792614a 100644
--- a/src/lx/main.c
+++ b/src/lx/main.c
@@ -405,7 +405,10 @@ zone_minimise(void *arg)
 			}
 
 			if (!ast_setendmapping(m->fsm, m)) {
-				assert(!"failed");
+				pthread_mutex_lock(&zmtx);
+				zerror = errno;
+				pthread_mutex_unlock(&zmtx);
+				return "ast_setendmapping";
 			}
 
 			(void) fsm_getstart(m->fsm, &ms);
@@ -476,7 +479,8 @@ int
 run_threads(int concurrency, void *(*fn)(void *))
 {
 	pthread_t *tds;
-	int i;
+	int i, n;
+	int e;
 
 	assert(fn != NULL);
 
@@ -486,37 +490,50 @@ run_threads(int concurrency, void *(*fn)(void *))
 		return EXIT_FAILURE;
 	}
 
-	for (i = 0; i < concurrency; i++) {
+	e = 0;
+
+	for (n = 0; n < concurrency; n++) {
 		int r;
 
-		r = pthread_create(&tds[i], NULL, fn, NULL);
+		r = pthread_create(&tds[n], NULL, fn, NULL);
 		if (r != 0) {
+			errno = r;
 			perror("pthread_create");
-			return EXIT_FAILURE;
+
+			/* have the threads already running stop early */
+			pthread_mutex_lock(&zmtx);
+			zerror = r;
+			pthread_mutex_unlock(&zmtx);
+
+			e = 1;
+			break;
 		}
 	}
 
-	for (i = 0; i < concurrency; i++) {
+	/* wait for every thread, because we exit on error */
+	for (i = 0; i < n; i++) {
 		void *rv;
 		int r;
 
 		r = pthread_join(tds[i], &rv);
 		if (r != 0) {
+			errno = r;
 			perror("pthread_join");
-			return EXIT_FAILURE;
+			e = 1;
+			continue;
 		}
 
 		if (rv != NULL) {
 			char *f = rv;
 			errno = zerror;
 			perror(f);
-			return EXIT_FAILURE;
+			e = 1;
 		}
 	}
 
 	free(tds);
 
-	return 0;
+	return e ? EXIT_FAILURE : 0;
 }
 
 static int
-- 
2.43.0


From 78f4eb8f396dee5e5a131bf817f4ff70bde5c871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:19 +0000
Subject: [PATCH 075/142] fix: lx: report failure to print rather than exit
 successfully with partial output

---
 src/lx/ast.c        |  6 ++----
 src/lx/main.c       |  5 ++++-
 src/lx/print.c      |  5 +----
 src/lx/print.h      |  2 +-
 src/lx/print/c.c    | 14 +++++++++-----
 src/lx/print/dot.c  | 16 ++++++++++++----
 src/lx/print/dump.c |  4 +++-
 src/lx/print/h.c    |  4 +++-
 src/lx/print/zdot.c |  4 +++-
 9 files changed, 38 insertions(+), 22 deletions(-)

diff --git a/src/lx/ast.c b/src/lx/ast.c
index ecb3657..d9cf4ef 100644
--- a/src/lx/ast.c
+++ b/src/lx/ast.c
@@ -217,10 +217,8 @@ ast_getendmapping(const struct fsm *fsm, fsm_state_t s)
 		return NULL;
 	}
 
-	ids = malloc(count * sizeof *ids);
-	if (ids == NULL) {
-		return NULL;
-	}
+	/* callers take NULL to mean there's no mapping */
+	ids = xmalloc(count * sizeof *ids);
 
 	res = fsm_endid_get(fsm, s, count, ids);
 	assert(res == 1);
diff --git a/src/lx/main.c b/src/lx/main.c
index 792614a..b1ec788 100644
--- a/src/lx/main.c
+++ b/src/lx/main.c
@@ -991,7 +991,10 @@ main(int argc, char *argv[])
 			fprintf(stderr, "-- output:");
 		}
 
-		lx_print(stdout, ast, &opt, lang);
+		if (0 != lx_print(stdout, ast, &opt, lang)) {
+			perror("lx_print");
+			return EXIT_FAILURE;
+		}
 
 		if (print_progress) {
 			fprintf(stderr, "\n");
diff --git a/src/lx/print.c b/src/lx/print.c
index de71a54..af494bb 100644
--- a/src/lx/print.c
+++ b/src/lx/print.c
@@ -38,9 +38,6 @@ lx_print(FILE *f, const struct ast *ast, const struct fsm_options *opt,
 		return -1;
 	}
 
-	// TODO: return int
-	print(f, ast, opt);
-
-	return 0;
+	return print(f, ast, opt);
 }
 
diff --git a/src/lx/print.h b/src/lx/print.h
index 771028e..f1aec9b 100644
--- a/src/lx/print.h
+++ b/src/lx/print.h
@@ -56,7 +56,7 @@ extern enum api_tokbuf  api_tokbuf;
 extern enum api_getc    api_getc;
 extern enum api_exclude api_exclude;
 
-typedef void (lx_print_f)(FILE *f,
+typedef int (lx_print_f)(FILE *f,
 	const struct ast *ast, const struct fsm_options *opt);
 
 lx_print_f lx_print_c;
diff --git a/src/lx/print/c.c b/src/lx/print/c.c
index a2a8570..be10e1f 100644
--- a/src/lx/print/c.c
+++ b/src/lx/print/c.c
@@ -903,7 +903,9 @@ print_zone(FILE *f, const struct ast *ast, const struct ast_zone *z,
 		hooks.advance     = advance_c;
 		hooks.hook_opaque = &hook_env;
 
-		fsm_print(f, z->fsm, opt, &hooks, FSM_PRINT_C);
+		if (0 != fsm_print(f, z->fsm, opt, &hooks, FSM_PRINT_C)) {
+			return -1;
+		}
 	}
 
 	if (~api_exclude & API_BUF) {
@@ -1115,7 +1117,7 @@ print_example(FILE *f, const struct ast *ast, const struct fsm_options *opt)
 	return 0;
 }
 
-void
+int
 lx_print_c(FILE *f, const struct ast *ast, const struct fsm_options *opt)
 {
 	const char *cp;
@@ -1135,7 +1137,7 @@ lx_print_c(FILE *f, const struct ast *ast, const struct fsm_options *opt)
 	for (z = ast->zl; z != NULL; z = z->next) {
 		if (!fsm_all(z->fsm, fsm_isdfa)) {
 			errno = EINVAL;
-			return;
+			return -1;
 		}
 	}
 
@@ -1184,7 +1186,7 @@ lx_print_c(FILE *f, const struct ast *ast, const struct fsm_options *opt)
 		}
 
 		if (-1 == print_zone(f, ast, z, opt, cp)) {
-			return; /* XXX: handle error */
+			return -1;
 		}
 	}
 
@@ -1194,7 +1196,7 @@ lx_print_c(FILE *f, const struct ast *ast, const struct fsm_options *opt)
 
 	if (~api_exclude & API_EXAMPLE) {
 		if (-1 == print_example(f, ast, opt)) {
-			return;
+			return -1;
 		}
 	}
 
@@ -1304,4 +1306,6 @@ lx_print_c(FILE *f, const struct ast *ast, const struct fsm_options *opt)
 		fprintf(f, "\tlx->p = p;\n");
 		fprintf(f, "}\n");
 	}
+
+	return 0;
 }
diff --git a/src/lx/print/dot.c b/src/lx/print/dot.c
index 09c14ce..0fb7b8e 100644
--- a/src/lx/print/dot.c
+++ b/src/lx/print/dot.c
@@ -148,7 +148,7 @@ singlestate(FILE *f, const struct fsm *fsm, const struct ast *ast,
 	}
 }
 
-static void
+static int
 print_zone(FILE *f, const struct ast *ast, const struct ast_zone *z,
 	const struct fsm_options *opt)
 {
@@ -189,7 +189,9 @@ print_zone(FILE *f, const struct ast *ast, const struct ast_zone *z,
  		hooks.accept      = accept_dot;
 		hooks.hook_opaque = (void *) ast;
 
-		fsm_print(f, z->fsm, &o, &hooks, FSM_PRINT_DOT);
+		if (0 != fsm_print(f, z->fsm, &o, &hooks, FSM_PRINT_DOT)) {
+			return -1;
+		}
 	}
 
 	for (i = 0; i < z->fsm->statecount; i++) {
@@ -201,9 +203,11 @@ print_zone(FILE *f, const struct ast *ast, const struct ast_zone *z,
 		fprintf(f, "\t\tz%uS%u [ color = red ];\n",
 			zindexof(ast, z), start);
 	}
+
+	return 0;
 }
 
-void
+int
 lx_print_dot(FILE *f, const struct ast *ast, const struct fsm_options *opt)
 {
 	const struct ast_zone *z;
@@ -276,10 +280,14 @@ lx_print_dot(FILE *f, const struct ast *ast, const struct fsm_options *opt)
 			zn++;
 		}
 
-		print_zone(f, ast, z, opt);
+		if (-1 == print_zone(f, ast, z, opt)) {
+			return -1;
+		}
 	}
 
 	fprintf(f, "}\n");
 	fprintf(f, "\n");
+
+	return 0;
 }
 
diff --git a/src/lx/print/dump.c b/src/lx/print/dump.c
index e693f90..15e2367 100644
--- a/src/lx/print/dump.c
+++ b/src/lx/print/dump.c
@@ -13,7 +13,7 @@
 
 #include "lx/print.h"
 
-void
+int
 lx_print_dump(FILE *f, const struct ast *ast, const struct fsm_options *opt)
 {
 	assert(f != NULL);
@@ -314,5 +314,7 @@ lx_print_dump(FILE *f, const struct ast *ast, const struct fsm_options *opt)
 
 	fprintf(f, "\treturn t == TOK_ERROR;\n");
 	fprintf(f, "}\n");
+
+	return 0;
 }
 
diff --git a/src/lx/print/h.c b/src/lx/print/h.c
index 6946071..1b46f43 100644
--- a/src/lx/print/h.c
+++ b/src/lx/print/h.c
@@ -40,7 +40,7 @@ print_tokens(FILE *f, const struct ast *ast)
 	fprintf(f, "};\n");
 }
 
-void
+int
 lx_print_h(FILE *f, const struct ast *ast, const struct fsm_options *opt)
 {
 	assert(f != NULL);
@@ -244,5 +244,7 @@ lx_print_h(FILE *f, const struct ast *ast, const struct fsm_options *opt)
 
 	fprintf(f, "#endif\n");
 	fprintf(f, "\n");
+
+	return 0;
 }
 
diff --git a/src/lx/print/zdot.c b/src/lx/print/zdot.c
index 3fcf72b..74abe57 100644
--- a/src/lx/print/zdot.c
+++ b/src/lx/print/zdot.c
@@ -73,7 +73,7 @@ print_zone(FILE *f, const struct ast *ast, const struct ast_zone *z)
 	fprintf(f, "\t\n");
 }
 
-void
+int
 lx_print_zdot(FILE *f, const struct ast *ast, const struct fsm_options *opt)
 {
 	const struct ast_zone *z;
@@ -110,5 +110,7 @@ lx_print_zdot(FILE *f, const struct ast *ast, const struct fsm_options *opt)
 
 	fprintf(f, "}\n");
 	fprintf(f, "\n");
+
+	return 0;
 }
 
-- 
2.43.0


From 1b419765704230a4776e69a740cf4c18907f1ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:03 +0000
Subject: [PATCH 076/142] fix: lx: don't overflow the pattern buffer, nor print
 unterminated patterns

Patterns are collected in a fixed array of 512 bytes, which was written
past for longer patterns. And when a pattern failed to compile, it was
passed to re_perror() from a buffer with no terminator, at an address which
act_agetc() had already advanced to the end.
---
 src/lx/parser.act |  32 ++++-
 src/lx/parser.c   | 357 ++++++++++++++++++++++++----------------------
 2 files changed, 215 insertions(+), 174 deletions(-)

diff --git a/src/lx/parser.act b/src/lx/parser.act
index 0db0c3b..171257e 100644
--- a/src/lx/parser.act
+++ b/src/lx/parser.act
@@ -74,7 +74,8 @@
 		struct lx lx;
 		struct lx_dynbuf buf;
 
-		char a[512];
+		char *a;
+		size_t len;
 		char *p;
 	};
 
@@ -245,7 +246,16 @@
 %actions%
 
 	<pattern-char>: (c :char) -> () = @{
-		/* TODO */
+		if (lex_state->p == lex_state->a + lex_state->len) {
+			size_t off;
+
+			off = lex_state->p - lex_state->a;
+
+			lex_state->len *= 2;
+			lex_state->a = xrealloc(lex_state->a, lex_state->len);
+			lex_state->p = lex_state->a + off;
+		}
+
 		*lex_state->p++ = @c;
 	@};
 
@@ -260,7 +270,7 @@
 
 		len = lex_state->p - lex_state->a;
 
-		@a = malloc(sizeof *@a + len);
+		@a = malloc(sizeof *@a + len + 1);
 		if (@a == NULL) {
 			perror("malloc");
 			exit(EXIT_FAILURE);
@@ -270,6 +280,7 @@
 		@a->p   = (char *) @a + sizeof *@a;
 
 		memcpy(@a->p, lex_state->a, @a->len);
+		@a->p[@a->len] = '\0'; /* for error messages */
 
 		lex_state->p = lex_state->a;
 	@};
@@ -360,30 +371,36 @@
 
 	<compile-literal>: (a :arr) -> (r :fsm) = @{
 		struct re_err err;
+		const char *s;
 
 		assert(@a != NULL);
 		assert(@a->p != NULL);
 
+		s = @a->p; /* advanced by act_agetc() */
+
 		@r = re_comp(RE_LITERAL, act_agetc, @a, act_state->alloc, 0, &err);
 		if (@r == NULL) {
 			assert(err.e != RE_EBADDIALECT);
 			/* TODO: pass filename for .lx source */
-			re_perror(RE_LITERAL, &err, NULL, @a->p); /* XXX */
+			re_perror(RE_LITERAL, &err, NULL, s); /* XXX */
 			exit(EXIT_FAILURE);
 		}
 	@};
 
 	<compile-regex>: (a :arr, f :flags) -> (r :fsm) = @{
 		struct re_err err;
+		const char *s;
 
 		assert(@a != NULL);
 		assert(@a->p != NULL);
 
+		s = @a->p; /* advanced by act_agetc() */
+
 		@r = re_comp(RE_NATIVE, act_agetc, @a, act_state->alloc, @f, &err);
 		if (@r == NULL) {
 			assert(err.e != RE_EBADDIALECT);
 			/* TODO: pass filename for .lx source */
-			re_perror(RE_NATIVE, &err, NULL, @a->p);
+			re_perror(RE_NATIVE, &err, NULL, s);
 			exit(EXIT_FAILURE);
 		}
 	@};
@@ -829,7 +846,9 @@
 
 		lex_state = &lex_state_s;
 
-		lex_state->p = lex_state->a;
+		lex_state->len = 512;
+		lex_state->a   = xmalloc(lex_state->len);
+		lex_state->p   = lex_state->a;
 
 		lx = &lex_state->lx;
 
@@ -859,6 +878,7 @@
 		p_lx(lex_state, act_state, &ast);
 
 		lx->free(lx->buf_opaque);
+		free(lex_state->a);
 
 		/*
 		 * This can happen when the first token is TOK_UNKNOWN.
diff --git a/src/lx/parser.c b/src/lx/parser.c
index 4ab69ce..3fcf732 100644
--- a/src/lx/parser.c
+++ b/src/lx/parser.c
@@ -60,7 +60,8 @@
 		struct lx lx;
 		struct lx_dynbuf buf;
 
-		char a[512];
+		char *a;
+		size_t len;
 		char *p;
 	};
 
@@ -110,7 +111,7 @@
 		return a->len--, (unsigned char) *a->p++;
 	}
 
-#line 114 "src/lx/parser.c"
+#line 115 "src/lx/parser.c"
 
 
 #ifndef ERROR_TERMINAL
@@ -182,11 +183,11 @@ ZL1:;
 	{
 		/* BEGINNING OF ACTION: err-expected-list */
 		{
-#line 814 "src/lx/parser.act"
+#line 831 "src/lx/parser.act"
 
 		err_expected(lex_state, "list of mappings, bindings or zones");
 	
-#line 190 "src/lx/parser.c"
+#line 191 "src/lx/parser.c"
 		}
 		/* END OF ACTION: err-expected-list */
 	}
@@ -204,17 +205,17 @@ p_pattern(lex_state lex_state, act_state act_state, zone ZIz, fsm *ZOr)
 
 			/* BEGINNING OF EXTRACT: IDENT */
 			{
-#line 227 "src/lx/parser.act"
+#line 228 "src/lx/parser.act"
 
 		ZIn = xstrdup(lex_state->buf.a);
 	
-#line 212 "src/lx/parser.c"
+#line 213 "src/lx/parser.c"
 			}
 			/* END OF EXTRACT: IDENT */
 			ADVANCE_LEXER;
 			/* BEGINNING OF ACTION: deref-var */
 			{
-#line 277 "src/lx/parser.act"
+#line 288 "src/lx/parser.act"
 
 		struct ast_zone *z;
 
@@ -241,7 +242,7 @@ p_pattern(lex_state lex_state, act_state act_state, zone ZIz, fsm *ZOr)
 			goto ZL1;
 		}
 	
-#line 245 "src/lx/parser.c"
+#line 246 "src/lx/parser.c"
 			}
 			/* END OF ACTION: deref-var */
 		}
@@ -252,18 +253,18 @@ p_pattern(lex_state lex_state, act_state act_state, zone ZIz, fsm *ZOr)
 
 			/* BEGINNING OF EXTRACT: TOKEN */
 			{
-#line 222 "src/lx/parser.act"
+#line 223 "src/lx/parser.act"
 
 		/* TODO: submatch addressing */
 		ZIt = xstrdup(lex_state->buf.a + 1); /* +1 for '$' prefix */
 	
-#line 261 "src/lx/parser.c"
+#line 262 "src/lx/parser.c"
 			}
 			/* END OF EXTRACT: TOKEN */
 			ADVANCE_LEXER;
 			/* BEGINNING OF ACTION: deref-token */
 			{
-#line 304 "src/lx/parser.act"
+#line 315 "src/lx/parser.act"
 
 		const struct ast_mapping *m;
 		fsm_state_t start;
@@ -320,7 +321,7 @@ p_pattern(lex_state lex_state, act_state act_state, zone ZIz, fsm *ZOr)
 
 		fsm_setstart((ZIr), start);
 	
-#line 324 "src/lx/parser.c"
+#line 325 "src/lx/parser.c"
 			}
 			/* END OF ACTION: deref-token */
 		}
@@ -374,7 +375,7 @@ p_list_Hof_Hthings_C_Cthing(lex_state lex_state, act_state act_state, ast ZIa, z
 			}
 			/* BEGINNING OF ACTION: op-reverse */
 			{
-#line 676 "src/lx/parser.act"
+#line 693 "src/lx/parser.act"
 
 		assert((ZI210) != NULL);
 
@@ -383,7 +384,7 @@ p_list_Hof_Hthings_C_Cthing(lex_state lex_state, act_state act_state, ast ZIa, z
 			goto ZL1;
 		}
 	
-#line 387 "src/lx/parser.c"
+#line 388 "src/lx/parser.c"
 			}
 			/* END OF ACTION: op-reverse */
 			p_212 (lex_state, act_state, &ZIz, &ZI210, &ZI206);
@@ -398,7 +399,7 @@ p_list_Hof_Hthings_C_Cthing(lex_state lex_state, act_state act_state, ast ZIa, z
 			}
 			/* BEGINNING OF ACTION: subtract-exit */
 			{
-#line 735 "src/lx/parser.act"
+#line 752 "src/lx/parser.act"
 
 		assert((ZI231) != NULL);
 
@@ -418,7 +419,7 @@ p_list_Hof_Hthings_C_Cthing(lex_state lex_state, act_state act_state, ast ZIa, z
 			}
 		}
 	
-#line 422 "src/lx/parser.c"
+#line 423 "src/lx/parser.c"
 			}
 			/* END OF ACTION: subtract-exit */
 			p_251 (lex_state, act_state, &ZIa, &ZIz, &ZIexit, &ZI232, &ZI233);
@@ -449,7 +450,7 @@ p_list_Hof_Hthings_C_Cthing(lex_state lex_state, act_state act_state, ast ZIa, z
 			}
 			/* BEGINNING OF ACTION: op-complete */
 			{
-#line 667 "src/lx/parser.act"
+#line 684 "src/lx/parser.act"
 
 		assert((ZI210) != NULL);
 
@@ -458,7 +459,7 @@ p_list_Hof_Hthings_C_Cthing(lex_state lex_state, act_state act_state, ast ZIa, z
 			goto ZL1;
 		}
 	
-#line 462 "src/lx/parser.c"
+#line 463 "src/lx/parser.c"
 			}
 			/* END OF ACTION: op-complete */
 			p_212 (lex_state, act_state, &ZIz, &ZI210, &ZI206);
@@ -473,7 +474,7 @@ p_list_Hof_Hthings_C_Cthing(lex_state lex_state, act_state act_state, ast ZIa, z
 			}
 			/* BEGINNING OF ACTION: subtract-exit */
 			{
-#line 735 "src/lx/parser.act"
+#line 752 "src/lx/parser.act"
 
 		assert((ZI239) != NULL);
 
@@ -493,7 +494,7 @@ p_list_Hof_Hthings_C_Cthing(lex_state lex_state, act_state act_state, ast ZIa, z
 			}
 		}
 	
-#line 497 "src/lx/parser.c"
+#line 498 "src/lx/parser.c"
 			}
 			/* END OF ACTION: subtract-exit */
 			p_251 (lex_state, act_state, &ZIa, &ZIz, &ZIexit, &ZI240, &ZI241);
@@ -509,11 +510,11 @@ p_list_Hof_Hthings_C_Cthing(lex_state lex_state, act_state act_state, ast ZIa, z
 
 			/* BEGINNING OF EXTRACT: IDENT */
 			{
-#line 227 "src/lx/parser.act"
+#line 228 "src/lx/parser.act"
 
 		ZIn = xstrdup(lex_state->buf.a);
 	
-#line 517 "src/lx/parser.c"
+#line 518 "src/lx/parser.c"
 			}
 			/* END OF EXTRACT: IDENT */
 			ADVANCE_LEXER;
@@ -563,7 +564,7 @@ p_list_Hof_Hthings_C_Cthing(lex_state lex_state, act_state act_state, ast ZIa, z
 			}
 			/* BEGINNING OF ACTION: subtract-exit */
 			{
-#line 735 "src/lx/parser.act"
+#line 752 "src/lx/parser.act"
 
 		assert((ZI248) != NULL);
 
@@ -583,7 +584,7 @@ p_list_Hof_Hthings_C_Cthing(lex_state lex_state, act_state act_state, ast ZIa, z
 			}
 		}
 	
-#line 587 "src/lx/parser.c"
+#line 588 "src/lx/parser.c"
 			}
 			/* END OF ACTION: subtract-exit */
 			p_251 (lex_state, act_state, &ZIa, &ZIz, &ZIexit, &ZI249, &ZI250);
@@ -614,7 +615,7 @@ p_list_Hof_Hthings_C_Cthing(lex_state lex_state, act_state act_state, ast ZIa, z
 			}
 			/* BEGINNING OF ACTION: op-complement */
 			{
-#line 658 "src/lx/parser.act"
+#line 675 "src/lx/parser.act"
 
 		assert((ZI210) != NULL);
 
@@ -623,7 +624,7 @@ p_list_Hof_Hthings_C_Cthing(lex_state lex_state, act_state act_state, ast ZIa, z
 			goto ZL1;
 		}
 	
-#line 627 "src/lx/parser.c"
+#line 628 "src/lx/parser.c"
 			}
 			/* END OF ACTION: op-complement */
 			p_212 (lex_state, act_state, &ZIz, &ZI210, &ZI206);
@@ -638,7 +639,7 @@ p_list_Hof_Hthings_C_Cthing(lex_state lex_state, act_state act_state, ast ZIa, z
 			}
 			/* BEGINNING OF ACTION: subtract-exit */
 			{
-#line 735 "src/lx/parser.act"
+#line 752 "src/lx/parser.act"
 
 		assert((ZI223) != NULL);
 
@@ -658,7 +659,7 @@ p_list_Hof_Hthings_C_Cthing(lex_state lex_state, act_state act_state, ast ZIa, z
 			}
 		}
 	
-#line 662 "src/lx/parser.c"
+#line 663 "src/lx/parser.c"
 			}
 			/* END OF ACTION: subtract-exit */
 			p_251 (lex_state, act_state, &ZIa, &ZIz, &ZIexit, &ZI224, &ZI225);
@@ -685,18 +686,18 @@ p_list_Hof_Hthings_C_Cthing(lex_state lex_state, act_state act_state, ast ZIa, z
 
 			/* BEGINNING OF EXTRACT: TOKEN */
 			{
-#line 222 "src/lx/parser.act"
+#line 223 "src/lx/parser.act"
 
 		/* TODO: submatch addressing */
 		ZI253 = xstrdup(lex_state->buf.a + 1); /* +1 for '$' prefix */
 	
-#line 694 "src/lx/parser.c"
+#line 695 "src/lx/parser.c"
 			}
 			/* END OF EXTRACT: TOKEN */
 			ADVANCE_LEXER;
 			/* BEGINNING OF ACTION: deref-token */
 			{
-#line 304 "src/lx/parser.act"
+#line 315 "src/lx/parser.act"
 
 		const struct ast_mapping *m;
 		fsm_state_t start;
@@ -753,7 +754,7 @@ p_list_Hof_Hthings_C_Cthing(lex_state lex_state, act_state act_state, ast ZIa, z
 
 		fsm_setstart((ZI254), start);
 	
-#line 757 "src/lx/parser.c"
+#line 758 "src/lx/parser.c"
 			}
 			/* END OF ACTION: deref-token */
 			p_197 (lex_state, act_state, ZI254, &ZI210);
@@ -769,7 +770,7 @@ p_list_Hof_Hthings_C_Cthing(lex_state lex_state, act_state act_state, ast ZIa, z
 			}
 			/* BEGINNING OF ACTION: subtract-exit */
 			{
-#line 735 "src/lx/parser.act"
+#line 752 "src/lx/parser.act"
 
 		assert((ZI259) != NULL);
 
@@ -789,7 +790,7 @@ p_list_Hof_Hthings_C_Cthing(lex_state lex_state, act_state act_state, ast ZIa, z
 			}
 		}
 	
-#line 793 "src/lx/parser.c"
+#line 794 "src/lx/parser.c"
 			}
 			/* END OF ACTION: subtract-exit */
 			p_251 (lex_state, act_state, &ZIa, &ZIz, &ZIexit, &ZI260, &ZI261);
@@ -829,7 +830,7 @@ p_list_Hof_Hthings_C_Cthing(lex_state lex_state, act_state act_state, ast ZIa, z
 			}
 			/* BEGINNING OF ACTION: subtract-exit */
 			{
-#line 735 "src/lx/parser.act"
+#line 752 "src/lx/parser.act"
 
 		assert((ZI268) != NULL);
 
@@ -849,7 +850,7 @@ p_list_Hof_Hthings_C_Cthing(lex_state lex_state, act_state act_state, ast ZIa, z
 			}
 		}
 	
-#line 853 "src/lx/parser.c"
+#line 854 "src/lx/parser.c"
 			}
 			/* END OF ACTION: subtract-exit */
 			p_251 (lex_state, act_state, &ZIa, &ZIz, &ZIexit, &ZI269, &ZI270);
@@ -869,11 +870,11 @@ ZL1:;
 	{
 		/* BEGINNING OF ACTION: err-expected-thing */
 		{
-#line 810 "src/lx/parser.act"
+#line 827 "src/lx/parser.act"
 
 		err_expected(lex_state, "mapping, binding or zone");
 	
-#line 877 "src/lx/parser.c"
+#line 878 "src/lx/parser.c"
 		}
 		/* END OF ACTION: err-expected-thing */
 	}
@@ -899,11 +900,11 @@ ZL1:;
 	{
 		/* BEGINNING OF ACTION: err-expected-open */
 		{
-#line 798 "src/lx/parser.act"
+#line 815 "src/lx/parser.act"
 
 		err_expected(lex_state, "'{'");
 	
-#line 907 "src/lx/parser.c"
+#line 908 "src/lx/parser.c"
 		}
 		/* END OF ACTION: err-expected-open */
 	}
@@ -929,11 +930,11 @@ ZL1:;
 	{
 		/* BEGINNING OF ACTION: err-expected-close */
 		{
-#line 802 "src/lx/parser.act"
+#line 819 "src/lx/parser.act"
 
 		err_expected(lex_state, "'}'");
 	
-#line 937 "src/lx/parser.c"
+#line 938 "src/lx/parser.c"
 		}
 		/* END OF ACTION: err-expected-close */
 	}
@@ -955,14 +956,14 @@ ZL2_pattern_C_Cbody:;
 					{
 						/* BEGINNING OF EXTRACT: CHAR */
 						{
-#line 215 "src/lx/parser.act"
+#line 216 "src/lx/parser.act"
 
 		assert(lex_state->buf.a[0] != '\0');
 		assert(lex_state->buf.a[1] == '\0');
 
 		ZIc = lex_state->buf.a[0];
 	
-#line 966 "src/lx/parser.c"
+#line 967 "src/lx/parser.c"
 						}
 						/* END OF EXTRACT: CHAR */
 						ADVANCE_LEXER;
@@ -972,7 +973,7 @@ ZL2_pattern_C_Cbody:;
 					{
 						/* BEGINNING OF EXTRACT: ESC */
 						{
-#line 143 "src/lx/parser.act"
+#line 144 "src/lx/parser.act"
 
 		assert(lex_state->buf.a[0] == '\\');
 		assert(lex_state->buf.a[1] != '\0');
@@ -990,7 +991,7 @@ ZL2_pattern_C_Cbody:;
 		default:   ZIc = '\0'; break; /* TODO: handle error */
 		}
 	
-#line 994 "src/lx/parser.c"
+#line 995 "src/lx/parser.c"
 						}
 						/* END OF EXTRACT: ESC */
 						ADVANCE_LEXER;
@@ -1000,7 +1001,7 @@ ZL2_pattern_C_Cbody:;
 					{
 						/* BEGINNING OF EXTRACT: HEX */
 						{
-#line 188 "src/lx/parser.act"
+#line 189 "src/lx/parser.act"
 
 		unsigned long u;
 		char *e;
@@ -1027,7 +1028,7 @@ ZL2_pattern_C_Cbody:;
 
 		ZIc = (char) (unsigned char) u;
 	
-#line 1031 "src/lx/parser.c"
+#line 1032 "src/lx/parser.c"
 						}
 						/* END OF EXTRACT: HEX */
 						ADVANCE_LEXER;
@@ -1037,7 +1038,7 @@ ZL2_pattern_C_Cbody:;
 					{
 						/* BEGINNING OF EXTRACT: OCT */
 						{
-#line 161 "src/lx/parser.act"
+#line 162 "src/lx/parser.act"
 
 		unsigned long u;
 		char *e;
@@ -1064,7 +1065,7 @@ ZL2_pattern_C_Cbody:;
 
 		ZIc = (char) (unsigned char) u;
 	
-#line 1068 "src/lx/parser.c"
+#line 1069 "src/lx/parser.c"
 						}
 						/* END OF EXTRACT: OCT */
 						ADVANCE_LEXER;
@@ -1077,12 +1078,21 @@ ZL2_pattern_C_Cbody:;
 			/* END OF INLINE: 84 */
 			/* BEGINNING OF ACTION: pattern-char */
 			{
-#line 247 "src/lx/parser.act"
+#line 248 "src/lx/parser.act"
+
+		if (lex_state->p == lex_state->a + lex_state->len) {
+			size_t off;
+
+			off = lex_state->p - lex_state->a;
+
+			lex_state->len *= 2;
+			lex_state->a = xrealloc(lex_state->a, lex_state->len);
+			lex_state->p = lex_state->a + off;
+		}
 
-		/* TODO */
 		*lex_state->p++ = (ZIc);
 	
-#line 1086 "src/lx/parser.c"
+#line 1096 "src/lx/parser.c"
 			}
 			/* END OF ACTION: pattern-char */
 			/* BEGINNING OF INLINE: pattern::body */
@@ -1211,7 +1221,7 @@ ZL2_180:;
 			}
 			/* BEGINNING OF ACTION: op-alt */
 			{
-#line 724 "src/lx/parser.act"
+#line 741 "src/lx/parser.act"
 
 		assert((ZI177) != NULL);
 		assert((ZIb) != NULL);
@@ -1222,7 +1232,7 @@ ZL2_180:;
 			goto ZL1;
 		}
 	
-#line 1226 "src/lx/parser.c"
+#line 1236 "src/lx/parser.c"
 			}
 			/* END OF ACTION: op-alt */
 			/* BEGINNING OF INLINE: 180 */
@@ -1291,7 +1301,7 @@ p_expr_C_Cprefix_Hexpr(lex_state lex_state, act_state act_state, zone ZIz, fsm *
 			}
 			/* BEGINNING OF ACTION: op-reverse */
 			{
-#line 676 "src/lx/parser.act"
+#line 693 "src/lx/parser.act"
 
 		assert((ZIq) != NULL);
 
@@ -1300,7 +1310,7 @@ p_expr_C_Cprefix_Hexpr(lex_state lex_state, act_state act_state, zone ZIz, fsm *
 			goto ZL1;
 		}
 	
-#line 1304 "src/lx/parser.c"
+#line 1314 "src/lx/parser.c"
 			}
 			/* END OF ACTION: op-reverse */
 		}
@@ -1315,7 +1325,7 @@ p_expr_C_Cprefix_Hexpr(lex_state lex_state, act_state act_state, zone ZIz, fsm *
 			}
 			/* BEGINNING OF ACTION: op-complete */
 			{
-#line 667 "src/lx/parser.act"
+#line 684 "src/lx/parser.act"
 
 		assert((ZIq) != NULL);
 
@@ -1324,7 +1334,7 @@ p_expr_C_Cprefix_Hexpr(lex_state lex_state, act_state act_state, zone ZIz, fsm *
 			goto ZL1;
 		}
 	
-#line 1328 "src/lx/parser.c"
+#line 1338 "src/lx/parser.c"
 			}
 			/* END OF ACTION: op-complete */
 		}
@@ -1339,7 +1349,7 @@ p_expr_C_Cprefix_Hexpr(lex_state lex_state, act_state act_state, zone ZIz, fsm *
 			}
 			/* BEGINNING OF ACTION: op-complement */
 			{
-#line 658 "src/lx/parser.act"
+#line 675 "src/lx/parser.act"
 
 		assert((ZIq) != NULL);
 
@@ -1348,7 +1358,7 @@ p_expr_C_Cprefix_Hexpr(lex_state lex_state, act_state act_state, zone ZIz, fsm *
 			goto ZL1;
 		}
 	
-#line 1352 "src/lx/parser.c"
+#line 1362 "src/lx/parser.c"
 			}
 			/* END OF ACTION: op-complement */
 		}
@@ -1398,7 +1408,7 @@ ZL2_186:;
 			}
 			/* BEGINNING OF ACTION: op-intersect */
 			{
-#line 713 "src/lx/parser.act"
+#line 730 "src/lx/parser.act"
 
 		assert((ZI183) != NULL);
 		assert((ZIb) != NULL);
@@ -1409,7 +1419,7 @@ ZL2_186:;
 			goto ZL1;
 		}
 	
-#line 1413 "src/lx/parser.c"
+#line 1423 "src/lx/parser.c"
 			}
 			/* END OF ACTION: op-intersect */
 			/* BEGINNING OF INLINE: 186 */
@@ -1455,7 +1465,7 @@ ZL2_list_Hof_Hthings_C_Czone_Hthing_C_Clist_Hof_Hzone_Hto_Hmappings_C_Clist_Hof_
 			}
 			/* BEGINNING OF ACTION: op-alt */
 			{
-#line 724 "src/lx/parser.act"
+#line 741 "src/lx/parser.act"
 
 		assert((ZIold_Hexit) != NULL);
 		assert((ZInew_Hexit) != NULL);
@@ -1466,7 +1476,7 @@ ZL2_list_Hof_Hthings_C_Czone_Hthing_C_Clist_Hof_Hzone_Hto_Hmappings_C_Clist_Hof_
 			goto ZL1;
 		}
 	
-#line 1470 "src/lx/parser.c"
+#line 1480 "src/lx/parser.c"
 			}
 			/* END OF ACTION: op-alt */
 			/* BEGINNING OF INLINE: list-of-things::zone-thing::list-of-zone-to-mappings::list-of-zone-to-mappings-x */
@@ -1554,7 +1564,7 @@ ZL2_197:;
 						ADVANCE_LEXER;
 						/* BEGINNING OF ACTION: op-cross */
 						{
-#line 568 "src/lx/parser.act"
+#line 585 "src/lx/parser.act"
 
 		fsm_state_t start, end;
 		fsm_state_t old;
@@ -1599,7 +1609,7 @@ ZL2_197:;
 
 		fsm_setstart((ZIq), start);
 	
-#line 1603 "src/lx/parser.c"
+#line 1613 "src/lx/parser.c"
 						}
 						/* END OF ACTION: op-cross */
 						/* BEGINNING OF INLINE: 197 */
@@ -1613,7 +1623,7 @@ ZL2_197:;
 						ADVANCE_LEXER;
 						/* BEGINNING OF ACTION: op-qmark */
 						{
-#line 613 "src/lx/parser.act"
+#line 630 "src/lx/parser.act"
 
 		fsm_state_t start, end;
 		fsm_state_t old;
@@ -1658,7 +1668,7 @@ ZL2_197:;
 
 		fsm_setstart((ZIq), start);
 	
-#line 1662 "src/lx/parser.c"
+#line 1672 "src/lx/parser.c"
 						}
 						/* END OF ACTION: op-qmark */
 						/* BEGINNING OF INLINE: 197 */
@@ -1672,7 +1682,7 @@ ZL2_197:;
 						ADVANCE_LEXER;
 						/* BEGINNING OF ACTION: op-star */
 						{
-#line 518 "src/lx/parser.act"
+#line 535 "src/lx/parser.act"
 
 		fsm_state_t start, end;
 		fsm_state_t old;
@@ -1722,7 +1732,7 @@ ZL2_197:;
 
 		fsm_setstart((ZIq), start);
 	
-#line 1726 "src/lx/parser.c"
+#line 1736 "src/lx/parser.c"
 						}
 						/* END OF ACTION: op-star */
 						/* BEGINNING OF INLINE: 197 */
@@ -1795,7 +1805,7 @@ p_204(lex_state lex_state, act_state act_state, zone *ZIz, fsm *ZI202, fsm *ZOq)
 			}
 			/* BEGINNING OF ACTION: op-subtract */
 			{
-#line 702 "src/lx/parser.act"
+#line 719 "src/lx/parser.act"
 
 		assert((*ZI202) != NULL);
 		assert((ZIb) != NULL);
@@ -1806,7 +1816,7 @@ p_204(lex_state lex_state, act_state act_state, zone *ZIz, fsm *ZI202, fsm *ZOq)
 			goto ZL1;
 		}
 	
-#line 1810 "src/lx/parser.c"
+#line 1820 "src/lx/parser.c"
 			}
 			/* END OF ACTION: op-subtract */
 		}
@@ -1870,7 +1880,7 @@ p_208(lex_state lex_state, act_state act_state, zone *ZIz, fsm *ZI206, fsm *ZOq)
 			}
 			/* BEGINNING OF ACTION: op-concat */
 			{
-#line 685 "src/lx/parser.act"
+#line 702 "src/lx/parser.act"
 
 		assert((*ZI206) != NULL);
 		assert((ZIb) != NULL);
@@ -1881,7 +1891,7 @@ p_208(lex_state lex_state, act_state act_state, zone *ZIz, fsm *ZI206, fsm *ZOq)
 			goto ZL1;
 		}
 	
-#line 1885 "src/lx/parser.c"
+#line 1895 "src/lx/parser.c"
 			}
 			/* END OF ACTION: op-concat */
 		}
@@ -1920,13 +1930,13 @@ p_212(lex_state lex_state, act_state act_state, zone *ZIz, fsm *ZI210, fsm *ZOq)
 			}
 			/* BEGINNING OF ACTION: op-product */
 			{
-#line 696 "src/lx/parser.act"
+#line 713 "src/lx/parser.act"
 
 		fprintf(stderr, "unimplemented\n");
 		(ZIq) = NULL;
 		goto ZL1;
 	
-#line 1930 "src/lx/parser.c"
+#line 1940 "src/lx/parser.c"
 			}
 			/* END OF ACTION: op-product */
 		}
@@ -1960,7 +1970,7 @@ p_215(lex_state lex_state, act_state act_state, fsm *ZOr)
 
 			/* BEGINNING OF EXTRACT: RE */
 			{
-#line 231 "src/lx/parser.act"
+#line 232 "src/lx/parser.act"
 
 		assert(lex_state->buf.a[0] == '/');
 
@@ -1974,13 +1984,13 @@ p_215(lex_state lex_state, act_state act_state, fsm *ZOr)
 		ZIf |= RE_ANCHORED; /* regexps in lx are implicitly anchored */
 		ZIf |= RE_SINGLE;   /* we can't assume we're lexing text */
 	
-#line 1978 "src/lx/parser.c"
+#line 1988 "src/lx/parser.c"
 			}
 			/* END OF EXTRACT: RE */
 			ADVANCE_LEXER;
 			/* BEGINNING OF ACTION: pattern-buffer */
 			{
-#line 252 "src/lx/parser.act"
+#line 262 "src/lx/parser.act"
 
 		size_t len;
 
@@ -1992,7 +2002,7 @@ p_215(lex_state lex_state, act_state act_state, fsm *ZOr)
 
 		len = lex_state->p - lex_state->a;
 
-		(ZIa) = malloc(sizeof *(ZIa) + len);
+		(ZIa) = malloc(sizeof *(ZIa) + len + 1);
 		if ((ZIa) == NULL) {
 			perror("malloc");
 			exit(EXIT_FAILURE);
@@ -2002,39 +2012,43 @@ p_215(lex_state lex_state, act_state act_state, fsm *ZOr)
 		(ZIa)->p   = (char *) (ZIa) + sizeof *(ZIa);
 
 		memcpy((ZIa)->p, lex_state->a, (ZIa)->len);
+		(ZIa)->p[(ZIa)->len] = '\0'; /* for error messages */
 
 		lex_state->p = lex_state->a;
 	
-#line 2009 "src/lx/parser.c"
+#line 2020 "src/lx/parser.c"
 			}
 			/* END OF ACTION: pattern-buffer */
 			/* BEGINNING OF ACTION: compile-regex */
 			{
-#line 376 "src/lx/parser.act"
+#line 390 "src/lx/parser.act"
 
 		struct re_err err;
+		const char *s;
 
 		assert((ZIa) != NULL);
 		assert((ZIa)->p != NULL);
 
+		s = (ZIa)->p; /* advanced by act_agetc() */
+
 		(ZIr) = re_comp(RE_NATIVE, act_agetc, (ZIa), act_state->alloc, (ZIf), &err);
 		if ((ZIr) == NULL) {
 			assert(err.e != RE_EBADDIALECT);
 			/* TODO: pass filename for .lx source */
-			re_perror(RE_NATIVE, &err, NULL, (ZIa)->p);
+			re_perror(RE_NATIVE, &err, NULL, s);
 			exit(EXIT_FAILURE);
 		}
 	
-#line 2029 "src/lx/parser.c"
+#line 2043 "src/lx/parser.c"
 			}
 			/* END OF ACTION: compile-regex */
 			/* BEGINNING OF ACTION: free-arr */
 			{
-#line 765 "src/lx/parser.act"
+#line 782 "src/lx/parser.act"
 
 		free((ZIa));
 	
-#line 2038 "src/lx/parser.c"
+#line 2052 "src/lx/parser.c"
 			}
 			/* END OF ACTION: free-arr */
 		}
@@ -2046,7 +2060,7 @@ p_215(lex_state lex_state, act_state act_state, fsm *ZOr)
 			ADVANCE_LEXER;
 			/* BEGINNING OF ACTION: pattern-buffer */
 			{
-#line 252 "src/lx/parser.act"
+#line 262 "src/lx/parser.act"
 
 		size_t len;
 
@@ -2058,7 +2072,7 @@ p_215(lex_state lex_state, act_state act_state, fsm *ZOr)
 
 		len = lex_state->p - lex_state->a;
 
-		(ZIa) = malloc(sizeof *(ZIa) + len);
+		(ZIa) = malloc(sizeof *(ZIa) + len + 1);
 		if ((ZIa) == NULL) {
 			perror("malloc");
 			exit(EXIT_FAILURE);
@@ -2068,39 +2082,43 @@ p_215(lex_state lex_state, act_state act_state, fsm *ZOr)
 		(ZIa)->p   = (char *) (ZIa) + sizeof *(ZIa);
 
 		memcpy((ZIa)->p, lex_state->a, (ZIa)->len);
+		(ZIa)->p[(ZIa)->len] = '\0'; /* for error messages */
 
 		lex_state->p = lex_state->a;
 	
-#line 2075 "src/lx/parser.c"
+#line 2090 "src/lx/parser.c"
 			}
 			/* END OF ACTION: pattern-buffer */
 			/* BEGINNING OF ACTION: compile-literal */
 			{
-#line 361 "src/lx/parser.act"
+#line 372 "src/lx/parser.act"
 
 		struct re_err err;
+		const char *s;
 
 		assert((ZIa) != NULL);
 		assert((ZIa)->p != NULL);
 
+		s = (ZIa)->p; /* advanced by act_agetc() */
+
 		(ZIr) = re_comp(RE_LITERAL, act_agetc, (ZIa), act_state->alloc, 0, &err);
 		if ((ZIr) == NULL) {
 			assert(err.e != RE_EBADDIALECT);
 			/* TODO: pass filename for .lx source */
-			re_perror(RE_LITERAL, &err, NULL, (ZIa)->p); /* XXX */
+			re_perror(RE_LITERAL, &err, NULL, s); /* XXX */
 			exit(EXIT_FAILURE);
 		}
 	
-#line 2095 "src/lx/parser.c"
+#line 2113 "src/lx/parser.c"
 			}
 			/* END OF ACTION: compile-literal */
 			/* BEGINNING OF ACTION: free-arr */
 			{
-#line 765 "src/lx/parser.act"
+#line 782 "src/lx/parser.act"
 
 		free((ZIa));
 	
-#line 2104 "src/lx/parser.c"
+#line 2122 "src/lx/parser.c"
 			}
 			/* END OF ACTION: free-arr */
 		}
@@ -2164,7 +2182,7 @@ ZL2_list_Hof_Hthings_C_Czone_Hthing_C_Clist_Hof_Hzone_Hfrom_Hmappings_C_Clist_Ho
 			}
 			/* BEGINNING OF ACTION: subtract-exit */
 			{
-#line 735 "src/lx/parser.act"
+#line 752 "src/lx/parser.act"
 
 		assert((ZIr) != NULL);
 
@@ -2184,12 +2202,12 @@ ZL2_list_Hof_Hthings_C_Czone_Hthing_C_Clist_Hof_Hzone_Hfrom_Hmappings_C_Clist_Ho
 			}
 		}
 	
-#line 2188 "src/lx/parser.c"
+#line 2206 "src/lx/parser.c"
 			}
 			/* END OF ACTION: subtract-exit */
 			/* BEGINNING OF ACTION: add-mapping */
 			{
-#line 449 "src/lx/parser.act"
+#line 466 "src/lx/parser.act"
 
 		struct ast_token *t;
 		struct ast_mapping *m;
@@ -2222,7 +2240,7 @@ ZL2_list_Hof_Hthings_C_Czone_Hthing_C_Clist_Hof_Hzone_Hfrom_Hmappings_C_Clist_Ho
 			nmappings++;
 		}
 	
-#line 2226 "src/lx/parser.c"
+#line 2244 "src/lx/parser.c"
 			}
 			/* END OF ACTION: add-mapping */
 			/* BEGINNING OF INLINE: list-of-things::zone-thing::list-of-zone-from-mappings::list-of-zone-from-mappings-x */
@@ -2256,16 +2274,16 @@ p_lx(lex_state lex_state, act_state act_state, ast *ZOa)
 
 		/* BEGINNING OF ACTION: no-zone */
 		{
-#line 514 "src/lx/parser.act"
+#line 531 "src/lx/parser.act"
 
 		(ZIparent) = NULL;
 	
-#line 2264 "src/lx/parser.c"
+#line 2282 "src/lx/parser.c"
 		}
 		/* END OF ACTION: no-zone */
 		/* BEGINNING OF ACTION: make-ast */
 		{
-#line 423 "src/lx/parser.act"
+#line 440 "src/lx/parser.act"
 
 		(ZIa) = ast_new();
 		if ((ZIa) == NULL) {
@@ -2273,12 +2291,12 @@ p_lx(lex_state lex_state, act_state act_state, ast *ZOa)
 			goto ZL1;
 		}
 	
-#line 2277 "src/lx/parser.c"
+#line 2295 "src/lx/parser.c"
 		}
 		/* END OF ACTION: make-ast */
 		/* BEGINNING OF ACTION: make-zone */
 		{
-#line 431 "src/lx/parser.act"
+#line 448 "src/lx/parser.act"
 
 		assert((ZIa) != NULL);
 
@@ -2296,28 +2314,28 @@ p_lx(lex_state lex_state, act_state act_state, ast *ZOa)
 			goto ZL1;
 		}
 	
-#line 2300 "src/lx/parser.c"
+#line 2318 "src/lx/parser.c"
 		}
 		/* END OF ACTION: make-zone */
 		/* BEGINNING OF ACTION: no-exit */
 		{
-#line 510 "src/lx/parser.act"
+#line 527 "src/lx/parser.act"
 
 		(ZIexit) = NULL;
 	
-#line 2309 "src/lx/parser.c"
+#line 2327 "src/lx/parser.c"
 		}
 		/* END OF ACTION: no-exit */
 		/* BEGINNING OF ACTION: set-globalzone */
 		{
-#line 499 "src/lx/parser.act"
+#line 516 "src/lx/parser.act"
 
 		assert((ZIa) != NULL);
 		assert((ZIz) != NULL);
 
 		(ZIa)->global = (ZIz);
 	
-#line 2321 "src/lx/parser.c"
+#line 2339 "src/lx/parser.c"
 		}
 		/* END OF ACTION: set-globalzone */
 		p_list_Hof_Hthings (lex_state, act_state, ZIa, ZIz, ZIexit);
@@ -2341,11 +2359,11 @@ p_lx(lex_state lex_state, act_state act_state, ast *ZOa)
 			{
 				/* BEGINNING OF ACTION: err-expected-eof */
 				{
-#line 806 "src/lx/parser.act"
+#line 823 "src/lx/parser.act"
 
 		err_expected(lex_state, "EOF");
 	
-#line 2349 "src/lx/parser.c"
+#line 2367 "src/lx/parser.c"
 				}
 				/* END OF ACTION: err-expected-eof */
 			}
@@ -2358,7 +2376,7 @@ ZL1:;
 	{
 		/* BEGINNING OF ACTION: make-ast */
 		{
-#line 423 "src/lx/parser.act"
+#line 440 "src/lx/parser.act"
 
 		(ZIa) = ast_new();
 		if ((ZIa) == NULL) {
@@ -2366,17 +2384,17 @@ ZL1:;
 			goto ZL4;
 		}
 	
-#line 2370 "src/lx/parser.c"
+#line 2388 "src/lx/parser.c"
 		}
 		/* END OF ACTION: make-ast */
 		/* BEGINNING OF ACTION: err-syntax */
 		{
-#line 773 "src/lx/parser.act"
+#line 790 "src/lx/parser.act"
 
 		err(lex_state, "Syntax error");
 		exit(EXIT_FAILURE);
 	
-#line 2380 "src/lx/parser.c"
+#line 2398 "src/lx/parser.c"
 		}
 		/* END OF ACTION: err-syntax */
 	}
@@ -2433,7 +2451,7 @@ p_list_Hof_Hthings_C_Czone_Hthing_C_Czone_Hto_Hmapping(lex_state lex_state, act_
 		}
 		/* BEGINNING OF ACTION: add-mapping */
 		{
-#line 449 "src/lx/parser.act"
+#line 466 "src/lx/parser.act"
 
 		struct ast_token *t;
 		struct ast_mapping *m;
@@ -2466,12 +2484,12 @@ p_list_Hof_Hthings_C_Czone_Hthing_C_Czone_Hto_Hmapping(lex_state lex_state, act_
 			nmappings++;
 		}
 	
-#line 2470 "src/lx/parser.c"
+#line 2488 "src/lx/parser.c"
 		}
 		/* END OF ACTION: add-mapping */
 		/* BEGINNING OF ACTION: clone */
 		{
-#line 755 "src/lx/parser.act"
+#line 772 "src/lx/parser.act"
 
 		assert((ZIr) != NULL);
 
@@ -2481,7 +2499,7 @@ p_list_Hof_Hthings_C_Czone_Hthing_C_Czone_Hto_Hmapping(lex_state lex_state, act_
 			goto ZL1;
 		}
 	
-#line 2485 "src/lx/parser.c"
+#line 2503 "src/lx/parser.c"
 		}
 		/* END OF ACTION: clone */
 	}
@@ -2517,11 +2535,11 @@ p_112(lex_state lex_state, act_state act_state, string *ZOt)
 				{
 					/* BEGINNING OF ACTION: err-expected-map */
 					{
-#line 782 "src/lx/parser.act"
+#line 799 "src/lx/parser.act"
 
 		err_expected(lex_state, "'->'");
 	
-#line 2525 "src/lx/parser.c"
+#line 2543 "src/lx/parser.c"
 					}
 					/* END OF ACTION: err-expected-map */
 				}
@@ -2532,12 +2550,12 @@ p_112(lex_state lex_state, act_state act_state, string *ZOt)
 			case (TOK_TOKEN):
 				/* BEGINNING OF EXTRACT: TOKEN */
 				{
-#line 222 "src/lx/parser.act"
+#line 223 "src/lx/parser.act"
 
 		/* TODO: submatch addressing */
 		ZIt = xstrdup(lex_state->buf.a + 1); /* +1 for '$' prefix */
 	
-#line 2541 "src/lx/parser.c"
+#line 2559 "src/lx/parser.c"
 				}
 				/* END OF EXTRACT: TOKEN */
 				break;
@@ -2551,11 +2569,11 @@ p_112(lex_state lex_state, act_state act_state, string *ZOt)
 		{
 			/* BEGINNING OF ACTION: no-token */
 			{
-#line 506 "src/lx/parser.act"
+#line 523 "src/lx/parser.act"
 
 		(ZIt) = NULL;
 	
-#line 2559 "src/lx/parser.c"
+#line 2577 "src/lx/parser.c"
 			}
 			/* END OF ACTION: no-token */
 		}
@@ -2644,11 +2662,11 @@ ZL1:;
 	{
 		/* BEGINNING OF ACTION: err-expected-semi */
 		{
-#line 790 "src/lx/parser.act"
+#line 807 "src/lx/parser.act"
 
 		err_expected(lex_state, "';'");
 	
-#line 2652 "src/lx/parser.c"
+#line 2670 "src/lx/parser.c"
 		}
 		/* END OF ACTION: err-expected-semi */
 	}
@@ -2695,16 +2713,16 @@ p_251(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 			}
 			/* BEGINNING OF ACTION: no-zone */
 			{
-#line 514 "src/lx/parser.act"
+#line 531 "src/lx/parser.act"
 
 		(ZIto) = NULL;
 	
-#line 2703 "src/lx/parser.c"
+#line 2721 "src/lx/parser.c"
 			}
 			/* END OF ACTION: no-zone */
 			/* BEGINNING OF ACTION: add-mapping */
 			{
-#line 449 "src/lx/parser.act"
+#line 466 "src/lx/parser.act"
 
 		struct ast_token *t;
 		struct ast_mapping *m;
@@ -2737,7 +2755,7 @@ p_251(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 			nmappings++;
 		}
 	
-#line 2741 "src/lx/parser.c"
+#line 2759 "src/lx/parser.c"
 			}
 			/* END OF ACTION: add-mapping */
 		}
@@ -2749,7 +2767,7 @@ p_251(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 
 			/* BEGINNING OF ACTION: make-zone */
 			{
-#line 431 "src/lx/parser.act"
+#line 448 "src/lx/parser.act"
 
 		assert((*ZIa) != NULL);
 
@@ -2767,12 +2785,12 @@ p_251(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 			goto ZL1;
 		}
 	
-#line 2771 "src/lx/parser.c"
+#line 2789 "src/lx/parser.c"
 			}
 			/* END OF ACTION: make-zone */
 			/* BEGINNING OF ACTION: add-mapping */
 			{
-#line 449 "src/lx/parser.act"
+#line 466 "src/lx/parser.act"
 
 		struct ast_token *t;
 		struct ast_mapping *m;
@@ -2805,7 +2823,7 @@ p_251(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 			nmappings++;
 		}
 	
-#line 2809 "src/lx/parser.c"
+#line 2827 "src/lx/parser.c"
 			}
 			/* END OF ACTION: add-mapping */
 			p_list_Hof_Hthings_C_Czone_Hthing_C_Clist_Hof_Hzone_Hfrom_Hmappings_C_Clist_Hof_Hzone_Hfrom_Hmappings_Hx (lex_state, act_state, *ZIa, *ZIz, ZIchild, *ZIexit);
@@ -2829,11 +2847,11 @@ p_251(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 				{
 					/* BEGINNING OF ACTION: err-expected-to */
 					{
-#line 794 "src/lx/parser.act"
+#line 811 "src/lx/parser.act"
 
 		err_expected(lex_state, "'..'");
 	
-#line 2837 "src/lx/parser.c"
+#line 2855 "src/lx/parser.c"
 					}
 					/* END OF ACTION: err-expected-to */
 				}
@@ -2858,25 +2876,25 @@ p_251(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 						}
 						/* BEGINNING OF ACTION: no-zone */
 						{
-#line 514 "src/lx/parser.act"
+#line 531 "src/lx/parser.act"
 
 		(ZIx) = NULL;
 	
-#line 2866 "src/lx/parser.c"
+#line 2884 "src/lx/parser.c"
 						}
 						/* END OF ACTION: no-zone */
 						/* BEGINNING OF ACTION: no-token */
 						{
-#line 506 "src/lx/parser.act"
+#line 523 "src/lx/parser.act"
 
 		(ZIy) = NULL;
 	
-#line 2875 "src/lx/parser.c"
+#line 2893 "src/lx/parser.c"
 						}
 						/* END OF ACTION: no-token */
 						/* BEGINNING OF ACTION: regex-any */
 						{
-#line 392 "src/lx/parser.act"
+#line 409 "src/lx/parser.act"
 
 		fsm_state_t start, end;
 
@@ -2907,12 +2925,12 @@ p_251(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 		fsm_setstart((ZIw), start);
 		fsm_setend((ZIw), end, 1);
 	
-#line 2911 "src/lx/parser.c"
+#line 2929 "src/lx/parser.c"
 						}
 						/* END OF ACTION: regex-any */
 						/* BEGINNING OF ACTION: subtract-exit */
 						{
-#line 735 "src/lx/parser.act"
+#line 752 "src/lx/parser.act"
 
 		assert((ZIw) != NULL);
 
@@ -2932,12 +2950,12 @@ p_251(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 			}
 		}
 	
-#line 2936 "src/lx/parser.c"
+#line 2954 "src/lx/parser.c"
 						}
 						/* END OF ACTION: subtract-exit */
 						/* BEGINNING OF ACTION: add-mapping */
 						{
-#line 449 "src/lx/parser.act"
+#line 466 "src/lx/parser.act"
 
 		struct ast_token *t;
 		struct ast_mapping *m;
@@ -2970,7 +2988,7 @@ p_251(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 			nmappings++;
 		}
 	
-#line 2974 "src/lx/parser.c"
+#line 2992 "src/lx/parser.c"
 						}
 						/* END OF ACTION: add-mapping */
 					}
@@ -2997,11 +3015,11 @@ p_251(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 				{
 					/* BEGINNING OF ACTION: err-expected-list */
 					{
-#line 814 "src/lx/parser.act"
+#line 831 "src/lx/parser.act"
 
 		err_expected(lex_state, "list of mappings, bindings or zones");
 	
-#line 3005 "src/lx/parser.c"
+#line 3023 "src/lx/parser.c"
 					}
 					/* END OF ACTION: err-expected-list */
 				}
@@ -3017,16 +3035,16 @@ p_251(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 
 			/* BEGINNING OF ACTION: no-exit */
 			{
-#line 510 "src/lx/parser.act"
+#line 527 "src/lx/parser.act"
 
 		(ZIr2) = NULL;
 	
-#line 3025 "src/lx/parser.c"
+#line 3043 "src/lx/parser.c"
 			}
 			/* END OF ACTION: no-exit */
 			/* BEGINNING OF ACTION: make-zone */
 			{
-#line 431 "src/lx/parser.act"
+#line 448 "src/lx/parser.act"
 
 		assert((*ZIa) != NULL);
 
@@ -3044,12 +3062,12 @@ p_251(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 			goto ZL1;
 		}
 	
-#line 3048 "src/lx/parser.c"
+#line 3066 "src/lx/parser.c"
 			}
 			/* END OF ACTION: make-zone */
 			/* BEGINNING OF ACTION: add-mapping */
 			{
-#line 449 "src/lx/parser.act"
+#line 466 "src/lx/parser.act"
 
 		struct ast_token *t;
 		struct ast_mapping *m;
@@ -3082,7 +3100,7 @@ p_251(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 			nmappings++;
 		}
 	
-#line 3086 "src/lx/parser.c"
+#line 3104 "src/lx/parser.c"
 			}
 			/* END OF ACTION: add-mapping */
 			/* BEGINNING OF INLINE: 131 */
@@ -3101,11 +3119,11 @@ p_251(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 				{
 					/* BEGINNING OF ACTION: err-expected-list */
 					{
-#line 814 "src/lx/parser.act"
+#line 831 "src/lx/parser.act"
 
 		err_expected(lex_state, "list of mappings, bindings or zones");
 	
-#line 3109 "src/lx/parser.c"
+#line 3127 "src/lx/parser.c"
 					}
 					/* END OF ACTION: err-expected-list */
 				}
@@ -3149,11 +3167,11 @@ p_252(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 				{
 					/* BEGINNING OF ACTION: err-expected-bind */
 					{
-#line 786 "src/lx/parser.act"
+#line 803 "src/lx/parser.act"
 
 		err_expected(lex_state, "'='");
 	
-#line 3157 "src/lx/parser.c"
+#line 3175 "src/lx/parser.c"
 					}
 					/* END OF ACTION: err-expected-bind */
 				}
@@ -3168,7 +3186,7 @@ p_252(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 			}
 			/* BEGINNING OF ACTION: add-binding */
 			{
-#line 482 "src/lx/parser.act"
+#line 499 "src/lx/parser.act"
 
 		struct var *v;
 
@@ -3185,7 +3203,7 @@ p_252(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 			goto ZL1;
 		}
 	
-#line 3189 "src/lx/parser.c"
+#line 3207 "src/lx/parser.c"
 			}
 			/* END OF ACTION: add-binding */
 		}
@@ -3211,7 +3229,7 @@ p_252(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 
 			/* BEGINNING OF ACTION: deref-var */
 			{
-#line 277 "src/lx/parser.act"
+#line 288 "src/lx/parser.act"
 
 		struct ast_zone *z;
 
@@ -3238,7 +3256,7 @@ p_252(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 			goto ZL1;
 		}
 	
-#line 3242 "src/lx/parser.c"
+#line 3260 "src/lx/parser.c"
 			}
 			/* END OF ACTION: deref-var */
 			p_197 (lex_state, act_state, ZI273, &ZI210);
@@ -3254,7 +3272,7 @@ p_252(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 			}
 			/* BEGINNING OF ACTION: subtract-exit */
 			{
-#line 735 "src/lx/parser.act"
+#line 752 "src/lx/parser.act"
 
 		assert((ZI278) != NULL);
 
@@ -3274,7 +3292,7 @@ p_252(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 			}
 		}
 	
-#line 3278 "src/lx/parser.c"
+#line 3296 "src/lx/parser.c"
 			}
 			/* END OF ACTION: subtract-exit */
 			p_251 (lex_state, act_state, ZIa, ZIz, ZIexit, &ZI279, &ZI280);
@@ -3297,7 +3315,7 @@ ZL1:;
 
 /* BEGINNING OF TRAILER */
 
-#line 818 "src/lx/parser.act"
+#line 835 "src/lx/parser.act"
 
 
 	struct ast *lx_parse(FILE *f, const struct fsm_alloc *alloc) {
@@ -3312,7 +3330,9 @@ ZL1:;
 
 		lex_state = &lex_state_s;
 
-		lex_state->p = lex_state->a;
+		lex_state->len = 512;
+		lex_state->a   = xmalloc(lex_state->len);
+		lex_state->p   = lex_state->a;
 
 		lx = &lex_state->lx;
 
@@ -3342,6 +3362,7 @@ ZL1:;
 		p_lx(lex_state, act_state, &ast);
 
 		lx->free(lx->buf_opaque);
+		free(lex_state->a);
 
 		/*
 		 * This can happen when the first token is TOK_UNKNOWN.
@@ -3360,6 +3381,6 @@ ZL1:;
 		return ast;
 	}
 
-#line 3364 "src/lx/parser.c"
+#line 3385 "src/lx/parser.c"
 
 /* END OF FILE */
-- 
2.43.0


From 91ba7268774e1066a6106a113bd118f1a7f1a054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:36 +0000
Subject: [PATCH 077/142] fix: exit unsuccessfully when standard output can't
 be written

fsm, re, rx and lx ignored errors writing to stdout, including from the
final flush at exit, so a full disk gave truncated output and success.
---
 src/fsm/main.c | 11 +++++++++++
 src/lx/main.c  | 12 ++++++++++++
 src/re/main.c  | 11 +++++++++++
 src/rx/main.c  | 12 ++++++++++++
 4 files changed, 46 insertions(+)

diff --git a/src/fsm/main.c b/src/fsm/main.c
index f9d1bb3..5a6597f 100644
--- a/src/fsm/main.c
+++ b/src/fsm/main.c
@@ -373,6 +373,16 @@ do_fsm_cleanup(void)
 	}
 }
 
+static void
+flush_stdout(void)
+{
+	/* output is often buffered until now */
+	if (fflush(stdout) == EOF || ferror(stdout)) {
+		perror("stdout");
+		_exit(EXIT_FAILURE);
+	}
+}
+
 int
 main(int argc, char *argv[])
 {
@@ -397,6 +407,7 @@ main(int argc, char *argv[])
 	int (*walk )(const struct fsm *,
 		 int (*)(const struct fsm *, fsm_state_t));
 
+	atexit(flush_stdout);
 	atexit(do_fsm_cleanup);
 
 	opt = zero_options;
diff --git a/src/lx/main.c b/src/lx/main.c
index b1ec788..c062def 100644
--- a/src/lx/main.c
+++ b/src/lx/main.c
@@ -603,6 +603,16 @@ conflict(FILE *f, const struct fsm_options *opt,
 	return 0;
 }
 
+static void
+flush_stdout(void)
+{
+	/* output is often buffered until now */
+	if (fflush(stdout) == EOF || ferror(stdout)) {
+		perror("stdout");
+		_exit(EXIT_FAILURE);
+	}
+}
+
 int
 main(int argc, char *argv[])
 {
@@ -610,6 +620,8 @@ main(int argc, char *argv[])
 	enum lx_print_lang lang;
 	int concurrency;
 
+	atexit(flush_stdout);
+
 	lang = LX_PRINT_C;
 	keep_nfa = 0;
 	print_progress = 0;
diff --git a/src/re/main.c b/src/re/main.c
index 9059af9..07bd998 100644
--- a/src/re/main.c
+++ b/src/re/main.c
@@ -491,6 +491,16 @@ parse_flags(const char *arg, enum re_flags *flags)
 	}
 }
 
+static void
+flush_stdout(void)
+{
+	/* output is often buffered until now */
+	if (fflush(stdout) == EOF || ferror(stdout)) {
+		perror("stdout");
+		_exit(EXIT_FAILURE);
+	}
+}
+
 int
 main(int argc, char *argv[])
 {
@@ -521,6 +531,7 @@ main(int argc, char *argv[])
 
 	struct fsm_dfavm *vm;
 
+	atexit(flush_stdout);
 	atexit(do_fsm_cleanup);
 
 	opt = zero_options;
diff --git a/src/rx/main.c b/src/rx/main.c
index 4ac357b..c97b41a 100644
--- a/src/rx/main.c
+++ b/src/rx/main.c
@@ -799,6 +799,16 @@ usage(const char *name)
 	printf("       %s -h\n", name);
 }
 
+static void
+flush_stdout(void)
+{
+	/* output is often buffered until now */
+	if (fflush(stdout) == EOF || ferror(stdout)) {
+		perror("stdout");
+		_exit(EXIT_FAILURE);
+	}
+}
+
 int
 main(int argc, char *argv[])
 {
@@ -839,6 +849,8 @@ main(int argc, char *argv[])
 		.ambig = AMBIG_ERROR
 	};
 
+	atexit(flush_stdout);
+
 // TODO: prepend comment with rx invocation to output
 // TODO: cli option for memory limit to decline patterns (implement via allocation hooks)
 // TODO: consider de-duplicating arrays. not sure there's any reason
-- 
2.43.0


From 70d253eb1227da2dba3094289189bcaea28c1138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:14 +0000
Subject: [PATCH 078/142] fix: report errors while reading rather than treating
 them as end of file

An error part way through a file left fsm, re, lx and fsm_parse() using
what had been read so far, as if that were the entire input.
---
 src/fsm/main.c        |  4 ++++
 src/libfsm/parser.act |  8 ++++++++
 src/libfsm/parser.c   | 10 +++++++++-
 src/lx/main.c         |  6 ++++++
 src/re/main.c         | 23 +++++++++++++++++++----
 src/rx/main.c         |  9 ++++-----
 6 files changed, 50 insertions(+), 10 deletions(-)

diff --git a/src/fsm/main.c b/src/fsm/main.c
index 5a6597f..2ebb924 100644
--- a/src/fsm/main.c
+++ b/src/fsm/main.c
@@ -752,6 +752,10 @@ main(int argc, char *argv[])
 				f = xopen(argv[0]);
 
 				e = fsm_exec(fsm, fsm_fgetc, f, &state, NULL);
+				if (ferror(f)) {
+					perror(argv[0]);
+					e = -1;
+				}
 
 				fclose(f);
 			} else {
diff --git a/src/libfsm/parser.act b/src/libfsm/parser.act
index 2e53aa3..b9b73a3 100644
--- a/src/libfsm/parser.act
+++ b/src/libfsm/parser.act
@@ -491,6 +491,14 @@
 		free(act_state_s.states.buckets);
 		lx->free(lx->buf_opaque);
 
+		/* the lexer can't distinguish this from end of file */
+		if (ferror(f)) {
+			perror("fgetc");
+			fsm_free(new);
+			errno = EIO;
+			return NULL;
+		}
+
 		return new;
 	}
 
diff --git a/src/libfsm/parser.c b/src/libfsm/parser.c
index a38775b..56fd89e 100644
--- a/src/libfsm/parser.c
+++ b/src/libfsm/parser.c
@@ -1459,9 +1459,17 @@ ZL1:;
 		free(act_state_s.states.buckets);
 		lx->free(lx->buf_opaque);
 
+		/* the lexer can't distinguish this from end of file */
+		if (ferror(f)) {
+			perror("fgetc");
+			fsm_free(new);
+			errno = EIO;
+			return NULL;
+		}
+
 		return new;
 	}
 
-#line 1466 "src/libfsm/parser.c"
+#line 1474 "src/libfsm/parser.c"
 
 /* END OF FILE */
diff --git a/src/lx/main.c b/src/lx/main.c
index c062def..84f7990 100644
--- a/src/lx/main.c
+++ b/src/lx/main.c
@@ -736,6 +736,12 @@ main(int argc, char *argv[])
 			return EXIT_FAILURE;
 		}
 
+		/* the lexer can't distinguish this from end of file */
+		if (ferror(stdin)) {
+			perror("stdin");
+			return EXIT_FAILURE;
+		}
+
 		if (print_progress) {
 			fprintf(stderr, "\n");
 		}
diff --git a/src/re/main.c b/src/re/main.c
index 07bd998..620df74 100644
--- a/src/re/main.c
+++ b/src/re/main.c
@@ -272,6 +272,21 @@ xopen(const char *s)
 	return f;
 }
 
+static void
+xclose(FILE *f, const char *s)
+{
+	assert(f != NULL);
+	assert(s != NULL);
+
+	/* fsm_fgetc() doesn't distinguish this from end of file */
+	if (ferror(f)) {
+		perror(s);
+		exit(EXIT_FAILURE);
+	}
+
+	fclose(f);
+}
+
 static void
 printexample(FILE *f, const struct fsm *fsm, fsm_state_t state)
 {
@@ -699,7 +714,7 @@ main(int argc, char *argv[])
 				flags, &err,
 				&literal_category, &literal_s, &literal_n);
 
-			fclose(f);
+			xclose(f, argv[0]);
 		} else {
 			const char *s;
 
@@ -790,7 +805,7 @@ main(int argc, char *argv[])
 				fsm_free(fsm);
 			}
 
-			fclose(f);
+			xclose(f, argv[0]);
 		} else {
 			const char *s;
 
@@ -859,7 +874,7 @@ main(int argc, char *argv[])
 					}
 				}
 
-				fclose(f);
+				xclose(f, argv[i]);
 			} else {
 				const char *s;
 
@@ -1142,7 +1157,7 @@ main(int argc, char *argv[])
 						e = fsm_exec(fsm, fsm_fgetc, f, &state, NULL);
 					}
 
-					fclose(f);
+					xclose(f, argv[i]);
 				} else {
 					const char *s;
 
diff --git a/src/rx/main.c b/src/rx/main.c
index c97b41a..8061c8b 100644
--- a/src/rx/main.c
+++ b/src/rx/main.c
@@ -113,10 +113,10 @@ xgetline(FILE *f)
 	len = 0;
 
 	n = getline(&buf, &len, f);
-	if (n == -1) {
+	if (n == -1 || ferror(f)) {
 		free(buf);
 
-		if (feof(f)) {
+		if (!ferror(f) && feof(f)) {
 			return NULL;
 		}
 
@@ -124,9 +124,8 @@ xgetline(FILE *f)
 		exit(EXIT_FAILURE);
 	}
 
-	/* n == 0 for an empty line */
-	if (n > 0) {
-		assert(buf[n - 1] == '\n');
+	/* the last line may be missing its newline */
+	if (n > 0 && buf[n - 1] == '\n') {
 		buf[n - 1] = '\0';
 	}
 
-- 
2.43.0


From ca9f4c4372e3b7771f311c2c762ec0fa2e73f817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:09 +0000
Subject: [PATCH 079/142] fix: fsm: match each file given with -x, rather than
 the first repeatedly

---
 src/fsm/main.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fsm/main.c b/src/fsm/main.c
index 2ebb924..e893872 100644
--- a/src/fsm/main.c
+++ b/src/fsm/main.c
@@ -749,11 +749,11 @@ main(int argc, char *argv[])
 			if (xfiles) {
 				FILE *f;
 
-				f = xopen(argv[0]);
+				f = xopen(argv[i]);
 
 				e = fsm_exec(fsm, fsm_fgetc, f, &state, NULL);
 				if (ferror(f)) {
-					perror(argv[0]);
+					perror(argv[i]);
 					e = -1;
 				}
 
-- 
2.43.0


From d29cb780476ba5f59d0d0d50167a776ba44b8790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:09 +0000
Subject: [PATCH 080/142] fix: fsm: exit unsuccessfully when -t equal fails, or
 when an operation gives no fsm for -U

fsm_equal() returns -1 on error, which was taken for equality. The result
of a failed operation was passed to fsm_determinise() for -U before being
checked for NULL.
---
 src/fsm/main.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/fsm/main.c b/src/fsm/main.c
index e893872..ab6f109 100644
--- a/src/fsm/main.c
+++ b/src/fsm/main.c
@@ -586,7 +586,13 @@ main(int argc, char *argv[])
 		}
 
 		if (r == -1) {
-			q = NULL;
+			perror("fsm_op");
+			exit(EXIT_FAILURE);
+		}
+
+		if (op != OP_EQUAL && q == NULL) {
+			perror("fsm_op");
+			exit(EXIT_FAILURE);
 		}
 
 		/*
@@ -599,7 +605,7 @@ main(int argc, char *argv[])
 		 * We can't include \0 here because optarg is a string, and I don't
 		 * want to invent a syntax for character sets.
 		 */
-		if (charset != NULL) {
+		if (charset != NULL && q != NULL) {
 			if (!fsm_determinise(q)) {
 				perror("fsm_determinise");
 				exit(EXIT_FAILURE);
@@ -629,11 +635,6 @@ main(int argc, char *argv[])
 			printf("%f ", ms);
 		}
 
-		if (op != OP_EQUAL && q == NULL) {
-			perror("fsm_op");
-			exit(EXIT_FAILURE);
-		}
-
 		r = !r;
 
 		fsm = q;
-- 
2.43.0


From f358d535c5ca92f9aaecb3995954f0cad692a0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:09 +0000
Subject: [PATCH 081/142] fix: fsm: exit status for -G was the wrong way around

fsm_generate_matches() returns true on success, which was used as the exit
status: success when generation failed. It also replaced the status from
any preceding operation.
---
 src/fsm/main.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fsm/main.c b/src/fsm/main.c
index ab6f109..fddfa61 100644
--- a/src/fsm/main.c
+++ b/src/fsm/main.c
@@ -786,7 +786,10 @@ main(int argc, char *argv[])
 	}
 
 	if (generate_bounds > 0) {
-		r = fsm_generate_matches(fsm, generate_bounds, 0, fsm_generate_cb_printf_escaped, &opt);
+		if (!fsm_generate_matches(fsm, generate_bounds, 0, fsm_generate_cb_printf_escaped, &opt)) {
+			perror("fsm_generate_matches");
+			exit(EXIT_FAILURE);
+		}
 	}
 
 	fsm_free(fsm);
-- 
2.43.0


From ee3ebe70efda87eba744edb12f972bb34ee10abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:09 +0000
Subject: [PATCH 082/142] fix: re: don't free an fsm again at exit when joining
 patterns fails

---
 src/re/main.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/re/main.c b/src/re/main.c
index 620df74..405e9bc 100644
--- a/src/re/main.c
+++ b/src/re/main.c
@@ -926,6 +926,9 @@ main(int argc, char *argv[])
 				}
 			}
 
+			/* on failure the operands may already have been freed */
+			fsm_to_cleanup = NULL;
+
 			fsm = join(fsm, new, NULL);
 			if (fsm == NULL) {
 				perror("fsm_union/concat");
-- 
2.43.0


From db717c1c7a186df14abc303f787fa91bce857fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:45 +0000
Subject: [PATCH 083/142] fix: rx: don't decline a pattern because memory ran
 out

A failure to categorize a pattern other than from its syntax was taken for
a parse error, so the pattern was declined and left out of the output.
---
 src/rx/main.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/rx/main.c b/src/rx/main.c
index 8061c8b..1ef7cab 100644
--- a/src/rx/main.c
+++ b/src/rx/main.c
@@ -307,6 +307,12 @@ categorize(enum re_dialect dialect, enum re_flags flags,
 		return CATEGORY_UNSUPPORTED;
 	}
 
+	/* not about the pattern, so there's no reason to decline it */
+	if (r == -1 && err->e == RE_EERRNO) {
+		re_perror(dialect, err, NULL, s);
+		exit(EXIT_FAILURE);
+	}
+
 	/* parse error */
 	if (r == -1) {
 		return CATEGORY_ERROR;
@@ -411,7 +417,6 @@ literal_strings(const struct literal *a, size_t n, enum re_strings_flags flags)
 
 	g = re_strings_new();
 	if (g == NULL) {
-		return NULL;
 		perror("re_strings_new");
 		exit(EXIT_FAILURE);
 	}
@@ -424,6 +429,11 @@ literal_strings(const struct literal *a, size_t n, enum re_strings_flags flags)
 	}
 
 	fsm = re_strings_build(g, alloc, flags);
+	if (fsm == NULL) {
+		perror("re_strings_build");
+		exit(EXIT_FAILURE);
+	}
+
 	re_strings_free(g);
 
 	/* this is already a DFA, courtesy of re_strings() */
@@ -501,12 +511,12 @@ build_pattern_fsm(bool show_stats,
 // TODO: RE_SINGLE here? i think it shouldn't have any effect when \n isn't present in the charset
 	fsm = re_comp(dialect, fsm_sgetc, &q, alloc, flags, &err);
 
-	if (strict && fsm == NULL) {
+	if (fsm == NULL && (strict || err.e != RE_EUNSUPPORTED)) {
 		re_perror(dialect, &err, NULL, s);
 		exit(EXIT_FAILURE);
 	}
 
-	if (fsm == NULL && err.e == RE_EUNSUPPORTED) {
+	if (fsm == NULL) {
 		return NULL;
 	}
 
-- 
2.43.0


From a20f0d2f7f9e01c4f311a344ede96fe5fbede836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:45 +0000
Subject: [PATCH 084/142] fix: rx: index general patterns by the right variable
 when showing a conflict

This used the index of the end id for an array of patterns, which may be
shorter.
---
 src/rx/main.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rx/main.c b/src/rx/main.c
index 1ef7cab..fb6d146 100644
--- a/src/rx/main.c
+++ b/src/rx/main.c
@@ -619,10 +619,10 @@ conflict(FILE *f, const struct fsm_options *opt,
 
 		for (size_t j = 0; j < env->general->count; j++) {
 			// TODO: delimiters per dialect, centralise with libre's re_perror()
-			if (env->general->a[i].id == state_metadata->end_ids[i]) {
+			if (env->general->a[j].id == state_metadata->end_ids[i]) {
 				fprintf(stderr, "#%u: /%s/\n",
 					state_metadata->end_ids[i],
-					env->general->a[i].s);
+					env->general->a[j].s);
 				goto next;
 			}
 		}
-- 
2.43.0


From 211ceca42100c000ffb8591eb1a27ac0ceff05d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:46 +0000
Subject: [PATCH 085/142] fix: rx: don't overflow the declined list, nor free
 its patterns twice

When a pattern turns out to be unsupported while compiling, it's appended
to the declined list, after that list was already reallocated down to size.
And the pattern's storage was then owned by both lists.
---
 src/rx/main.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/rx/main.c b/src/rx/main.c
index fb6d146..37ec3e2 100644
--- a/src/rx/main.c
+++ b/src/rx/main.c
@@ -1195,11 +1195,8 @@ main(int argc, char *argv[])
 
 	/*
 	 * realloc down to size, note this leaves some .a arrays NULL
-	 * when its count is 0.
+	 * when its count is 0. The declined list may still grow yet.
 	 */
-	if (declined.count > 0) {
-		declined.a = xrealloc(declined.a, declined.count * sizeof *declined.a);
-	}
 	if (general.count > 0) {
 		general.a  = xrealloc(general.a, general.count * sizeof *general.a);
 	}
@@ -1210,7 +1207,7 @@ main(int argc, char *argv[])
 	}
 
 	/*
-	 * This is conservative allocation, the declined list may still grow yet.
+	 * This is conservative allocation.
 	 * We track actual usage in fsm_count.
 	 */
 	struct fsm **fsms = xmalloc(
@@ -1274,7 +1271,8 @@ main(int argc, char *argv[])
 				general.a[i].dialect, strict,
 				general.a[i].s, flags, general.a[i].id);
 			if (fsm == NULL) {
-				append_pattern(&declined, i, general.a[i].dialect, general.a[i].s);
+				append_pattern(&declined, general.a[i].id, general.a[i].dialect, general.a[i].s);
+				general.a[i].s = NULL; /* now belongs to declined */
 				continue;
 			}
 
-- 
2.43.0


From 2edee7ae086dbf863a5f7e75ec67a2d510ec99bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:46 +0000
Subject: [PATCH 086/142] fix: rx: exit unsuccessfully when the declined file
 can't be written, or for conflicts

Errors writing the declined file weren't checked. When patterns conflict
fsm_print() gives no output, but rx still exited successfully.
---
 src/rx/main.c | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/rx/main.c b/src/rx/main.c
index 37ec3e2..89407bc 100644
--- a/src/rx/main.c
+++ b/src/rx/main.c
@@ -1331,7 +1331,15 @@ main(int argc, char *argv[])
 			fprintf(f, "%s\n", declined.a[i].s);
 		}
 
-		fclose(f);
+		if (ferror(f)) {
+			perror(declined_file);
+			exit(EXIT_FAILURE);
+		}
+
+		if (fclose(f) == EOF) {
+			perror(declined_file);
+			exit(EXIT_FAILURE);
+		}
 	}
 
 	for (size_t i = 0; i < declined.count; i++) {
@@ -1396,7 +1404,16 @@ main(int argc, char *argv[])
 			fprintf(stderr, "dfa: %u states\n", fsm_countstates(fsm));
 		}
 
-		if (-1 == fsm_print(stdout, fsm, &opt, &hooks, fsm_lang)) {
+		switch (fsm_print(stdout, fsm, &opt, &hooks, fsm_lang)) {
+		case 0:
+			break;
+
+		case 1:
+			/* conflict */
+			exit(EXIT_FAILURE);
+
+		default:
+			perror("fsm_print");
 			exit(EXIT_FAILURE);
 		}
 
-- 
2.43.0


From 0322d17ecb0a6603250bda635fad895356e5201c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:50 +0000
Subject: [PATCH 087/142] fix: lx: read the error shared between threads under
 its lock

---
 src/lx/main.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lx/main.c b/src/lx/main.c
index 84f7990..c045c03 100644
--- a/src/lx/main.c
+++ b/src/lx/main.c
@@ -525,7 +525,11 @@ run_threads(int concurrency, void *(*fn)(void *))
 
 		if (rv != NULL) {
 			char *f = rv;
+
+			pthread_mutex_lock(&zmtx);
 			errno = zerror;
+			pthread_mutex_unlock(&zmtx);
+
 			perror(f);
 			e = 1;
 		}
-- 
2.43.0


From 4b9bac085d95beb843ec980d3748e2c65f5c6e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:31 +0000
Subject: [PATCH 088/142] fix: lx: don't use an uninitialised AST when parsing
 fails

p_lx() doesn't set its result when it fails, for example on memory running
out or for an unrecognised first token, and lx_parse() checks for NULL.
---
 src/lx/parser.act | 3 +++
 src/lx/parser.c   | 5 ++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/lx/parser.act b/src/lx/parser.act
index 171257e..a36892e 100644
--- a/src/lx/parser.act
+++ b/src/lx/parser.act
@@ -874,6 +874,9 @@
 			act_state->zn = 0;
 		}
 
+		/* left as-is when parsing fails */
+		ast = NULL;
+
 		ADVANCE_LEXER;	/* XXX: what if the first token is unrecognised? */
 		p_lx(lex_state, act_state, &ast);
 
diff --git a/src/lx/parser.c b/src/lx/parser.c
index 3fcf732..e63d9d0 100644
--- a/src/lx/parser.c
+++ b/src/lx/parser.c
@@ -3358,6 +3358,9 @@ ZL1:;
 			act_state->zn = 0;
 		}
 
+		/* left as-is when parsing fails */
+		ast = NULL;
+
 		ADVANCE_LEXER;	/* XXX: what if the first token is unrecognised? */
 		p_lx(lex_state, act_state, &ast);
 
@@ -3381,6 +3384,6 @@ ZL1:;
 		return ast;
 	}
 
-#line 3385 "src/lx/parser.c"
+#line 3388 "src/lx/parser.c"
 
 /* END OF FILE */
-- 
2.43.0


From a80bbd6672f05faebcbad2a96f13245d5a988e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:01 +0000
Subject: [PATCH 089/142] fix: lx: copy an exit pattern before the mapping for
 it is added

Adding a mapping gives the pattern's FSM away. When the zone already had a
mapping with the same token and destination, the two are united, and the
FSM that was then cloned for the exit had been freed.
---
 src/lx/parser.c   | 32 ++++++++++++++++----------------
 src/lx/parser.sid |  5 +++--
 2 files changed, 19 insertions(+), 18 deletions(-)

diff --git a/src/lx/parser.c b/src/lx/parser.c
index e63d9d0..d8e2edb 100644
--- a/src/lx/parser.c
+++ b/src/lx/parser.c
@@ -2449,6 +2449,21 @@ p_list_Hof_Hthings_C_Czone_Hthing_C_Czone_Hto_Hmapping(lex_state lex_state, act_
 			RESTORE_LEXER;
 			goto ZL1;
 		}
+		/* BEGINNING OF ACTION: clone */
+		{
+#line 772 "src/lx/parser.act"
+
+		assert((ZIr) != NULL);
+
+		(ZIexit) = fsm_clone((ZIr));
+		if ((ZIexit) == NULL) {
+			perror("fsm_clone");
+			goto ZL1;
+		}
+	
+#line 2465 "src/lx/parser.c"
+		}
+		/* END OF ACTION: clone */
 		/* BEGINNING OF ACTION: add-mapping */
 		{
 #line 466 "src/lx/parser.act"
@@ -2484,24 +2499,9 @@ p_list_Hof_Hthings_C_Czone_Hthing_C_Czone_Hto_Hmapping(lex_state lex_state, act_
 			nmappings++;
 		}
 	
-#line 2488 "src/lx/parser.c"
-		}
-		/* END OF ACTION: add-mapping */
-		/* BEGINNING OF ACTION: clone */
-		{
-#line 772 "src/lx/parser.act"
-
-		assert((ZIr) != NULL);
-
-		(ZIexit) = fsm_clone((ZIr));
-		if ((ZIexit) == NULL) {
-			perror("fsm_clone");
-			goto ZL1;
-		}
-	
 #line 2503 "src/lx/parser.c"
 		}
-		/* END OF ACTION: clone */
+		/* END OF ACTION: add-mapping */
 	}
 	goto ZL0;
 ZL1:;
diff --git a/src/lx/parser.sid b/src/lx/parser.sid
index 3c375e2..bba101e 100644
--- a/src/lx/parser.sid
+++ b/src/lx/parser.sid
@@ -372,9 +372,10 @@
 			zone-to-mapping: (a :ast, parent :zone, child :zone) -> (exit :fsm) = {
 				(r, t) = token-mapping(parent);
 
-				<add-mapping>(a, child, parent, r, t);
-
+				/* taken first, because adding a mapping consumes r */
 				exit = <clone>(r);
+
+				<add-mapping>(a, child, parent, r, t);
 			};
 
 			list-of-zone-to-mappings: (a :ast, parent :zone, child :zone) -> (exit :fsm) [
-- 
2.43.0


From 148ad3d4fcb732256a293a6c6b4f8d8693bb3c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:58 +0000
Subject: [PATCH 090/142] fix: lx: leave the exit pattern in place when
 subtracting it

An action's parameters are the variables of its caller, so assigning the
clone to b made the caller's exit pattern the one fsm_subtract() frees.
The next thing in the same zone it's subtracted from then read freed
memory.
---
 src/lx/parser.act |   9 +-
 src/lx/parser.c   | 261 +++++++++++++++++++++++++---------------------
 2 files changed, 150 insertions(+), 120 deletions(-)

diff --git a/src/lx/parser.act b/src/lx/parser.act
index a36892e..d09c6d1 100644
--- a/src/lx/parser.act
+++ b/src/lx/parser.act
@@ -755,13 +755,16 @@
 		if (@b == NULL) {
 			@q = @a;
 		} else {
-			@b = fsm_clone(@b);
-			if (@b == NULL) {
+			struct fsm *x;
+
+			/* not assigned to b, which is the caller's variable */
+			x = fsm_clone(@b);
+			if (x == NULL) {
 				perror("fsm_clone");
 				@!;
 			}
 
-			@q = fsm_subtract(@a, @b);
+			@q = fsm_subtract(@a, x);
 			if (@q == NULL) {
 				perror("fsm_subtract");
 				@!;
diff --git a/src/lx/parser.c b/src/lx/parser.c
index d8e2edb..5da45fd 100644
--- a/src/lx/parser.c
+++ b/src/lx/parser.c
@@ -183,7 +183,7 @@ ZL1:;
 	{
 		/* BEGINNING OF ACTION: err-expected-list */
 		{
-#line 831 "src/lx/parser.act"
+#line 834 "src/lx/parser.act"
 
 		err_expected(lex_state, "list of mappings, bindings or zones");
 	
@@ -406,20 +406,23 @@ p_list_Hof_Hthings_C_Cthing(lex_state lex_state, act_state act_state, ast ZIa, z
 		if ((ZIexit) == NULL) {
 			(ZI233) = (ZI231);
 		} else {
-			(ZIexit) = fsm_clone((ZIexit));
-			if ((ZIexit) == NULL) {
+			struct fsm *x;
+
+			/* not assigned to b, which is the caller's variable */
+			x = fsm_clone((ZIexit));
+			if (x == NULL) {
 				perror("fsm_clone");
 				goto ZL1;
 			}
 
-			(ZI233) = fsm_subtract((ZI231), (ZIexit));
+			(ZI233) = fsm_subtract((ZI231), x);
 			if ((ZI233) == NULL) {
 				perror("fsm_subtract");
 				goto ZL1;
 			}
 		}
 	
-#line 423 "src/lx/parser.c"
+#line 426 "src/lx/parser.c"
 			}
 			/* END OF ACTION: subtract-exit */
 			p_251 (lex_state, act_state, &ZIa, &ZIz, &ZIexit, &ZI232, &ZI233);
@@ -459,7 +462,7 @@ p_list_Hof_Hthings_C_Cthing(lex_state lex_state, act_state act_state, ast ZIa, z
 			goto ZL1;
 		}
 	
-#line 463 "src/lx/parser.c"
+#line 466 "src/lx/parser.c"
 			}
 			/* END OF ACTION: op-complete */
 			p_212 (lex_state, act_state, &ZIz, &ZI210, &ZI206);
@@ -481,20 +484,23 @@ p_list_Hof_Hthings_C_Cthing(lex_state lex_state, act_state act_state, ast ZIa, z
 		if ((ZIexit) == NULL) {
 			(ZI241) = (ZI239);
 		} else {
-			(ZIexit) = fsm_clone((ZIexit));
-			if ((ZIexit) == NULL) {
+			struct fsm *x;
+
+			/* not assigned to b, which is the caller's variable */
+			x = fsm_clone((ZIexit));
+			if (x == NULL) {
 				perror("fsm_clone");
 				goto ZL1;
 			}
 
-			(ZI241) = fsm_subtract((ZI239), (ZIexit));
+			(ZI241) = fsm_subtract((ZI239), x);
 			if ((ZI241) == NULL) {
 				perror("fsm_subtract");
 				goto ZL1;
 			}
 		}
 	
-#line 498 "src/lx/parser.c"
+#line 504 "src/lx/parser.c"
 			}
 			/* END OF ACTION: subtract-exit */
 			p_251 (lex_state, act_state, &ZIa, &ZIz, &ZIexit, &ZI240, &ZI241);
@@ -514,7 +520,7 @@ p_list_Hof_Hthings_C_Cthing(lex_state lex_state, act_state act_state, ast ZIa, z
 
 		ZIn = xstrdup(lex_state->buf.a);
 	
-#line 518 "src/lx/parser.c"
+#line 524 "src/lx/parser.c"
 			}
 			/* END OF EXTRACT: IDENT */
 			ADVANCE_LEXER;
@@ -571,20 +577,23 @@ p_list_Hof_Hthings_C_Cthing(lex_state lex_state, act_state act_state, ast ZIa, z
 		if ((ZIexit) == NULL) {
 			(ZI250) = (ZI248);
 		} else {
-			(ZIexit) = fsm_clone((ZIexit));
-			if ((ZIexit) == NULL) {
+			struct fsm *x;
+
+			/* not assigned to b, which is the caller's variable */
+			x = fsm_clone((ZIexit));
+			if (x == NULL) {
 				perror("fsm_clone");
 				goto ZL1;
 			}
 
-			(ZI250) = fsm_subtract((ZI248), (ZIexit));
+			(ZI250) = fsm_subtract((ZI248), x);
 			if ((ZI250) == NULL) {
 				perror("fsm_subtract");
 				goto ZL1;
 			}
 		}
 	
-#line 588 "src/lx/parser.c"
+#line 597 "src/lx/parser.c"
 			}
 			/* END OF ACTION: subtract-exit */
 			p_251 (lex_state, act_state, &ZIa, &ZIz, &ZIexit, &ZI249, &ZI250);
@@ -624,7 +633,7 @@ p_list_Hof_Hthings_C_Cthing(lex_state lex_state, act_state act_state, ast ZIa, z
 			goto ZL1;
 		}
 	
-#line 628 "src/lx/parser.c"
+#line 637 "src/lx/parser.c"
 			}
 			/* END OF ACTION: op-complement */
 			p_212 (lex_state, act_state, &ZIz, &ZI210, &ZI206);
@@ -646,20 +655,23 @@ p_list_Hof_Hthings_C_Cthing(lex_state lex_state, act_state act_state, ast ZIa, z
 		if ((ZIexit) == NULL) {
 			(ZI225) = (ZI223);
 		} else {
-			(ZIexit) = fsm_clone((ZIexit));
-			if ((ZIexit) == NULL) {
+			struct fsm *x;
+
+			/* not assigned to b, which is the caller's variable */
+			x = fsm_clone((ZIexit));
+			if (x == NULL) {
 				perror("fsm_clone");
 				goto ZL1;
 			}
 
-			(ZI225) = fsm_subtract((ZI223), (ZIexit));
+			(ZI225) = fsm_subtract((ZI223), x);
 			if ((ZI225) == NULL) {
 				perror("fsm_subtract");
 				goto ZL1;
 			}
 		}
 	
-#line 663 "src/lx/parser.c"
+#line 675 "src/lx/parser.c"
 			}
 			/* END OF ACTION: subtract-exit */
 			p_251 (lex_state, act_state, &ZIa, &ZIz, &ZIexit, &ZI224, &ZI225);
@@ -691,7 +703,7 @@ p_list_Hof_Hthings_C_Cthing(lex_state lex_state, act_state act_state, ast ZIa, z
 		/* TODO: submatch addressing */
 		ZI253 = xstrdup(lex_state->buf.a + 1); /* +1 for '$' prefix */
 	
-#line 695 "src/lx/parser.c"
+#line 707 "src/lx/parser.c"
 			}
 			/* END OF EXTRACT: TOKEN */
 			ADVANCE_LEXER;
@@ -754,7 +766,7 @@ p_list_Hof_Hthings_C_Cthing(lex_state lex_state, act_state act_state, ast ZIa, z
 
 		fsm_setstart((ZI254), start);
 	
-#line 758 "src/lx/parser.c"
+#line 770 "src/lx/parser.c"
 			}
 			/* END OF ACTION: deref-token */
 			p_197 (lex_state, act_state, ZI254, &ZI210);
@@ -777,20 +789,23 @@ p_list_Hof_Hthings_C_Cthing(lex_state lex_state, act_state act_state, ast ZIa, z
 		if ((ZIexit) == NULL) {
 			(ZI261) = (ZI259);
 		} else {
-			(ZIexit) = fsm_clone((ZIexit));
-			if ((ZIexit) == NULL) {
+			struct fsm *x;
+
+			/* not assigned to b, which is the caller's variable */
+			x = fsm_clone((ZIexit));
+			if (x == NULL) {
 				perror("fsm_clone");
 				goto ZL1;
 			}
 
-			(ZI261) = fsm_subtract((ZI259), (ZIexit));
+			(ZI261) = fsm_subtract((ZI259), x);
 			if ((ZI261) == NULL) {
 				perror("fsm_subtract");
 				goto ZL1;
 			}
 		}
 	
-#line 794 "src/lx/parser.c"
+#line 809 "src/lx/parser.c"
 			}
 			/* END OF ACTION: subtract-exit */
 			p_251 (lex_state, act_state, &ZIa, &ZIz, &ZIexit, &ZI260, &ZI261);
@@ -837,20 +852,23 @@ p_list_Hof_Hthings_C_Cthing(lex_state lex_state, act_state act_state, ast ZIa, z
 		if ((ZIexit) == NULL) {
 			(ZI270) = (ZI268);
 		} else {
-			(ZIexit) = fsm_clone((ZIexit));
-			if ((ZIexit) == NULL) {
+			struct fsm *x;
+
+			/* not assigned to b, which is the caller's variable */
+			x = fsm_clone((ZIexit));
+			if (x == NULL) {
 				perror("fsm_clone");
 				goto ZL1;
 			}
 
-			(ZI270) = fsm_subtract((ZI268), (ZIexit));
+			(ZI270) = fsm_subtract((ZI268), x);
 			if ((ZI270) == NULL) {
 				perror("fsm_subtract");
 				goto ZL1;
 			}
 		}
 	
-#line 854 "src/lx/parser.c"
+#line 872 "src/lx/parser.c"
 			}
 			/* END OF ACTION: subtract-exit */
 			p_251 (lex_state, act_state, &ZIa, &ZIz, &ZIexit, &ZI269, &ZI270);
@@ -870,11 +888,11 @@ ZL1:;
 	{
 		/* BEGINNING OF ACTION: err-expected-thing */
 		{
-#line 827 "src/lx/parser.act"
+#line 830 "src/lx/parser.act"
 
 		err_expected(lex_state, "mapping, binding or zone");
 	
-#line 878 "src/lx/parser.c"
+#line 896 "src/lx/parser.c"
 		}
 		/* END OF ACTION: err-expected-thing */
 	}
@@ -900,11 +918,11 @@ ZL1:;
 	{
 		/* BEGINNING OF ACTION: err-expected-open */
 		{
-#line 815 "src/lx/parser.act"
+#line 818 "src/lx/parser.act"
 
 		err_expected(lex_state, "'{'");
 	
-#line 908 "src/lx/parser.c"
+#line 926 "src/lx/parser.c"
 		}
 		/* END OF ACTION: err-expected-open */
 	}
@@ -930,11 +948,11 @@ ZL1:;
 	{
 		/* BEGINNING OF ACTION: err-expected-close */
 		{
-#line 819 "src/lx/parser.act"
+#line 822 "src/lx/parser.act"
 
 		err_expected(lex_state, "'}'");
 	
-#line 938 "src/lx/parser.c"
+#line 956 "src/lx/parser.c"
 		}
 		/* END OF ACTION: err-expected-close */
 	}
@@ -963,7 +981,7 @@ ZL2_pattern_C_Cbody:;
 
 		ZIc = lex_state->buf.a[0];
 	
-#line 967 "src/lx/parser.c"
+#line 985 "src/lx/parser.c"
 						}
 						/* END OF EXTRACT: CHAR */
 						ADVANCE_LEXER;
@@ -991,7 +1009,7 @@ ZL2_pattern_C_Cbody:;
 		default:   ZIc = '\0'; break; /* TODO: handle error */
 		}
 	
-#line 995 "src/lx/parser.c"
+#line 1013 "src/lx/parser.c"
 						}
 						/* END OF EXTRACT: ESC */
 						ADVANCE_LEXER;
@@ -1028,7 +1046,7 @@ ZL2_pattern_C_Cbody:;
 
 		ZIc = (char) (unsigned char) u;
 	
-#line 1032 "src/lx/parser.c"
+#line 1050 "src/lx/parser.c"
 						}
 						/* END OF EXTRACT: HEX */
 						ADVANCE_LEXER;
@@ -1065,7 +1083,7 @@ ZL2_pattern_C_Cbody:;
 
 		ZIc = (char) (unsigned char) u;
 	
-#line 1069 "src/lx/parser.c"
+#line 1087 "src/lx/parser.c"
 						}
 						/* END OF EXTRACT: OCT */
 						ADVANCE_LEXER;
@@ -1092,7 +1110,7 @@ ZL2_pattern_C_Cbody:;
 
 		*lex_state->p++ = (ZIc);
 	
-#line 1096 "src/lx/parser.c"
+#line 1114 "src/lx/parser.c"
 			}
 			/* END OF ACTION: pattern-char */
 			/* BEGINNING OF INLINE: pattern::body */
@@ -1232,7 +1250,7 @@ ZL2_180:;
 			goto ZL1;
 		}
 	
-#line 1236 "src/lx/parser.c"
+#line 1254 "src/lx/parser.c"
 			}
 			/* END OF ACTION: op-alt */
 			/* BEGINNING OF INLINE: 180 */
@@ -1310,7 +1328,7 @@ p_expr_C_Cprefix_Hexpr(lex_state lex_state, act_state act_state, zone ZIz, fsm *
 			goto ZL1;
 		}
 	
-#line 1314 "src/lx/parser.c"
+#line 1332 "src/lx/parser.c"
 			}
 			/* END OF ACTION: op-reverse */
 		}
@@ -1334,7 +1352,7 @@ p_expr_C_Cprefix_Hexpr(lex_state lex_state, act_state act_state, zone ZIz, fsm *
 			goto ZL1;
 		}
 	
-#line 1338 "src/lx/parser.c"
+#line 1356 "src/lx/parser.c"
 			}
 			/* END OF ACTION: op-complete */
 		}
@@ -1358,7 +1376,7 @@ p_expr_C_Cprefix_Hexpr(lex_state lex_state, act_state act_state, zone ZIz, fsm *
 			goto ZL1;
 		}
 	
-#line 1362 "src/lx/parser.c"
+#line 1380 "src/lx/parser.c"
 			}
 			/* END OF ACTION: op-complement */
 		}
@@ -1419,7 +1437,7 @@ ZL2_186:;
 			goto ZL1;
 		}
 	
-#line 1423 "src/lx/parser.c"
+#line 1441 "src/lx/parser.c"
 			}
 			/* END OF ACTION: op-intersect */
 			/* BEGINNING OF INLINE: 186 */
@@ -1476,7 +1494,7 @@ ZL2_list_Hof_Hthings_C_Czone_Hthing_C_Clist_Hof_Hzone_Hto_Hmappings_C_Clist_Hof_
 			goto ZL1;
 		}
 	
-#line 1480 "src/lx/parser.c"
+#line 1498 "src/lx/parser.c"
 			}
 			/* END OF ACTION: op-alt */
 			/* BEGINNING OF INLINE: list-of-things::zone-thing::list-of-zone-to-mappings::list-of-zone-to-mappings-x */
@@ -1609,7 +1627,7 @@ ZL2_197:;
 
 		fsm_setstart((ZIq), start);
 	
-#line 1613 "src/lx/parser.c"
+#line 1631 "src/lx/parser.c"
 						}
 						/* END OF ACTION: op-cross */
 						/* BEGINNING OF INLINE: 197 */
@@ -1668,7 +1686,7 @@ ZL2_197:;
 
 		fsm_setstart((ZIq), start);
 	
-#line 1672 "src/lx/parser.c"
+#line 1690 "src/lx/parser.c"
 						}
 						/* END OF ACTION: op-qmark */
 						/* BEGINNING OF INLINE: 197 */
@@ -1732,7 +1750,7 @@ ZL2_197:;
 
 		fsm_setstart((ZIq), start);
 	
-#line 1736 "src/lx/parser.c"
+#line 1754 "src/lx/parser.c"
 						}
 						/* END OF ACTION: op-star */
 						/* BEGINNING OF INLINE: 197 */
@@ -1816,7 +1834,7 @@ p_204(lex_state lex_state, act_state act_state, zone *ZIz, fsm *ZI202, fsm *ZOq)
 			goto ZL1;
 		}
 	
-#line 1820 "src/lx/parser.c"
+#line 1838 "src/lx/parser.c"
 			}
 			/* END OF ACTION: op-subtract */
 		}
@@ -1891,7 +1909,7 @@ p_208(lex_state lex_state, act_state act_state, zone *ZIz, fsm *ZI206, fsm *ZOq)
 			goto ZL1;
 		}
 	
-#line 1895 "src/lx/parser.c"
+#line 1913 "src/lx/parser.c"
 			}
 			/* END OF ACTION: op-concat */
 		}
@@ -1936,7 +1954,7 @@ p_212(lex_state lex_state, act_state act_state, zone *ZIz, fsm *ZI210, fsm *ZOq)
 		(ZIq) = NULL;
 		goto ZL1;
 	
-#line 1940 "src/lx/parser.c"
+#line 1958 "src/lx/parser.c"
 			}
 			/* END OF ACTION: op-product */
 		}
@@ -1984,7 +2002,7 @@ p_215(lex_state lex_state, act_state act_state, fsm *ZOr)
 		ZIf |= RE_ANCHORED; /* regexps in lx are implicitly anchored */
 		ZIf |= RE_SINGLE;   /* we can't assume we're lexing text */
 	
-#line 1988 "src/lx/parser.c"
+#line 2006 "src/lx/parser.c"
 			}
 			/* END OF EXTRACT: RE */
 			ADVANCE_LEXER;
@@ -2016,7 +2034,7 @@ p_215(lex_state lex_state, act_state act_state, fsm *ZOr)
 
 		lex_state->p = lex_state->a;
 	
-#line 2020 "src/lx/parser.c"
+#line 2038 "src/lx/parser.c"
 			}
 			/* END OF ACTION: pattern-buffer */
 			/* BEGINNING OF ACTION: compile-regex */
@@ -2039,16 +2057,16 @@ p_215(lex_state lex_state, act_state act_state, fsm *ZOr)
 			exit(EXIT_FAILURE);
 		}
 	
-#line 2043 "src/lx/parser.c"
+#line 2061 "src/lx/parser.c"
 			}
 			/* END OF ACTION: compile-regex */
 			/* BEGINNING OF ACTION: free-arr */
 			{
-#line 782 "src/lx/parser.act"
+#line 785 "src/lx/parser.act"
 
 		free((ZIa));
 	
-#line 2052 "src/lx/parser.c"
+#line 2070 "src/lx/parser.c"
 			}
 			/* END OF ACTION: free-arr */
 		}
@@ -2086,7 +2104,7 @@ p_215(lex_state lex_state, act_state act_state, fsm *ZOr)
 
 		lex_state->p = lex_state->a;
 	
-#line 2090 "src/lx/parser.c"
+#line 2108 "src/lx/parser.c"
 			}
 			/* END OF ACTION: pattern-buffer */
 			/* BEGINNING OF ACTION: compile-literal */
@@ -2109,16 +2127,16 @@ p_215(lex_state lex_state, act_state act_state, fsm *ZOr)
 			exit(EXIT_FAILURE);
 		}
 	
-#line 2113 "src/lx/parser.c"
+#line 2131 "src/lx/parser.c"
 			}
 			/* END OF ACTION: compile-literal */
 			/* BEGINNING OF ACTION: free-arr */
 			{
-#line 782 "src/lx/parser.act"
+#line 785 "src/lx/parser.act"
 
 		free((ZIa));
 	
-#line 2122 "src/lx/parser.c"
+#line 2140 "src/lx/parser.c"
 			}
 			/* END OF ACTION: free-arr */
 		}
@@ -2189,20 +2207,23 @@ ZL2_list_Hof_Hthings_C_Czone_Hthing_C_Clist_Hof_Hzone_Hfrom_Hmappings_C_Clist_Ho
 		if ((ZIexit) == NULL) {
 			(ZIq) = (ZIr);
 		} else {
-			(ZIexit) = fsm_clone((ZIexit));
-			if ((ZIexit) == NULL) {
+			struct fsm *x;
+
+			/* not assigned to b, which is the caller's variable */
+			x = fsm_clone((ZIexit));
+			if (x == NULL) {
 				perror("fsm_clone");
 				goto ZL1;
 			}
 
-			(ZIq) = fsm_subtract((ZIr), (ZIexit));
+			(ZIq) = fsm_subtract((ZIr), x);
 			if ((ZIq) == NULL) {
 				perror("fsm_subtract");
 				goto ZL1;
 			}
 		}
 	
-#line 2206 "src/lx/parser.c"
+#line 2227 "src/lx/parser.c"
 			}
 			/* END OF ACTION: subtract-exit */
 			/* BEGINNING OF ACTION: add-mapping */
@@ -2240,7 +2261,7 @@ ZL2_list_Hof_Hthings_C_Czone_Hthing_C_Clist_Hof_Hzone_Hfrom_Hmappings_C_Clist_Ho
 			nmappings++;
 		}
 	
-#line 2244 "src/lx/parser.c"
+#line 2265 "src/lx/parser.c"
 			}
 			/* END OF ACTION: add-mapping */
 			/* BEGINNING OF INLINE: list-of-things::zone-thing::list-of-zone-from-mappings::list-of-zone-from-mappings-x */
@@ -2278,7 +2299,7 @@ p_lx(lex_state lex_state, act_state act_state, ast *ZOa)
 
 		(ZIparent) = NULL;
 	
-#line 2282 "src/lx/parser.c"
+#line 2303 "src/lx/parser.c"
 		}
 		/* END OF ACTION: no-zone */
 		/* BEGINNING OF ACTION: make-ast */
@@ -2291,7 +2312,7 @@ p_lx(lex_state lex_state, act_state act_state, ast *ZOa)
 			goto ZL1;
 		}
 	
-#line 2295 "src/lx/parser.c"
+#line 2316 "src/lx/parser.c"
 		}
 		/* END OF ACTION: make-ast */
 		/* BEGINNING OF ACTION: make-zone */
@@ -2314,7 +2335,7 @@ p_lx(lex_state lex_state, act_state act_state, ast *ZOa)
 			goto ZL1;
 		}
 	
-#line 2318 "src/lx/parser.c"
+#line 2339 "src/lx/parser.c"
 		}
 		/* END OF ACTION: make-zone */
 		/* BEGINNING OF ACTION: no-exit */
@@ -2323,7 +2344,7 @@ p_lx(lex_state lex_state, act_state act_state, ast *ZOa)
 
 		(ZIexit) = NULL;
 	
-#line 2327 "src/lx/parser.c"
+#line 2348 "src/lx/parser.c"
 		}
 		/* END OF ACTION: no-exit */
 		/* BEGINNING OF ACTION: set-globalzone */
@@ -2335,7 +2356,7 @@ p_lx(lex_state lex_state, act_state act_state, ast *ZOa)
 
 		(ZIa)->global = (ZIz);
 	
-#line 2339 "src/lx/parser.c"
+#line 2360 "src/lx/parser.c"
 		}
 		/* END OF ACTION: set-globalzone */
 		p_list_Hof_Hthings (lex_state, act_state, ZIa, ZIz, ZIexit);
@@ -2359,11 +2380,11 @@ p_lx(lex_state lex_state, act_state act_state, ast *ZOa)
 			{
 				/* BEGINNING OF ACTION: err-expected-eof */
 				{
-#line 823 "src/lx/parser.act"
+#line 826 "src/lx/parser.act"
 
 		err_expected(lex_state, "EOF");
 	
-#line 2367 "src/lx/parser.c"
+#line 2388 "src/lx/parser.c"
 				}
 				/* END OF ACTION: err-expected-eof */
 			}
@@ -2384,17 +2405,17 @@ ZL1:;
 			goto ZL4;
 		}
 	
-#line 2388 "src/lx/parser.c"
+#line 2409 "src/lx/parser.c"
 		}
 		/* END OF ACTION: make-ast */
 		/* BEGINNING OF ACTION: err-syntax */
 		{
-#line 790 "src/lx/parser.act"
+#line 793 "src/lx/parser.act"
 
 		err(lex_state, "Syntax error");
 		exit(EXIT_FAILURE);
 	
-#line 2398 "src/lx/parser.c"
+#line 2419 "src/lx/parser.c"
 		}
 		/* END OF ACTION: err-syntax */
 	}
@@ -2451,7 +2472,7 @@ p_list_Hof_Hthings_C_Czone_Hthing_C_Czone_Hto_Hmapping(lex_state lex_state, act_
 		}
 		/* BEGINNING OF ACTION: clone */
 		{
-#line 772 "src/lx/parser.act"
+#line 775 "src/lx/parser.act"
 
 		assert((ZIr) != NULL);
 
@@ -2461,7 +2482,7 @@ p_list_Hof_Hthings_C_Czone_Hthing_C_Czone_Hto_Hmapping(lex_state lex_state, act_
 			goto ZL1;
 		}
 	
-#line 2465 "src/lx/parser.c"
+#line 2486 "src/lx/parser.c"
 		}
 		/* END OF ACTION: clone */
 		/* BEGINNING OF ACTION: add-mapping */
@@ -2499,7 +2520,7 @@ p_list_Hof_Hthings_C_Czone_Hthing_C_Czone_Hto_Hmapping(lex_state lex_state, act_
 			nmappings++;
 		}
 	
-#line 2503 "src/lx/parser.c"
+#line 2524 "src/lx/parser.c"
 		}
 		/* END OF ACTION: add-mapping */
 	}
@@ -2535,11 +2556,11 @@ p_112(lex_state lex_state, act_state act_state, string *ZOt)
 				{
 					/* BEGINNING OF ACTION: err-expected-map */
 					{
-#line 799 "src/lx/parser.act"
+#line 802 "src/lx/parser.act"
 
 		err_expected(lex_state, "'->'");
 	
-#line 2543 "src/lx/parser.c"
+#line 2564 "src/lx/parser.c"
 					}
 					/* END OF ACTION: err-expected-map */
 				}
@@ -2555,7 +2576,7 @@ p_112(lex_state lex_state, act_state act_state, string *ZOt)
 		/* TODO: submatch addressing */
 		ZIt = xstrdup(lex_state->buf.a + 1); /* +1 for '$' prefix */
 	
-#line 2559 "src/lx/parser.c"
+#line 2580 "src/lx/parser.c"
 				}
 				/* END OF EXTRACT: TOKEN */
 				break;
@@ -2573,7 +2594,7 @@ p_112(lex_state lex_state, act_state act_state, string *ZOt)
 
 		(ZIt) = NULL;
 	
-#line 2577 "src/lx/parser.c"
+#line 2598 "src/lx/parser.c"
 			}
 			/* END OF ACTION: no-token */
 		}
@@ -2662,11 +2683,11 @@ ZL1:;
 	{
 		/* BEGINNING OF ACTION: err-expected-semi */
 		{
-#line 807 "src/lx/parser.act"
+#line 810 "src/lx/parser.act"
 
 		err_expected(lex_state, "';'");
 	
-#line 2670 "src/lx/parser.c"
+#line 2691 "src/lx/parser.c"
 		}
 		/* END OF ACTION: err-expected-semi */
 	}
@@ -2717,7 +2738,7 @@ p_251(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 
 		(ZIto) = NULL;
 	
-#line 2721 "src/lx/parser.c"
+#line 2742 "src/lx/parser.c"
 			}
 			/* END OF ACTION: no-zone */
 			/* BEGINNING OF ACTION: add-mapping */
@@ -2755,7 +2776,7 @@ p_251(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 			nmappings++;
 		}
 	
-#line 2759 "src/lx/parser.c"
+#line 2780 "src/lx/parser.c"
 			}
 			/* END OF ACTION: add-mapping */
 		}
@@ -2785,7 +2806,7 @@ p_251(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 			goto ZL1;
 		}
 	
-#line 2789 "src/lx/parser.c"
+#line 2810 "src/lx/parser.c"
 			}
 			/* END OF ACTION: make-zone */
 			/* BEGINNING OF ACTION: add-mapping */
@@ -2823,7 +2844,7 @@ p_251(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 			nmappings++;
 		}
 	
-#line 2827 "src/lx/parser.c"
+#line 2848 "src/lx/parser.c"
 			}
 			/* END OF ACTION: add-mapping */
 			p_list_Hof_Hthings_C_Czone_Hthing_C_Clist_Hof_Hzone_Hfrom_Hmappings_C_Clist_Hof_Hzone_Hfrom_Hmappings_Hx (lex_state, act_state, *ZIa, *ZIz, ZIchild, *ZIexit);
@@ -2847,11 +2868,11 @@ p_251(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 				{
 					/* BEGINNING OF ACTION: err-expected-to */
 					{
-#line 811 "src/lx/parser.act"
+#line 814 "src/lx/parser.act"
 
 		err_expected(lex_state, "'..'");
 	
-#line 2855 "src/lx/parser.c"
+#line 2876 "src/lx/parser.c"
 					}
 					/* END OF ACTION: err-expected-to */
 				}
@@ -2880,7 +2901,7 @@ p_251(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 
 		(ZIx) = NULL;
 	
-#line 2884 "src/lx/parser.c"
+#line 2905 "src/lx/parser.c"
 						}
 						/* END OF ACTION: no-zone */
 						/* BEGINNING OF ACTION: no-token */
@@ -2889,7 +2910,7 @@ p_251(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 
 		(ZIy) = NULL;
 	
-#line 2893 "src/lx/parser.c"
+#line 2914 "src/lx/parser.c"
 						}
 						/* END OF ACTION: no-token */
 						/* BEGINNING OF ACTION: regex-any */
@@ -2925,7 +2946,7 @@ p_251(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 		fsm_setstart((ZIw), start);
 		fsm_setend((ZIw), end, 1);
 	
-#line 2929 "src/lx/parser.c"
+#line 2950 "src/lx/parser.c"
 						}
 						/* END OF ACTION: regex-any */
 						/* BEGINNING OF ACTION: subtract-exit */
@@ -2937,20 +2958,23 @@ p_251(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 		if ((ZIchild_Hexit) == NULL) {
 			(ZIv) = (ZIw);
 		} else {
-			(ZIchild_Hexit) = fsm_clone((ZIchild_Hexit));
-			if ((ZIchild_Hexit) == NULL) {
+			struct fsm *x;
+
+			/* not assigned to b, which is the caller's variable */
+			x = fsm_clone((ZIchild_Hexit));
+			if (x == NULL) {
 				perror("fsm_clone");
 				goto ZL5;
 			}
 
-			(ZIv) = fsm_subtract((ZIw), (ZIchild_Hexit));
+			(ZIv) = fsm_subtract((ZIw), x);
 			if ((ZIv) == NULL) {
 				perror("fsm_subtract");
 				goto ZL5;
 			}
 		}
 	
-#line 2954 "src/lx/parser.c"
+#line 2978 "src/lx/parser.c"
 						}
 						/* END OF ACTION: subtract-exit */
 						/* BEGINNING OF ACTION: add-mapping */
@@ -2988,7 +3012,7 @@ p_251(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 			nmappings++;
 		}
 	
-#line 2992 "src/lx/parser.c"
+#line 3016 "src/lx/parser.c"
 						}
 						/* END OF ACTION: add-mapping */
 					}
@@ -3015,11 +3039,11 @@ p_251(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 				{
 					/* BEGINNING OF ACTION: err-expected-list */
 					{
-#line 831 "src/lx/parser.act"
+#line 834 "src/lx/parser.act"
 
 		err_expected(lex_state, "list of mappings, bindings or zones");
 	
-#line 3023 "src/lx/parser.c"
+#line 3047 "src/lx/parser.c"
 					}
 					/* END OF ACTION: err-expected-list */
 				}
@@ -3039,7 +3063,7 @@ p_251(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 
 		(ZIr2) = NULL;
 	
-#line 3043 "src/lx/parser.c"
+#line 3067 "src/lx/parser.c"
 			}
 			/* END OF ACTION: no-exit */
 			/* BEGINNING OF ACTION: make-zone */
@@ -3062,7 +3086,7 @@ p_251(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 			goto ZL1;
 		}
 	
-#line 3066 "src/lx/parser.c"
+#line 3090 "src/lx/parser.c"
 			}
 			/* END OF ACTION: make-zone */
 			/* BEGINNING OF ACTION: add-mapping */
@@ -3100,7 +3124,7 @@ p_251(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 			nmappings++;
 		}
 	
-#line 3104 "src/lx/parser.c"
+#line 3128 "src/lx/parser.c"
 			}
 			/* END OF ACTION: add-mapping */
 			/* BEGINNING OF INLINE: 131 */
@@ -3119,11 +3143,11 @@ p_251(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 				{
 					/* BEGINNING OF ACTION: err-expected-list */
 					{
-#line 831 "src/lx/parser.act"
+#line 834 "src/lx/parser.act"
 
 		err_expected(lex_state, "list of mappings, bindings or zones");
 	
-#line 3127 "src/lx/parser.c"
+#line 3151 "src/lx/parser.c"
 					}
 					/* END OF ACTION: err-expected-list */
 				}
@@ -3167,11 +3191,11 @@ p_252(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 				{
 					/* BEGINNING OF ACTION: err-expected-bind */
 					{
-#line 803 "src/lx/parser.act"
+#line 806 "src/lx/parser.act"
 
 		err_expected(lex_state, "'='");
 	
-#line 3175 "src/lx/parser.c"
+#line 3199 "src/lx/parser.c"
 					}
 					/* END OF ACTION: err-expected-bind */
 				}
@@ -3203,7 +3227,7 @@ p_252(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 			goto ZL1;
 		}
 	
-#line 3207 "src/lx/parser.c"
+#line 3231 "src/lx/parser.c"
 			}
 			/* END OF ACTION: add-binding */
 		}
@@ -3256,7 +3280,7 @@ p_252(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 			goto ZL1;
 		}
 	
-#line 3260 "src/lx/parser.c"
+#line 3284 "src/lx/parser.c"
 			}
 			/* END OF ACTION: deref-var */
 			p_197 (lex_state, act_state, ZI273, &ZI210);
@@ -3279,20 +3303,23 @@ p_252(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 		if ((*ZIexit) == NULL) {
 			(ZI280) = (ZI278);
 		} else {
-			(*ZIexit) = fsm_clone((*ZIexit));
-			if ((*ZIexit) == NULL) {
+			struct fsm *x;
+
+			/* not assigned to b, which is the caller's variable */
+			x = fsm_clone((*ZIexit));
+			if (x == NULL) {
 				perror("fsm_clone");
 				goto ZL1;
 			}
 
-			(ZI280) = fsm_subtract((ZI278), (*ZIexit));
+			(ZI280) = fsm_subtract((ZI278), x);
 			if ((ZI280) == NULL) {
 				perror("fsm_subtract");
 				goto ZL1;
 			}
 		}
 	
-#line 3296 "src/lx/parser.c"
+#line 3323 "src/lx/parser.c"
 			}
 			/* END OF ACTION: subtract-exit */
 			p_251 (lex_state, act_state, ZIa, ZIz, ZIexit, &ZI279, &ZI280);
@@ -3315,7 +3342,7 @@ ZL1:;
 
 /* BEGINNING OF TRAILER */
 
-#line 835 "src/lx/parser.act"
+#line 838 "src/lx/parser.act"
 
 
 	struct ast *lx_parse(FILE *f, const struct fsm_alloc *alloc) {
@@ -3384,6 +3411,6 @@ ZL1:;
 		return ast;
 	}
 
-#line 3388 "src/lx/parser.c"
+#line 3415 "src/lx/parser.c"
 
 /* END OF FILE */
-- 
2.43.0


From d99ad452b5b122b75f31b233fb9142f3126e211a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:32 +0000
Subject: [PATCH 091/142] fix: determinising an FSM without a start state gives
 an FSM without states

Nothing is reachable then. fsm_determinise() reported success but left the
FSM as it was, which isn't a DFA, and so an assertion failed in whatever
needed one next.
---
 src/libfsm/determinise.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libfsm/determinise.c b/src/libfsm/determinise.c
index 25543ab..1070e13 100644
--- a/src/libfsm/determinise.c
+++ b/src/libfsm/determinise.c
@@ -87,6 +87,10 @@ fsm_determinise_with_config(struct fsm *nfa,
 		 */
 
 		if (!fsm_getstart(nfa, &start)) {
+			/* nothing is reachable, and a DFA doesn't have states like that */
+			if (fsm_trim(nfa, FSM_TRIM_START_REACHABLE, NULL) < 0) {
+				goto cleanup;
+			}
 			res = FSM_DETERMINISE_WITH_CONFIG_OK;
 			goto cleanup;
 		}
-- 
2.43.0


From 4912375773831097cb0af071858c3d309bfd2398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:32 +0000
Subject: [PATCH 092/142] fix: the complement of an FSM which matches nothing
 matches everything

Without a start state there was nothing to complete, and the complement
matched nothing either.
---
 src/libfsm/complement.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/libfsm/complement.c b/src/libfsm/complement.c
index 4814383..d1392f6 100644
--- a/src/libfsm/complement.c
+++ b/src/libfsm/complement.c
@@ -18,10 +18,20 @@
 int
 fsm_complement(struct fsm *fsm)
 {
+	fsm_state_t start;
 	size_t i;
 
 	assert(fsm != NULL);
 
+	/* an FSM which matches nothing still needs somewhere for its complement to start */
+	if (!fsm_getstart(fsm, &start)) {
+		if (!fsm_addstate(fsm, &start)) {
+			return 0;
+		}
+
+		fsm_setstart(fsm, start);
+	}
+
 	/* an NFA may be complete too */
 	if (!fsm_all(fsm, fsm_isdfa) || !fsm_all(fsm, fsm_iscomplete)) {
 		if (!fsm_complete(fsm, fsm_isany)) {
-- 
2.43.0


From c25c2e9059328afa2408ef568ba9ae5af4c38084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:32 +0000
Subject: [PATCH 093/142] fix: lx: a mapping which matches nothing has no start
 state to go to

fsm_minimise() leaves nothing of such an FSM, and an epsilon edge was added
to an uninitialised state.
---
 src/lx/main.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/lx/main.c b/src/lx/main.c
index c045c03..90a564a 100644
--- a/src/lx/main.c
+++ b/src/lx/main.c
@@ -411,7 +411,14 @@ zone_minimise(void *arg)
 				return "ast_setendmapping";
 			}
 
-			(void) fsm_getstart(m->fsm, &ms);
+			if (!fsm_getstart(m->fsm, &ms)) {
+				/* this mapping matches nothing */
+				fsm_free(m->fsm);
+#ifndef NDEBUG
+				m->fsm = NULL;
+#endif
+				continue;
+			}
 
 			z->fsm = fsm_merge(z->fsm, m->fsm, &combine_info);
 			if (z->fsm == NULL) {
-- 
2.43.0


From c6199bbaf10d4cc6fdc03c186a366355419d560c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:32 +0000
Subject: [PATCH 094/142] fix: lx: only the body of an implicit zone is a dead
 end

The last thing in any zone was taken for one. For example, where a lexer's
whitespace came last, a file which ended with whitespace ended with
TOK_UNKNOWN rather than with TOK_EOF.
---
 src/lx/print/c.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/lx/print/c.c b/src/lx/print/c.c
index be10e1f..c2bd641 100644
--- a/src/lx/print/c.c
+++ b/src/lx/print/c.c
@@ -167,15 +167,23 @@ endid_represents_dead_end(fsm_end_id_t endid, const struct ast *ast)
 		return false;
 	}
 
-	/* For each zone, check if this endid is associated with its z->ml zone.
-	 * If so, that endid is the "dead end" for that zone.
+	/* For each zone, check if this endid is associated with its z->ml zone,
+	 * where everything else leaves the zone, as it does for an implicit zone.
+	 * If so, that endid is the "dead end" for that zone. The global zone is
+	 * never left, and so it has none.
 	 *
 	 * The total number of zones and end ids (each corresponding to mapping)
 	 * should stay small enough that linear search is fine. If this becomes
 	 * prohibitively expensive, then build a bitset of dead-end IDs upfront
 	 * in one pass. */
 	for (struct ast_zone *z = ast->zl; z != NULL; z = z->next) {
-		if (z->ml == m) { return true; }
+		const struct ast_mapping *o;
+
+		if (z->parent == NULL || z->ml != m) { continue; }
+
+		for (o = m->next; o != NULL && o->to != NULL; o = o->next)
+			;
+		if (o == NULL) { return true; }
 	}
 
 	return false;
-- 
2.43.0


From 571a72b9e13c2d824a936a1a0f03a1d8b4ada9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:32 +0000
Subject: [PATCH 095/142] fix: lx: don't give back a character at the end of
 the input

There's none to give back. For -k pair, the byte past the end of the input
was read, and in any case the end position was moved back for it.
---
 src/lx/print/c.c | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/lx/print/c.c b/src/lx/print/c.c
index c2bd641..431b485 100644
--- a/src/lx/print/c.c
+++ b/src/lx/print/c.c
@@ -150,9 +150,24 @@ buf_op_prefix(void)
 }
 
 static void
-unget_character(FILE *f, bool pop, const char *cur_char_var)
+unget_character(FILE *f, const struct fsm_options *opt,
+	bool pop, const char *cur_char_var)
 {
+	/* at the end of the input there's no character to give back */
+	if (!pop) {
+		switch (opt->io) {
+		case FSM_IO_GETC: fprintf(f, "if (c != EOF) { ");   break;
+		case FSM_IO_STR:  fprintf(f, "if (*p != '\\0') { "); break;
+		case FSM_IO_PAIR: fprintf(f, "if (p != e) { ");     break;
+		}
+	}
+
 	fprintf(f, "%sungetc(lx, %s); ", prefix.api, cur_char_var);
+
+	if (!pop) {
+		fprintf(f, "} ");
+	}
+
 	if (pop && (~api_exclude & API_BUF)) {
 		fprintf(f, "%s%spop(lx->buf_opaque); ",
 		    prefix.api, buf_op_prefix());
@@ -281,16 +296,16 @@ reject_c(FILE *f, const struct fsm_options *opt,
 	if (m != NULL) {
 		const bool has_endids = state_metadata && state_metadata->end_id_count > 0;
 		if (m->token == NULL && m->to == NULL && !has_endids) {
-			unget_character(f, true, env->cur_char_var);
+			unget_character(f, opt, true, env->cur_char_var);
 		} else if (m->token == NULL && m->to == NULL && has_endids) {
-			unget_character(f, true, env->cur_char_var);
+			unget_character(f, opt, true, env->cur_char_var);
 		} else if (m->token == NULL && m->to != NULL) {
-		  	unget_character(f, true, env->cur_char_var);
+		  	unget_character(f, opt, true, env->cur_char_var);
 		} else if (m->token != NULL && m->to == NULL) {
 			assert(has_endids);
-		  	unget_character(f, true, env->cur_char_var);
+		  	unget_character(f, opt, true, env->cur_char_var);
 		} else if (m->token != NULL && m->to != NULL) {
-		  	unget_character(f, true, env->cur_char_var);
+		  	unget_character(f, opt, true, env->cur_char_var);
 		}
 
 		/* re-sync before new call into zone */
@@ -319,7 +334,7 @@ reject_c(FILE *f, const struct fsm_options *opt,
 	} else {
 		fprintf(f, "\n\t\t\t\tif (!has_consumed_input) { return %sEOF; }\n", prefix.tok);
 		fprintf(f, "\t\t\t\t");
-		unget_character(f, false, env->cur_char_var);
+		unget_character(f, opt, false, env->cur_char_var);
 	}
 
 	/* XXX: don't need this if complete */
-- 
2.43.0


From 451b9dc01600d11db420c4f436d9fc9b853059c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:32 +0000
Subject: [PATCH 096/142] fix: lx: keep a token's text for -k str and -k pair
 without positions, too

Characters are pushed where the position advances, which -x pos excluded
altogether. The last character was still popped, though, from before the
start of the buffer.
---
 src/lx/print/c.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lx/print/c.c b/src/lx/print/c.c
index 431b485..5f4ef65 100644
--- a/src/lx/print/c.c
+++ b/src/lx/print/c.c
@@ -368,7 +368,7 @@ advance_c(FILE *f, const struct fsm_options *opt, const char *cur_char_var, void
 	case FSM_IO_PAIR:
 		/* When libfsm's generated code advances a character, update
 		 * lx's token name buffer and position bookkeeping. */
-		if (~api_exclude & API_POS) {
+		if (~api_exclude & (API_POS | API_BUF)) {
 			fprintf(f, "\t\tif (!%sadvance_end(lx, %s)) { return %sERROR; }\n",
 			    prefix.api, cur_char_var, prefix.tok);
 		}
@@ -531,7 +531,7 @@ print_io(FILE *f, const struct fsm_options *opt)
 		fprintf(stderr, " io");
 	}
 
-	if (opt->io == FSM_IO_GETC || (~api_exclude & API_POS)) {
+	if (opt->io == FSM_IO_GETC || (~api_exclude & (API_POS | API_BUF))) {
 		fprintf(f, "static int\n");
 		fprintf(f, "%sadvance_end(struct %slx *lx, int c)\n", prefix.api, prefix.lx);
 		fprintf(f, "{\n");
-- 
2.43.0


From a8991635b94f51e89b0f96d33406511cbed4837b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:32 +0000
Subject: [PATCH 097/142] fix: lx: don't pop from a token buffer where there
 isn't one

A caller needn't set .push, and nothing is pushed then.
---
 src/lx/print/c.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lx/print/c.c b/src/lx/print/c.c
index 5f4ef65..879d63b 100644
--- a/src/lx/print/c.c
+++ b/src/lx/print/c.c
@@ -169,7 +169,7 @@ unget_character(FILE *f, const struct fsm_options *opt,
 	}
 
 	if (pop && (~api_exclude & API_BUF)) {
-		fprintf(f, "%s%spop(lx->buf_opaque); ",
+		fprintf(f, "if (lx->push != NULL) { %s%spop(lx->buf_opaque); } ",
 		    prefix.api, buf_op_prefix());
 	}
 }
-- 
2.43.0


From 6c5004ac33bad283ad3177930b5c6db6c713b4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:32 +0000
Subject: [PATCH 098/142] fix: lx: clear the token buffer even where it can't
 be shrunk

The next token's text began with the previous token's otherwise, because
nothing handles an error from dynclear. The buffer we have is large enough.
---
 src/lx/print/c.c | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/lx/print/c.c b/src/lx/print/c.c
index 879d63b..dcf2d23 100644
--- a/src/lx/print/c.c
+++ b/src/lx/print/c.c
@@ -738,7 +738,6 @@ print_buf(FILE *f, const struct fsm_options *opt)
 		}
 
 		fprintf(f, "int\n");
-		/* FIXME: handle error from dynclear */
 		fprintf(f, "%sdynclear(void *buf_opaque)\n", prefix.api);
 		fprintf(f, "{\n");
 		fprintf(f, "\tstruct lx_dynbuf *t = buf_opaque;\n");
@@ -752,12 +751,10 @@ print_buf(FILE *f, const struct fsm_options *opt)
 		fprintf(f, "\t\tlen = t->len / LX_DYN_FACTOR;\n");
 		fprintf(f, "\n");
 		fprintf(f, "\t\ttmp = realloc(t->a, len);\n");
-		fprintf(f, "\t\tif (tmp == NULL) {\n");
-		fprintf(f, "\t\t\treturn -1;\n");
+		fprintf(f, "\t\tif (tmp != NULL) {\n"); /* otherwise we're still fine with what we have */
+		fprintf(f, "\t\t\tt->a   = tmp;\n");
+		fprintf(f, "\t\t\tt->len = len;\n");
 		fprintf(f, "\t\t}\n");
-		fprintf(f, "\n");
-		fprintf(f, "\t\tt->a   = tmp;\n");
-		fprintf(f, "\t\tt->len = len;\n");
 		fprintf(f, "\t}\n");
 		fprintf(f, "\n");
 		fprintf(f, "\tt->p = t->a;\n");
-- 
2.43.0


From 82c643f3e7ffabe4aa0be1c22d3c2e60c808c15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:32 +0000
Subject: [PATCH 099/142] fix: lx: give bytes above 127 as unsigned from dgetc

A byte of 255 was taken for EOF otherwise.
---
 src/lx/print/c.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lx/print/c.c b/src/lx/print/c.c
index dcf2d23..d87de75 100644
--- a/src/lx/print/c.c
+++ b/src/lx/print/c.c
@@ -518,7 +518,7 @@ print_lgetc(FILE *f, const struct fsm_options *opt)
 		fprintf(f, "\t\td->len = r;\n");
 		fprintf(f, "\t}\n");
 		fprintf(f, "\n");
-		fprintf(f, "\treturn d->len--, *d->p++;\n");
+		fprintf(f, "\treturn d->len--, (unsigned char) *d->p++;\n");
 		fprintf(f, "}\n");
 		fprintf(f, "\n");
 	}
-- 
2.43.0


From d5017778a20d9bb3ed540830f84be923e405b4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:54 +0000
Subject: [PATCH 100/142] fix: lx: a read error isn't the end of the input

The token it cut short was given as if it were whole, followed by EOF. Now
this gives TOK_ERROR, and dgetc() tries again where it's interrupted.
---
 src/lx/print/c.c | 22 +++++++++++++++++-----
 src/lx/print/h.c |  1 +
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/lx/print/c.c b/src/lx/print/c.c
index d87de75..7024e2f 100644
--- a/src/lx/print/c.c
+++ b/src/lx/print/c.c
@@ -409,6 +409,9 @@ print_lgetc(FILE *f, const struct fsm_options *opt)
 		fprintf(f, "\tconst int c = fgetc(lx->getc_opaque);\n");
 		fprintf(f, "\tif (c == EOF) {\n");
 		fprintf(f, "\t\tlx->c = EOF;\n");
+		fprintf(f, "\t\tif (ferror((FILE *) lx->getc_opaque)) {\n");
+		fprintf(f, "\t\t\tlx->read_failed = 1;\n");
+		fprintf(f, "\t\t}\n");
 		fprintf(f, "\t\treturn EOF;\n");
 		fprintf(f, "\t} else {\n");
 
@@ -504,9 +507,13 @@ print_lgetc(FILE *f, const struct fsm_options *opt)
 		fprintf(f, "\n");
 		fprintf(f, "\t\tassert((fcntl(d->fd, F_GETFL) & O_NONBLOCK) == 0);\n");
 		fprintf(f, "\n");
-		fprintf(f, "\t\tr = read(d->fd, d->buf, d->bufsz);\n");
+		fprintf(f, "\t\tdo {\n");
+		fprintf(f, "\t\t\tr = read(d->fd, d->buf, d->bufsz);\n");
+		fprintf(f, "\t\t} while (r == -1 && errno == EINTR);\n");
+		fprintf(f, "\n");
 		fprintf(f, "\t\tif (r == -1) {\n");
 		fprintf(f, "\t\t\tassert(errno != EAGAIN);\n");
+		fprintf(f, "\t\t\tlx->read_failed = 1;\n");
 		fprintf(f, "\t\t\treturn EOF;\n");
 		fprintf(f, "\t\t}\n");
 		fprintf(f, "\n");
@@ -602,8 +609,9 @@ print_io(FILE *f, const struct fsm_options *opt)
 		fprintf(f, "\t}\n");
 		fprintf(f, "\n");
 
-		/* This looks like EOF to the caller; push_failed distinguishes
-		 * the two for %snext(), which gives an error for the token. */
+		/* This looks like EOF to the caller, and so does an error from
+		 * .lgetc; push_failed and read_failed distinguish
+		 * these for %snext(), which gives an error for the token. */
 		if (api_exclude & API_BUF) {
 			fprintf(f, "\tif (!%sadvance_end(lx, c)) { return EOF; }\n", prefix.api);
 		} else {
@@ -1287,8 +1295,12 @@ lx_print_c(FILE *f, const struct ast *ast, const struct fsm_options *opt)
 		fprintf(f, "\tt = lx->z(lx);\n");
 		fprintf(f, "\n");
 
-		if ((~api_exclude & API_BUF) && opt->io == FSM_IO_GETC) {
-			fprintf(f, "\tif (lx->push_failed) {\n");
+		if (opt->io == FSM_IO_GETC) {
+			if (~api_exclude & API_BUF) {
+				fprintf(f, "\tif (lx->push_failed || lx->read_failed) {\n");
+			} else {
+				fprintf(f, "\tif (lx->read_failed) {\n");
+			}
 			fprintf(f, "\t\tlx->lgetc = NULL;\n");
 			fprintf(f, "\t\treturn %sERROR;\n", prefix.tok);
 			fprintf(f, "\t}\n");
diff --git a/src/lx/print/h.c b/src/lx/print/h.c
index 1b46f43..77b7841 100644
--- a/src/lx/print/h.c
+++ b/src/lx/print/h.c
@@ -80,6 +80,7 @@ lx_print_h(FILE *f, const struct ast *ast, const struct fsm_options *opt)
 		fprintf(f, "\tvoid *getc_opaque;\n");
 		fprintf(f, "\n");
 		fprintf(f, "\tint c; /* %sungetc buffer */\n", prefix.api);
+		fprintf(f, "\tint read_failed; /* .lgetc gave EOF for an error */\n");
 		fprintf(f, "\n");
 		break;
 
-- 
2.43.0


From a37904194817d5fa6ab064029eca79f83b792807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:54 +0000
Subject: [PATCH 101/142] fix: lx: give an example for the state found, rather
 than for the start state

The example for every token was an empty string.
---
 src/lx/print/c.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lx/print/c.c b/src/lx/print/c.c
index 7024e2f..95c9284 100644
--- a/src/lx/print/c.c
+++ b/src/lx/print/c.c
@@ -1100,7 +1100,7 @@ print_example(FILE *f, const struct ast *ast, const struct fsm_options *opt)
 		fprintf(f, "\t\tswitch (t) {\n");
 
 		for (t = ast->tl; t != NULL; t = t->next) {
-			fsm_state_t s;
+			fsm_state_t s, start;
 			char buf[50]; /* 50 looks reasonable for an on-screen limit */
 			int n;
 
@@ -1108,7 +1108,8 @@ print_example(FILE *f, const struct ast *ast, const struct fsm_options *opt)
 				return -1;
 			}
 
-			if (!fsm_getstart(z->fsm, &s)) {
+			/* the start state means this token isn't in this zone */
+			if (!fsm_getstart(z->fsm, &start) || s == start) {
 				continue;
 			}
 
-- 
2.43.0


From 972ed38cb292d34e58c24b7d112a081c5131f40a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:07 +0000
Subject: [PATCH 102/142] fix: lx: skip over text by a loop, rather than by
 recursion

Each thing skipped (and so each character of the body of an implicit zone,
such as for a comment) called its zone's function once more. Without the
compiler eliminating tail calls, a comment of a hundred kilobytes or so
overflowed the stack.
---
 src/lx/print/c.c | 12 ++++++++----
 src/lx/print/h.c |  1 +
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/lx/print/c.c b/src/lx/print/c.c
index 95c9284..2b2870b 100644
--- a/src/lx/print/c.c
+++ b/src/lx/print/c.c
@@ -260,8 +260,8 @@ accept_c(FILE *f, const struct fsm_options *opt,
 		}
 	} else {
 		if (m->token == NULL) {
-			/* update to a different zone, then call to it */
-			fprintf(f, "lx->z = z%u, lx->z(lx)", zindexof(ast, m->to));
+			/* update to a different zone, for lx_next() to call to */
+			fprintf(f, "lx->z = z%u, lx->again = 1, %sUNKNOWN", zindexof(ast, m->to), prefix.tok);
 		} else {
 			/* update zone, then yield a token */
 			fprintf(f, "lx->z = z%u, ", zindexof(ast, m->to));
@@ -327,7 +327,8 @@ reject_c(FILE *f, const struct fsm_options *opt,
 			fprintf(f, "%s", prefix.tok);
 			esctok(f, m->token->s);
 		} else {
-			fprintf(f, "lx->z(lx)");
+			/* nothing to yield, so lx_next() calls to the zone again */
+			fprintf(f, "lx->again = 1, %sUNKNOWN", prefix.tok);
 		}
 		fprintf(f, ";");
 		return 0;
@@ -1293,7 +1294,10 @@ lx_print_c(FILE *f, const struct ast *ast, const struct fsm_options *opt)
 		fprintf(f, "\t}\n");
 		fprintf(f, "\n");
 
-		fprintf(f, "\tt = lx->z(lx);\n");
+		fprintf(f, "\tdo {\n");
+		fprintf(f, "\t\tlx->again = 0;\n");
+		fprintf(f, "\t\tt = lx->z(lx);\n");
+		fprintf(f, "\t} while (lx->again);\n");
 		fprintf(f, "\n");
 
 		if (opt->io == FSM_IO_GETC) {
diff --git a/src/lx/print/h.c b/src/lx/print/h.c
index 77b7841..2297f7d 100644
--- a/src/lx/print/h.c
+++ b/src/lx/print/h.c
@@ -113,6 +113,7 @@ lx_print_h(FILE *f, const struct ast *ast, const struct fsm_options *opt)
 	}
 
 	fprintf(f, "\tenum %stoken (*z)(struct %slx *lx);\n", prefix.api, prefix.lx);
+	fprintf(f, "\tint again; /* .z gave no token, and is to be called again */\n");
 
 	fprintf(f, "};\n");
 	fprintf(f, "\n");
-- 
2.43.0


From 03b62ee7af6de86c7c0eef8f94ad5f16a5efacee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:32 +0000
Subject: [PATCH 103/142] fix: regenerate the lexers with the corrected lx

The committed lexers were produced by an older lx, and so read failures
were taken for the end of the input and the text of the last token could
be left unterminated when a buffer could not be grown.
---
 src/libfsm/lexer.c                | 241 +++-----
 src/libfsm/lexer.h                |   2 +
 src/libre/dialect/glob/lexer.c    |  29 +-
 src/libre/dialect/glob/lexer.h    |   2 +
 src/libre/dialect/like/lexer.c    |  29 +-
 src/libre/dialect/like/lexer.h    |   2 +
 src/libre/dialect/literal/lexer.c |  21 +-
 src/libre/dialect/literal/lexer.h |   2 +
 src/libre/dialect/native/lexer.c  | 291 ++++------
 src/libre/dialect/native/lexer.h  |   2 +
 src/libre/dialect/pcre/lexer.c    | 905 ++++++++++--------------------
 src/libre/dialect/pcre/lexer.h    |   2 +
 src/libre/dialect/sql/lexer.c     | 192 +++----
 src/libre/dialect/sql/lexer.h     |   2 +
 src/lx/lexer.c                    | 287 +++-------
 src/lx/lexer.h                    |   2 +
 16 files changed, 742 insertions(+), 1269 deletions(-)

diff --git a/src/libfsm/lexer.c b/src/libfsm/lexer.c
index c70a6d9..100d070 100644
--- a/src/libfsm/lexer.c
+++ b/src/libfsm/lexer.c
@@ -96,6 +96,9 @@ lx_fgetc(struct lx *lx)
 	const int c = fgetc(lx->getc_opaque);
 	if (c == EOF) {
 		lx->c = EOF;
+		if (ferror((FILE *) lx->getc_opaque)) {
+			lx->read_failed = 1;
+		}
 		return EOF;
 	} else {
 		return c;
@@ -169,12 +172,10 @@ lx_dynclear(void *buf_opaque)
 		len = t->len / LX_DYN_FACTOR;
 
 		tmp = realloc(t->a, len);
-		if (tmp == NULL) {
-			return -1;
+		if (tmp != NULL) {
+			t->a   = tmp;
+			t->len = len;
 		}
-
-		t->a   = tmp;
-		t->len = len;
 	}
 
 	t->p = t->a;
@@ -223,10 +224,10 @@ z0(struct lx *lx)
 			break;
 
 		case S1: /* e.g. "" */
-			lx_ungetc(lx, c); lx_dynpop(lx->buf_opaque); return lx->z(lx);
+			lx_ungetc(lx, c); if (lx->push != NULL) { lx_dynpop(lx->buf_opaque); } return lx->again = 1, TOK_UNKNOWN;
 
 		case S2: /* e.g. "" */
-			lx_ungetc(lx, c); lx_dynpop(lx->buf_opaque); return lx->z = z1, lx->z(lx);
+			lx_ungetc(lx, c); if (lx->push != NULL) { lx_dynpop(lx->buf_opaque); } return lx->z = z1, lx->again = 1, TOK_UNKNOWN;
 
 		default:
 			; /* unreached */
@@ -236,10 +237,10 @@ z0(struct lx *lx)
 	/* end states */
 	switch (state) {
 	case S1: return TOK_UNKNOWN;
-	case S2: return lx->z = z1, lx->z(lx);
+	case S2: return lx->z = z1, lx->again = 1, TOK_UNKNOWN;
 	default: 
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 	}
 
 		switch (state) {
@@ -311,7 +312,7 @@ z1(struct lx *lx)
 			case ']': state = S5; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -327,15 +328,15 @@ z1(struct lx *lx)
 			case '7':
 			case '8':
 			case '9': break;
-			default:  lx_ungetc(lx, c); lx_dynpop(lx->buf_opaque); return TOK_ENDID;
+			default:  lx_ungetc(lx, c); if (lx->push != NULL) { lx_dynpop(lx->buf_opaque); } return TOK_ENDID;
 			}
 			break;
 
 		case S2: /* e.g. "," */
-			lx_ungetc(lx, c); lx_dynpop(lx->buf_opaque); return TOK_COMMA;
+			lx_ungetc(lx, c); if (lx->push != NULL) { lx_dynpop(lx->buf_opaque); } return TOK_COMMA;
 
 		case S3: /* e.g. "#" */
-			lx_ungetc(lx, c); lx_dynpop(lx->buf_opaque); return lx->z = z0, lx->z(lx);
+			lx_ungetc(lx, c); if (lx->push != NULL) { lx_dynpop(lx->buf_opaque); } return lx->z = z0, lx->again = 1, TOK_UNKNOWN;
 
 		case S4: /* e.g. "\\x09" */
 			switch ((unsigned char) c) {
@@ -343,12 +344,12 @@ z1(struct lx *lx)
 			case '\n':
 			case '\r':
 			case ' ': break;
-			default:  lx_ungetc(lx, c); lx_dynpop(lx->buf_opaque); return lx->z(lx);
+			default:  lx_ungetc(lx, c); if (lx->push != NULL) { lx_dynpop(lx->buf_opaque); } return lx->again = 1, TOK_UNKNOWN;
 			}
 			break;
 
 		case S5: /* e.g. "]" */
-			lx_ungetc(lx, c); lx_dynpop(lx->buf_opaque); return lx->z = z5, TOK_CLOSEENDIDS;
+			lx_ungetc(lx, c); if (lx->push != NULL) { lx_dynpop(lx->buf_opaque); } return lx->z = z5, TOK_CLOSEENDIDS;
 
 		default:
 			; /* unreached */
@@ -359,12 +360,12 @@ z1(struct lx *lx)
 	switch (state) {
 	case S1: return TOK_ENDID;
 	case S2: return TOK_COMMA;
-	case S3: return lx->z = z0, lx->z(lx);
+	case S3: return lx->z = z0, lx->again = 1, TOK_UNKNOWN;
 	case S4: return TOK_EOF;
 	case S5: return lx->z = z5, TOK_CLOSEENDIDS;
 	default: 
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 	}
 
 		switch (state) {
@@ -422,10 +423,10 @@ z2(struct lx *lx)
 			break;
 
 		case S1: /* e.g. "" */
-			lx_ungetc(lx, c); lx_dynpop(lx->buf_opaque); return TOK_CHAR;
+			lx_ungetc(lx, c); if (lx->push != NULL) { lx_dynpop(lx->buf_opaque); } return TOK_CHAR;
 
 		case S2: /* e.g. "'" */
-			lx_ungetc(lx, c); lx_dynpop(lx->buf_opaque); return lx->z = z5, TOK_LABEL;
+			lx_ungetc(lx, c); if (lx->push != NULL) { lx_dynpop(lx->buf_opaque); } return lx->z = z5, TOK_LABEL;
 
 		default:
 			; /* unreached */
@@ -438,7 +439,7 @@ z2(struct lx *lx)
 	case S2: return lx->z = z5, TOK_LABEL;
 	default: 
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 	}
 
 		if (lx->push != NULL) {
@@ -505,15 +506,15 @@ z3(struct lx *lx)
 			case 'r':
 			case 't':
 			case 'v': state = S6; break;
-			default:  lx_ungetc(lx, c); lx_dynpop(lx->buf_opaque); return TOK_CHAR;
+			default:  lx_ungetc(lx, c); if (lx->push != NULL) { lx_dynpop(lx->buf_opaque); } return TOK_CHAR;
 			}
 			break;
 
 		case S2: /* e.g. "\\x00" */
-			lx_ungetc(lx, c); lx_dynpop(lx->buf_opaque); return TOK_CHAR;
+			lx_ungetc(lx, c); if (lx->push != NULL) { lx_dynpop(lx->buf_opaque); } return TOK_CHAR;
 
 		case S3: /* e.g. "\"" */
-			lx_ungetc(lx, c); lx_dynpop(lx->buf_opaque); return lx->z = z5, TOK_LABEL;
+			lx_ungetc(lx, c); if (lx->push != NULL) { lx_dynpop(lx->buf_opaque); } return lx->z = z5, TOK_LABEL;
 
 		case S4: /* e.g. "\\x" */
 			switch ((unsigned char) c) {
@@ -541,7 +542,7 @@ z3(struct lx *lx)
 			case 'f': state = S7; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -555,12 +556,12 @@ z3(struct lx *lx)
 			case '5':
 			case '6':
 			case '7': break;
-			default:  lx_ungetc(lx, c); lx_dynpop(lx->buf_opaque); return TOK_OCT;
+			default:  lx_ungetc(lx, c); if (lx->push != NULL) { lx_dynpop(lx->buf_opaque); } return TOK_OCT;
 			}
 			break;
 
 		case S6: /* e.g. "\\\"" */
-			lx_ungetc(lx, c); lx_dynpop(lx->buf_opaque); return TOK_ESC;
+			lx_ungetc(lx, c); if (lx->push != NULL) { lx_dynpop(lx->buf_opaque); } return TOK_ESC;
 
 		case S7: /* e.g. "\\x0" */
 			switch ((unsigned char) c) {
@@ -586,7 +587,7 @@ z3(struct lx *lx)
 			case 'd':
 			case 'e':
 			case 'f': break;
-			default:  lx_ungetc(lx, c); lx_dynpop(lx->buf_opaque); return TOK_HEX;
+			default:  lx_ungetc(lx, c); if (lx->push != NULL) { lx_dynpop(lx->buf_opaque); } return TOK_HEX;
 			}
 			break;
 
@@ -605,7 +606,7 @@ z3(struct lx *lx)
 	case S7: return TOK_HEX;
 	default: 
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 	}
 
 		if (lx->push != NULL) {
@@ -654,10 +655,10 @@ z4(struct lx *lx)
 			break;
 
 		case S1: /* e.g. "" */
-			lx_ungetc(lx, c); lx_dynpop(lx->buf_opaque); return lx->z(lx);
+			lx_ungetc(lx, c); if (lx->push != NULL) { lx_dynpop(lx->buf_opaque); } return lx->again = 1, TOK_UNKNOWN;
 
 		case S2: /* e.g. "" */
-			lx_ungetc(lx, c); lx_dynpop(lx->buf_opaque); return lx->z = z5, lx->z(lx);
+			lx_ungetc(lx, c); if (lx->push != NULL) { lx_dynpop(lx->buf_opaque); } return lx->z = z5, lx->again = 1, TOK_UNKNOWN;
 
 		default:
 			; /* unreached */
@@ -667,10 +668,10 @@ z4(struct lx *lx)
 	/* end states */
 	switch (state) {
 	case S1: return TOK_UNKNOWN;
-	case S2: return lx->z = z5, lx->z(lx);
+	case S2: return lx->z = z5, lx->again = 1, TOK_UNKNOWN;
 	default: 
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 	}
 
 		switch (state) {
@@ -803,33 +804,33 @@ z5(struct lx *lx)
 			case ' ': state = S13; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
 		case S1: /* e.g. "," */
-			lx_ungetc(lx, c); lx_dynpop(lx->buf_opaque); return TOK_COMMA;
+			lx_ungetc(lx, c); if (lx->push != NULL) { lx_dynpop(lx->buf_opaque); } return TOK_COMMA;
 
 		case S2: /* e.g. ";" */
-			lx_ungetc(lx, c); lx_dynpop(lx->buf_opaque); return TOK_SEP;
+			lx_ungetc(lx, c); if (lx->push != NULL) { lx_dynpop(lx->buf_opaque); } return TOK_SEP;
 
 		case S3: /* e.g. "\077" */
-			lx_ungetc(lx, c); lx_dynpop(lx->buf_opaque); return TOK_ANY;
+			lx_ungetc(lx, c); if (lx->push != NULL) { lx_dynpop(lx->buf_opaque); } return TOK_ANY;
 
 		case S4: /* e.g. "-" */
 			switch ((unsigned char) c) {
 			case '>': state = S22; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
 		case S5: /* e.g. "[" */
-			lx_ungetc(lx, c); lx_dynpop(lx->buf_opaque); return lx->z = z1, TOK_OPENENDIDS;
+			lx_ungetc(lx, c); if (lx->push != NULL) { lx_dynpop(lx->buf_opaque); } return lx->z = z1, TOK_OPENENDIDS;
 
 		case S6: /* e.g. "=" */
-			lx_ungetc(lx, c); lx_dynpop(lx->buf_opaque); return TOK_EQUALS;
+			lx_ungetc(lx, c); if (lx->push != NULL) { lx_dynpop(lx->buf_opaque); } return TOK_EQUALS;
 
 		case S7: /* e.g. "e" */
 			switch ((unsigned char) c) {
@@ -896,7 +897,7 @@ z5(struct lx *lx)
 			case 'y':
 			case 'z': state = S9; break;
 			case 'n': state = S19; break;
-			default:  lx_ungetc(lx, c); lx_dynpop(lx->buf_opaque); return TOK_IDENT;
+			default:  lx_ungetc(lx, c); if (lx->push != NULL) { lx_dynpop(lx->buf_opaque); } return TOK_IDENT;
 			}
 			break;
 
@@ -965,7 +966,7 @@ z5(struct lx *lx)
 			case 'y':
 			case 'z': state = S9; break;
 			case 't': state = S14; break;
-			default:  lx_ungetc(lx, c); lx_dynpop(lx->buf_opaque); return TOK_IDENT;
+			default:  lx_ungetc(lx, c); if (lx->push != NULL) { lx_dynpop(lx->buf_opaque); } return TOK_IDENT;
 			}
 			break;
 
@@ -1034,18 +1035,18 @@ z5(struct lx *lx)
 			case 'x':
 			case 'y':
 			case 'z': break;
-			default:  lx_ungetc(lx, c); lx_dynpop(lx->buf_opaque); return TOK_IDENT;
+			default:  lx_ungetc(lx, c); if (lx->push != NULL) { lx_dynpop(lx->buf_opaque); } return TOK_IDENT;
 			}
 			break;
 
 		case S10: /* e.g. "'" */
-			lx_ungetc(lx, c); lx_dynpop(lx->buf_opaque); return lx->z = z2, lx->z(lx);
+			lx_ungetc(lx, c); if (lx->push != NULL) { lx_dynpop(lx->buf_opaque); } return lx->z = z2, lx->again = 1, TOK_UNKNOWN;
 
 		case S11: /* e.g. "\"" */
-			lx_ungetc(lx, c); lx_dynpop(lx->buf_opaque); return lx->z = z3, lx->z(lx);
+			lx_ungetc(lx, c); if (lx->push != NULL) { lx_dynpop(lx->buf_opaque); } return lx->z = z3, lx->again = 1, TOK_UNKNOWN;
 
 		case S12: /* e.g. "#" */
-			lx_ungetc(lx, c); lx_dynpop(lx->buf_opaque); return lx->z = z4, lx->z(lx);
+			lx_ungetc(lx, c); if (lx->push != NULL) { lx_dynpop(lx->buf_opaque); } return lx->z = z4, lx->again = 1, TOK_UNKNOWN;
 
 		case S13: /* e.g. "\\x09" */
 			switch ((unsigned char) c) {
@@ -1053,7 +1054,7 @@ z5(struct lx *lx)
 			case '\n':
 			case '\r':
 			case ' ': break;
-			default:  lx_ungetc(lx, c); lx_dynpop(lx->buf_opaque); return lx->z(lx);
+			default:  lx_ungetc(lx, c); if (lx->push != NULL) { lx_dynpop(lx->buf_opaque); } return lx->again = 1, TOK_UNKNOWN;
 			}
 			break;
 
@@ -1122,7 +1123,7 @@ z5(struct lx *lx)
 			case 'y':
 			case 'z': state = S9; break;
 			case 'a': state = S15; break;
-			default:  lx_ungetc(lx, c); lx_dynpop(lx->buf_opaque); return TOK_IDENT;
+			default:  lx_ungetc(lx, c); if (lx->push != NULL) { lx_dynpop(lx->buf_opaque); } return TOK_IDENT;
 			}
 			break;
 
@@ -1191,7 +1192,7 @@ z5(struct lx *lx)
 			case 'y':
 			case 'z': state = S9; break;
 			case 'r': state = S16; break;
-			default:  lx_ungetc(lx, c); lx_dynpop(lx->buf_opaque); return TOK_IDENT;
+			default:  lx_ungetc(lx, c); if (lx->push != NULL) { lx_dynpop(lx->buf_opaque); } return TOK_IDENT;
 			}
 			break;
 
@@ -1260,7 +1261,7 @@ z5(struct lx *lx)
 			case 'y':
 			case 'z': state = S9; break;
 			case 't': state = S17; break;
-			default:  lx_ungetc(lx, c); lx_dynpop(lx->buf_opaque); return TOK_IDENT;
+			default:  lx_ungetc(lx, c); if (lx->push != NULL) { lx_dynpop(lx->buf_opaque); } return TOK_IDENT;
 			}
 			break;
 
@@ -1330,12 +1331,12 @@ z5(struct lx *lx)
 			case 'y':
 			case 'z': state = S9; break;
 			case ':': state = S18; break;
-			default:  lx_ungetc(lx, c); lx_dynpop(lx->buf_opaque); return TOK_IDENT;
+			default:  lx_ungetc(lx, c); if (lx->push != NULL) { lx_dynpop(lx->buf_opaque); } return TOK_IDENT;
 			}
 			break;
 
 		case S18: /* e.g. "start:" */
-			lx_ungetc(lx, c); lx_dynpop(lx->buf_opaque); return TOK_START;
+			lx_ungetc(lx, c); if (lx->push != NULL) { lx_dynpop(lx->buf_opaque); } return TOK_START;
 
 		case S19: /* e.g. "en" */
 			switch ((unsigned char) c) {
@@ -1402,7 +1403,7 @@ z5(struct lx *lx)
 			case 'y':
 			case 'z': state = S9; break;
 			case 'd': state = S20; break;
-			default:  lx_ungetc(lx, c); lx_dynpop(lx->buf_opaque); return TOK_IDENT;
+			default:  lx_ungetc(lx, c); if (lx->push != NULL) { lx_dynpop(lx->buf_opaque); } return TOK_IDENT;
 			}
 			break;
 
@@ -1472,15 +1473,15 @@ z5(struct lx *lx)
 			case 'y':
 			case 'z': state = S9; break;
 			case ':': state = S21; break;
-			default:  lx_ungetc(lx, c); lx_dynpop(lx->buf_opaque); return TOK_IDENT;
+			default:  lx_ungetc(lx, c); if (lx->push != NULL) { lx_dynpop(lx->buf_opaque); } return TOK_IDENT;
 			}
 			break;
 
 		case S21: /* e.g. "end:" */
-			lx_ungetc(lx, c); lx_dynpop(lx->buf_opaque); return TOK_END;
+			lx_ungetc(lx, c); if (lx->push != NULL) { lx_dynpop(lx->buf_opaque); } return TOK_END;
 
 		case S22: /* e.g. "->" */
-			lx_ungetc(lx, c); lx_dynpop(lx->buf_opaque); return TOK_TO;
+			lx_ungetc(lx, c); if (lx->push != NULL) { lx_dynpop(lx->buf_opaque); } return TOK_TO;
 
 		default:
 			; /* unreached */
@@ -1497,9 +1498,9 @@ z5(struct lx *lx)
 	case S7: return TOK_IDENT;
 	case S8: return TOK_IDENT;
 	case S9: return TOK_IDENT;
-	case S10: return lx->z = z2, lx->z(lx);
-	case S11: return lx->z = z3, lx->z(lx);
-	case S12: return lx->z = z4, lx->z(lx);
+	case S10: return lx->z = z2, lx->again = 1, TOK_UNKNOWN;
+	case S11: return lx->z = z3, lx->again = 1, TOK_UNKNOWN;
+	case S12: return lx->z = z4, lx->again = 1, TOK_UNKNOWN;
 	case S13: return TOK_EOF;
 	case S14: return TOK_IDENT;
 	case S15: return TOK_IDENT;
@@ -1512,7 +1513,7 @@ z5(struct lx *lx)
 	case S22: return TOK_TO;
 	default: 
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 	}
 
 		switch (state) {
@@ -1574,127 +1575,50 @@ lx_example(enum lx_token (*z)(struct lx *), enum lx_token t)
 
 	if (z == z0) {
 		switch (t) {
-		case TOK_SEP: return "";
-		case TOK_ANY: return "";
-		case TOK_TO: return "";
-		case TOK_ENDID: return "";
-		case TOK_COMMA: return "";
-		case TOK_CLOSEENDIDS: return "";
-		case TOK_OPENENDIDS: return "";
-		case TOK_EQUALS: return "";
-		case TOK_IDENT: return "";
-		case TOK_END: return "";
-		case TOK_START: return "";
-		case TOK_CHAR: return "";
-		case TOK_HEX: return "";
-		case TOK_OCT: return "";
-		case TOK_ESC: return "";
-		case TOK_LABEL: return "";
 		default: goto error;
 		}
 	} else
 	if (z == z1) {
 		switch (t) {
-		case TOK_SEP: return "";
-		case TOK_ANY: return "";
-		case TOK_TO: return "";
-		case TOK_ENDID: return "";
-		case TOK_COMMA: return "";
-		case TOK_CLOSEENDIDS: return "";
-		case TOK_OPENENDIDS: return "";
-		case TOK_EQUALS: return "";
-		case TOK_IDENT: return "";
-		case TOK_END: return "";
-		case TOK_START: return "";
-		case TOK_CHAR: return "";
-		case TOK_HEX: return "";
-		case TOK_OCT: return "";
-		case TOK_ESC: return "";
-		case TOK_LABEL: return "";
+		case TOK_ENDID: return "0";
+		case TOK_COMMA: return ",";
+		case TOK_CLOSEENDIDS: return "]";
 		default: goto error;
 		}
 	} else
 	if (z == z2) {
 		switch (t) {
-		case TOK_SEP: return "";
-		case TOK_ANY: return "";
-		case TOK_TO: return "";
-		case TOK_ENDID: return "";
-		case TOK_COMMA: return "";
-		case TOK_CLOSEENDIDS: return "";
-		case TOK_OPENENDIDS: return "";
-		case TOK_EQUALS: return "";
-		case TOK_IDENT: return "";
-		case TOK_END: return "";
-		case TOK_START: return "";
-		case TOK_CHAR: return "";
-		case TOK_HEX: return "";
-		case TOK_OCT: return "";
-		case TOK_ESC: return "";
-		case TOK_LABEL: return "";
+		case TOK_CHAR: return "\\x00";
+		case TOK_LABEL: return "'";
 		default: goto error;
 		}
 	} else
 	if (z == z3) {
 		switch (t) {
-		case TOK_SEP: return "";
-		case TOK_ANY: return "";
-		case TOK_TO: return "";
-		case TOK_ENDID: return "";
-		case TOK_COMMA: return "";
-		case TOK_CLOSEENDIDS: return "";
-		case TOK_OPENENDIDS: return "";
-		case TOK_EQUALS: return "";
-		case TOK_IDENT: return "";
-		case TOK_END: return "";
-		case TOK_START: return "";
-		case TOK_CHAR: return "";
-		case TOK_HEX: return "";
-		case TOK_OCT: return "";
-		case TOK_ESC: return "";
-		case TOK_LABEL: return "";
+		case TOK_CHAR: return "\\";
+		case TOK_HEX: return "\\x0";
+		case TOK_OCT: return "\\0";
+		case TOK_ESC: return "\\\"";
+		case TOK_LABEL: return "\"";
 		default: goto error;
 		}
 	} else
 	if (z == z4) {
 		switch (t) {
-		case TOK_SEP: return "";
-		case TOK_ANY: return "";
-		case TOK_TO: return "";
-		case TOK_ENDID: return "";
-		case TOK_COMMA: return "";
-		case TOK_CLOSEENDIDS: return "";
-		case TOK_OPENENDIDS: return "";
-		case TOK_EQUALS: return "";
-		case TOK_IDENT: return "";
-		case TOK_END: return "";
-		case TOK_START: return "";
-		case TOK_CHAR: return "";
-		case TOK_HEX: return "";
-		case TOK_OCT: return "";
-		case TOK_ESC: return "";
-		case TOK_LABEL: return "";
 		default: goto error;
 		}
 	} else
 	if (z == z5) {
 		switch (t) {
-		case TOK_SEP: return "";
-		case TOK_ANY: return "";
-		case TOK_TO: return "";
-		case TOK_ENDID: return "";
-		case TOK_COMMA: return "";
-		case TOK_CLOSEENDIDS: return "";
-		case TOK_OPENENDIDS: return "";
-		case TOK_EQUALS: return "";
-		case TOK_IDENT: return "";
-		case TOK_END: return "";
-		case TOK_START: return "";
-		case TOK_CHAR: return "";
-		case TOK_HEX: return "";
-		case TOK_OCT: return "";
-		case TOK_ESC: return "";
-		case TOK_LABEL: return "";
+		case TOK_SEP: return ";";
+		case TOK_ANY: return "\077";
+		case TOK_TO: return "->";
+		case TOK_COMMA: return ",";
+		case TOK_OPENENDIDS: return "[";
+		case TOK_EQUALS: return "=";
+		case TOK_IDENT: return "e";
+		case TOK_END: return "end:";
+		case TOK_START: return "start:";
 		default: goto error;
 		}
 	}
@@ -1735,9 +1659,12 @@ lx_next(struct lx *lx)
 		return TOK_EOF;
 	}
 
-	t = lx->z(lx);
+	do {
+		lx->again = 0;
+		t = lx->z(lx);
+	} while (lx->again);
 
-	if (lx->push_failed) {
+	if (lx->push_failed || lx->read_failed) {
 		lx->lgetc = NULL;
 		return TOK_ERROR;
 	}
diff --git a/src/libfsm/lexer.h b/src/libfsm/lexer.h
index 4508a2b..e5c1da3 100644
--- a/src/libfsm/lexer.h
+++ b/src/libfsm/lexer.h
@@ -41,6 +41,7 @@ struct lx {
 	void *getc_opaque;
 
 	int c; /* lx_ungetc buffer */
+	int read_failed; /* .lgetc gave EOF for an error */
 
 	struct lx_pos start;
 	struct lx_pos end;
@@ -52,6 +53,7 @@ struct lx {
 	int push_failed; /* nothing could be stored for the last character */
 
 	enum lx_token (*z)(struct lx *lx);
+	int again; /* .z gave no token, and is to be called again */
 };
 
 /*
diff --git a/src/libre/dialect/glob/lexer.c b/src/libre/dialect/glob/lexer.c
index c7bc2be..cbb87d4 100644
--- a/src/libre/dialect/glob/lexer.c
+++ b/src/libre/dialect/glob/lexer.c
@@ -148,12 +148,10 @@ lx_glob_dynclear(void *buf_opaque)
 		len = t->len / LX_DYN_FACTOR;
 
 		tmp = realloc(t->a, len);
-		if (tmp == NULL) {
-			return -1;
+		if (tmp != NULL) {
+			t->a   = tmp;
+			t->len = len;
 		}
-
-		t->a   = tmp;
-		t->len = len;
 	}
 
 	t->p = t->a;
@@ -203,13 +201,13 @@ z0(struct lx_glob_lx *lx)
 			break;
 
 		case S1: /* e.g. "\\x00" */
-			lx_glob_ungetc(lx, c); lx_glob_dynpop(lx->buf_opaque); return TOK_CHAR;
+			lx_glob_ungetc(lx, c); if (lx->push != NULL) { lx_glob_dynpop(lx->buf_opaque); } return TOK_CHAR;
 
 		case S2: /* e.g. "*" */
-			lx_glob_ungetc(lx, c); lx_glob_dynpop(lx->buf_opaque); return TOK_MANY;
+			lx_glob_ungetc(lx, c); if (lx->push != NULL) { lx_glob_dynpop(lx->buf_opaque); } return TOK_MANY;
 
 		case S3: /* e.g. "\077" */
-			lx_glob_ungetc(lx, c); lx_glob_dynpop(lx->buf_opaque); return TOK_ANY;
+			lx_glob_ungetc(lx, c); if (lx->push != NULL) { lx_glob_dynpop(lx->buf_opaque); } return TOK_ANY;
 
 		default:
 			; /* unreached */
@@ -223,7 +221,7 @@ z0(struct lx_glob_lx *lx)
 	case S3: return TOK_ANY;
 	default: 
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_glob_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_glob_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 	}
 
 		if (lx->push != NULL) {
@@ -261,9 +259,9 @@ lx_glob_example(enum lx_glob_token (*z)(struct lx_glob_lx *), enum lx_glob_token
 
 	if (z == z0) {
 		switch (t) {
-		case TOK_CHAR: return "";
-		case TOK_MANY: return "";
-		case TOK_ANY: return "";
+		case TOK_CHAR: return "\\x00";
+		case TOK_MANY: return "*";
+		case TOK_ANY: return "\077";
 		default: goto error;
 		}
 	}
@@ -304,9 +302,12 @@ lx_glob_next(struct lx_glob_lx *lx)
 		return TOK_EOF;
 	}
 
-	t = lx->z(lx);
+	do {
+		lx->again = 0;
+		t = lx->z(lx);
+	} while (lx->again);
 
-	if (lx->push_failed) {
+	if (lx->push_failed || lx->read_failed) {
 		lx->lgetc = NULL;
 		return TOK_ERROR;
 	}
diff --git a/src/libre/dialect/glob/lexer.h b/src/libre/dialect/glob/lexer.h
index 33d1cd2..b70cbf5 100644
--- a/src/libre/dialect/glob/lexer.h
+++ b/src/libre/dialect/glob/lexer.h
@@ -28,6 +28,7 @@ struct lx_glob_lx {
 	void *getc_opaque;
 
 	int c; /* lx_glob_ungetc buffer */
+	int read_failed; /* .lgetc gave EOF for an error */
 
 	struct lx_pos start;
 	struct lx_pos end;
@@ -39,6 +40,7 @@ struct lx_glob_lx {
 	int push_failed; /* nothing could be stored for the last character */
 
 	enum lx_glob_token (*z)(struct lx_glob_lx *lx);
+	int again; /* .z gave no token, and is to be called again */
 };
 
 /*
diff --git a/src/libre/dialect/like/lexer.c b/src/libre/dialect/like/lexer.c
index ea6d80c..e0eb37b 100644
--- a/src/libre/dialect/like/lexer.c
+++ b/src/libre/dialect/like/lexer.c
@@ -148,12 +148,10 @@ lx_like_dynclear(void *buf_opaque)
 		len = t->len / LX_DYN_FACTOR;
 
 		tmp = realloc(t->a, len);
-		if (tmp == NULL) {
-			return -1;
+		if (tmp != NULL) {
+			t->a   = tmp;
+			t->len = len;
 		}
-
-		t->a   = tmp;
-		t->len = len;
 	}
 
 	t->p = t->a;
@@ -203,13 +201,13 @@ z0(struct lx_like_lx *lx)
 			break;
 
 		case S1: /* e.g. "\\x00" */
-			lx_like_ungetc(lx, c); lx_like_dynpop(lx->buf_opaque); return TOK_CHAR;
+			lx_like_ungetc(lx, c); if (lx->push != NULL) { lx_like_dynpop(lx->buf_opaque); } return TOK_CHAR;
 
 		case S2: /* e.g. "%" */
-			lx_like_ungetc(lx, c); lx_like_dynpop(lx->buf_opaque); return TOK_MANY;
+			lx_like_ungetc(lx, c); if (lx->push != NULL) { lx_like_dynpop(lx->buf_opaque); } return TOK_MANY;
 
 		case S3: /* e.g. "_" */
-			lx_like_ungetc(lx, c); lx_like_dynpop(lx->buf_opaque); return TOK_ANY;
+			lx_like_ungetc(lx, c); if (lx->push != NULL) { lx_like_dynpop(lx->buf_opaque); } return TOK_ANY;
 
 		default:
 			; /* unreached */
@@ -223,7 +221,7 @@ z0(struct lx_like_lx *lx)
 	case S3: return TOK_ANY;
 	default: 
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_like_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_like_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 	}
 
 		if (lx->push != NULL) {
@@ -261,9 +259,9 @@ lx_like_example(enum lx_like_token (*z)(struct lx_like_lx *), enum lx_like_token
 
 	if (z == z0) {
 		switch (t) {
-		case TOK_CHAR: return "";
-		case TOK_MANY: return "";
-		case TOK_ANY: return "";
+		case TOK_CHAR: return "\\x00";
+		case TOK_MANY: return "%";
+		case TOK_ANY: return "_";
 		default: goto error;
 		}
 	}
@@ -304,9 +302,12 @@ lx_like_next(struct lx_like_lx *lx)
 		return TOK_EOF;
 	}
 
-	t = lx->z(lx);
+	do {
+		lx->again = 0;
+		t = lx->z(lx);
+	} while (lx->again);
 
-	if (lx->push_failed) {
+	if (lx->push_failed || lx->read_failed) {
 		lx->lgetc = NULL;
 		return TOK_ERROR;
 	}
diff --git a/src/libre/dialect/like/lexer.h b/src/libre/dialect/like/lexer.h
index acb415d..cd7dac6 100644
--- a/src/libre/dialect/like/lexer.h
+++ b/src/libre/dialect/like/lexer.h
@@ -28,6 +28,7 @@ struct lx_like_lx {
 	void *getc_opaque;
 
 	int c; /* lx_like_ungetc buffer */
+	int read_failed; /* .lgetc gave EOF for an error */
 
 	struct lx_pos start;
 	struct lx_pos end;
@@ -39,6 +40,7 @@ struct lx_like_lx {
 	int push_failed; /* nothing could be stored for the last character */
 
 	enum lx_like_token (*z)(struct lx_like_lx *lx);
+	int again; /* .z gave no token, and is to be called again */
 };
 
 /*
diff --git a/src/libre/dialect/literal/lexer.c b/src/libre/dialect/literal/lexer.c
index b801802..2c8f4a5 100644
--- a/src/libre/dialect/literal/lexer.c
+++ b/src/libre/dialect/literal/lexer.c
@@ -148,12 +148,10 @@ lx_literal_dynclear(void *buf_opaque)
 		len = t->len / LX_DYN_FACTOR;
 
 		tmp = realloc(t->a, len);
-		if (tmp == NULL) {
-			return -1;
+		if (tmp != NULL) {
+			t->a   = tmp;
+			t->len = len;
 		}
-
-		t->a   = tmp;
-		t->len = len;
 	}
 
 	t->p = t->a;
@@ -198,7 +196,7 @@ z0(struct lx_literal_lx *lx)
 			state = S1; break;
 
 		case S1: /* e.g. "" */
-			lx_literal_ungetc(lx, c); lx_literal_dynpop(lx->buf_opaque); return TOK_CHAR;
+			lx_literal_ungetc(lx, c); if (lx->push != NULL) { lx_literal_dynpop(lx->buf_opaque); } return TOK_CHAR;
 
 		default:
 			; /* unreached */
@@ -210,7 +208,7 @@ z0(struct lx_literal_lx *lx)
 	case S1: return TOK_CHAR;
 	default: 
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_literal_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_literal_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 	}
 
 		if (lx->push != NULL) {
@@ -246,7 +244,7 @@ lx_literal_example(enum lx_literal_token (*z)(struct lx_literal_lx *), enum lx_l
 
 	if (z == z0) {
 		switch (t) {
-		case TOK_CHAR: return "";
+		case TOK_CHAR: return "\\x00";
 		default: goto error;
 		}
 	}
@@ -287,9 +285,12 @@ lx_literal_next(struct lx_literal_lx *lx)
 		return TOK_EOF;
 	}
 
-	t = lx->z(lx);
+	do {
+		lx->again = 0;
+		t = lx->z(lx);
+	} while (lx->again);
 
-	if (lx->push_failed) {
+	if (lx->push_failed || lx->read_failed) {
 		lx->lgetc = NULL;
 		return TOK_ERROR;
 	}
diff --git a/src/libre/dialect/literal/lexer.h b/src/libre/dialect/literal/lexer.h
index 8f5c063..8bca8cf 100644
--- a/src/libre/dialect/literal/lexer.h
+++ b/src/libre/dialect/literal/lexer.h
@@ -26,6 +26,7 @@ struct lx_literal_lx {
 	void *getc_opaque;
 
 	int c; /* lx_literal_ungetc buffer */
+	int read_failed; /* .lgetc gave EOF for an error */
 
 	struct lx_pos start;
 	struct lx_pos end;
@@ -37,6 +38,7 @@ struct lx_literal_lx {
 	int push_failed; /* nothing could be stored for the last character */
 
 	enum lx_literal_token (*z)(struct lx_literal_lx *lx);
+	int again; /* .z gave no token, and is to be called again */
 };
 
 /*
diff --git a/src/libre/dialect/native/lexer.c b/src/libre/dialect/native/lexer.c
index 798f715..8073a1f 100644
--- a/src/libre/dialect/native/lexer.c
+++ b/src/libre/dialect/native/lexer.c
@@ -150,12 +150,10 @@ lx_native_dynclear(void *buf_opaque)
 		len = t->len / LX_DYN_FACTOR;
 
 		tmp = realloc(t->a, len);
-		if (tmp == NULL) {
-			return -1;
+		if (tmp != NULL) {
+			t->a   = tmp;
+			t->len = len;
 		}
-
-		t->a   = tmp;
-		t->len = len;
 	}
 
 	t->p = t->a;
@@ -212,7 +210,7 @@ z0(struct lx_native_lx *lx)
 			case '}': state = S3; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_native_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_native_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -228,15 +226,15 @@ z0(struct lx_native_lx *lx)
 			case '7':
 			case '8':
 			case '9': break;
-			default:  lx_native_ungetc(lx, c); lx_native_dynpop(lx->buf_opaque); return TOK_COUNT;
+			default:  lx_native_ungetc(lx, c); if (lx->push != NULL) { lx_native_dynpop(lx->buf_opaque); } return TOK_COUNT;
 			}
 			break;
 
 		case S2: /* e.g. "," */
-			lx_native_ungetc(lx, c); lx_native_dynpop(lx->buf_opaque); return TOK_SEP;
+			lx_native_ungetc(lx, c); if (lx->push != NULL) { lx_native_dynpop(lx->buf_opaque); } return TOK_SEP;
 
 		case S3: /* e.g. "}" */
-			lx_native_ungetc(lx, c); lx_native_dynpop(lx->buf_opaque); return lx->z = z2, TOK_CLOSECOUNT;
+			lx_native_ungetc(lx, c); if (lx->push != NULL) { lx_native_dynpop(lx->buf_opaque); } return lx->z = z2, TOK_CLOSECOUNT;
 
 		default:
 			; /* unreached */
@@ -250,7 +248,7 @@ z0(struct lx_native_lx *lx)
 	case S3: return lx->z = z2, TOK_CLOSECOUNT;
 	default: 
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_native_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_native_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 	}
 
 		if (lx->push != NULL) {
@@ -309,12 +307,12 @@ z1(struct lx_native_lx *lx)
 		case S1: /* e.g. "[" */
 			switch ((unsigned char) c) {
 			case ':': state = S12; break;
-			default:  lx_native_ungetc(lx, c); lx_native_dynpop(lx->buf_opaque); return TOK_CHAR;
+			default:  lx_native_ungetc(lx, c); if (lx->push != NULL) { lx_native_dynpop(lx->buf_opaque); } return TOK_CHAR;
 			}
 			break;
 
 		case S2: /* e.g. "\\x00" */
-			lx_native_ungetc(lx, c); lx_native_dynpop(lx->buf_opaque); return TOK_CHAR;
+			lx_native_ungetc(lx, c); if (lx->push != NULL) { lx_native_dynpop(lx->buf_opaque); } return TOK_CHAR;
 
 		case S3: /* e.g. "\\" */
 			switch ((unsigned char) c) {
@@ -339,25 +337,25 @@ z1(struct lx_native_lx *lx)
 			case '7': state = S9; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_native_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_native_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
 		case S4: /* e.g. "-" */
 			switch ((unsigned char) c) {
 			case ']': state = S6; break;
-			default:  lx_native_ungetc(lx, c); lx_native_dynpop(lx->buf_opaque); return TOK_RANGE;
+			default:  lx_native_ungetc(lx, c); if (lx->push != NULL) { lx_native_dynpop(lx->buf_opaque); } return TOK_RANGE;
 			}
 			break;
 
 		case S5: /* e.g. "]" */
-			lx_native_ungetc(lx, c); lx_native_dynpop(lx->buf_opaque); return lx->z = z2, TOK_CLOSEGROUP;
+			lx_native_ungetc(lx, c); if (lx->push != NULL) { lx_native_dynpop(lx->buf_opaque); } return lx->z = z2, TOK_CLOSEGROUP;
 
 		case S6: /* e.g. "-]" */
-			lx_native_ungetc(lx, c); lx_native_dynpop(lx->buf_opaque); return lx->z = z2, TOK_CLOSEGROUPRANGE;
+			lx_native_ungetc(lx, c); if (lx->push != NULL) { lx_native_dynpop(lx->buf_opaque); } return lx->z = z2, TOK_CLOSEGROUPRANGE;
 
 		case S7: /* e.g. "\\-" */
-			lx_native_ungetc(lx, c); lx_native_dynpop(lx->buf_opaque); return TOK_ESC;
+			lx_native_ungetc(lx, c); if (lx->push != NULL) { lx_native_dynpop(lx->buf_opaque); } return TOK_ESC;
 
 		case S8: /* e.g. "\\x" */
 			switch ((unsigned char) c) {
@@ -385,7 +383,7 @@ z1(struct lx_native_lx *lx)
 			case 'f': state = S10; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_native_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_native_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -399,7 +397,7 @@ z1(struct lx_native_lx *lx)
 			case '5':
 			case '6':
 			case '7': break;
-			default:  lx_native_ungetc(lx, c); lx_native_dynpop(lx->buf_opaque); return TOK_OCT;
+			default:  lx_native_ungetc(lx, c); if (lx->push != NULL) { lx_native_dynpop(lx->buf_opaque); } return TOK_OCT;
 			}
 			break;
 
@@ -429,12 +427,12 @@ z1(struct lx_native_lx *lx)
 			case 'f': state = S11; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_native_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_native_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
 		case S11: /* e.g. "\\x00" */
-			lx_native_ungetc(lx, c); lx_native_dynpop(lx->buf_opaque); return TOK_HEX;
+			lx_native_ungetc(lx, c); if (lx->push != NULL) { lx_native_dynpop(lx->buf_opaque); } return TOK_HEX;
 
 		case S12: /* e.g. "[:" */
 			switch ((unsigned char) c) {
@@ -452,7 +450,7 @@ z1(struct lx_native_lx *lx)
 			case 'p': state = S23; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_native_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_native_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -461,7 +459,7 @@ z1(struct lx_native_lx *lx)
 			case 'i': state = S55; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_native_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_native_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -470,7 +468,7 @@ z1(struct lx_native_lx *lx)
 			case 'p': state = S52; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_native_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_native_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -479,7 +477,7 @@ z1(struct lx_native_lx *lx)
 			case 's': state = S14; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_native_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_native_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -488,7 +486,7 @@ z1(struct lx_native_lx *lx)
 			case 'r': state = S49; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_native_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_native_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -498,7 +496,7 @@ z1(struct lx_native_lx *lx)
 			case 'l': state = S42; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_native_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_native_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -507,7 +505,7 @@ z1(struct lx_native_lx *lx)
 			case 'n': state = S38; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_native_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_native_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -516,7 +514,7 @@ z1(struct lx_native_lx *lx)
 			case 'o': state = S37; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_native_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_native_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -525,7 +523,7 @@ z1(struct lx_native_lx *lx)
 			case 'd': state = S13; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_native_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_native_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -534,7 +532,7 @@ z1(struct lx_native_lx *lx)
 			case 'o': state = S35; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_native_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_native_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -543,7 +541,7 @@ z1(struct lx_native_lx *lx)
 			case 'p': state = S32; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_native_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_native_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -553,7 +551,7 @@ z1(struct lx_native_lx *lx)
 			case 'u': state = S25; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_native_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_native_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -562,7 +560,7 @@ z1(struct lx_native_lx *lx)
 			case 'i': state = S31; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_native_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_native_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -571,7 +569,7 @@ z1(struct lx_native_lx *lx)
 			case 'n': state = S26; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_native_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_native_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -580,7 +578,7 @@ z1(struct lx_native_lx *lx)
 			case 'c': state = S27; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_native_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_native_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -589,7 +587,7 @@ z1(struct lx_native_lx *lx)
 			case 't': state = S28; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_native_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_native_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -598,7 +596,7 @@ z1(struct lx_native_lx *lx)
 			case ':': state = S29; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_native_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_native_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -607,19 +605,19 @@ z1(struct lx_native_lx *lx)
 			case ']': state = S30; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_native_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_native_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
 		case S30: /* e.g. "[:word:]" */
-			lx_native_ungetc(lx, c); lx_native_dynpop(lx->buf_opaque); return TOK_NAMED__CLASS;
+			lx_native_ungetc(lx, c); if (lx->push != NULL) { lx_native_dynpop(lx->buf_opaque); } return TOK_NAMED__CLASS;
 
 		case S31: /* e.g. "[:pri" */
 			switch ((unsigned char) c) {
 			case 'n': state = S27; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_native_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_native_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -628,7 +626,7 @@ z1(struct lx_native_lx *lx)
 			case 'p': state = S33; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_native_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_native_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -637,7 +635,7 @@ z1(struct lx_native_lx *lx)
 			case 'e': state = S34; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_native_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_native_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -646,7 +644,7 @@ z1(struct lx_native_lx *lx)
 			case 'r': state = S28; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_native_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_native_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -655,7 +653,7 @@ z1(struct lx_native_lx *lx)
 			case 'r': state = S36; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_native_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_native_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -664,7 +662,7 @@ z1(struct lx_native_lx *lx)
 			case 'd': state = S28; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_native_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_native_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -673,7 +671,7 @@ z1(struct lx_native_lx *lx)
 			case 'w': state = S33; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_native_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_native_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -682,7 +680,7 @@ z1(struct lx_native_lx *lx)
 			case 't': state = S39; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_native_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_native_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -691,7 +689,7 @@ z1(struct lx_native_lx *lx)
 			case 'r': state = S40; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_native_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_native_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -700,7 +698,7 @@ z1(struct lx_native_lx *lx)
 			case 'l': state = S28; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_native_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_native_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -709,7 +707,7 @@ z1(struct lx_native_lx *lx)
 			case 'c': state = S47; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_native_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_native_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -719,7 +717,7 @@ z1(struct lx_native_lx *lx)
 			case 'n': state = S44; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_native_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_native_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -728,7 +726,7 @@ z1(struct lx_native_lx *lx)
 			case 'h': state = S46; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_native_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_native_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -737,7 +735,7 @@ z1(struct lx_native_lx *lx)
 			case 'u': state = S45; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_native_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_native_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -746,7 +744,7 @@ z1(struct lx_native_lx *lx)
 			case 'm': state = S28; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_native_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_native_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -755,7 +753,7 @@ z1(struct lx_native_lx *lx)
 			case 'a': state = S28; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_native_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_native_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -764,7 +762,7 @@ z1(struct lx_native_lx *lx)
 			case 'i': state = S48; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_native_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_native_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -773,7 +771,7 @@ z1(struct lx_native_lx *lx)
 			case 'i': state = S28; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_native_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_native_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -782,7 +780,7 @@ z1(struct lx_native_lx *lx)
 			case 'a': state = S50; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_native_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_native_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -791,7 +789,7 @@ z1(struct lx_native_lx *lx)
 			case 'p': state = S51; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_native_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_native_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -800,7 +798,7 @@ z1(struct lx_native_lx *lx)
 			case 'h': state = S28; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_native_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_native_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -809,7 +807,7 @@ z1(struct lx_native_lx *lx)
 			case 'a': state = S53; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_native_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_native_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -818,7 +816,7 @@ z1(struct lx_native_lx *lx)
 			case 'c': state = S54; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_native_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_native_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -827,7 +825,7 @@ z1(struct lx_native_lx *lx)
 			case 'e': state = S28; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_native_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_native_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -836,7 +834,7 @@ z1(struct lx_native_lx *lx)
 			case 'g': state = S56; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_native_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_native_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -845,7 +843,7 @@ z1(struct lx_native_lx *lx)
 			case 'i': state = S27; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_native_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_native_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -867,7 +865,7 @@ z1(struct lx_native_lx *lx)
 	case S30: return TOK_NAMED__CLASS;
 	default: 
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_native_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_native_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 	}
 
 		if (lx->push != NULL) {
@@ -956,63 +954,63 @@ z2(struct lx_native_lx *lx)
 			case 'v':
 			case '{':
 			case '|': state = S19; break;
-			default:  lx_native_ungetc(lx, c); lx_native_dynpop(lx->buf_opaque); return TOK_CHAR;
+			default:  lx_native_ungetc(lx, c); if (lx->push != NULL) { lx_native_dynpop(lx->buf_opaque); } return TOK_CHAR;
 			}
 			break;
 
 		case S2: /* e.g. "\\x00" */
-			lx_native_ungetc(lx, c); lx_native_dynpop(lx->buf_opaque); return TOK_CHAR;
+			lx_native_ungetc(lx, c); if (lx->push != NULL) { lx_native_dynpop(lx->buf_opaque); } return TOK_CHAR;
 
 		case S3: /* e.g. "{" */
-			lx_native_ungetc(lx, c); lx_native_dynpop(lx->buf_opaque); return lx->z = z0, TOK_OPENCOUNT;
+			lx_native_ungetc(lx, c); if (lx->push != NULL) { lx_native_dynpop(lx->buf_opaque); } return lx->z = z0, TOK_OPENCOUNT;
 
 		case S4: /* e.g. "[" */
 			switch ((unsigned char) c) {
 			case '^': state = S14; break;
 			case ']': state = S15; break;
-			default:  lx_native_ungetc(lx, c); lx_native_dynpop(lx->buf_opaque); return lx->z = z1, TOK_OPENGROUP;
+			default:  lx_native_ungetc(lx, c); if (lx->push != NULL) { lx_native_dynpop(lx->buf_opaque); } return lx->z = z1, TOK_OPENGROUP;
 			}
 			break;
 
 		case S5: /* e.g. "|" */
-			lx_native_ungetc(lx, c); lx_native_dynpop(lx->buf_opaque); return TOK_ALT;
+			lx_native_ungetc(lx, c); if (lx->push != NULL) { lx_native_dynpop(lx->buf_opaque); } return TOK_ALT;
 
 		case S6: /* e.g. "." */
-			lx_native_ungetc(lx, c); lx_native_dynpop(lx->buf_opaque); return TOK_ANY;
+			lx_native_ungetc(lx, c); if (lx->push != NULL) { lx_native_dynpop(lx->buf_opaque); } return TOK_ANY;
 
 		case S7: /* e.g. "+" */
-			lx_native_ungetc(lx, c); lx_native_dynpop(lx->buf_opaque); return TOK_PLUS;
+			lx_native_ungetc(lx, c); if (lx->push != NULL) { lx_native_dynpop(lx->buf_opaque); } return TOK_PLUS;
 
 		case S8: /* e.g. "*" */
-			lx_native_ungetc(lx, c); lx_native_dynpop(lx->buf_opaque); return TOK_STAR;
+			lx_native_ungetc(lx, c); if (lx->push != NULL) { lx_native_dynpop(lx->buf_opaque); } return TOK_STAR;
 
 		case S9: /* e.g. "\077" */
-			lx_native_ungetc(lx, c); lx_native_dynpop(lx->buf_opaque); return TOK_OPT;
+			lx_native_ungetc(lx, c); if (lx->push != NULL) { lx_native_dynpop(lx->buf_opaque); } return TOK_OPT;
 
 		case S10: /* e.g. "$" */
-			lx_native_ungetc(lx, c); lx_native_dynpop(lx->buf_opaque); return TOK_END;
+			lx_native_ungetc(lx, c); if (lx->push != NULL) { lx_native_dynpop(lx->buf_opaque); } return TOK_END;
 
 		case S11: /* e.g. "^" */
-			lx_native_ungetc(lx, c); lx_native_dynpop(lx->buf_opaque); return TOK_START;
+			lx_native_ungetc(lx, c); if (lx->push != NULL) { lx_native_dynpop(lx->buf_opaque); } return TOK_START;
 
 		case S12: /* e.g. ")" */
-			lx_native_ungetc(lx, c); lx_native_dynpop(lx->buf_opaque); return TOK_CLOSESUB;
+			lx_native_ungetc(lx, c); if (lx->push != NULL) { lx_native_dynpop(lx->buf_opaque); } return TOK_CLOSESUB;
 
 		case S13: /* e.g. "(" */
-			lx_native_ungetc(lx, c); lx_native_dynpop(lx->buf_opaque); return TOK_OPENSUB;
+			lx_native_ungetc(lx, c); if (lx->push != NULL) { lx_native_dynpop(lx->buf_opaque); } return TOK_OPENSUB;
 
 		case S14: /* e.g. "[^" */
 			switch ((unsigned char) c) {
 			case ']': state = S16; break;
-			default:  lx_native_ungetc(lx, c); lx_native_dynpop(lx->buf_opaque); return lx->z = z1, TOK_OPENGROUPINV;
+			default:  lx_native_ungetc(lx, c); if (lx->push != NULL) { lx_native_dynpop(lx->buf_opaque); } return lx->z = z1, TOK_OPENGROUPINV;
 			}
 			break;
 
 		case S15: /* e.g. "[]" */
-			lx_native_ungetc(lx, c); lx_native_dynpop(lx->buf_opaque); return lx->z = z1, TOK_OPENGROUPCB;
+			lx_native_ungetc(lx, c); if (lx->push != NULL) { lx_native_dynpop(lx->buf_opaque); } return lx->z = z1, TOK_OPENGROUPCB;
 
 		case S16: /* e.g. "[^]" */
-			lx_native_ungetc(lx, c); lx_native_dynpop(lx->buf_opaque); return lx->z = z1, TOK_OPENGROUPINVCB;
+			lx_native_ungetc(lx, c); if (lx->push != NULL) { lx_native_dynpop(lx->buf_opaque); } return lx->z = z1, TOK_OPENGROUPINVCB;
 
 		case S17: /* e.g. "\\x" */
 			switch ((unsigned char) c) {
@@ -1040,7 +1038,7 @@ z2(struct lx_native_lx *lx)
 			case 'f': state = S22; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_native_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_native_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -1054,12 +1052,12 @@ z2(struct lx_native_lx *lx)
 			case '5':
 			case '6':
 			case '7': state = S20; break;
-			default:  lx_native_ungetc(lx, c); lx_native_dynpop(lx->buf_opaque); return TOK_OCT;
+			default:  lx_native_ungetc(lx, c); if (lx->push != NULL) { lx_native_dynpop(lx->buf_opaque); } return TOK_OCT;
 			}
 			break;
 
 		case S19: /* e.g. "\\$" */
-			lx_native_ungetc(lx, c); lx_native_dynpop(lx->buf_opaque); return TOK_ESC;
+			lx_native_ungetc(lx, c); if (lx->push != NULL) { lx_native_dynpop(lx->buf_opaque); } return TOK_ESC;
 
 		case S20: /* e.g. "\\00" */
 			switch ((unsigned char) c) {
@@ -1071,12 +1069,12 @@ z2(struct lx_native_lx *lx)
 			case '5':
 			case '6':
 			case '7': state = S21; break;
-			default:  lx_native_ungetc(lx, c); lx_native_dynpop(lx->buf_opaque); return TOK_OCT;
+			default:  lx_native_ungetc(lx, c); if (lx->push != NULL) { lx_native_dynpop(lx->buf_opaque); } return TOK_OCT;
 			}
 			break;
 
 		case S21: /* e.g. "\\000" */
-			lx_native_ungetc(lx, c); lx_native_dynpop(lx->buf_opaque); return TOK_OCT;
+			lx_native_ungetc(lx, c); if (lx->push != NULL) { lx_native_dynpop(lx->buf_opaque); } return TOK_OCT;
 
 		case S22: /* e.g. "\\x0" */
 			switch ((unsigned char) c) {
@@ -1104,12 +1102,12 @@ z2(struct lx_native_lx *lx)
 			case 'f': state = S23; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_native_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_native_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
 		case S23: /* e.g. "\\x00" */
-			lx_native_ungetc(lx, c); lx_native_dynpop(lx->buf_opaque); return TOK_HEX;
+			lx_native_ungetc(lx, c); if (lx->push != NULL) { lx_native_dynpop(lx->buf_opaque); } return TOK_HEX;
 
 		default:
 			; /* unreached */
@@ -1141,7 +1139,7 @@ z2(struct lx_native_lx *lx)
 	case S23: return TOK_HEX;
 	default: 
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_native_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_native_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 	}
 
 		if (lx->push != NULL) {
@@ -1201,91 +1199,45 @@ lx_native_example(enum lx_native_token (*z)(struct lx_native_lx *), enum lx_nati
 
 	if (z == z0) {
 		switch (t) {
-		case TOK_COUNT: return "";
-		case TOK_SEP: return "";
-		case TOK_CLOSECOUNT: return "";
-		case TOK_OPENCOUNT: return "";
-		case TOK_CHAR: return "";
-		case TOK_NAMED__CLASS: return "";
-		case TOK_RANGE: return "";
-		case TOK_CLOSEGROUPRANGE: return "";
-		case TOK_CLOSEGROUP: return "";
-		case TOK_OPENGROUPINVCB: return "";
-		case TOK_OPENGROUPCB: return "";
-		case TOK_OPENGROUPINV: return "";
-		case TOK_OPENGROUP: return "";
-		case TOK_HEX: return "";
-		case TOK_OCT: return "";
-		case TOK_ESC: return "";
-		case TOK_ALT: return "";
-		case TOK_ANY: return "";
-		case TOK_PLUS: return "";
-		case TOK_STAR: return "";
-		case TOK_OPT: return "";
-		case TOK_END: return "";
-		case TOK_START: return "";
-		case TOK_CLOSESUB: return "";
-		case TOK_OPENSUB: return "";
+		case TOK_COUNT: return "0";
+		case TOK_SEP: return ",";
+		case TOK_CLOSECOUNT: return "}";
 		default: goto error;
 		}
 	} else
 	if (z == z1) {
 		switch (t) {
-		case TOK_COUNT: return "";
-		case TOK_SEP: return "";
-		case TOK_CLOSECOUNT: return "";
-		case TOK_OPENCOUNT: return "";
-		case TOK_CHAR: return "";
-		case TOK_NAMED__CLASS: return "";
-		case TOK_RANGE: return "";
-		case TOK_CLOSEGROUPRANGE: return "";
-		case TOK_CLOSEGROUP: return "";
-		case TOK_OPENGROUPINVCB: return "";
-		case TOK_OPENGROUPCB: return "";
-		case TOK_OPENGROUPINV: return "";
-		case TOK_OPENGROUP: return "";
-		case TOK_HEX: return "";
-		case TOK_OCT: return "";
-		case TOK_ESC: return "";
-		case TOK_ALT: return "";
-		case TOK_ANY: return "";
-		case TOK_PLUS: return "";
-		case TOK_STAR: return "";
-		case TOK_OPT: return "";
-		case TOK_END: return "";
-		case TOK_START: return "";
-		case TOK_CLOSESUB: return "";
-		case TOK_OPENSUB: return "";
+		case TOK_CHAR: return "[";
+		case TOK_NAMED__CLASS: return "[:word:]";
+		case TOK_RANGE: return "-";
+		case TOK_CLOSEGROUPRANGE: return "-]";
+		case TOK_CLOSEGROUP: return "]";
+		case TOK_HEX: return "\\x00";
+		case TOK_OCT: return "\\0";
+		case TOK_ESC: return "\\-";
 		default: goto error;
 		}
 	} else
 	if (z == z2) {
 		switch (t) {
-		case TOK_COUNT: return "";
-		case TOK_SEP: return "";
-		case TOK_CLOSECOUNT: return "";
-		case TOK_OPENCOUNT: return "";
-		case TOK_CHAR: return "";
-		case TOK_NAMED__CLASS: return "";
-		case TOK_RANGE: return "";
-		case TOK_CLOSEGROUPRANGE: return "";
-		case TOK_CLOSEGROUP: return "";
-		case TOK_OPENGROUPINVCB: return "";
-		case TOK_OPENGROUPCB: return "";
-		case TOK_OPENGROUPINV: return "";
-		case TOK_OPENGROUP: return "";
-		case TOK_HEX: return "";
-		case TOK_OCT: return "";
-		case TOK_ESC: return "";
-		case TOK_ALT: return "";
-		case TOK_ANY: return "";
-		case TOK_PLUS: return "";
-		case TOK_STAR: return "";
-		case TOK_OPT: return "";
-		case TOK_END: return "";
-		case TOK_START: return "";
-		case TOK_CLOSESUB: return "";
-		case TOK_OPENSUB: return "";
+		case TOK_OPENCOUNT: return "{";
+		case TOK_CHAR: return "\\";
+		case TOK_OPENGROUPINVCB: return "[^]";
+		case TOK_OPENGROUPCB: return "[]";
+		case TOK_OPENGROUPINV: return "[^";
+		case TOK_OPENGROUP: return "[";
+		case TOK_HEX: return "\\x00";
+		case TOK_OCT: return "\\0";
+		case TOK_ESC: return "\\$";
+		case TOK_ALT: return "|";
+		case TOK_ANY: return ".";
+		case TOK_PLUS: return "+";
+		case TOK_STAR: return "*";
+		case TOK_OPT: return "\077";
+		case TOK_END: return "$";
+		case TOK_START: return "^";
+		case TOK_CLOSESUB: return ")";
+		case TOK_OPENSUB: return "(";
 		default: goto error;
 		}
 	}
@@ -1326,9 +1278,12 @@ lx_native_next(struct lx_native_lx *lx)
 		return TOK_EOF;
 	}
 
-	t = lx->z(lx);
+	do {
+		lx->again = 0;
+		t = lx->z(lx);
+	} while (lx->again);
 
-	if (lx->push_failed) {
+	if (lx->push_failed || lx->read_failed) {
 		lx->lgetc = NULL;
 		return TOK_ERROR;
 	}
diff --git a/src/libre/dialect/native/lexer.h b/src/libre/dialect/native/lexer.h
index 4e881dd..4f7e3b1 100644
--- a/src/libre/dialect/native/lexer.h
+++ b/src/libre/dialect/native/lexer.h
@@ -50,6 +50,7 @@ struct lx_native_lx {
 	void *getc_opaque;
 
 	int c; /* lx_native_ungetc buffer */
+	int read_failed; /* .lgetc gave EOF for an error */
 
 	struct lx_pos start;
 	struct lx_pos end;
@@ -61,6 +62,7 @@ struct lx_native_lx {
 	int push_failed; /* nothing could be stored for the last character */
 
 	enum lx_native_token (*z)(struct lx_native_lx *lx);
+	int again; /* .z gave no token, and is to be called again */
 };
 
 /*
diff --git a/src/libre/dialect/pcre/lexer.c b/src/libre/dialect/pcre/lexer.c
index 5b0aafc..92b2f01 100644
--- a/src/libre/dialect/pcre/lexer.c
+++ b/src/libre/dialect/pcre/lexer.c
@@ -155,12 +155,10 @@ lx_pcre_dynclear(void *buf_opaque)
 		len = t->len / LX_DYN_FACTOR;
 
 		tmp = realloc(t->a, len);
-		if (tmp == NULL) {
-			return -1;
+		if (tmp != NULL) {
+			t->a   = tmp;
+			t->len = len;
 		}
-
-		t->a   = tmp;
-		t->len = len;
 	}
 
 	t->p = t->a;
@@ -206,7 +204,7 @@ z0(struct lx_pcre_lx *lx)
 			case '\\': state = S1; break;
 			case '\x00': 
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_pcre_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_pcre_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			default: state = S2; break;
 			}
 			break;
@@ -214,15 +212,15 @@ z0(struct lx_pcre_lx *lx)
 		case S1: /* e.g. "\\" */
 			switch ((unsigned char) c) {
 			case 'E': state = S3; break;
-			default:  lx_pcre_ungetc(lx, c); lx_pcre_dynpop(lx->buf_opaque); return TOK_CHAR;
+			default:  lx_pcre_ungetc(lx, c); if (lx->push != NULL) { lx_pcre_dynpop(lx->buf_opaque); } return TOK_CHAR;
 			}
 			break;
 
 		case S2: /* e.g. "\\x01" */
-			lx_pcre_ungetc(lx, c); lx_pcre_dynpop(lx->buf_opaque); return TOK_CHAR;
+			lx_pcre_ungetc(lx, c); if (lx->push != NULL) { lx_pcre_dynpop(lx->buf_opaque); } return TOK_CHAR;
 
 		case S3: /* e.g. "\\E" */
-			lx_pcre_ungetc(lx, c); lx_pcre_dynpop(lx->buf_opaque); return lx->z = z7, lx->z(lx);
+			lx_pcre_ungetc(lx, c); if (lx->push != NULL) { lx_pcre_dynpop(lx->buf_opaque); } return lx->z = z7, lx->again = 1, TOK_UNKNOWN;
 
 		default:
 			; /* unreached */
@@ -233,10 +231,10 @@ z0(struct lx_pcre_lx *lx)
 	switch (state) {
 	case S1: return TOK_CHAR;
 	case S2: return TOK_CHAR;
-	case S3: return lx->z = z7, lx->z(lx);
+	case S3: return lx->z = z7, lx->again = 1, TOK_UNKNOWN;
 	default: 
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_pcre_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_pcre_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 	}
 
 		switch (state) {
@@ -301,7 +299,7 @@ z1(struct lx_pcre_lx *lx)
 			case '}': state = S3; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_pcre_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_pcre_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -317,15 +315,15 @@ z1(struct lx_pcre_lx *lx)
 			case '7':
 			case '8':
 			case '9': break;
-			default:  lx_pcre_ungetc(lx, c); lx_pcre_dynpop(lx->buf_opaque); return TOK_COUNT;
+			default:  lx_pcre_ungetc(lx, c); if (lx->push != NULL) { lx_pcre_dynpop(lx->buf_opaque); } return TOK_COUNT;
 			}
 			break;
 
 		case S2: /* e.g. "," */
-			lx_pcre_ungetc(lx, c); lx_pcre_dynpop(lx->buf_opaque); return TOK_SEP;
+			lx_pcre_ungetc(lx, c); if (lx->push != NULL) { lx_pcre_dynpop(lx->buf_opaque); } return TOK_SEP;
 
 		case S3: /* e.g. "}" */
-			lx_pcre_ungetc(lx, c); lx_pcre_dynpop(lx->buf_opaque); return lx->z = z7, TOK_CLOSECOUNT;
+			lx_pcre_ungetc(lx, c); if (lx->push != NULL) { lx_pcre_dynpop(lx->buf_opaque); } return lx->z = z7, TOK_CLOSECOUNT;
 
 		default:
 			; /* unreached */
@@ -339,7 +337,7 @@ z1(struct lx_pcre_lx *lx)
 	case S3: return lx->z = z7, TOK_CLOSECOUNT;
 	default: 
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_pcre_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_pcre_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 	}
 
 		if (lx->push != NULL) {
@@ -385,7 +383,7 @@ z2(struct lx_pcre_lx *lx)
 			case '\\': state = S1; break;
 			case '\x00': 
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_pcre_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_pcre_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			default: state = S2; break;
 			}
 			break;
@@ -393,15 +391,15 @@ z2(struct lx_pcre_lx *lx)
 		case S1: /* e.g. "\\" */
 			switch ((unsigned char) c) {
 			case 'E': state = S3; break;
-			default:  lx_pcre_ungetc(lx, c); lx_pcre_dynpop(lx->buf_opaque); return TOK_CHAR;
+			default:  lx_pcre_ungetc(lx, c); if (lx->push != NULL) { lx_pcre_dynpop(lx->buf_opaque); } return TOK_CHAR;
 			}
 			break;
 
 		case S2: /* e.g. "\\x01" */
-			lx_pcre_ungetc(lx, c); lx_pcre_dynpop(lx->buf_opaque); return TOK_CHAR;
+			lx_pcre_ungetc(lx, c); if (lx->push != NULL) { lx_pcre_dynpop(lx->buf_opaque); } return TOK_CHAR;
 
 		case S3: /* e.g. "\\E" */
-			lx_pcre_ungetc(lx, c); lx_pcre_dynpop(lx->buf_opaque); return lx->z = z3, lx->z(lx);
+			lx_pcre_ungetc(lx, c); if (lx->push != NULL) { lx_pcre_dynpop(lx->buf_opaque); } return lx->z = z3, lx->again = 1, TOK_UNKNOWN;
 
 		default:
 			; /* unreached */
@@ -412,10 +410,10 @@ z2(struct lx_pcre_lx *lx)
 	switch (state) {
 	case S1: return TOK_CHAR;
 	case S2: return TOK_CHAR;
-	case S3: return lx->z = z3, lx->z(lx);
+	case S3: return lx->z = z3, lx->again = 1, TOK_UNKNOWN;
 	default: 
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_pcre_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_pcre_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 	}
 
 		switch (state) {
@@ -479,7 +477,7 @@ z3(struct lx_pcre_lx *lx)
 			case ']': state = S5; break;
 			case '\x00': 
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_pcre_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_pcre_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			default: state = S3; break;
 			}
 			break;
@@ -537,25 +535,25 @@ z3(struct lx_pcre_lx *lx)
 		case S2: /* e.g. "[" */
 			switch ((unsigned char) c) {
 			case ':': state = S7; break;
-			default:  lx_pcre_ungetc(lx, c); lx_pcre_dynpop(lx->buf_opaque); return TOK_CHAR;
+			default:  lx_pcre_ungetc(lx, c); if (lx->push != NULL) { lx_pcre_dynpop(lx->buf_opaque); } return TOK_CHAR;
 			}
 			break;
 
 		case S3: /* e.g. "\\x01" */
-			lx_pcre_ungetc(lx, c); lx_pcre_dynpop(lx->buf_opaque); return TOK_CHAR;
+			lx_pcre_ungetc(lx, c); if (lx->push != NULL) { lx_pcre_dynpop(lx->buf_opaque); } return TOK_CHAR;
 
 		case S4: /* e.g. "-" */
 			switch ((unsigned char) c) {
 			case ']': state = S6; break;
-			default:  lx_pcre_ungetc(lx, c); lx_pcre_dynpop(lx->buf_opaque); return TOK_RANGE;
+			default:  lx_pcre_ungetc(lx, c); if (lx->push != NULL) { lx_pcre_dynpop(lx->buf_opaque); } return TOK_RANGE;
 			}
 			break;
 
 		case S5: /* e.g. "]" */
-			lx_pcre_ungetc(lx, c); lx_pcre_dynpop(lx->buf_opaque); return lx->z = z7, TOK_CLOSEGROUP;
+			lx_pcre_ungetc(lx, c); if (lx->push != NULL) { lx_pcre_dynpop(lx->buf_opaque); } return lx->z = z7, TOK_CLOSEGROUP;
 
 		case S6: /* e.g. "-]" */
-			lx_pcre_ungetc(lx, c); lx_pcre_dynpop(lx->buf_opaque); return lx->z = z7, TOK_CLOSEGROUPRANGE;
+			lx_pcre_ungetc(lx, c); if (lx->push != NULL) { lx_pcre_dynpop(lx->buf_opaque); } return lx->z = z7, TOK_CLOSEGROUPRANGE;
 
 		case S7: /* e.g. "[:" */
 			switch ((unsigned char) c) {
@@ -572,7 +570,7 @@ z3(struct lx_pcre_lx *lx)
 			case 'w': state = S18; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_pcre_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_pcre_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -581,7 +579,7 @@ z3(struct lx_pcre_lx *lx)
 			case 'i': state = S53; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_pcre_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_pcre_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -591,7 +589,7 @@ z3(struct lx_pcre_lx *lx)
 			case 'u': state = S49; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_pcre_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_pcre_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -600,7 +598,7 @@ z3(struct lx_pcre_lx *lx)
 			case 'd': state = S8; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_pcre_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_pcre_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -609,7 +607,7 @@ z3(struct lx_pcre_lx *lx)
 			case 'n': state = S45; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_pcre_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_pcre_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -618,7 +616,7 @@ z3(struct lx_pcre_lx *lx)
 			case 'o': state = S44; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_pcre_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_pcre_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -627,7 +625,7 @@ z3(struct lx_pcre_lx *lx)
 			case 'r': state = S41; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_pcre_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_pcre_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -636,7 +634,7 @@ z3(struct lx_pcre_lx *lx)
 			case 'p': state = S38; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_pcre_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_pcre_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -646,7 +644,7 @@ z3(struct lx_pcre_lx *lx)
 			case 'l': state = S31; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_pcre_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_pcre_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -655,7 +653,7 @@ z3(struct lx_pcre_lx *lx)
 			case 'l': state = S27; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_pcre_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_pcre_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -664,7 +662,7 @@ z3(struct lx_pcre_lx *lx)
 			case 'p': state = S24; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_pcre_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_pcre_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -673,7 +671,7 @@ z3(struct lx_pcre_lx *lx)
 			case 'o': state = S19; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_pcre_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_pcre_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -682,7 +680,7 @@ z3(struct lx_pcre_lx *lx)
 			case 'r': state = S20; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_pcre_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_pcre_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -691,7 +689,7 @@ z3(struct lx_pcre_lx *lx)
 			case 'd': state = S21; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_pcre_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_pcre_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -700,7 +698,7 @@ z3(struct lx_pcre_lx *lx)
 			case ':': state = S22; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_pcre_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_pcre_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -709,19 +707,19 @@ z3(struct lx_pcre_lx *lx)
 			case ']': state = S23; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_pcre_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_pcre_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
 		case S23: /* e.g. "\\D" */
-			lx_pcre_ungetc(lx, c); lx_pcre_dynpop(lx->buf_opaque); return TOK_NAMED__CLASS;
+			lx_pcre_ungetc(lx, c); if (lx->push != NULL) { lx_pcre_dynpop(lx->buf_opaque); } return TOK_NAMED__CLASS;
 
 		case S24: /* e.g. "[:up" */
 			switch ((unsigned char) c) {
 			case 'p': state = S25; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_pcre_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_pcre_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -730,7 +728,7 @@ z3(struct lx_pcre_lx *lx)
 			case 'e': state = S26; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_pcre_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_pcre_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -739,7 +737,7 @@ z3(struct lx_pcre_lx *lx)
 			case 'r': state = S21; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_pcre_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_pcre_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -748,7 +746,7 @@ z3(struct lx_pcre_lx *lx)
 			case 'a': state = S28; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_pcre_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_pcre_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -757,7 +755,7 @@ z3(struct lx_pcre_lx *lx)
 			case 'n': state = S29; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_pcre_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_pcre_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -766,7 +764,7 @@ z3(struct lx_pcre_lx *lx)
 			case 'k': state = S21; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_pcre_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_pcre_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -775,7 +773,7 @@ z3(struct lx_pcre_lx *lx)
 			case 'c': state = S36; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_pcre_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_pcre_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -785,7 +783,7 @@ z3(struct lx_pcre_lx *lx)
 			case 'n': state = S33; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_pcre_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_pcre_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -794,7 +792,7 @@ z3(struct lx_pcre_lx *lx)
 			case 'h': state = S35; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_pcre_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_pcre_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -803,7 +801,7 @@ z3(struct lx_pcre_lx *lx)
 			case 'u': state = S34; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_pcre_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_pcre_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -812,7 +810,7 @@ z3(struct lx_pcre_lx *lx)
 			case 'm': state = S21; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_pcre_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_pcre_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -821,7 +819,7 @@ z3(struct lx_pcre_lx *lx)
 			case 'a': state = S21; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_pcre_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_pcre_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -830,7 +828,7 @@ z3(struct lx_pcre_lx *lx)
 			case 'i': state = S37; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_pcre_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_pcre_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -839,7 +837,7 @@ z3(struct lx_pcre_lx *lx)
 			case 'i': state = S21; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_pcre_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_pcre_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -848,7 +846,7 @@ z3(struct lx_pcre_lx *lx)
 			case 'a': state = S39; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_pcre_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_pcre_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -857,7 +855,7 @@ z3(struct lx_pcre_lx *lx)
 			case 'c': state = S40; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_pcre_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_pcre_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -866,7 +864,7 @@ z3(struct lx_pcre_lx *lx)
 			case 'e': state = S21; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_pcre_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_pcre_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -875,7 +873,7 @@ z3(struct lx_pcre_lx *lx)
 			case 'a': state = S42; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_pcre_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_pcre_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -884,7 +882,7 @@ z3(struct lx_pcre_lx *lx)
 			case 'p': state = S43; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_pcre_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_pcre_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -893,7 +891,7 @@ z3(struct lx_pcre_lx *lx)
 			case 'h': state = S21; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_pcre_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_pcre_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -902,7 +900,7 @@ z3(struct lx_pcre_lx *lx)
 			case 'w': state = S25; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_pcre_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_pcre_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -911,7 +909,7 @@ z3(struct lx_pcre_lx *lx)
 			case 't': state = S46; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_pcre_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_pcre_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -920,7 +918,7 @@ z3(struct lx_pcre_lx *lx)
 			case 'r': state = S47; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_pcre_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_pcre_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -929,7 +927,7 @@ z3(struct lx_pcre_lx *lx)
 			case 'l': state = S21; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_pcre_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_pcre_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -938,7 +936,7 @@ z3(struct lx_pcre_lx *lx)
 			case 'i': state = S52; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_pcre_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_pcre_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -947,7 +945,7 @@ z3(struct lx_pcre_lx *lx)
 			case 'n': state = S50; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_pcre_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_pcre_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -956,7 +954,7 @@ z3(struct lx_pcre_lx *lx)
 			case 'c': state = S51; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_pcre_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_pcre_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -965,7 +963,7 @@ z3(struct lx_pcre_lx *lx)
 			case 't': state = S21; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_pcre_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_pcre_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -974,7 +972,7 @@ z3(struct lx_pcre_lx *lx)
 			case 'n': state = S51; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_pcre_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_pcre_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -983,7 +981,7 @@ z3(struct lx_pcre_lx *lx)
 			case 'g': state = S54; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_pcre_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_pcre_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -992,7 +990,7 @@ z3(struct lx_pcre_lx *lx)
 			case 'i': state = S51; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_pcre_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_pcre_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -1000,7 +998,7 @@ z3(struct lx_pcre_lx *lx)
 			state = S72; break;
 
 		case S56: /* e.g. "\\$" */
-			lx_pcre_ungetc(lx, c); lx_pcre_dynpop(lx->buf_opaque); return TOK_ESC;
+			lx_pcre_ungetc(lx, c); if (lx->push != NULL) { lx_pcre_dynpop(lx->buf_opaque); } return TOK_ESC;
 
 		case S57: /* e.g. "\\1" */
 			switch ((unsigned char) c) {
@@ -1014,25 +1012,25 @@ z3(struct lx_pcre_lx *lx)
 			case '7':
 			case '8':
 			case '9': break;
-			default:  lx_pcre_ungetc(lx, c); lx_pcre_dynpop(lx->buf_opaque); return TOK_UNSUPPORTED;
+			default:  lx_pcre_ungetc(lx, c); if (lx->push != NULL) { lx_pcre_dynpop(lx->buf_opaque); } return TOK_UNSUPPORTED;
 			}
 			break;
 
 		case S58: /* e.g. "\\Q" */
-			lx_pcre_ungetc(lx, c); lx_pcre_dynpop(lx->buf_opaque); return lx->z = z2, lx->z(lx);
+			lx_pcre_ungetc(lx, c); if (lx->push != NULL) { lx_pcre_dynpop(lx->buf_opaque); } return lx->z = z2, lx->again = 1, TOK_UNKNOWN;
 
 		case S59: /* e.g. "\\E" */
-			lx_pcre_ungetc(lx, c); lx_pcre_dynpop(lx->buf_opaque); return lx->z(lx);
+			lx_pcre_ungetc(lx, c); if (lx->push != NULL) { lx_pcre_dynpop(lx->buf_opaque); } return lx->again = 1, TOK_UNKNOWN;
 
 		case S60: /* e.g. "\\o" */
 			switch ((unsigned char) c) {
 			case '{': state = S70; break;
-			default:  lx_pcre_ungetc(lx, c); lx_pcre_dynpop(lx->buf_opaque); return TOK_NOESC;
+			default:  lx_pcre_ungetc(lx, c); if (lx->push != NULL) { lx_pcre_dynpop(lx->buf_opaque); } return TOK_NOESC;
 			}
 			break;
 
 		case S61: /* e.g. "\\\\x00" */
-			lx_pcre_ungetc(lx, c); lx_pcre_dynpop(lx->buf_opaque); return TOK_NOESC;
+			lx_pcre_ungetc(lx, c); if (lx->push != NULL) { lx_pcre_dynpop(lx->buf_opaque); } return TOK_NOESC;
 
 		case S62: /* e.g. "\\x" */
 			switch ((unsigned char) c) {
@@ -1059,7 +1057,7 @@ z3(struct lx_pcre_lx *lx)
 			case 'd':
 			case 'e':
 			case 'f': state = S67; break;
-			default:  lx_pcre_ungetc(lx, c); lx_pcre_dynpop(lx->buf_opaque); return TOK_HEX;
+			default:  lx_pcre_ungetc(lx, c); if (lx->push != NULL) { lx_pcre_dynpop(lx->buf_opaque); } return TOK_HEX;
 			}
 			break;
 
@@ -1073,7 +1071,7 @@ z3(struct lx_pcre_lx *lx)
 			case '5':
 			case '6':
 			case '7': state = S64; break;
-			default:  lx_pcre_ungetc(lx, c); lx_pcre_dynpop(lx->buf_opaque); return TOK_OCT;
+			default:  lx_pcre_ungetc(lx, c); if (lx->push != NULL) { lx_pcre_dynpop(lx->buf_opaque); } return TOK_OCT;
 			}
 			break;
 
@@ -1087,12 +1085,12 @@ z3(struct lx_pcre_lx *lx)
 			case '5':
 			case '6':
 			case '7': state = S65; break;
-			default:  lx_pcre_ungetc(lx, c); lx_pcre_dynpop(lx->buf_opaque); return TOK_OCT;
+			default:  lx_pcre_ungetc(lx, c); if (lx->push != NULL) { lx_pcre_dynpop(lx->buf_opaque); } return TOK_OCT;
 			}
 			break;
 
 		case S65: /* e.g. "\\000" */
-			lx_pcre_ungetc(lx, c); lx_pcre_dynpop(lx->buf_opaque); return TOK_OCT;
+			lx_pcre_ungetc(lx, c); if (lx->push != NULL) { lx_pcre_dynpop(lx->buf_opaque); } return TOK_OCT;
 
 		case S66: /* e.g. "\\x{" */
 			switch ((unsigned char) c) {
@@ -1120,7 +1118,7 @@ z3(struct lx_pcre_lx *lx)
 			case 'f': state = S69; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_pcre_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_pcre_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -1148,12 +1146,12 @@ z3(struct lx_pcre_lx *lx)
 			case 'd':
 			case 'e':
 			case 'f': state = S68; break;
-			default:  lx_pcre_ungetc(lx, c); lx_pcre_dynpop(lx->buf_opaque); return TOK_HEX;
+			default:  lx_pcre_ungetc(lx, c); if (lx->push != NULL) { lx_pcre_dynpop(lx->buf_opaque); } return TOK_HEX;
 			}
 			break;
 
 		case S68: /* e.g. "\\x00" */
-			lx_pcre_ungetc(lx, c); lx_pcre_dynpop(lx->buf_opaque); return TOK_HEX;
+			lx_pcre_ungetc(lx, c); if (lx->push != NULL) { lx_pcre_dynpop(lx->buf_opaque); } return TOK_HEX;
 
 		case S69: /* e.g. "\\x{0" */
 			switch ((unsigned char) c) {
@@ -1182,7 +1180,7 @@ z3(struct lx_pcre_lx *lx)
 			case 'f': break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_pcre_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_pcre_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -1198,7 +1196,7 @@ z3(struct lx_pcre_lx *lx)
 			case '7': state = S71; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_pcre_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_pcre_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -1215,12 +1213,12 @@ z3(struct lx_pcre_lx *lx)
 			case '7': break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_pcre_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_pcre_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
 		case S72: /* e.g. "\\c\\x00" */
-			lx_pcre_ungetc(lx, c); lx_pcre_dynpop(lx->buf_opaque); return TOK_CONTROL;
+			lx_pcre_ungetc(lx, c); if (lx->push != NULL) { lx_pcre_dynpop(lx->buf_opaque); } return TOK_CONTROL;
 
 		default:
 			; /* unreached */
@@ -1239,7 +1237,7 @@ z3(struct lx_pcre_lx *lx)
 	case S55: return TOK_NOESC;
 	case S56: return TOK_ESC;
 	case S57: return TOK_UNSUPPORTED;
-	case S58: return lx->z = z2, lx->z(lx);
+	case S58: return lx->z = z2, lx->again = 1, TOK_UNKNOWN;
 	case S59: return TOK_EOF;
 	case S60: return TOK_NOESC;
 	case S61: return TOK_NOESC;
@@ -1252,7 +1250,7 @@ z3(struct lx_pcre_lx *lx)
 	case S72: return TOK_CONTROL;
 	default: 
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_pcre_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_pcre_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 	}
 
 		switch (state) {
@@ -1348,12 +1346,12 @@ z4(struct lx_pcre_lx *lx)
 			case ':': state = S10; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_pcre_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_pcre_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
 		case S1: /* e.g. "+" */
-			lx_pcre_ungetc(lx, c); lx_pcre_dynpop(lx->buf_opaque); return TOK_UNSUPPORTED;
+			lx_pcre_ungetc(lx, c); if (lx->push != NULL) { lx_pcre_dynpop(lx->buf_opaque); } return TOK_UNSUPPORTED;
 
 		case S2: /* e.g. "0" */
 			switch ((unsigned char) c) {
@@ -1367,37 +1365,37 @@ z4(struct lx_pcre_lx *lx)
 			case '7':
 			case '8':
 			case '9': break;
-			default:  lx_pcre_ungetc(lx, c); lx_pcre_dynpop(lx->buf_opaque); return TOK_UNSUPPORTED;
+			default:  lx_pcre_ungetc(lx, c); if (lx->push != NULL) { lx_pcre_dynpop(lx->buf_opaque); } return TOK_UNSUPPORTED;
 			}
 			break;
 
 		case S3: /* e.g. "n" */
-			lx_pcre_ungetc(lx, c); lx_pcre_dynpop(lx->buf_opaque); return TOK_FLAG__IGNORE;
+			lx_pcre_ungetc(lx, c); if (lx->push != NULL) { lx_pcre_dynpop(lx->buf_opaque); } return TOK_FLAG__IGNORE;
 
 		case S4: /* e.g. "x" */
 			switch ((unsigned char) c) {
 			case 'x': state = S7; break;
-			default:  lx_pcre_ungetc(lx, c); lx_pcre_dynpop(lx->buf_opaque); return TOK_FLAG__EXTENDED;
+			default:  lx_pcre_ungetc(lx, c); if (lx->push != NULL) { lx_pcre_dynpop(lx->buf_opaque); } return TOK_FLAG__EXTENDED;
 			}
 			break;
 
 		case S5: /* e.g. "s" */
-			lx_pcre_ungetc(lx, c); lx_pcre_dynpop(lx->buf_opaque); return TOK_FLAG__SINGLE;
+			lx_pcre_ungetc(lx, c); if (lx->push != NULL) { lx_pcre_dynpop(lx->buf_opaque); } return TOK_FLAG__SINGLE;
 
 		case S6: /* e.g. "i" */
-			lx_pcre_ungetc(lx, c); lx_pcre_dynpop(lx->buf_opaque); return TOK_FLAG__INSENSITIVE;
+			lx_pcre_ungetc(lx, c); if (lx->push != NULL) { lx_pcre_dynpop(lx->buf_opaque); } return TOK_FLAG__INSENSITIVE;
 
 		case S7: /* e.g. "a" */
-			lx_pcre_ungetc(lx, c); lx_pcre_dynpop(lx->buf_opaque); return TOK_FLAG__UNKNOWN;
+			lx_pcre_ungetc(lx, c); if (lx->push != NULL) { lx_pcre_dynpop(lx->buf_opaque); } return TOK_FLAG__UNKNOWN;
 
 		case S8: /* e.g. "-" */
-			lx_pcre_ungetc(lx, c); lx_pcre_dynpop(lx->buf_opaque); return TOK_NEGATE;
+			lx_pcre_ungetc(lx, c); if (lx->push != NULL) { lx_pcre_dynpop(lx->buf_opaque); } return TOK_NEGATE;
 
 		case S9: /* e.g. ")" */
-			lx_pcre_ungetc(lx, c); lx_pcre_dynpop(lx->buf_opaque); return lx->z = z7, TOK_CLOSE;
+			lx_pcre_ungetc(lx, c); if (lx->push != NULL) { lx_pcre_dynpop(lx->buf_opaque); } return lx->z = z7, TOK_CLOSE;
 
 		case S10: /* e.g. ":" */
-			lx_pcre_ungetc(lx, c); lx_pcre_dynpop(lx->buf_opaque); return lx->z = z7, TOK_SUB;
+			lx_pcre_ungetc(lx, c); if (lx->push != NULL) { lx_pcre_dynpop(lx->buf_opaque); } return lx->z = z7, TOK_SUB;
 
 		default:
 			; /* unreached */
@@ -1418,7 +1416,7 @@ z4(struct lx_pcre_lx *lx)
 	case S10: return lx->z = z7, TOK_SUB;
 	default: 
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_pcre_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_pcre_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 	}
 
 		if (lx->push != NULL) {
@@ -1470,16 +1468,16 @@ z5(struct lx_pcre_lx *lx)
 		case S1: /* e.g. "\\x00" */
 			switch ((unsigned char) c) {
 			case '(':
-			case ')': lx_pcre_ungetc(lx, c); lx_pcre_dynpop(lx->buf_opaque); return lx->z(lx);
+			case ')': lx_pcre_ungetc(lx, c); if (lx->push != NULL) { lx_pcre_dynpop(lx->buf_opaque); } return lx->again = 1, TOK_UNKNOWN;
 			default: break;
 			}
 			break;
 
 		case S2: /* e.g. "(" */
-			lx_pcre_ungetc(lx, c); lx_pcre_dynpop(lx->buf_opaque); return TOK_INVALID__COMMENT;
+			lx_pcre_ungetc(lx, c); if (lx->push != NULL) { lx_pcre_dynpop(lx->buf_opaque); } return TOK_INVALID__COMMENT;
 
 		case S3: /* e.g. ")" */
-			lx_pcre_ungetc(lx, c); lx_pcre_dynpop(lx->buf_opaque); return lx->z = z7, lx->z(lx);
+			lx_pcre_ungetc(lx, c); if (lx->push != NULL) { lx_pcre_dynpop(lx->buf_opaque); } return lx->z = z7, lx->again = 1, TOK_UNKNOWN;
 
 		default:
 			; /* unreached */
@@ -1488,12 +1486,12 @@ z5(struct lx_pcre_lx *lx)
 
 	/* end states */
 	switch (state) {
-	case S1: return TOK_UNKNOWN;
+	case S1: return TOK_EOF;
 	case S2: return TOK_INVALID__COMMENT;
-	case S3: return lx->z = z7, lx->z(lx);
+	case S3: return lx->z = z7, lx->again = 1, TOK_UNKNOWN;
 	default: 
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_pcre_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_pcre_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 	}
 
 		switch (state) {
@@ -1568,7 +1566,7 @@ z6(struct lx_pcre_lx *lx)
 			case ')': state = S14; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_pcre_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_pcre_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -1576,7 +1574,7 @@ z6(struct lx_pcre_lx *lx)
 			switch ((unsigned char) c) {
 			case ')': 
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_pcre_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_pcre_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			default: state = S78; break;
 			}
 			break;
@@ -1586,7 +1584,7 @@ z6(struct lx_pcre_lx *lx)
 			case 'F': state = S37; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_pcre_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_pcre_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -1596,7 +1594,7 @@ z6(struct lx_pcre_lx *lx)
 			case 'o': state = S76; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_pcre_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_pcre_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -1605,7 +1603,7 @@ z6(struct lx_pcre_lx *lx)
 			case 'A': state = S74; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_pcre_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_pcre_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -1614,7 +1612,7 @@ z6(struct lx_pcre_lx *lx)
 			case 'H': state = S72; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_pcre_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_pcre_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -1623,7 +1621,7 @@ z6(struct lx_pcre_lx *lx)
 			case 'K': state = S70; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_pcre_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_pcre_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -1632,7 +1630,7 @@ z6(struct lx_pcre_lx *lx)
 			case 'R': state = S67; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_pcre_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_pcre_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -1642,7 +1640,7 @@ z6(struct lx_pcre_lx *lx)
 			case 'N': state = S61; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_pcre_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_pcre_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -1651,7 +1649,7 @@ z6(struct lx_pcre_lx *lx)
 			case 't': state = S56; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_pcre_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_pcre_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -1660,7 +1658,7 @@ z6(struct lx_pcre_lx *lx)
 			case 'O': state = S46; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_pcre_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_pcre_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -1670,7 +1668,7 @@ z6(struct lx_pcre_lx *lx)
 			case 'O': state = S42; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_pcre_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_pcre_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -1680,7 +1678,7 @@ z6(struct lx_pcre_lx *lx)
 			case 'e': state = S19; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_pcre_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_pcre_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -1688,19 +1686,19 @@ z6(struct lx_pcre_lx *lx)
 			switch ((unsigned char) c) {
 			case ':': state = S1; break;
 			case 'A': state = S15; break;
-			default:  lx_pcre_ungetc(lx, c); lx_pcre_dynpop(lx->buf_opaque); return TOK_UNSUPPORTED;
+			default:  lx_pcre_ungetc(lx, c); if (lx->push != NULL) { lx_pcre_dynpop(lx->buf_opaque); } return TOK_UNSUPPORTED;
 			}
 			break;
 
 		case S14: /* e.g. ")" */
-			lx_pcre_ungetc(lx, c); lx_pcre_dynpop(lx->buf_opaque); return lx->z = z7, lx->z(lx);
+			lx_pcre_ungetc(lx, c); if (lx->push != NULL) { lx_pcre_dynpop(lx->buf_opaque); } return lx->z = z7, lx->again = 1, TOK_UNKNOWN;
 
 		case S15: /* e.g. "FA" */
 			switch ((unsigned char) c) {
 			case 'I': state = S16; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_pcre_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_pcre_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -1709,14 +1707,14 @@ z6(struct lx_pcre_lx *lx)
 			case 'L': state = S17; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_pcre_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_pcre_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
 		case S17: /* e.g. "FAIL" */
 			switch ((unsigned char) c) {
 			case ':': state = S1; break;
-			default:  lx_pcre_ungetc(lx, c); lx_pcre_dynpop(lx->buf_opaque); return TOK_UNSUPPORTED;
+			default:  lx_pcre_ungetc(lx, c); if (lx->push != NULL) { lx_pcre_dynpop(lx->buf_opaque); } return TOK_UNSUPPORTED;
 			}
 			break;
 
@@ -1726,7 +1724,7 @@ z6(struct lx_pcre_lx *lx)
 			case 'b': state = S36; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_pcre_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_pcre_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -1735,7 +1733,7 @@ z6(struct lx_pcre_lx *lx)
 			case 'g': state = S20; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_pcre_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_pcre_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -1744,7 +1742,7 @@ z6(struct lx_pcre_lx *lx)
 			case 'a': state = S21; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_pcre_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_pcre_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -1753,7 +1751,7 @@ z6(struct lx_pcre_lx *lx)
 			case 't': state = S22; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_pcre_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_pcre_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -1762,7 +1760,7 @@ z6(struct lx_pcre_lx *lx)
 			case 'i': state = S23; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_pcre_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_pcre_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -1771,7 +1769,7 @@ z6(struct lx_pcre_lx *lx)
 			case 'v': state = S24; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_pcre_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_pcre_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -1780,7 +1778,7 @@ z6(struct lx_pcre_lx *lx)
 			case 'e': state = S25; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_pcre_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_pcre_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -1789,7 +1787,7 @@ z6(struct lx_pcre_lx *lx)
 			case '_': state = S26; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_pcre_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_pcre_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -1798,7 +1796,7 @@ z6(struct lx_pcre_lx *lx)
 			case 'l': state = S27; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_pcre_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_pcre_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -1807,7 +1805,7 @@ z6(struct lx_pcre_lx *lx)
 			case 'o': state = S28; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_pcre_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_pcre_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -1816,7 +1814,7 @@ z6(struct lx_pcre_lx *lx)
 			case 'o': state = S29; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_pcre_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_pcre_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -1825,7 +1823,7 @@ z6(struct lx_pcre_lx *lx)
 			case 'k': state = S30; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_pcre_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_pcre_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -1835,7 +1833,7 @@ z6(struct lx_pcre_lx *lx)
 			case 'a': state = S32; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_pcre_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_pcre_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -1844,7 +1842,7 @@ z6(struct lx_pcre_lx *lx)
 			case 'e': state = S38; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_pcre_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_pcre_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -1853,7 +1851,7 @@ z6(struct lx_pcre_lx *lx)
 			case 'h': state = S33; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_pcre_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_pcre_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -1862,7 +1860,7 @@ z6(struct lx_pcre_lx *lx)
 			case 'e': state = S34; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_pcre_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_pcre_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -1871,7 +1869,7 @@ z6(struct lx_pcre_lx *lx)
 			case 'a': state = S35; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_pcre_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_pcre_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -1880,7 +1878,7 @@ z6(struct lx_pcre_lx *lx)
 			case 'd': state = S36; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_pcre_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_pcre_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -1889,19 +1887,19 @@ z6(struct lx_pcre_lx *lx)
 			case ':': state = S37; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_pcre_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_pcre_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
 		case S37: /* e.g. "LF" */
-			lx_pcre_ungetc(lx, c); lx_pcre_dynpop(lx->buf_opaque); return TOK_UNSUPPORTED;
+			lx_pcre_ungetc(lx, c); if (lx->push != NULL) { lx_pcre_dynpop(lx->buf_opaque); } return TOK_UNSUPPORTED;
 
 		case S38: /* e.g. "negative_lookbe" */
 			switch ((unsigned char) c) {
 			case 'h': state = S39; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_pcre_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_pcre_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -1910,7 +1908,7 @@ z6(struct lx_pcre_lx *lx)
 			case 'i': state = S40; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_pcre_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_pcre_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -1919,14 +1917,14 @@ z6(struct lx_pcre_lx *lx)
 			case 'n': state = S35; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_pcre_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_pcre_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
 		case S41: /* e.g. "CR" */
 			switch ((unsigned char) c) {
 			case 'L': state = S2; break;
-			default:  lx_pcre_ungetc(lx, c); lx_pcre_dynpop(lx->buf_opaque); return TOK_UNSUPPORTED;
+			default:  lx_pcre_ungetc(lx, c); if (lx->push != NULL) { lx_pcre_dynpop(lx->buf_opaque); } return TOK_UNSUPPORTED;
 			}
 			break;
 
@@ -1935,7 +1933,7 @@ z6(struct lx_pcre_lx *lx)
 			case 'M': state = S43; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_pcre_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_pcre_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -1944,7 +1942,7 @@ z6(struct lx_pcre_lx *lx)
 			case 'M': state = S44; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_pcre_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_pcre_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -1953,7 +1951,7 @@ z6(struct lx_pcre_lx *lx)
 			case 'I': state = S45; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_pcre_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_pcre_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -1962,7 +1960,7 @@ z6(struct lx_pcre_lx *lx)
 			case 'T': state = S17; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_pcre_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_pcre_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -1971,7 +1969,7 @@ z6(struct lx_pcre_lx *lx)
 			case '_': state = S47; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_pcre_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_pcre_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -1980,7 +1978,7 @@ z6(struct lx_pcre_lx *lx)
 			case 'S': state = S48; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_pcre_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_pcre_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -1989,7 +1987,7 @@ z6(struct lx_pcre_lx *lx)
 			case 'T': state = S49; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_pcre_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_pcre_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -1998,7 +1996,7 @@ z6(struct lx_pcre_lx *lx)
 			case 'A': state = S50; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_pcre_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_pcre_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -2007,7 +2005,7 @@ z6(struct lx_pcre_lx *lx)
 			case 'R': state = S51; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_pcre_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_pcre_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -2016,7 +2014,7 @@ z6(struct lx_pcre_lx *lx)
 			case 'T': state = S52; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_pcre_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_pcre_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -2025,7 +2023,7 @@ z6(struct lx_pcre_lx *lx)
 			case '_': state = S53; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_pcre_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_pcre_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -2034,7 +2032,7 @@ z6(struct lx_pcre_lx *lx)
 			case 'O': state = S54; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_pcre_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_pcre_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -2043,7 +2041,7 @@ z6(struct lx_pcre_lx *lx)
 			case 'P': state = S55; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_pcre_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_pcre_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -2052,7 +2050,7 @@ z6(struct lx_pcre_lx *lx)
 			case 'T': state = S37; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_pcre_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_pcre_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -2061,7 +2059,7 @@ z6(struct lx_pcre_lx *lx)
 			case 'o': state = S57; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_pcre_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_pcre_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -2070,7 +2068,7 @@ z6(struct lx_pcre_lx *lx)
 			case 'm': state = S58; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_pcre_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_pcre_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -2079,7 +2077,7 @@ z6(struct lx_pcre_lx *lx)
 			case 'i': state = S59; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_pcre_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_pcre_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -2088,7 +2086,7 @@ z6(struct lx_pcre_lx *lx)
 			case 'c': state = S36; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_pcre_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_pcre_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -2097,7 +2095,7 @@ z6(struct lx_pcre_lx *lx)
 			case 'C': state = S65; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_pcre_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_pcre_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -2106,14 +2104,14 @@ z6(struct lx_pcre_lx *lx)
 			case 'Y': state = S62; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_pcre_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_pcre_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
 		case S62: /* e.g. "ANY" */
 			switch ((unsigned char) c) {
 			case 'C': state = S63; break;
-			default:  lx_pcre_ungetc(lx, c); lx_pcre_dynpop(lx->buf_opaque); return TOK_UNSUPPORTED;
+			default:  lx_pcre_ungetc(lx, c); if (lx->push != NULL) { lx_pcre_dynpop(lx->buf_opaque); } return TOK_UNSUPPORTED;
 			}
 			break;
 
@@ -2122,7 +2120,7 @@ z6(struct lx_pcre_lx *lx)
 			case 'R': state = S64; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_pcre_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_pcre_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -2131,7 +2129,7 @@ z6(struct lx_pcre_lx *lx)
 			case 'L': state = S2; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_pcre_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_pcre_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -2140,7 +2138,7 @@ z6(struct lx_pcre_lx *lx)
 			case 'E': state = S66; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_pcre_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_pcre_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -2149,7 +2147,7 @@ z6(struct lx_pcre_lx *lx)
 			case 'P': state = S45; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_pcre_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_pcre_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -2158,7 +2156,7 @@ z6(struct lx_pcre_lx *lx)
 			case 'U': state = S68; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_pcre_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_pcre_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -2167,7 +2165,7 @@ z6(struct lx_pcre_lx *lx)
 			case 'N': state = S69; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_pcre_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_pcre_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -2176,7 +2174,7 @@ z6(struct lx_pcre_lx *lx)
 			case 'E': state = S17; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_pcre_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_pcre_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -2185,7 +2183,7 @@ z6(struct lx_pcre_lx *lx)
 			case 'I': state = S71; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_pcre_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_pcre_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -2194,7 +2192,7 @@ z6(struct lx_pcre_lx *lx)
 			case 'P': state = S17; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_pcre_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_pcre_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -2203,7 +2201,7 @@ z6(struct lx_pcre_lx *lx)
 			case 'E': state = S73; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_pcre_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_pcre_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -2212,7 +2210,7 @@ z6(struct lx_pcre_lx *lx)
 			case 'N': state = S17; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_pcre_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_pcre_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -2221,7 +2219,7 @@ z6(struct lx_pcre_lx *lx)
 			case 'R': state = S75; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_pcre_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_pcre_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -2230,7 +2228,7 @@ z6(struct lx_pcre_lx *lx)
 			case 'K': state = S17; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_pcre_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_pcre_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -2239,7 +2237,7 @@ z6(struct lx_pcre_lx *lx)
 			case 's': state = S77; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_pcre_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_pcre_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -2248,13 +2246,13 @@ z6(struct lx_pcre_lx *lx)
 			case 'i': state = S21; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_pcre_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_pcre_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
 		case S78: /* e.g. ":\\x00" */
 			switch ((unsigned char) c) {
-			case ')': lx_pcre_ungetc(lx, c); lx_pcre_dynpop(lx->buf_opaque); return TOK_UNSUPPORTED;
+			case ')': lx_pcre_ungetc(lx, c); if (lx->push != NULL) { lx_pcre_dynpop(lx->buf_opaque); } return TOK_UNSUPPORTED;
 			default: break;
 			}
 			break;
@@ -2267,7 +2265,7 @@ z6(struct lx_pcre_lx *lx)
 	/* end states */
 	switch (state) {
 	case S13: return TOK_UNSUPPORTED;
-	case S14: return lx->z = z7, lx->z(lx);
+	case S14: return lx->z = z7, lx->again = 1, TOK_UNKNOWN;
 	case S17: return TOK_UNSUPPORTED;
 	case S37: return TOK_UNSUPPORTED;
 	case S41: return TOK_UNSUPPORTED;
@@ -2275,7 +2273,7 @@ z6(struct lx_pcre_lx *lx)
 	case S78: return TOK_UNSUPPORTED;
 	default: 
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_pcre_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_pcre_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 	}
 
 		switch (state) {
@@ -2351,13 +2349,13 @@ z7(struct lx_pcre_lx *lx)
 			case ')': state = S16; break;
 			case '\x00': 
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_pcre_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_pcre_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			default: state = S1; break;
 			}
 			break;
 
 		case S1: /* e.g. "\\x01" */
-			lx_pcre_ungetc(lx, c); lx_pcre_dynpop(lx->buf_opaque); return TOK_CHAR;
+			lx_pcre_ungetc(lx, c); if (lx->push != NULL) { lx_pcre_dynpop(lx->buf_opaque); } return TOK_CHAR;
 
 		case S2: /* e.g. "\\" */
 			switch ((unsigned char) c) {
@@ -2422,22 +2420,22 @@ z7(struct lx_pcre_lx *lx)
 			break;
 
 		case S3: /* e.g. "\\x0a" */
-			lx_pcre_ungetc(lx, c); lx_pcre_dynpop(lx->buf_opaque); return TOK_NEWLINE;
+			lx_pcre_ungetc(lx, c); if (lx->push != NULL) { lx_pcre_dynpop(lx->buf_opaque); } return TOK_NEWLINE;
 
 		case S4: /* e.g. "\\x09" */
-			lx_pcre_ungetc(lx, c); lx_pcre_dynpop(lx->buf_opaque); return TOK_WHITESPACE;
+			lx_pcre_ungetc(lx, c); if (lx->push != NULL) { lx_pcre_dynpop(lx->buf_opaque); } return TOK_WHITESPACE;
 
 		case S5: /* e.g. "#" */
-			lx_pcre_ungetc(lx, c); lx_pcre_dynpop(lx->buf_opaque); return TOK_MAYBE_COMMENT;
+			lx_pcre_ungetc(lx, c); if (lx->push != NULL) { lx_pcre_dynpop(lx->buf_opaque); } return TOK_MAYBE_COMMENT;
 
 		case S6: /* e.g. "{" */
-			lx_pcre_ungetc(lx, c); lx_pcre_dynpop(lx->buf_opaque); return lx->z = z1, TOK_OPENCOUNT;
+			lx_pcre_ungetc(lx, c); if (lx->push != NULL) { lx_pcre_dynpop(lx->buf_opaque); } return lx->z = z1, TOK_OPENCOUNT;
 
 		case S7: /* e.g. "[" */
 			switch ((unsigned char) c) {
 			case '^': state = S25; break;
 			case ']': state = S26; break;
-			default:  lx_pcre_ungetc(lx, c); lx_pcre_dynpop(lx->buf_opaque); return lx->z = z3, TOK_OPENGROUP;
+			default:  lx_pcre_ungetc(lx, c); if (lx->push != NULL) { lx_pcre_dynpop(lx->buf_opaque); } return lx->z = z3, TOK_OPENGROUP;
 			}
 			break;
 
@@ -2445,33 +2443,33 @@ z7(struct lx_pcre_lx *lx)
 			switch ((unsigned char) c) {
 			case '?': state = S17; break;
 			case '*': state = S18; break;
-			default:  lx_pcre_ungetc(lx, c); lx_pcre_dynpop(lx->buf_opaque); return TOK_OPEN;
+			default:  lx_pcre_ungetc(lx, c); if (lx->push != NULL) { lx_pcre_dynpop(lx->buf_opaque); } return TOK_OPEN;
 			}
 			break;
 
 		case S9: /* e.g. "|" */
-			lx_pcre_ungetc(lx, c); lx_pcre_dynpop(lx->buf_opaque); return TOK_ALT;
+			lx_pcre_ungetc(lx, c); if (lx->push != NULL) { lx_pcre_dynpop(lx->buf_opaque); } return TOK_ALT;
 
 		case S10: /* e.g. "." */
-			lx_pcre_ungetc(lx, c); lx_pcre_dynpop(lx->buf_opaque); return TOK_ANY;
+			lx_pcre_ungetc(lx, c); if (lx->push != NULL) { lx_pcre_dynpop(lx->buf_opaque); } return TOK_ANY;
 
 		case S11: /* e.g. "+" */
-			lx_pcre_ungetc(lx, c); lx_pcre_dynpop(lx->buf_opaque); return TOK_PLUS;
+			lx_pcre_ungetc(lx, c); if (lx->push != NULL) { lx_pcre_dynpop(lx->buf_opaque); } return TOK_PLUS;
 
 		case S12: /* e.g. "*" */
-			lx_pcre_ungetc(lx, c); lx_pcre_dynpop(lx->buf_opaque); return TOK_STAR;
+			lx_pcre_ungetc(lx, c); if (lx->push != NULL) { lx_pcre_dynpop(lx->buf_opaque); } return TOK_STAR;
 
 		case S13: /* e.g. "\077" */
-			lx_pcre_ungetc(lx, c); lx_pcre_dynpop(lx->buf_opaque); return TOK_OPT;
+			lx_pcre_ungetc(lx, c); if (lx->push != NULL) { lx_pcre_dynpop(lx->buf_opaque); } return TOK_OPT;
 
 		case S14: /* e.g. "$" */
-			lx_pcre_ungetc(lx, c); lx_pcre_dynpop(lx->buf_opaque); return TOK_END__NL;
+			lx_pcre_ungetc(lx, c); if (lx->push != NULL) { lx_pcre_dynpop(lx->buf_opaque); } return TOK_END__NL;
 
 		case S15: /* e.g. "^" */
-			lx_pcre_ungetc(lx, c); lx_pcre_dynpop(lx->buf_opaque); return TOK_START;
+			lx_pcre_ungetc(lx, c); if (lx->push != NULL) { lx_pcre_dynpop(lx->buf_opaque); } return TOK_START;
 
 		case S16: /* e.g. ")" */
-			lx_pcre_ungetc(lx, c); lx_pcre_dynpop(lx->buf_opaque); return TOK_CLOSE;
+			lx_pcre_ungetc(lx, c); if (lx->push != NULL) { lx_pcre_dynpop(lx->buf_opaque); } return TOK_CLOSE;
 
 		case S17: /* e.g. "(\077" */
 			switch ((unsigned char) c) {
@@ -2481,15 +2479,15 @@ z7(struct lx_pcre_lx *lx)
 			case '&':
 			case '=': state = S21; break;
 			case 'P': state = S22; break;
-			default:  lx_pcre_ungetc(lx, c); lx_pcre_dynpop(lx->buf_opaque); return lx->z = z4, TOK_FLAGS;
+			default:  lx_pcre_ungetc(lx, c); if (lx->push != NULL) { lx_pcre_dynpop(lx->buf_opaque); } return lx->z = z4, TOK_FLAGS;
 			}
 			break;
 
 		case S18: /* e.g. "(*" */
-			lx_pcre_ungetc(lx, c); lx_pcre_dynpop(lx->buf_opaque); return lx->z = z6, lx->z(lx);
+			lx_pcre_ungetc(lx, c); if (lx->push != NULL) { lx_pcre_dynpop(lx->buf_opaque); } return lx->z = z6, lx->again = 1, TOK_UNKNOWN;
 
 		case S19: /* e.g. "(\077#" */
-			lx_pcre_ungetc(lx, c); lx_pcre_dynpop(lx->buf_opaque); return lx->z = z5, lx->z(lx);
+			lx_pcre_ungetc(lx, c); if (lx->push != NULL) { lx_pcre_dynpop(lx->buf_opaque); } return lx->z = z5, lx->again = 1, TOK_UNKNOWN;
 
 		case S20: /* e.g. "(\077<" */
 			switch ((unsigned char) c) {
@@ -2550,19 +2548,19 @@ z7(struct lx_pcre_lx *lx)
 			case 'z': state = S23; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_pcre_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_pcre_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
 		case S21: /* e.g. "\\B" */
-			lx_pcre_ungetc(lx, c); lx_pcre_dynpop(lx->buf_opaque); return TOK_UNSUPPORTED;
+			lx_pcre_ungetc(lx, c); if (lx->push != NULL) { lx_pcre_dynpop(lx->buf_opaque); } return TOK_UNSUPPORTED;
 
 		case S22: /* e.g. "(\077P" */
 			switch ((unsigned char) c) {
 			case '>': state = S21; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_pcre_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_pcre_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -2634,34 +2632,34 @@ z7(struct lx_pcre_lx *lx)
 			case '>': state = S24; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_pcre_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_pcre_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
 		case S24: /* e.g. "(\077<A>" */
-			lx_pcre_ungetc(lx, c); lx_pcre_dynpop(lx->buf_opaque); return TOK_OPENCAPTURE;
+			lx_pcre_ungetc(lx, c); if (lx->push != NULL) { lx_pcre_dynpop(lx->buf_opaque); } return TOK_OPENCAPTURE;
 
 		case S25: /* e.g. "[^" */
 			switch ((unsigned char) c) {
 			case ']': state = S27; break;
-			default:  lx_pcre_ungetc(lx, c); lx_pcre_dynpop(lx->buf_opaque); return lx->z = z3, TOK_OPENGROUPINV;
+			default:  lx_pcre_ungetc(lx, c); if (lx->push != NULL) { lx_pcre_dynpop(lx->buf_opaque); } return lx->z = z3, TOK_OPENGROUPINV;
 			}
 			break;
 
 		case S26: /* e.g. "[]" */
-			lx_pcre_ungetc(lx, c); lx_pcre_dynpop(lx->buf_opaque); return lx->z = z3, TOK_OPENGROUPCB;
+			lx_pcre_ungetc(lx, c); if (lx->push != NULL) { lx_pcre_dynpop(lx->buf_opaque); } return lx->z = z3, TOK_OPENGROUPCB;
 
 		case S27: /* e.g. "[^]" */
-			lx_pcre_ungetc(lx, c); lx_pcre_dynpop(lx->buf_opaque); return lx->z = z3, TOK_OPENGROUPINVCB;
+			lx_pcre_ungetc(lx, c); if (lx->push != NULL) { lx_pcre_dynpop(lx->buf_opaque); } return lx->z = z3, TOK_OPENGROUPINVCB;
 
 		case S28: /* e.g. "\\$" */
-			lx_pcre_ungetc(lx, c); lx_pcre_dynpop(lx->buf_opaque); return TOK_ESC;
+			lx_pcre_ungetc(lx, c); if (lx->push != NULL) { lx_pcre_dynpop(lx->buf_opaque); } return TOK_ESC;
 
 		case S29: /* e.g. "\\E" */
-			lx_pcre_ungetc(lx, c); lx_pcre_dynpop(lx->buf_opaque); return lx->z(lx);
+			lx_pcre_ungetc(lx, c); if (lx->push != NULL) { lx_pcre_dynpop(lx->buf_opaque); } return lx->again = 1, TOK_UNKNOWN;
 
 		case S30: /* e.g. "\\z" */
-			lx_pcre_ungetc(lx, c); lx_pcre_dynpop(lx->buf_opaque); return TOK_END;
+			lx_pcre_ungetc(lx, c); if (lx->push != NULL) { lx_pcre_dynpop(lx->buf_opaque); } return TOK_END;
 
 		case S31: /* e.g. "\\1" */
 			switch ((unsigned char) c) {
@@ -2675,12 +2673,12 @@ z7(struct lx_pcre_lx *lx)
 			case '7':
 			case '8':
 			case '9': break;
-			default:  lx_pcre_ungetc(lx, c); lx_pcre_dynpop(lx->buf_opaque); return TOK_UNSUPPORTED;
+			default:  lx_pcre_ungetc(lx, c); if (lx->push != NULL) { lx_pcre_dynpop(lx->buf_opaque); } return TOK_UNSUPPORTED;
 			}
 			break;
 
 		case S32: /* e.g. "\\Q" */
-			lx_pcre_ungetc(lx, c); lx_pcre_dynpop(lx->buf_opaque); return lx->z = z0, lx->z(lx);
+			lx_pcre_ungetc(lx, c); if (lx->push != NULL) { lx_pcre_dynpop(lx->buf_opaque); } return lx->z = z0, lx->again = 1, TOK_UNKNOWN;
 
 		case S33: /* e.g. "\\c" */
 			state = S48; break;
@@ -2688,12 +2686,12 @@ z7(struct lx_pcre_lx *lx)
 		case S34: /* e.g. "\\o" */
 			switch ((unsigned char) c) {
 			case '{': state = S46; break;
-			default:  lx_pcre_ungetc(lx, c); lx_pcre_dynpop(lx->buf_opaque); return TOK_NOESC;
+			default:  lx_pcre_ungetc(lx, c); if (lx->push != NULL) { lx_pcre_dynpop(lx->buf_opaque); } return TOK_NOESC;
 			}
 			break;
 
 		case S35: /* e.g. "\\\\x00" */
-			lx_pcre_ungetc(lx, c); lx_pcre_dynpop(lx->buf_opaque); return TOK_NOESC;
+			lx_pcre_ungetc(lx, c); if (lx->push != NULL) { lx_pcre_dynpop(lx->buf_opaque); } return TOK_NOESC;
 
 		case S36: /* e.g. "\\x" */
 			switch ((unsigned char) c) {
@@ -2720,15 +2718,15 @@ z7(struct lx_pcre_lx *lx)
 			case 'd':
 			case 'e':
 			case 'f': state = S43; break;
-			default:  lx_pcre_ungetc(lx, c); lx_pcre_dynpop(lx->buf_opaque); return TOK_HEX;
+			default:  lx_pcre_ungetc(lx, c); if (lx->push != NULL) { lx_pcre_dynpop(lx->buf_opaque); } return TOK_HEX;
 			}
 			break;
 
 		case S37: /* e.g. "\\D" */
-			lx_pcre_ungetc(lx, c); lx_pcre_dynpop(lx->buf_opaque); return TOK_NAMED__CLASS;
+			lx_pcre_ungetc(lx, c); if (lx->push != NULL) { lx_pcre_dynpop(lx->buf_opaque); } return TOK_NAMED__CLASS;
 
 		case S38: /* e.g. "\\R" */
-			lx_pcre_ungetc(lx, c); lx_pcre_dynpop(lx->buf_opaque); return TOK_EOL;
+			lx_pcre_ungetc(lx, c); if (lx->push != NULL) { lx_pcre_dynpop(lx->buf_opaque); } return TOK_EOL;
 
 		case S39: /* e.g. "\\0" */
 			switch ((unsigned char) c) {
@@ -2740,7 +2738,7 @@ z7(struct lx_pcre_lx *lx)
 			case '5':
 			case '6':
 			case '7': state = S40; break;
-			default:  lx_pcre_ungetc(lx, c); lx_pcre_dynpop(lx->buf_opaque); return TOK_OCT;
+			default:  lx_pcre_ungetc(lx, c); if (lx->push != NULL) { lx_pcre_dynpop(lx->buf_opaque); } return TOK_OCT;
 			}
 			break;
 
@@ -2754,12 +2752,12 @@ z7(struct lx_pcre_lx *lx)
 			case '5':
 			case '6':
 			case '7': state = S41; break;
-			default:  lx_pcre_ungetc(lx, c); lx_pcre_dynpop(lx->buf_opaque); return TOK_OCT;
+			default:  lx_pcre_ungetc(lx, c); if (lx->push != NULL) { lx_pcre_dynpop(lx->buf_opaque); } return TOK_OCT;
 			}
 			break;
 
 		case S41: /* e.g. "\\000" */
-			lx_pcre_ungetc(lx, c); lx_pcre_dynpop(lx->buf_opaque); return TOK_OCT;
+			lx_pcre_ungetc(lx, c); if (lx->push != NULL) { lx_pcre_dynpop(lx->buf_opaque); } return TOK_OCT;
 
 		case S42: /* e.g. "\\x{" */
 			switch ((unsigned char) c) {
@@ -2787,7 +2785,7 @@ z7(struct lx_pcre_lx *lx)
 			case 'f': state = S45; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_pcre_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_pcre_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -2815,12 +2813,12 @@ z7(struct lx_pcre_lx *lx)
 			case 'd':
 			case 'e':
 			case 'f': state = S44; break;
-			default:  lx_pcre_ungetc(lx, c); lx_pcre_dynpop(lx->buf_opaque); return TOK_HEX;
+			default:  lx_pcre_ungetc(lx, c); if (lx->push != NULL) { lx_pcre_dynpop(lx->buf_opaque); } return TOK_HEX;
 			}
 			break;
 
 		case S44: /* e.g. "\\x00" */
-			lx_pcre_ungetc(lx, c); lx_pcre_dynpop(lx->buf_opaque); return TOK_HEX;
+			lx_pcre_ungetc(lx, c); if (lx->push != NULL) { lx_pcre_dynpop(lx->buf_opaque); } return TOK_HEX;
 
 		case S45: /* e.g. "\\x{0" */
 			switch ((unsigned char) c) {
@@ -2849,7 +2847,7 @@ z7(struct lx_pcre_lx *lx)
 			case 'f': break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_pcre_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_pcre_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -2865,7 +2863,7 @@ z7(struct lx_pcre_lx *lx)
 			case '7': state = S47; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_pcre_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_pcre_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -2882,12 +2880,12 @@ z7(struct lx_pcre_lx *lx)
 			case '7': break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_pcre_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_pcre_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
 		case S48: /* e.g. "\\c\\x00" */
-			lx_pcre_ungetc(lx, c); lx_pcre_dynpop(lx->buf_opaque); return TOK_CONTROL;
+			lx_pcre_ungetc(lx, c); if (lx->push != NULL) { lx_pcre_dynpop(lx->buf_opaque); } return TOK_CONTROL;
 
 		default:
 			; /* unreached */
@@ -2913,8 +2911,8 @@ z7(struct lx_pcre_lx *lx)
 	case S15: return TOK_START;
 	case S16: return TOK_CLOSE;
 	case S17: return lx->z = z4, TOK_FLAGS;
-	case S18: return lx->z = z6, lx->z(lx);
-	case S19: return lx->z = z5, lx->z(lx);
+	case S18: return lx->z = z6, lx->again = 1, TOK_UNKNOWN;
+	case S19: return lx->z = z5, lx->again = 1, TOK_UNKNOWN;
 	case S21: return TOK_UNSUPPORTED;
 	case S24: return TOK_OPENCAPTURE;
 	case S25: return lx->z = z3, TOK_OPENGROUPINV;
@@ -2924,7 +2922,7 @@ z7(struct lx_pcre_lx *lx)
 	case S29: return TOK_EOF;
 	case S30: return TOK_END;
 	case S31: return TOK_UNSUPPORTED;
-	case S32: return lx->z = z0, lx->z(lx);
+	case S32: return lx->z = z0, lx->again = 1, TOK_UNKNOWN;
 	case S33: return TOK_NOESC;
 	case S34: return TOK_NOESC;
 	case S35: return TOK_NOESC;
@@ -2939,7 +2937,7 @@ z7(struct lx_pcre_lx *lx)
 	case S48: return TOK_CONTROL;
 	default: 
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_pcre_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_pcre_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 	}
 
 		switch (state) {
@@ -3029,393 +3027,99 @@ lx_pcre_example(enum lx_pcre_token (*z)(struct lx_pcre_lx *), enum lx_pcre_token
 
 	if (z == z0) {
 		switch (t) {
-		case TOK_NEWLINE: return "";
-		case TOK_WHITESPACE: return "";
-		case TOK_MAYBE_COMMENT: return "";
-		case TOK_COUNT: return "";
-		case TOK_SEP: return "";
-		case TOK_CLOSECOUNT: return "";
-		case TOK_OPENCOUNT: return "";
-		case TOK_CHAR: return "";
-		case TOK_RANGE: return "";
-		case TOK_CLOSEGROUPRANGE: return "";
-		case TOK_CLOSEGROUP: return "";
-		case TOK_OPENGROUPINVCB: return "";
-		case TOK_OPENGROUPCB: return "";
-		case TOK_OPENGROUPINV: return "";
-		case TOK_OPENGROUP: return "";
-		case TOK_FLAG__IGNORE: return "";
-		case TOK_FLAG__EXTENDED: return "";
-		case TOK_FLAG__SINGLE: return "";
-		case TOK_FLAG__INSENSITIVE: return "";
-		case TOK_FLAG__UNKNOWN: return "";
-		case TOK_NEGATE: return "";
-		case TOK_SUB: return "";
-		case TOK_FLAGS: return "";
-		case TOK_INVALID__COMMENT: return "";
-		case TOK_INVALID: return "";
-		case TOK_NOESC: return "";
-		case TOK_HEX: return "";
-		case TOK_OCT: return "";
-		case TOK_EOL: return "";
-		case TOK_NAMED__CLASS: return "";
-		case TOK_CONTROL: return "";
-		case TOK_ESC: return "";
-		case TOK_ALT: return "";
-		case TOK_ANY: return "";
-		case TOK_PLUS: return "";
-		case TOK_STAR: return "";
-		case TOK_OPT: return "";
-		case TOK_UNSUPPORTED: return "";
-		case TOK_END: return "";
-		case TOK_END__NL: return "";
-		case TOK_START: return "";
-		case TOK_OPENCAPTURE: return "";
-		case TOK_CLOSE: return "";
-		case TOK_OPEN: return "";
+		case TOK_CHAR: return "\\";
 		default: goto error;
 		}
 	} else
 	if (z == z1) {
 		switch (t) {
-		case TOK_NEWLINE: return "";
-		case TOK_WHITESPACE: return "";
-		case TOK_MAYBE_COMMENT: return "";
-		case TOK_COUNT: return "";
-		case TOK_SEP: return "";
-		case TOK_CLOSECOUNT: return "";
-		case TOK_OPENCOUNT: return "";
-		case TOK_CHAR: return "";
-		case TOK_RANGE: return "";
-		case TOK_CLOSEGROUPRANGE: return "";
-		case TOK_CLOSEGROUP: return "";
-		case TOK_OPENGROUPINVCB: return "";
-		case TOK_OPENGROUPCB: return "";
-		case TOK_OPENGROUPINV: return "";
-		case TOK_OPENGROUP: return "";
-		case TOK_FLAG__IGNORE: return "";
-		case TOK_FLAG__EXTENDED: return "";
-		case TOK_FLAG__SINGLE: return "";
-		case TOK_FLAG__INSENSITIVE: return "";
-		case TOK_FLAG__UNKNOWN: return "";
-		case TOK_NEGATE: return "";
-		case TOK_SUB: return "";
-		case TOK_FLAGS: return "";
-		case TOK_INVALID__COMMENT: return "";
-		case TOK_INVALID: return "";
-		case TOK_NOESC: return "";
-		case TOK_HEX: return "";
-		case TOK_OCT: return "";
-		case TOK_EOL: return "";
-		case TOK_NAMED__CLASS: return "";
-		case TOK_CONTROL: return "";
-		case TOK_ESC: return "";
-		case TOK_ALT: return "";
-		case TOK_ANY: return "";
-		case TOK_PLUS: return "";
-		case TOK_STAR: return "";
-		case TOK_OPT: return "";
-		case TOK_UNSUPPORTED: return "";
-		case TOK_END: return "";
-		case TOK_END__NL: return "";
-		case TOK_START: return "";
-		case TOK_OPENCAPTURE: return "";
-		case TOK_CLOSE: return "";
-		case TOK_OPEN: return "";
+		case TOK_COUNT: return "0";
+		case TOK_SEP: return ",";
+		case TOK_CLOSECOUNT: return "}";
 		default: goto error;
 		}
 	} else
 	if (z == z2) {
 		switch (t) {
-		case TOK_NEWLINE: return "";
-		case TOK_WHITESPACE: return "";
-		case TOK_MAYBE_COMMENT: return "";
-		case TOK_COUNT: return "";
-		case TOK_SEP: return "";
-		case TOK_CLOSECOUNT: return "";
-		case TOK_OPENCOUNT: return "";
-		case TOK_CHAR: return "";
-		case TOK_RANGE: return "";
-		case TOK_CLOSEGROUPRANGE: return "";
-		case TOK_CLOSEGROUP: return "";
-		case TOK_OPENGROUPINVCB: return "";
-		case TOK_OPENGROUPCB: return "";
-		case TOK_OPENGROUPINV: return "";
-		case TOK_OPENGROUP: return "";
-		case TOK_FLAG__IGNORE: return "";
-		case TOK_FLAG__EXTENDED: return "";
-		case TOK_FLAG__SINGLE: return "";
-		case TOK_FLAG__INSENSITIVE: return "";
-		case TOK_FLAG__UNKNOWN: return "";
-		case TOK_NEGATE: return "";
-		case TOK_SUB: return "";
-		case TOK_FLAGS: return "";
-		case TOK_INVALID__COMMENT: return "";
-		case TOK_INVALID: return "";
-		case TOK_NOESC: return "";
-		case TOK_HEX: return "";
-		case TOK_OCT: return "";
-		case TOK_EOL: return "";
-		case TOK_NAMED__CLASS: return "";
-		case TOK_CONTROL: return "";
-		case TOK_ESC: return "";
-		case TOK_ALT: return "";
-		case TOK_ANY: return "";
-		case TOK_PLUS: return "";
-		case TOK_STAR: return "";
-		case TOK_OPT: return "";
-		case TOK_UNSUPPORTED: return "";
-		case TOK_END: return "";
-		case TOK_END__NL: return "";
-		case TOK_START: return "";
-		case TOK_OPENCAPTURE: return "";
-		case TOK_CLOSE: return "";
-		case TOK_OPEN: return "";
+		case TOK_CHAR: return "\\";
 		default: goto error;
 		}
 	} else
 	if (z == z3) {
 		switch (t) {
-		case TOK_NEWLINE: return "";
-		case TOK_WHITESPACE: return "";
-		case TOK_MAYBE_COMMENT: return "";
-		case TOK_COUNT: return "";
-		case TOK_SEP: return "";
-		case TOK_CLOSECOUNT: return "";
-		case TOK_OPENCOUNT: return "";
-		case TOK_CHAR: return "";
-		case TOK_RANGE: return "";
-		case TOK_CLOSEGROUPRANGE: return "";
-		case TOK_CLOSEGROUP: return "";
-		case TOK_OPENGROUPINVCB: return "";
-		case TOK_OPENGROUPCB: return "";
-		case TOK_OPENGROUPINV: return "";
-		case TOK_OPENGROUP: return "";
-		case TOK_FLAG__IGNORE: return "";
-		case TOK_FLAG__EXTENDED: return "";
-		case TOK_FLAG__SINGLE: return "";
-		case TOK_FLAG__INSENSITIVE: return "";
-		case TOK_FLAG__UNKNOWN: return "";
-		case TOK_NEGATE: return "";
-		case TOK_SUB: return "";
-		case TOK_FLAGS: return "";
-		case TOK_INVALID__COMMENT: return "";
-		case TOK_INVALID: return "";
-		case TOK_NOESC: return "";
-		case TOK_HEX: return "";
-		case TOK_OCT: return "";
-		case TOK_EOL: return "";
-		case TOK_NAMED__CLASS: return "";
-		case TOK_CONTROL: return "";
-		case TOK_ESC: return "";
-		case TOK_ALT: return "";
-		case TOK_ANY: return "";
-		case TOK_PLUS: return "";
-		case TOK_STAR: return "";
-		case TOK_OPT: return "";
-		case TOK_UNSUPPORTED: return "";
-		case TOK_END: return "";
-		case TOK_END__NL: return "";
-		case TOK_START: return "";
-		case TOK_OPENCAPTURE: return "";
-		case TOK_CLOSE: return "";
-		case TOK_OPEN: return "";
+		case TOK_CHAR: return "[";
+		case TOK_RANGE: return "-";
+		case TOK_CLOSEGROUPRANGE: return "-]";
+		case TOK_CLOSEGROUP: return "]";
+		case TOK_INVALID: return "\\";
+		case TOK_NOESC: return "\\c";
+		case TOK_HEX: return "\\x";
+		case TOK_OCT: return "\\0";
+		case TOK_NAMED__CLASS: return "\\D";
+		case TOK_CONTROL: return "\\c\\x00";
+		case TOK_ESC: return "\\$";
+		case TOK_UNSUPPORTED: return "\\1";
 		default: goto error;
 		}
 	} else
 	if (z == z4) {
 		switch (t) {
-		case TOK_NEWLINE: return "";
-		case TOK_WHITESPACE: return "";
-		case TOK_MAYBE_COMMENT: return "";
-		case TOK_COUNT: return "";
-		case TOK_SEP: return "";
-		case TOK_CLOSECOUNT: return "";
-		case TOK_OPENCOUNT: return "";
-		case TOK_CHAR: return "";
-		case TOK_RANGE: return "";
-		case TOK_CLOSEGROUPRANGE: return "";
-		case TOK_CLOSEGROUP: return "";
-		case TOK_OPENGROUPINVCB: return "";
-		case TOK_OPENGROUPCB: return "";
-		case TOK_OPENGROUPINV: return "";
-		case TOK_OPENGROUP: return "";
-		case TOK_FLAG__IGNORE: return "";
-		case TOK_FLAG__EXTENDED: return "";
-		case TOK_FLAG__SINGLE: return "";
-		case TOK_FLAG__INSENSITIVE: return "";
-		case TOK_FLAG__UNKNOWN: return "";
-		case TOK_NEGATE: return "";
-		case TOK_SUB: return "";
-		case TOK_FLAGS: return "";
-		case TOK_INVALID__COMMENT: return "";
-		case TOK_INVALID: return "";
-		case TOK_NOESC: return "";
-		case TOK_HEX: return "";
-		case TOK_OCT: return "";
-		case TOK_EOL: return "";
-		case TOK_NAMED__CLASS: return "";
-		case TOK_CONTROL: return "";
-		case TOK_ESC: return "";
-		case TOK_ALT: return "";
-		case TOK_ANY: return "";
-		case TOK_PLUS: return "";
-		case TOK_STAR: return "";
-		case TOK_OPT: return "";
-		case TOK_UNSUPPORTED: return "";
-		case TOK_END: return "";
-		case TOK_END__NL: return "";
-		case TOK_START: return "";
-		case TOK_OPENCAPTURE: return "";
-		case TOK_CLOSE: return "";
-		case TOK_OPEN: return "";
+		case TOK_FLAG__IGNORE: return "n";
+		case TOK_FLAG__EXTENDED: return "x";
+		case TOK_FLAG__SINGLE: return "s";
+		case TOK_FLAG__INSENSITIVE: return "i";
+		case TOK_FLAG__UNKNOWN: return "a";
+		case TOK_NEGATE: return "-";
+		case TOK_SUB: return ":";
+		case TOK_UNSUPPORTED: return "+";
+		case TOK_CLOSE: return ")";
 		default: goto error;
 		}
 	} else
 	if (z == z5) {
 		switch (t) {
-		case TOK_NEWLINE: return "";
-		case TOK_WHITESPACE: return "";
-		case TOK_MAYBE_COMMENT: return "";
-		case TOK_COUNT: return "";
-		case TOK_SEP: return "";
-		case TOK_CLOSECOUNT: return "";
-		case TOK_OPENCOUNT: return "";
-		case TOK_CHAR: return "";
-		case TOK_RANGE: return "";
-		case TOK_CLOSEGROUPRANGE: return "";
-		case TOK_CLOSEGROUP: return "";
-		case TOK_OPENGROUPINVCB: return "";
-		case TOK_OPENGROUPCB: return "";
-		case TOK_OPENGROUPINV: return "";
-		case TOK_OPENGROUP: return "";
-		case TOK_FLAG__IGNORE: return "";
-		case TOK_FLAG__EXTENDED: return "";
-		case TOK_FLAG__SINGLE: return "";
-		case TOK_FLAG__INSENSITIVE: return "";
-		case TOK_FLAG__UNKNOWN: return "";
-		case TOK_NEGATE: return "";
-		case TOK_SUB: return "";
-		case TOK_FLAGS: return "";
-		case TOK_INVALID__COMMENT: return "";
-		case TOK_INVALID: return "";
-		case TOK_NOESC: return "";
-		case TOK_HEX: return "";
-		case TOK_OCT: return "";
-		case TOK_EOL: return "";
-		case TOK_NAMED__CLASS: return "";
-		case TOK_CONTROL: return "";
-		case TOK_ESC: return "";
-		case TOK_ALT: return "";
-		case TOK_ANY: return "";
-		case TOK_PLUS: return "";
-		case TOK_STAR: return "";
-		case TOK_OPT: return "";
-		case TOK_UNSUPPORTED: return "";
-		case TOK_END: return "";
-		case TOK_END__NL: return "";
-		case TOK_START: return "";
-		case TOK_OPENCAPTURE: return "";
-		case TOK_CLOSE: return "";
-		case TOK_OPEN: return "";
+		case TOK_INVALID__COMMENT: return "(";
 		default: goto error;
 		}
 	} else
 	if (z == z6) {
 		switch (t) {
-		case TOK_NEWLINE: return "";
-		case TOK_WHITESPACE: return "";
-		case TOK_MAYBE_COMMENT: return "";
-		case TOK_COUNT: return "";
-		case TOK_SEP: return "";
-		case TOK_CLOSECOUNT: return "";
-		case TOK_OPENCOUNT: return "";
-		case TOK_CHAR: return "";
-		case TOK_RANGE: return "";
-		case TOK_CLOSEGROUPRANGE: return "";
-		case TOK_CLOSEGROUP: return "";
-		case TOK_OPENGROUPINVCB: return "";
-		case TOK_OPENGROUPCB: return "";
-		case TOK_OPENGROUPINV: return "";
-		case TOK_OPENGROUP: return "";
-		case TOK_FLAG__IGNORE: return "";
-		case TOK_FLAG__EXTENDED: return "";
-		case TOK_FLAG__SINGLE: return "";
-		case TOK_FLAG__INSENSITIVE: return "";
-		case TOK_FLAG__UNKNOWN: return "";
-		case TOK_NEGATE: return "";
-		case TOK_SUB: return "";
-		case TOK_FLAGS: return "";
-		case TOK_INVALID__COMMENT: return "";
-		case TOK_INVALID: return "";
-		case TOK_NOESC: return "";
-		case TOK_HEX: return "";
-		case TOK_OCT: return "";
-		case TOK_EOL: return "";
-		case TOK_NAMED__CLASS: return "";
-		case TOK_CONTROL: return "";
-		case TOK_ESC: return "";
-		case TOK_ALT: return "";
-		case TOK_ANY: return "";
-		case TOK_PLUS: return "";
-		case TOK_STAR: return "";
-		case TOK_OPT: return "";
-		case TOK_UNSUPPORTED: return "";
-		case TOK_END: return "";
-		case TOK_END__NL: return "";
-		case TOK_START: return "";
-		case TOK_OPENCAPTURE: return "";
-		case TOK_CLOSE: return "";
-		case TOK_OPEN: return "";
+		case TOK_UNSUPPORTED: return "F";
 		default: goto error;
 		}
 	} else
 	if (z == z7) {
 		switch (t) {
-		case TOK_NEWLINE: return "";
-		case TOK_WHITESPACE: return "";
-		case TOK_MAYBE_COMMENT: return "";
-		case TOK_COUNT: return "";
-		case TOK_SEP: return "";
-		case TOK_CLOSECOUNT: return "";
-		case TOK_OPENCOUNT: return "";
-		case TOK_CHAR: return "";
-		case TOK_RANGE: return "";
-		case TOK_CLOSEGROUPRANGE: return "";
-		case TOK_CLOSEGROUP: return "";
-		case TOK_OPENGROUPINVCB: return "";
-		case TOK_OPENGROUPCB: return "";
-		case TOK_OPENGROUPINV: return "";
-		case TOK_OPENGROUP: return "";
-		case TOK_FLAG__IGNORE: return "";
-		case TOK_FLAG__EXTENDED: return "";
-		case TOK_FLAG__SINGLE: return "";
-		case TOK_FLAG__INSENSITIVE: return "";
-		case TOK_FLAG__UNKNOWN: return "";
-		case TOK_NEGATE: return "";
-		case TOK_SUB: return "";
-		case TOK_FLAGS: return "";
-		case TOK_INVALID__COMMENT: return "";
-		case TOK_INVALID: return "";
-		case TOK_NOESC: return "";
-		case TOK_HEX: return "";
-		case TOK_OCT: return "";
-		case TOK_EOL: return "";
-		case TOK_NAMED__CLASS: return "";
-		case TOK_CONTROL: return "";
-		case TOK_ESC: return "";
-		case TOK_ALT: return "";
-		case TOK_ANY: return "";
-		case TOK_PLUS: return "";
-		case TOK_STAR: return "";
-		case TOK_OPT: return "";
-		case TOK_UNSUPPORTED: return "";
-		case TOK_END: return "";
-		case TOK_END__NL: return "";
-		case TOK_START: return "";
-		case TOK_OPENCAPTURE: return "";
-		case TOK_CLOSE: return "";
-		case TOK_OPEN: return "";
+		case TOK_NEWLINE: return "\\x0a";
+		case TOK_WHITESPACE: return "\\x09";
+		case TOK_MAYBE_COMMENT: return "#";
+		case TOK_OPENCOUNT: return "{";
+		case TOK_CHAR: return "\\x01";
+		case TOK_OPENGROUPINVCB: return "[^]";
+		case TOK_OPENGROUPCB: return "[]";
+		case TOK_OPENGROUPINV: return "[^";
+		case TOK_OPENGROUP: return "[";
+		case TOK_FLAGS: return "(\077";
+		case TOK_INVALID: return "\\";
+		case TOK_NOESC: return "\\c";
+		case TOK_HEX: return "\\x";
+		case TOK_OCT: return "\\0";
+		case TOK_EOL: return "\\R";
+		case TOK_NAMED__CLASS: return "\\D";
+		case TOK_CONTROL: return "\\c\\x00";
+		case TOK_ESC: return "\\$";
+		case TOK_ALT: return "|";
+		case TOK_ANY: return ".";
+		case TOK_PLUS: return "+";
+		case TOK_STAR: return "*";
+		case TOK_OPT: return "\077";
+		case TOK_UNSUPPORTED: return "\\B";
+		case TOK_END: return "\\z";
+		case TOK_END__NL: return "$";
+		case TOK_START: return "^";
+		case TOK_OPENCAPTURE: return "(\077<A>";
+		case TOK_CLOSE: return ")";
+		case TOK_OPEN: return "(";
 		default: goto error;
 		}
 	}
@@ -3456,9 +3160,12 @@ lx_pcre_next(struct lx_pcre_lx *lx)
 		return TOK_EOF;
 	}
 
-	t = lx->z(lx);
+	do {
+		lx->again = 0;
+		t = lx->z(lx);
+	} while (lx->again);
 
-	if (lx->push_failed) {
+	if (lx->push_failed || lx->read_failed) {
 		lx->lgetc = NULL;
 		return TOK_ERROR;
 	}
diff --git a/src/libre/dialect/pcre/lexer.h b/src/libre/dialect/pcre/lexer.h
index df1fbbe..29550fc 100644
--- a/src/libre/dialect/pcre/lexer.h
+++ b/src/libre/dialect/pcre/lexer.h
@@ -69,6 +69,7 @@ struct lx_pcre_lx {
 	void *getc_opaque;
 
 	int c; /* lx_pcre_ungetc buffer */
+	int read_failed; /* .lgetc gave EOF for an error */
 
 	struct lx_pos start;
 	struct lx_pos end;
@@ -80,6 +81,7 @@ struct lx_pcre_lx {
 	int push_failed; /* nothing could be stored for the last character */
 
 	enum lx_pcre_token (*z)(struct lx_pcre_lx *lx);
+	int again; /* .z gave no token, and is to be called again */
 };
 
 /*
diff --git a/src/libre/dialect/sql/lexer.c b/src/libre/dialect/sql/lexer.c
index ed30bff..b655fca 100644
--- a/src/libre/dialect/sql/lexer.c
+++ b/src/libre/dialect/sql/lexer.c
@@ -150,12 +150,10 @@ lx_sql_dynclear(void *buf_opaque)
 		len = t->len / LX_DYN_FACTOR;
 
 		tmp = realloc(t->a, len);
-		if (tmp == NULL) {
-			return -1;
+		if (tmp != NULL) {
+			t->a   = tmp;
+			t->len = len;
 		}
-
-		t->a   = tmp;
-		t->len = len;
 	}
 
 	t->p = t->a;
@@ -212,12 +210,12 @@ z0(struct lx_sql_lx *lx)
 			case '}': state = S3; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_sql_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_sql_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
 		case S1: /* e.g. "," */
-			lx_sql_ungetc(lx, c); lx_sql_dynpop(lx->buf_opaque); return TOK_SEP;
+			lx_sql_ungetc(lx, c); if (lx->push != NULL) { lx_sql_dynpop(lx->buf_opaque); } return TOK_SEP;
 
 		case S2: /* e.g. "0" */
 			switch ((unsigned char) c) {
@@ -231,12 +229,12 @@ z0(struct lx_sql_lx *lx)
 			case '7':
 			case '8':
 			case '9': break;
-			default:  lx_sql_ungetc(lx, c); lx_sql_dynpop(lx->buf_opaque); return TOK_COUNT;
+			default:  lx_sql_ungetc(lx, c); if (lx->push != NULL) { lx_sql_dynpop(lx->buf_opaque); } return TOK_COUNT;
 			}
 			break;
 
 		case S3: /* e.g. "}" */
-			lx_sql_ungetc(lx, c); lx_sql_dynpop(lx->buf_opaque); return lx->z = z2, TOK_CLOSECOUNT;
+			lx_sql_ungetc(lx, c); if (lx->push != NULL) { lx_sql_dynpop(lx->buf_opaque); } return lx->z = z2, TOK_CLOSECOUNT;
 
 		default:
 			; /* unreached */
@@ -250,7 +248,7 @@ z0(struct lx_sql_lx *lx)
 	case S3: return lx->z = z2, TOK_CLOSECOUNT;
 	default: 
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_sql_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_sql_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 	}
 
 		if (lx->push != NULL) {
@@ -307,21 +305,21 @@ z1(struct lx_sql_lx *lx)
 		case S1: /* e.g. "[" */
 			switch ((unsigned char) c) {
 			case ':': state = S6; break;
-			default:  lx_sql_ungetc(lx, c); lx_sql_dynpop(lx->buf_opaque); return TOK_CHAR;
+			default:  lx_sql_ungetc(lx, c); if (lx->push != NULL) { lx_sql_dynpop(lx->buf_opaque); } return TOK_CHAR;
 			}
 			break;
 
 		case S2: /* e.g. "\\x00" */
-			lx_sql_ungetc(lx, c); lx_sql_dynpop(lx->buf_opaque); return TOK_CHAR;
+			lx_sql_ungetc(lx, c); if (lx->push != NULL) { lx_sql_dynpop(lx->buf_opaque); } return TOK_CHAR;
 
 		case S3: /* e.g. "-" */
-			lx_sql_ungetc(lx, c); lx_sql_dynpop(lx->buf_opaque); return TOK_RANGE;
+			lx_sql_ungetc(lx, c); if (lx->push != NULL) { lx_sql_dynpop(lx->buf_opaque); } return TOK_RANGE;
 
 		case S4: /* e.g. "^" */
-			lx_sql_ungetc(lx, c); lx_sql_dynpop(lx->buf_opaque); return TOK_INVERT;
+			lx_sql_ungetc(lx, c); if (lx->push != NULL) { lx_sql_dynpop(lx->buf_opaque); } return TOK_INVERT;
 
 		case S5: /* e.g. "]" */
-			lx_sql_ungetc(lx, c); lx_sql_dynpop(lx->buf_opaque); return lx->z = z2, TOK_CLOSEGROUP;
+			lx_sql_ungetc(lx, c); if (lx->push != NULL) { lx_sql_dynpop(lx->buf_opaque); } return lx->z = z2, TOK_CLOSEGROUP;
 
 		case S6: /* e.g. "[:" */
 			switch ((unsigned char) c) {
@@ -333,7 +331,7 @@ z1(struct lx_sql_lx *lx)
 			case 'U': state = S12; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_sql_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_sql_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -342,7 +340,7 @@ z1(struct lx_sql_lx *lx)
 			case 'P': state = S32; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_sql_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_sql_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -351,7 +349,7 @@ z1(struct lx_sql_lx *lx)
 			case 'H': state = S28; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_sql_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_sql_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -360,7 +358,7 @@ z1(struct lx_sql_lx *lx)
 			case 'I': state = S25; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_sql_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_sql_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -369,7 +367,7 @@ z1(struct lx_sql_lx *lx)
 			case 'L': state = S20; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_sql_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_sql_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -378,7 +376,7 @@ z1(struct lx_sql_lx *lx)
 			case 'O': state = S19; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_sql_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_sql_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -387,7 +385,7 @@ z1(struct lx_sql_lx *lx)
 			case 'P': state = S13; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_sql_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_sql_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -396,7 +394,7 @@ z1(struct lx_sql_lx *lx)
 			case 'P': state = S14; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_sql_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_sql_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -405,7 +403,7 @@ z1(struct lx_sql_lx *lx)
 			case 'E': state = S15; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_sql_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_sql_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -414,7 +412,7 @@ z1(struct lx_sql_lx *lx)
 			case 'R': state = S16; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_sql_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_sql_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -423,7 +421,7 @@ z1(struct lx_sql_lx *lx)
 			case ':': state = S17; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_sql_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_sql_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -432,19 +430,19 @@ z1(struct lx_sql_lx *lx)
 			case ']': state = S18; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_sql_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_sql_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
 		case S18: /* e.g. "[:ALPHA:]" */
-			lx_sql_ungetc(lx, c); lx_sql_dynpop(lx->buf_opaque); return TOK_NAMED__CLASS;
+			lx_sql_ungetc(lx, c); if (lx->push != NULL) { lx_sql_dynpop(lx->buf_opaque); } return TOK_NAMED__CLASS;
 
 		case S19: /* e.g. "[:LO" */
 			switch ((unsigned char) c) {
 			case 'W': state = S14; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_sql_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_sql_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -454,7 +452,7 @@ z1(struct lx_sql_lx *lx)
 			case 'P': state = S22; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_sql_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_sql_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -463,7 +461,7 @@ z1(struct lx_sql_lx *lx)
 			case 'U': state = S24; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_sql_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_sql_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -472,7 +470,7 @@ z1(struct lx_sql_lx *lx)
 			case 'H': state = S23; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_sql_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_sql_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -481,7 +479,7 @@ z1(struct lx_sql_lx *lx)
 			case 'A': state = S16; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_sql_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_sql_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -490,7 +488,7 @@ z1(struct lx_sql_lx *lx)
 			case 'M': state = S16; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_sql_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_sql_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -499,7 +497,7 @@ z1(struct lx_sql_lx *lx)
 			case 'G': state = S26; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_sql_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_sql_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -508,7 +506,7 @@ z1(struct lx_sql_lx *lx)
 			case 'I': state = S27; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_sql_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_sql_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -517,7 +515,7 @@ z1(struct lx_sql_lx *lx)
 			case 'T': state = S16; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_sql_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_sql_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -526,7 +524,7 @@ z1(struct lx_sql_lx *lx)
 			case 'I': state = S29; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_sql_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_sql_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -535,7 +533,7 @@ z1(struct lx_sql_lx *lx)
 			case 'T': state = S30; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_sql_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_sql_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -544,7 +542,7 @@ z1(struct lx_sql_lx *lx)
 			case 'E': state = S31; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_sql_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_sql_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -553,7 +551,7 @@ z1(struct lx_sql_lx *lx)
 			case 'S': state = S7; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_sql_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_sql_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -562,7 +560,7 @@ z1(struct lx_sql_lx *lx)
 			case 'A': state = S33; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_sql_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_sql_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -571,7 +569,7 @@ z1(struct lx_sql_lx *lx)
 			case 'C': state = S34; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_sql_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_sql_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -580,7 +578,7 @@ z1(struct lx_sql_lx *lx)
 			case 'E': state = S16; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_sql_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_sql_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -599,7 +597,7 @@ z1(struct lx_sql_lx *lx)
 	case S18: return TOK_NAMED__CLASS;
 	default: 
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_sql_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_sql_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 	}
 
 		if (lx->push != NULL) {
@@ -658,37 +656,37 @@ z2(struct lx_sql_lx *lx)
 			break;
 
 		case S1: /* e.g. "\\x00" */
-			lx_sql_ungetc(lx, c); lx_sql_dynpop(lx->buf_opaque); return TOK_CHAR;
+			lx_sql_ungetc(lx, c); if (lx->push != NULL) { lx_sql_dynpop(lx->buf_opaque); } return TOK_CHAR;
 
 		case S2: /* e.g. "{" */
-			lx_sql_ungetc(lx, c); lx_sql_dynpop(lx->buf_opaque); return lx->z = z0, TOK_OPENCOUNT;
+			lx_sql_ungetc(lx, c); if (lx->push != NULL) { lx_sql_dynpop(lx->buf_opaque); } return lx->z = z0, TOK_OPENCOUNT;
 
 		case S3: /* e.g. "[" */
-			lx_sql_ungetc(lx, c); lx_sql_dynpop(lx->buf_opaque); return lx->z = z1, TOK_OPENGROUP;
+			lx_sql_ungetc(lx, c); if (lx->push != NULL) { lx_sql_dynpop(lx->buf_opaque); } return lx->z = z1, TOK_OPENGROUP;
 
 		case S4: /* e.g. "|" */
-			lx_sql_ungetc(lx, c); lx_sql_dynpop(lx->buf_opaque); return TOK_ALT;
+			lx_sql_ungetc(lx, c); if (lx->push != NULL) { lx_sql_dynpop(lx->buf_opaque); } return TOK_ALT;
 
 		case S5: /* e.g. "+" */
-			lx_sql_ungetc(lx, c); lx_sql_dynpop(lx->buf_opaque); return TOK_PLUS;
+			lx_sql_ungetc(lx, c); if (lx->push != NULL) { lx_sql_dynpop(lx->buf_opaque); } return TOK_PLUS;
 
 		case S6: /* e.g. "*" */
-			lx_sql_ungetc(lx, c); lx_sql_dynpop(lx->buf_opaque); return TOK_STAR;
+			lx_sql_ungetc(lx, c); if (lx->push != NULL) { lx_sql_dynpop(lx->buf_opaque); } return TOK_STAR;
 
 		case S7: /* e.g. "\077" */
-			lx_sql_ungetc(lx, c); lx_sql_dynpop(lx->buf_opaque); return TOK_OPT;
+			lx_sql_ungetc(lx, c); if (lx->push != NULL) { lx_sql_dynpop(lx->buf_opaque); } return TOK_OPT;
 
 		case S8: /* e.g. ")" */
-			lx_sql_ungetc(lx, c); lx_sql_dynpop(lx->buf_opaque); return TOK_CLOSESUB;
+			lx_sql_ungetc(lx, c); if (lx->push != NULL) { lx_sql_dynpop(lx->buf_opaque); } return TOK_CLOSESUB;
 
 		case S9: /* e.g. "(" */
-			lx_sql_ungetc(lx, c); lx_sql_dynpop(lx->buf_opaque); return TOK_OPENSUB;
+			lx_sql_ungetc(lx, c); if (lx->push != NULL) { lx_sql_dynpop(lx->buf_opaque); } return TOK_OPENSUB;
 
 		case S10: /* e.g. "%" */
-			lx_sql_ungetc(lx, c); lx_sql_dynpop(lx->buf_opaque); return TOK_MANY;
+			lx_sql_ungetc(lx, c); if (lx->push != NULL) { lx_sql_dynpop(lx->buf_opaque); } return TOK_MANY;
 
 		case S11: /* e.g. "_" */
-			lx_sql_ungetc(lx, c); lx_sql_dynpop(lx->buf_opaque); return TOK_ANY;
+			lx_sql_ungetc(lx, c); if (lx->push != NULL) { lx_sql_dynpop(lx->buf_opaque); } return TOK_ANY;
 
 		default:
 			; /* unreached */
@@ -710,7 +708,7 @@ z2(struct lx_sql_lx *lx)
 	case S11: return TOK_ANY;
 	default: 
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_sql_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_sql_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 	}
 
 		if (lx->push != NULL) {
@@ -763,70 +761,35 @@ lx_sql_example(enum lx_sql_token (*z)(struct lx_sql_lx *), enum lx_sql_token t)
 
 	if (z == z0) {
 		switch (t) {
-		case TOK_SEP: return "";
-		case TOK_COUNT: return "";
-		case TOK_CLOSECOUNT: return "";
-		case TOK_OPENCOUNT: return "";
-		case TOK_CHAR: return "";
-		case TOK_NAMED__CLASS: return "";
-		case TOK_RANGE: return "";
-		case TOK_INVERT: return "";
-		case TOK_CLOSEGROUP: return "";
-		case TOK_OPENGROUP: return "";
-		case TOK_ALT: return "";
-		case TOK_PLUS: return "";
-		case TOK_STAR: return "";
-		case TOK_OPT: return "";
-		case TOK_CLOSESUB: return "";
-		case TOK_OPENSUB: return "";
-		case TOK_MANY: return "";
-		case TOK_ANY: return "";
+		case TOK_SEP: return ",";
+		case TOK_COUNT: return "0";
+		case TOK_CLOSECOUNT: return "}";
 		default: goto error;
 		}
 	} else
 	if (z == z1) {
 		switch (t) {
-		case TOK_SEP: return "";
-		case TOK_COUNT: return "";
-		case TOK_CLOSECOUNT: return "";
-		case TOK_OPENCOUNT: return "";
-		case TOK_CHAR: return "";
-		case TOK_NAMED__CLASS: return "";
-		case TOK_RANGE: return "";
-		case TOK_INVERT: return "";
-		case TOK_CLOSEGROUP: return "";
-		case TOK_OPENGROUP: return "";
-		case TOK_ALT: return "";
-		case TOK_PLUS: return "";
-		case TOK_STAR: return "";
-		case TOK_OPT: return "";
-		case TOK_CLOSESUB: return "";
-		case TOK_OPENSUB: return "";
-		case TOK_MANY: return "";
-		case TOK_ANY: return "";
+		case TOK_CHAR: return "[";
+		case TOK_NAMED__CLASS: return "[:ALPHA:]";
+		case TOK_RANGE: return "-";
+		case TOK_INVERT: return "^";
+		case TOK_CLOSEGROUP: return "]";
 		default: goto error;
 		}
 	} else
 	if (z == z2) {
 		switch (t) {
-		case TOK_SEP: return "";
-		case TOK_COUNT: return "";
-		case TOK_CLOSECOUNT: return "";
-		case TOK_OPENCOUNT: return "";
-		case TOK_CHAR: return "";
-		case TOK_NAMED__CLASS: return "";
-		case TOK_RANGE: return "";
-		case TOK_INVERT: return "";
-		case TOK_CLOSEGROUP: return "";
-		case TOK_OPENGROUP: return "";
-		case TOK_ALT: return "";
-		case TOK_PLUS: return "";
-		case TOK_STAR: return "";
-		case TOK_OPT: return "";
-		case TOK_CLOSESUB: return "";
-		case TOK_OPENSUB: return "";
-		case TOK_MANY: return "";
-		case TOK_ANY: return "";
+		case TOK_OPENCOUNT: return "{";
+		case TOK_CHAR: return "\\x00";
+		case TOK_OPENGROUP: return "[";
+		case TOK_ALT: return "|";
+		case TOK_PLUS: return "+";
+		case TOK_STAR: return "*";
+		case TOK_OPT: return "\077";
+		case TOK_CLOSESUB: return ")";
+		case TOK_OPENSUB: return "(";
+		case TOK_MANY: return "%";
+		case TOK_ANY: return "_";
 		default: goto error;
 		}
 	}
@@ -867,9 +830,12 @@ lx_sql_next(struct lx_sql_lx *lx)
 		return TOK_EOF;
 	}
 
-	t = lx->z(lx);
+	do {
+		lx->again = 0;
+		t = lx->z(lx);
+	} while (lx->again);
 
-	if (lx->push_failed) {
+	if (lx->push_failed || lx->read_failed) {
 		lx->lgetc = NULL;
 		return TOK_ERROR;
 	}
diff --git a/src/libre/dialect/sql/lexer.h b/src/libre/dialect/sql/lexer.h
index d2f785b..166e44e 100644
--- a/src/libre/dialect/sql/lexer.h
+++ b/src/libre/dialect/sql/lexer.h
@@ -43,6 +43,7 @@ struct lx_sql_lx {
 	void *getc_opaque;
 
 	int c; /* lx_sql_ungetc buffer */
+	int read_failed; /* .lgetc gave EOF for an error */
 
 	struct lx_pos start;
 	struct lx_pos end;
@@ -54,6 +55,7 @@ struct lx_sql_lx {
 	int push_failed; /* nothing could be stored for the last character */
 
 	enum lx_sql_token (*z)(struct lx_sql_lx *lx);
+	int again; /* .z gave no token, and is to be called again */
 };
 
 /*
diff --git a/src/lx/lexer.c b/src/lx/lexer.c
index 45bc9a7..f8c2567 100644
--- a/src/lx/lexer.c
+++ b/src/lx/lexer.c
@@ -95,6 +95,9 @@ lx_fgetc(struct lx *lx)
 	const int c = fgetc(lx->getc_opaque);
 	if (c == EOF) {
 		lx->c = EOF;
+		if (ferror((FILE *) lx->getc_opaque)) {
+			lx->read_failed = 1;
+		}
 		return EOF;
 	} else {
 		return c;
@@ -168,12 +171,10 @@ lx_dynclear(void *buf_opaque)
 		len = t->len / LX_DYN_FACTOR;
 
 		tmp = realloc(t->a, len);
-		if (tmp == NULL) {
-			return -1;
+		if (tmp != NULL) {
+			t->a   = tmp;
+			t->len = len;
 		}
-
-		t->a   = tmp;
-		t->len = len;
 	}
 
 	t->p = t->a;
@@ -222,7 +223,7 @@ z0(struct lx *lx)
 			break;
 
 		case S1: /* e.g. "" */
-			lx_ungetc(lx, c); lx_dynpop(lx->buf_opaque); return TOK_CHAR;
+			lx_ungetc(lx, c); if (lx->push != NULL) { lx_dynpop(lx->buf_opaque); } return TOK_CHAR;
 
 		case S2: /* e.g. "\057" */
 			switch ((unsigned char) c) {
@@ -278,7 +279,7 @@ z0(struct lx *lx)
 			case 'x':
 			case 'y':
 			case 'z': break;
-			default:  lx_ungetc(lx, c); lx_dynpop(lx->buf_opaque); return lx->z = z4, TOK_RE;
+			default:  lx_ungetc(lx, c); if (lx->push != NULL) { lx_dynpop(lx->buf_opaque); } return lx->z = z4, TOK_RE;
 			}
 			break;
 
@@ -293,7 +294,7 @@ z0(struct lx *lx)
 	case S2: return lx->z = z4, TOK_RE;
 	default: 
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 	}
 
 		if (lx->push != NULL) {
@@ -360,15 +361,15 @@ z1(struct lx *lx)
 			case 'r':
 			case 't':
 			case 'v': state = S6; break;
-			default:  lx_ungetc(lx, c); lx_dynpop(lx->buf_opaque); return TOK_CHAR;
+			default:  lx_ungetc(lx, c); if (lx->push != NULL) { lx_dynpop(lx->buf_opaque); } return TOK_CHAR;
 			}
 			break;
 
 		case S2: /* e.g. "\\x00" */
-			lx_ungetc(lx, c); lx_dynpop(lx->buf_opaque); return TOK_CHAR;
+			lx_ungetc(lx, c); if (lx->push != NULL) { lx_dynpop(lx->buf_opaque); } return TOK_CHAR;
 
 		case S3: /* e.g. "\"" */
-			lx_ungetc(lx, c); lx_dynpop(lx->buf_opaque); return lx->z = z4, TOK_STR;
+			lx_ungetc(lx, c); if (lx->push != NULL) { lx_dynpop(lx->buf_opaque); } return lx->z = z4, TOK_STR;
 
 		case S4: /* e.g. "\\x" */
 			switch ((unsigned char) c) {
@@ -396,7 +397,7 @@ z1(struct lx *lx)
 			case 'f': state = S7; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -410,12 +411,12 @@ z1(struct lx *lx)
 			case '5':
 			case '6':
 			case '7': break;
-			default:  lx_ungetc(lx, c); lx_dynpop(lx->buf_opaque); return TOK_OCT;
+			default:  lx_ungetc(lx, c); if (lx->push != NULL) { lx_dynpop(lx->buf_opaque); } return TOK_OCT;
 			}
 			break;
 
 		case S6: /* e.g. "\\\"" */
-			lx_ungetc(lx, c); lx_dynpop(lx->buf_opaque); return TOK_ESC;
+			lx_ungetc(lx, c); if (lx->push != NULL) { lx_dynpop(lx->buf_opaque); } return TOK_ESC;
 
 		case S7: /* e.g. "\\x0" */
 			switch ((unsigned char) c) {
@@ -441,7 +442,7 @@ z1(struct lx *lx)
 			case 'd':
 			case 'e':
 			case 'f': break;
-			default:  lx_ungetc(lx, c); lx_dynpop(lx->buf_opaque); return TOK_HEX;
+			default:  lx_ungetc(lx, c); if (lx->push != NULL) { lx_dynpop(lx->buf_opaque); } return TOK_HEX;
 			}
 			break;
 
@@ -460,7 +461,7 @@ z1(struct lx *lx)
 	case S7: return TOK_HEX;
 	default: 
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 	}
 
 		if (lx->push != NULL) {
@@ -509,10 +510,10 @@ z2(struct lx *lx)
 			break;
 
 		case S1: /* e.g. "" */
-			lx_ungetc(lx, c); lx_dynpop(lx->buf_opaque); return TOK_CHAR;
+			lx_ungetc(lx, c); if (lx->push != NULL) { lx_dynpop(lx->buf_opaque); } return TOK_CHAR;
 
 		case S2: /* e.g. "'" */
-			lx_ungetc(lx, c); lx_dynpop(lx->buf_opaque); return lx->z = z4, TOK_STR;
+			lx_ungetc(lx, c); if (lx->push != NULL) { lx_dynpop(lx->buf_opaque); } return lx->z = z4, TOK_STR;
 
 		default:
 			; /* unreached */
@@ -525,7 +526,7 @@ z2(struct lx *lx)
 	case S2: return lx->z = z4, TOK_STR;
 	default: 
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 	}
 
 		if (lx->push != NULL) {
@@ -574,10 +575,10 @@ z3(struct lx *lx)
 			break;
 
 		case S1: /* e.g. "" */
-			lx_ungetc(lx, c); lx_dynpop(lx->buf_opaque); return lx->z(lx);
+			lx_ungetc(lx, c); if (lx->push != NULL) { lx_dynpop(lx->buf_opaque); } return lx->again = 1, TOK_UNKNOWN;
 
 		case S2: /* e.g. "" */
-			lx_ungetc(lx, c); lx_dynpop(lx->buf_opaque); return lx->z = z4, lx->z(lx);
+			lx_ungetc(lx, c); if (lx->push != NULL) { lx_dynpop(lx->buf_opaque); } return lx->z = z4, lx->again = 1, TOK_UNKNOWN;
 
 		default:
 			; /* unreached */
@@ -587,10 +588,10 @@ z3(struct lx *lx)
 	/* end states */
 	switch (state) {
 	case S1: return TOK_UNKNOWN;
-	case S2: return lx->z = z4, lx->z(lx);
+	case S2: return lx->z = z4, lx->again = 1, TOK_UNKNOWN;
 	default: 
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 	}
 
 		switch (state) {
@@ -727,12 +728,12 @@ z4(struct lx *lx)
 			case ' ': state = S25; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
 		case S1: /* e.g. "," */
-			lx_ungetc(lx, c); lx_dynpop(lx->buf_opaque); return TOK_COMMA;
+			lx_ungetc(lx, c); if (lx->push != NULL) { lx_dynpop(lx->buf_opaque); } return TOK_COMMA;
 
 		case S2: /* e.g. "$" */
 			switch ((unsigned char) c) {
@@ -791,7 +792,7 @@ z4(struct lx *lx)
 			case 'z': state = S28; break;
 			default:  
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 			}
 			break;
 
@@ -860,80 +861,80 @@ z4(struct lx *lx)
 			case 'x':
 			case 'y':
 			case 'z': break;
-			default:  lx_ungetc(lx, c); lx_dynpop(lx->buf_opaque); return TOK_IDENT;
+			default:  lx_ungetc(lx, c); if (lx->push != NULL) { lx_dynpop(lx->buf_opaque); } return TOK_IDENT;
 			}
 			break;
 
 		case S4: /* e.g. "&" */
-			lx_ungetc(lx, c); lx_dynpop(lx->buf_opaque); return TOK_AND;
+			lx_ungetc(lx, c); if (lx->push != NULL) { lx_dynpop(lx->buf_opaque); } return TOK_AND;
 
 		case S5: /* e.g. "|" */
-			lx_ungetc(lx, c); lx_dynpop(lx->buf_opaque); return TOK_PIPE;
+			lx_ungetc(lx, c); if (lx->push != NULL) { lx_dynpop(lx->buf_opaque); } return TOK_PIPE;
 
 		case S6: /* e.g. "." */
 			switch ((unsigned char) c) {
 			case '.': state = S27; break;
-			default:  lx_ungetc(lx, c); lx_dynpop(lx->buf_opaque); return TOK_DOT;
+			default:  lx_ungetc(lx, c); if (lx->push != NULL) { lx_dynpop(lx->buf_opaque); } return TOK_DOT;
 			}
 			break;
 
 		case S7: /* e.g. "-" */
 			switch ((unsigned char) c) {
 			case '>': state = S26; break;
-			default:  lx_ungetc(lx, c); lx_dynpop(lx->buf_opaque); return TOK_DASH;
+			default:  lx_ungetc(lx, c); if (lx->push != NULL) { lx_dynpop(lx->buf_opaque); } return TOK_DASH;
 			}
 			break;
 
 		case S8: /* e.g. "\\" */
-			lx_ungetc(lx, c); lx_dynpop(lx->buf_opaque); return TOK_DASH;
+			lx_ungetc(lx, c); if (lx->push != NULL) { lx_dynpop(lx->buf_opaque); } return TOK_DASH;
 
 		case S9: /* e.g. "^" */
-			lx_ungetc(lx, c); lx_dynpop(lx->buf_opaque); return TOK_HAT;
+			lx_ungetc(lx, c); if (lx->push != NULL) { lx_dynpop(lx->buf_opaque); } return TOK_HAT;
 
 		case S10: /* e.g. "!" */
-			lx_ungetc(lx, c); lx_dynpop(lx->buf_opaque); return TOK_BANG;
+			lx_ungetc(lx, c); if (lx->push != NULL) { lx_dynpop(lx->buf_opaque); } return TOK_BANG;
 
 		case S11: /* e.g. "~" */
-			lx_ungetc(lx, c); lx_dynpop(lx->buf_opaque); return TOK_TILDE;
+			lx_ungetc(lx, c); if (lx->push != NULL) { lx_dynpop(lx->buf_opaque); } return TOK_TILDE;
 
 		case S12: /* e.g. "\077" */
-			lx_ungetc(lx, c); lx_dynpop(lx->buf_opaque); return TOK_QMARK;
+			lx_ungetc(lx, c); if (lx->push != NULL) { lx_dynpop(lx->buf_opaque); } return TOK_QMARK;
 
 		case S13: /* e.g. "+" */
-			lx_ungetc(lx, c); lx_dynpop(lx->buf_opaque); return TOK_CROSS;
+			lx_ungetc(lx, c); if (lx->push != NULL) { lx_dynpop(lx->buf_opaque); } return TOK_CROSS;
 
 		case S14: /* e.g. "*" */
-			lx_ungetc(lx, c); lx_dynpop(lx->buf_opaque); return TOK_STAR;
+			lx_ungetc(lx, c); if (lx->push != NULL) { lx_dynpop(lx->buf_opaque); } return TOK_STAR;
 
 		case S15: /* e.g. ")" */
-			lx_ungetc(lx, c); lx_dynpop(lx->buf_opaque); return TOK_RPAREN;
+			lx_ungetc(lx, c); if (lx->push != NULL) { lx_dynpop(lx->buf_opaque); } return TOK_RPAREN;
 
 		case S16: /* e.g. "(" */
-			lx_ungetc(lx, c); lx_dynpop(lx->buf_opaque); return TOK_LPAREN;
+			lx_ungetc(lx, c); if (lx->push != NULL) { lx_dynpop(lx->buf_opaque); } return TOK_LPAREN;
 
 		case S17: /* e.g. "}" */
-			lx_ungetc(lx, c); lx_dynpop(lx->buf_opaque); return TOK_CLOSE;
+			lx_ungetc(lx, c); if (lx->push != NULL) { lx_dynpop(lx->buf_opaque); } return TOK_CLOSE;
 
 		case S18: /* e.g. "{" */
-			lx_ungetc(lx, c); lx_dynpop(lx->buf_opaque); return TOK_OPEN;
+			lx_ungetc(lx, c); if (lx->push != NULL) { lx_dynpop(lx->buf_opaque); } return TOK_OPEN;
 
 		case S19: /* e.g. ";" */
-			lx_ungetc(lx, c); lx_dynpop(lx->buf_opaque); return TOK_SEMI;
+			lx_ungetc(lx, c); if (lx->push != NULL) { lx_dynpop(lx->buf_opaque); } return TOK_SEMI;
 
 		case S20: /* e.g. "=" */
-			lx_ungetc(lx, c); lx_dynpop(lx->buf_opaque); return TOK_BIND;
+			lx_ungetc(lx, c); if (lx->push != NULL) { lx_dynpop(lx->buf_opaque); } return TOK_BIND;
 
 		case S21: /* e.g. "\057" */
-			lx_ungetc(lx, c); lx_dynpop(lx->buf_opaque); return lx->z = z0, lx->z(lx);
+			lx_ungetc(lx, c); if (lx->push != NULL) { lx_dynpop(lx->buf_opaque); } return lx->z = z0, lx->again = 1, TOK_UNKNOWN;
 
 		case S22: /* e.g. "\"" */
-			lx_ungetc(lx, c); lx_dynpop(lx->buf_opaque); return lx->z = z1, lx->z(lx);
+			lx_ungetc(lx, c); if (lx->push != NULL) { lx_dynpop(lx->buf_opaque); } return lx->z = z1, lx->again = 1, TOK_UNKNOWN;
 
 		case S23: /* e.g. "'" */
-			lx_ungetc(lx, c); lx_dynpop(lx->buf_opaque); return lx->z = z2, lx->z(lx);
+			lx_ungetc(lx, c); if (lx->push != NULL) { lx_dynpop(lx->buf_opaque); } return lx->z = z2, lx->again = 1, TOK_UNKNOWN;
 
 		case S24: /* e.g. "#" */
-			lx_ungetc(lx, c); lx_dynpop(lx->buf_opaque); return lx->z = z3, lx->z(lx);
+			lx_ungetc(lx, c); if (lx->push != NULL) { lx_dynpop(lx->buf_opaque); } return lx->z = z3, lx->again = 1, TOK_UNKNOWN;
 
 		case S25: /* e.g. "\\x09" */
 			switch ((unsigned char) c) {
@@ -941,15 +942,15 @@ z4(struct lx *lx)
 			case '\n':
 			case '\r':
 			case ' ': break;
-			default:  lx_ungetc(lx, c); lx_dynpop(lx->buf_opaque); return lx->z(lx);
+			default:  lx_ungetc(lx, c); if (lx->push != NULL) { lx_dynpop(lx->buf_opaque); } return lx->again = 1, TOK_UNKNOWN;
 			}
 			break;
 
 		case S26: /* e.g. "->" */
-			lx_ungetc(lx, c); lx_dynpop(lx->buf_opaque); return TOK_MAP;
+			lx_ungetc(lx, c); if (lx->push != NULL) { lx_dynpop(lx->buf_opaque); } return TOK_MAP;
 
 		case S27: /* e.g. ".." */
-			lx_ungetc(lx, c); lx_dynpop(lx->buf_opaque); return TOK_TO;
+			lx_ungetc(lx, c); if (lx->push != NULL) { lx_dynpop(lx->buf_opaque); } return TOK_TO;
 
 		case S28: /* e.g. "$A" */
 			switch ((unsigned char) c) {
@@ -1016,7 +1017,7 @@ z4(struct lx *lx)
 			case 'x':
 			case 'y':
 			case 'z': break;
-			default:  lx_ungetc(lx, c); lx_dynpop(lx->buf_opaque); return TOK_TOKEN;
+			default:  lx_ungetc(lx, c); if (lx->push != NULL) { lx_dynpop(lx->buf_opaque); } return TOK_TOKEN;
 			}
 			break;
 
@@ -1046,17 +1047,17 @@ z4(struct lx *lx)
 	case S18: return TOK_OPEN;
 	case S19: return TOK_SEMI;
 	case S20: return TOK_BIND;
-	case S21: return lx->z = z0, lx->z(lx);
-	case S22: return lx->z = z1, lx->z(lx);
-	case S23: return lx->z = z2, lx->z(lx);
-	case S24: return lx->z = z3, lx->z(lx);
+	case S21: return lx->z = z0, lx->again = 1, TOK_UNKNOWN;
+	case S22: return lx->z = z1, lx->again = 1, TOK_UNKNOWN;
+	case S23: return lx->z = z2, lx->again = 1, TOK_UNKNOWN;
+	case S24: return lx->z = z3, lx->again = 1, TOK_UNKNOWN;
 	case S25: return TOK_EOF;
 	case S26: return TOK_MAP;
 	case S27: return TOK_TO;
 	case S28: return TOK_TOKEN;
 	default: 
 				if (!has_consumed_input) { return TOK_EOF; }
-				lx_ungetc(lx, c); lx->lgetc = NULL; return TOK_UNKNOWN;
+				if (c != EOF) { lx_ungetc(lx, c); } lx->lgetc = NULL; return TOK_UNKNOWN;
 	}
 
 		switch (state) {
@@ -1130,161 +1131,56 @@ lx_example(enum lx_token (*z)(struct lx *), enum lx_token t)
 
 	if (z == z0) {
 		switch (t) {
-		case TOK_COMMA: return "";
-		case TOK_TOKEN: return "";
-		case TOK_IDENT: return "";
-		case TOK_AND: return "";
-		case TOK_PIPE: return "";
-		case TOK_DOT: return "";
-		case TOK_DASH: return "";
-		case TOK_HAT: return "";
-		case TOK_BANG: return "";
-		case TOK_TILDE: return "";
-		case TOK_QMARK: return "";
-		case TOK_CROSS: return "";
-		case TOK_STAR: return "";
-		case TOK_RPAREN: return "";
-		case TOK_LPAREN: return "";
-		case TOK_CLOSE: return "";
-		case TOK_OPEN: return "";
-		case TOK_MAP: return "";
-		case TOK_TO: return "";
-		case TOK_SEMI: return "";
-		case TOK_BIND: return "";
-		case TOK_RE: return "";
-		case TOK_HEX: return "";
-		case TOK_OCT: return "";
-		case TOK_ESC: return "";
-		case TOK_CHAR: return "";
-		case TOK_STR: return "";
+		case TOK_RE: return "\057";
+		case TOK_CHAR: return "\\x00";
 		default: goto error;
 		}
 	} else
 	if (z == z1) {
 		switch (t) {
-		case TOK_COMMA: return "";
-		case TOK_TOKEN: return "";
-		case TOK_IDENT: return "";
-		case TOK_AND: return "";
-		case TOK_PIPE: return "";
-		case TOK_DOT: return "";
-		case TOK_DASH: return "";
-		case TOK_HAT: return "";
-		case TOK_BANG: return "";
-		case TOK_TILDE: return "";
-		case TOK_QMARK: return "";
-		case TOK_CROSS: return "";
-		case TOK_STAR: return "";
-		case TOK_RPAREN: return "";
-		case TOK_LPAREN: return "";
-		case TOK_CLOSE: return "";
-		case TOK_OPEN: return "";
-		case TOK_MAP: return "";
-		case TOK_TO: return "";
-		case TOK_SEMI: return "";
-		case TOK_BIND: return "";
-		case TOK_RE: return "";
-		case TOK_HEX: return "";
-		case TOK_OCT: return "";
-		case TOK_ESC: return "";
-		case TOK_CHAR: return "";
-		case TOK_STR: return "";
+		case TOK_HEX: return "\\x0";
+		case TOK_OCT: return "\\0";
+		case TOK_ESC: return "\\\"";
+		case TOK_CHAR: return "\\";
+		case TOK_STR: return "\"";
 		default: goto error;
 		}
 	} else
 	if (z == z2) {
 		switch (t) {
-		case TOK_COMMA: return "";
-		case TOK_TOKEN: return "";
-		case TOK_IDENT: return "";
-		case TOK_AND: return "";
-		case TOK_PIPE: return "";
-		case TOK_DOT: return "";
-		case TOK_DASH: return "";
-		case TOK_HAT: return "";
-		case TOK_BANG: return "";
-		case TOK_TILDE: return "";
-		case TOK_QMARK: return "";
-		case TOK_CROSS: return "";
-		case TOK_STAR: return "";
-		case TOK_RPAREN: return "";
-		case TOK_LPAREN: return "";
-		case TOK_CLOSE: return "";
-		case TOK_OPEN: return "";
-		case TOK_MAP: return "";
-		case TOK_TO: return "";
-		case TOK_SEMI: return "";
-		case TOK_BIND: return "";
-		case TOK_RE: return "";
-		case TOK_HEX: return "";
-		case TOK_OCT: return "";
-		case TOK_ESC: return "";
-		case TOK_CHAR: return "";
-		case TOK_STR: return "";
+		case TOK_CHAR: return "\\x00";
+		case TOK_STR: return "'";
 		default: goto error;
 		}
 	} else
 	if (z == z3) {
 		switch (t) {
-		case TOK_COMMA: return "";
-		case TOK_TOKEN: return "";
-		case TOK_IDENT: return "";
-		case TOK_AND: return "";
-		case TOK_PIPE: return "";
-		case TOK_DOT: return "";
-		case TOK_DASH: return "";
-		case TOK_HAT: return "";
-		case TOK_BANG: return "";
-		case TOK_TILDE: return "";
-		case TOK_QMARK: return "";
-		case TOK_CROSS: return "";
-		case TOK_STAR: return "";
-		case TOK_RPAREN: return "";
-		case TOK_LPAREN: return "";
-		case TOK_CLOSE: return "";
-		case TOK_OPEN: return "";
-		case TOK_MAP: return "";
-		case TOK_TO: return "";
-		case TOK_SEMI: return "";
-		case TOK_BIND: return "";
-		case TOK_RE: return "";
-		case TOK_HEX: return "";
-		case TOK_OCT: return "";
-		case TOK_ESC: return "";
-		case TOK_CHAR: return "";
-		case TOK_STR: return "";
 		default: goto error;
 		}
 	} else
 	if (z == z4) {
 		switch (t) {
-		case TOK_COMMA: return "";
-		case TOK_TOKEN: return "";
-		case TOK_IDENT: return "";
-		case TOK_AND: return "";
-		case TOK_PIPE: return "";
-		case TOK_DOT: return "";
-		case TOK_DASH: return "";
-		case TOK_HAT: return "";
-		case TOK_BANG: return "";
-		case TOK_TILDE: return "";
-		case TOK_QMARK: return "";
-		case TOK_CROSS: return "";
-		case TOK_STAR: return "";
-		case TOK_RPAREN: return "";
-		case TOK_LPAREN: return "";
-		case TOK_CLOSE: return "";
-		case TOK_OPEN: return "";
-		case TOK_MAP: return "";
-		case TOK_TO: return "";
-		case TOK_SEMI: return "";
-		case TOK_BIND: return "";
-		case TOK_RE: return "";
-		case TOK_HEX: return "";
-		case TOK_OCT: return "";
-		case TOK_ESC: return "";
-		case TOK_CHAR: return "";
-		case TOK_STR: return "";
+		case TOK_COMMA: return ",";
+		case TOK_TOKEN: return "$A";
+		case TOK_IDENT: return "A";
+		case TOK_AND: return "&";
+		case TOK_PIPE: return "|";
+		case TOK_DOT: return ".";
+		case TOK_DASH: return "-";
+		case TOK_HAT: return "^";
+		case TOK_BANG: return "!";
+		case TOK_TILDE: return "~";
+		case TOK_QMARK: return "\077";
+		case TOK_CROSS: return "+";
+		case TOK_STAR: return "*";
+		case TOK_RPAREN: return ")";
+		case TOK_LPAREN: return "(";
+		case TOK_CLOSE: return "}";
+		case TOK_OPEN: return "{";
+		case TOK_MAP: return "->";
+		case TOK_TO: return "..";
+		case TOK_SEMI: return ";";
+		case TOK_BIND: return "=";
 		default: goto error;
 		}
 	}
@@ -1325,9 +1221,12 @@ lx_next(struct lx *lx)
 		return TOK_EOF;
 	}
 
-	t = lx->z(lx);
+	do {
+		lx->again = 0;
+		t = lx->z(lx);
+	} while (lx->again);
 
-	if (lx->push_failed) {
+	if (lx->push_failed || lx->read_failed) {
 		lx->lgetc = NULL;
 		return TOK_ERROR;
 	}
diff --git a/src/lx/lexer.h b/src/lx/lexer.h
index af90609..8a22d98 100644
--- a/src/lx/lexer.h
+++ b/src/lx/lexer.h
@@ -52,6 +52,7 @@ struct lx {
 	void *getc_opaque;
 
 	int c; /* lx_ungetc buffer */
+	int read_failed; /* .lgetc gave EOF for an error */
 
 	struct lx_pos start;
 	struct lx_pos end;
@@ -63,6 +64,7 @@ struct lx {
 	int push_failed; /* nothing could be stored for the last character */
 
 	enum lx_token (*z)(struct lx *lx);
+	int again; /* .z gave no token, and is to be called again */
 };
 
 /*
-- 
2.43.0


From 0cc4ce7babb130ba5c3f915a82620171f60ecbc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:27 +0000
Subject: [PATCH 104/142] fix: write hexadecimal constants NASM takes for
 numbers

A constant like ffh which begins with a letter is a symbol to NASM.
---
 src/libfsm/print/vmasm.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libfsm/print/vmasm.c b/src/libfsm/print/vmasm.c
index bf55514..7df0c5b 100644
--- a/src/libfsm/print/vmasm.c
+++ b/src/libfsm/print/vmasm.c
@@ -241,7 +241,7 @@ print_asm_amd64(FILE *f,
 							break;
 
 						case AMD64_NASM:
-							fprintf(f, "\tCMP   %s,%02xh\n", chr_reg, (unsigned)op->cmp_arg);
+							fprintf(f, "\tCMP   %s, 0x%02x\n", chr_reg, (unsigned)op->cmp_arg);
 							break;
 
 						case AMD64_GO:
@@ -311,7 +311,7 @@ print_asm_amd64(FILE *f,
 						break;
 
 					case AMD64_NASM:
-						fprintf(f, "\tCMP   %s, %02xh\n", chr_reg, (unsigned)op->cmp_arg);
+						fprintf(f, "\tCMP   %s, 0x%02x\n", chr_reg, (unsigned)op->cmp_arg);
 						break;
 
 					case AMD64_GO:
-- 
2.43.0


From d30a974b70acd79feda46b40dd67578c5a747273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:25 +0000
Subject: [PATCH 105/142] fix: end a Rust return statement where unreachable
 code follows

Code for states which can't be reached follows without a label, and
so the return isn't the last expression of its block.
---
 src/libfsm/print/rust.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libfsm/print/rust.c b/src/libfsm/print/rust.c
index a200a17..cf249c2 100644
--- a/src/libfsm/print/rust.c
+++ b/src/libfsm/print/rust.c
@@ -364,6 +364,7 @@ fsm_print_rustfrag(FILE *f,
 			if (-1 == print_end(f, op, opt, hooks, retlist, op->u.stop.end_bits)) {
 				return -1;
 			}
+			fprintf(f, ";");
 			if (op->cmp != VM_CMP_ALWAYS) {
 				fprintf(f, " }");
 			}
-- 
2.43.0


From ad206459c1696f3c9b4dbeaea758a42b555934cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:37 +0000
Subject: [PATCH 106/142] fix: write a zero byte in hexadecimal for LLVM, too

The # flag gives no prefix for zero.
---
 src/print/llvm.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/print/llvm.c b/src/print/llvm.c
index ab0c697..63fc48b 100644
--- a/src/print/llvm.c
+++ b/src/print/llvm.c
@@ -22,7 +22,7 @@ llvm_escputc_char(FILE *f, const struct fsm_options *opt, char c)
 	assert(opt != NULL);
 
 	if (opt->always_hex) {
-		return fprintf(f, "u%#02x", (unsigned char) c);
+		return fprintf(f, "u0x%02x", (unsigned char) c);
 	}
 
 	return fprintf(f, "%u", (unsigned char) c);
@@ -35,7 +35,7 @@ llvm_escputcharlit(FILE *f, const struct fsm_options *opt, char c)
 	assert(opt != NULL);
 
 	if (opt->always_hex || (unsigned char) c > SCHAR_MAX) {
-		fprintf(f, "u%#02x", (unsigned char) c);
+		fprintf(f, "u0x%02x", (unsigned char) c);
 		return;
 	}
 
-- 
2.43.0


From b5afde3f0743a9bfbf943fa9ba341e1961034954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:47 +0000
Subject: [PATCH 107/142] fix: don't use strncmp() for a literal which contains
 a zero byte

The comparison stops at the zero byte and so an input which ends there
was taken to have matched the rest, and reading went on past its end.
---
 src/libfsm/print/vmc.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/libfsm/print/vmc.c b/src/libfsm/print/vmc.c
index 508a95b..81e814a 100644
--- a/src/libfsm/print/vmc.c
+++ b/src/libfsm/print/vmc.c
@@ -477,7 +477,11 @@ fsm_print_cfrag(FILE *f,
 				fprintf(f, "p += %zu;\n", n);
 
 				op = tail;
-			} else if (n > 1 && opt->io == FSM_IO_STR) {
+			} else if (n > 1 && opt->io == FSM_IO_STR && memchr(buf, '\0', n) == NULL) {
+				/*
+				 * strncmp() would stop at '\0' and so take the end of the string
+				 * for a literal which contains that.
+				 */
 				fprintf(f, "if (0 != strncmp(p, \"");
 				escputbuf(f, opt, c_escputc_str, buf, n);
 				fprintf(f, "\", %zu)) ", n);
-- 
2.43.0


From 603f8940dcc8423f9800207f238409e3333de84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:32 +0000
Subject: [PATCH 108/142] fix: name a Go assembly function by its prefix for
 string input, too

---
 src/libfsm/print/vmasm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libfsm/print/vmasm.c b/src/libfsm/print/vmasm.c
index 7df0c5b..a7801e3 100644
--- a/src/libfsm/print/vmasm.c
+++ b/src/libfsm/print/vmasm.c
@@ -168,7 +168,7 @@ print_asm_amd64(FILE *f,
 			if (opt->comments) {
 				fprintf(f, "// func %s%s(data string) int\n", prefix, "Match");
 			}
-			fprintf(f, "TEXT    ·%s(SB), NOSPLIT, $0-24\n", "Match");
+			fprintf(f, "TEXT    ·%s%s(SB), NOSPLIT, $0-24\n", prefix, "Match");
 			break;
 
 		case FSM_IO_PAIR:
-- 
2.43.0


From a3562052e8d5e6f70d3fe91d9d78955ff9963966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:58 +0000
Subject: [PATCH 109/142] fix: fall through from the start of a shell script to
 its first label

---
 src/libfsm/print/sh.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/libfsm/print/sh.c b/src/libfsm/print/sh.c
index 5322e4f..bc73f37 100644
--- a/src/libfsm/print/sh.c
+++ b/src/libfsm/print/sh.c
@@ -298,9 +298,8 @@ fsm_print_sh(FILE *f,
 
 	for (op = ops; op != NULL; op = op->next) {
 		if (op->num_incoming > 0) {
-			if (op != ops) {
-				fprintf(f, "\t\t;&\n");
-			}
+			/* falling through, including from the start) case */
+			fprintf(f, "\t\t;&\n");
 
 			fprintf(f, "\t");
 			print_label(f, op, opt);
-- 
2.43.0


From 7e6307155260bb32156283c23a6854e67ca1b8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:58 +0000
Subject: [PATCH 110/142] fix: quote an apostrophe in a shell script

---
 src/libfsm/print/sh.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libfsm/print/sh.c b/src/libfsm/print/sh.c
index bc73f37..ae0526d 100644
--- a/src/libfsm/print/sh.c
+++ b/src/libfsm/print/sh.c
@@ -179,7 +179,7 @@ print_cond(FILE *f, const struct dfavm_op_ir *op)
 			fprintf(f, " || $c %s ''", str_operator(VM_CMP_EQ));
 		}
 	} else if (c == '\'') {
-		fprintf(f, "$c %s \'", str_operator(op->cmp));
+		fprintf(f, "$c %s \\'", str_operator(op->cmp));
 		if (op->cmp == VM_CMP_LE || op->cmp == VM_CMP_GE) {
 			fprintf(f, " || $c %s \\'", str_operator(VM_CMP_EQ));
 		}
-- 
2.43.0


From 9a642da1cb51ff89c36789ee921b1c75c7832052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:50 +0000
Subject: [PATCH 111/142] fix: keep more than 65536 far branches of a program
 apart

The address table of a version 2 program is indexed by 16 bits of the
instruction, and got one entry per branch. The index wrapped around in
programs with more far branches than that, which then jumped elsewhere.
Share the entries between branches to the same place, and refuse a
program which needs too many nevertheless.
---
 src/libfsm/vm/v2.c | 67 +++++++++++++++++++++++++++++++---------------
 1 file changed, 45 insertions(+), 22 deletions(-)

diff --git a/src/libfsm/vm/v2.c b/src/libfsm/vm/v2.c
index a99eadd..073c152 100644
--- a/src/libfsm/vm/v2.c
+++ b/src/libfsm/vm/v2.c
@@ -9,6 +9,7 @@
 #include <stdlib.h>
 #include <stdio.h>
 #include <ctype.h>
+#include <errno.h>
 #include <inttypes.h>
 
 #include <fsm/fsm.h>
@@ -38,8 +39,11 @@ encode_opasm_v2(const struct dfavm_vm_op *instr, size_t ninstr)
 	size_t i;
 	uint32_t *enc;
 	uint32_t *abuf;
+	uint32_t *aindex; /* 1 + address table index, by destination */
 	uint32_t alen,acap;
 
+	aindex = NULL;
+
 	ret = malloc(sizeof *ret);
 	if (ret == NULL) {
 		goto error;
@@ -60,6 +64,11 @@ encode_opasm_v2(const struct dfavm_vm_op *instr, size_t ninstr)
 	vm->ops = enc;
 	vm->len = ninstr;
 
+	aindex = calloc(ninstr, sizeof *aindex);
+	if (aindex == NULL) {
+		goto error;
+	}
+
 	abuf = NULL;
 	alen = 0;
 	acap = 0;
@@ -100,35 +109,46 @@ encode_opasm_v2(const struct dfavm_vm_op *instr, size_t ninstr)
 					/* allocate address in address table */
 					instr_bits = VM_V2_OP_IBRANCH;
 
-					if (alen >= acap) {
-						size_t new_acap;
-						uint32_t *new_abuf;
-
-						if (acap < 16) {
-							new_acap = 16;
-						} else if (acap < 1024) {
-							new_acap = acap * 2;
-						} else {
-							new_acap = acap + acap/2;
+					assert(dest_state < ninstr);
+					if (aindex[dest_state] == 0) {
+						/* the index has to fit in the instruction */
+						if (alen > UINT16_MAX) {
+							errno = ERANGE;
+							goto error;
 						}
 
-						new_abuf = realloc(abuf, new_acap * sizeof abuf[0]);
-						if (new_abuf == NULL) {
-							goto error;
+						if (alen >= acap) {
+							size_t new_acap;
+							uint32_t *new_abuf;
+
+							if (acap < 16) {
+								new_acap = 16;
+							} else if (acap < 1024) {
+								new_acap = acap * 2;
+							} else {
+								new_acap = acap + acap/2;
+							}
+
+							new_abuf = realloc(abuf, new_acap * sizeof abuf[0]);
+							if (new_abuf == NULL) {
+								goto error;
+							}
+
+							abuf = new_abuf;
+							acap = new_acap;
+
+							vm->abuf = new_abuf;
 						}
 
-						abuf = new_abuf;
-						acap = new_acap;
+						assert(alen < acap);
+						assert(abuf != NULL);
 
-						vm->abuf = new_abuf;
+						abuf[alen] = dest_state;
+						vm->alen = ++alen;
+						aindex[dest_state] = alen;
 					}
 
-					assert(alen < acap);
-					assert(abuf != NULL);
-
-					abuf[alen] = dest_state;
-					dest_arg = alen++;
-					vm->alen = alen;
+					dest_arg = aindex[dest_state] - 1;
 				}
 
 				cmp_bits   = op->cmp;
@@ -154,9 +174,12 @@ encode_opasm_v2(const struct dfavm_vm_op *instr, size_t ninstr)
 		enc[i] = instr;
 	}
 
+	free(aindex);
+
 	return ret;
 
 error:
+	free(aindex);
 	if (ret != NULL) {
 		free(ret->u.v2.ops);
 		free(ret->u.v2.abuf);
-- 
2.43.0


From 6954a436e26eb6209bef77db5aa7b0620167c4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:01 +0000
Subject: [PATCH 112/142] fix: retest, reperf: don't free the fsm twice when
 compiling for the VM fails

---
 src/retest/runner.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/retest/runner.c b/src/retest/runner.c
index 49cd611..756550f 100644
--- a/src/retest/runner.c
+++ b/src/retest/runner.c
@@ -430,7 +430,6 @@ fsm_runner_initialize(struct fsm *fsm, const struct fsm_options *opt,
 	case IMPL_INTERPRET:
 		vm = fsm_vm_compile_with_options(fsm, opt, vm_opts);
 		if (vm == NULL) {
-			fsm_free(fsm);
 			return ERROR_COMPILING_BYTECODE;
 		}
 		r->impl = impl;
-- 
2.43.0


From 64878ebf2c2f0ce0b62368386c342bb55918f2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:01 +0000
Subject: [PATCH 113/142] fix: retest: an error reading a test file is an error
 wherever in the file it is

---
 src/retest/main.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/retest/main.c b/src/retest/main.c
index 0885032..d538b95 100644
--- a/src/retest/main.c
+++ b/src/retest/main.c
@@ -1157,9 +1157,7 @@ process_test_file(const char *filename,
 
 	if (ferror(f)) {
 		fprintf(stderr, "line %d: error reading %s: %s\n", linenum, filename, strerror(errno));
-		if (regexp != NULL) {
-			num_errors++;
-		}
+		num_errors++;
 	}
 
 	fclose(f);
-- 
2.43.0


From 825e8cccb424d1ef3b11a16cc6427e724a80ec57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:01 +0000
Subject: [PATCH 114/142] fix: retest: exit unsuccessfully when standard output
 can't be written

---
 src/retest/main.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/retest/main.c b/src/retest/main.c
index d538b95..ed5fbdc 100644
--- a/src/retest/main.c
+++ b/src/retest/main.c
@@ -1207,6 +1207,16 @@ io(const char *name)
 	exit(EXIT_FAILURE);
 }
 
+static void
+flush_stdout(void)
+{
+	/* output may still be buffered, and is lost if this fails */
+	if (fflush(stdout) == EOF || ferror(stdout)) {
+		perror("stdout");
+		_exit(EXIT_FAILURE);
+	}
+}
+
 int
 main(int argc, char *argv[])
 {
@@ -1231,6 +1241,9 @@ main(int argc, char *argv[])
 
 	max_test_errors = 0;
 
+	/* for each child, too */
+	atexit(flush_stdout);
+
 	/* because we fork() for each test file */
 	setvbuf(stderr, NULL, _IOLBF, BUFSIZ);
 
-- 
2.43.0


From bdb512cb025c5e66631e10f4fa67456d245933e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:40 +0000
Subject: [PATCH 115/142] fix: cvtpcre: exit unsuccessfully when buffered
 output can't be written

---
 src/retest/cvtpcre.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/retest/cvtpcre.c b/src/retest/cvtpcre.c
index d35b845..2e75442 100644
--- a/src/retest/cvtpcre.c
+++ b/src/retest/cvtpcre.c
@@ -800,7 +800,8 @@ skip:
 		exit(EXIT_FAILURE);
 	}
 
-	if (ferror(out)) {
+	/* output is often buffered until now */
+	if (ferror(out) | (fclose(out) == EOF)) {
 		perror("writing output");
 		exit(EXIT_FAILURE);
 	}
-- 
2.43.0


From dc300371dbff75ab78ae9a3bb511b6afb633c165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:40 +0000
Subject: [PATCH 116/142] fix: cvtpcre: don't leave out a pattern as
 unsupported when memory ran out

---
 src/retest/cvtpcre.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/retest/cvtpcre.c b/src/retest/cvtpcre.c
index 2e75442..2b4d4a4 100644
--- a/src/retest/cvtpcre.c
+++ b/src/retest/cvtpcre.c
@@ -613,6 +613,11 @@ restart:
 
 						fsm = re_comp(RE_PCRE, fsm_sgetc, &re, NULL, mods, &comp_err);
 						re_ok = (fsm != NULL);
+						if (!re_ok && comp_err.e == RE_EERRNO) {
+							/* this says nothing about the regexp */
+							perror("re_comp");
+							exit(EXIT_FAILURE);
+						}
 						if (re_ok) {
 							fsm_free(fsm);
 							nparsed++;
-- 
2.43.0


From 8d29115bb3c7c4f6b0428d6390b2d7ff2b4af314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:40 +0000
Subject: [PATCH 117/142] fix: reperf: don't finalize a runner that wasn't
 initialised for -H

---
 src/retest/reperf.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/retest/reperf.c b/src/retest/reperf.c
index 4536bcf..0db5257 100644
--- a/src/retest/reperf.c
+++ b/src/retest/reperf.c
@@ -794,10 +794,10 @@ perf_case_run(struct perf_case *c, enum halt halt,
 		}
 	}
 
-done:
-
 	fsm_runner_finalize(&runner);
 
+done:
+
 	return ret;
 }
 
-- 
2.43.0


From 4bfeee281fc5b70a8a0af561cb56b02f7abbc810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:40 +0000
Subject: [PATCH 118/142] fix: reperf: diagnose X without a regexp, and N
 without any iterations

---
 src/retest/reperf.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/retest/reperf.c b/src/retest/reperf.c
index 0db5257..fa0282f 100644
--- a/src/retest/reperf.c
+++ b/src/retest/reperf.c
@@ -302,6 +302,7 @@ perf_case_init(struct perf_case *c, enum implementation impl)
 	c->dialect   = RE_NATIVE;
 	c->mt        = MATCH_NONE;
 	c->impl      = impl;
+	c->line      = 0;
 
 	c->expected_matches = 1;
 }
@@ -500,7 +501,7 @@ parse_perf_case(FILE *f, enum implementation impl, enum halt halt, int quiet, in
 				long n;
 				char *ep = NULL;
 				n = strtol(b, &ep, 10);
-				if (*b == '\0' || *ep != '\0') {
+				if (*b == '\0' || *ep != '\0' || (s[0] == 'N' && n < 1)) {
 					fprintf(stderr, "line %zu: invalid '%c' argument '%s'\n", line, s[0], b);
 					exit(EXIT_FAILURE);
 				}
@@ -519,6 +520,11 @@ parse_perf_case(FILE *f, enum implementation impl, enum halt halt, int quiet, in
 			break;
 
 		case 'X':
+			if (c.regexp.data == NULL) {
+				fprintf(stderr, "line %zu: no regexp\n", line);
+				exit(EXIT_FAILURE);
+			}
+
 			if (echo) {
 				fprintf(stderr, "ECHO::: EXECUTING\n");
 			}
-- 
2.43.0


From 2b0ece35f7e9e77fb8b9ea42ae7e2096e6d93061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:40 +0000
Subject: [PATCH 119/142] fix: reperf: exit unsuccessfully when a case can't be
 run, or on errors for input or output

---
 src/retest/reperf.c | 52 +++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 48 insertions(+), 4 deletions(-)

diff --git a/src/retest/reperf.c b/src/retest/reperf.c
index fa0282f..3d397d3 100644
--- a/src/retest/reperf.c
+++ b/src/retest/reperf.c
@@ -344,10 +344,12 @@ parse_perf_case(FILE *f, enum implementation impl, enum halt halt, int quiet, in
 	char lastcmd;
 	struct perf_case c;
 	struct str *scont;
+	int r;
 	enum error_type err;
 	struct timing t;
 
 	scont = NULL;
+	r = 0;
 	line = 0;
 	lastcmd = 0;
 	perf_case_init(&c, impl);
@@ -536,6 +538,19 @@ parse_perf_case(FILE *f, enum implementation impl, enum halt halt, int quiet, in
 			}
 
 			err = perf_case_run(&c, halt, &t);
+			switch (err) {
+			case ERROR_NONE:
+			case ERROR_PARSING_REGEXP:
+			case ERROR_SHOULD_MATCH:
+			case ERROR_SHOULD_NOT_MATCH:
+				/* these are reported for each case */
+				break;
+
+			default:
+				/* the case couldn't be run */
+				r = -1;
+				break;
+			}
 			if (tsv) {
 				perf_case_report_tsv(&c, halt, err, quiet, &t);
 			} else {
@@ -565,7 +580,12 @@ parse_perf_case(FILE *f, enum implementation impl, enum halt halt, int quiet, in
 	free(buf);
 	perf_case_finalize(&c);
 
-	return 0;
+	if (ferror(f)) {
+		fprintf(stderr, "line %zu: error reading driver file: %s\n", line, strerror(errno));
+		return -1;
+	}
+
+	return r;
 }
 
 static int
@@ -611,9 +631,12 @@ read_file(const char *path, struct str *contents)
 	contents->cap = cap;
 
 	if (ferror(f)) {
+		fclose(f);
 		return -1;
 	}
 
+	fclose(f);
+
 	return 0;
 }
 
@@ -696,6 +719,11 @@ perf_case_run(struct perf_case *c, enum halt halt,
 
 			fsm = re_comp(c->dialect, fsm_sgetc, &re, alloc, flags, &comp_err);
 			if (fsm == NULL) {
+				if (comp_err.e == RE_EERRNO) {
+					/* this says nothing about the regexp */
+					perror("re_comp");
+					exit(EXIT_FAILURE);
+				}
 				return ERROR_PARSING_REGEXP;
 			}
 
@@ -1079,6 +1107,16 @@ usage(void)
 	fprintf(stderr, "                 v2        version 0.2 fixed length encoding\n");
 }
 
+static void
+flush_stdout(void)
+{
+	/* output may still be buffered, and is lost if this fails */
+	if (fflush(stdout) == EOF || ferror(stdout)) {
+		perror("stdout");
+		_exit(EXIT_FAILURE);
+	}
+}
+
 static FILE *
 xopen(const char *s)
 {
@@ -1108,7 +1146,7 @@ enum parse_escape_result {
 int
 main(int argc, char *argv[])
 {
-	int i;
+	int i, r;
 	int pause, quiet, tsv;
 	enum implementation impl;
 	enum halt halt;
@@ -1117,6 +1155,8 @@ main(int argc, char *argv[])
 
 	(void)str_init;
 
+	atexit(flush_stdout);
+
 	/* note these defaults are the opposite than for fsm(1) */
 	opt.anonymous_states  = 1;
 	opt.consolidate_edges = 1;
@@ -1283,11 +1323,15 @@ main(int argc, char *argv[])
 		perf_case_report_head(quiet, halt);
 	}
 
+	r = EXIT_SUCCESS;
+
 	for (i=0; i < argc; i++) {
 		FILE *f = xopen(argv[i]);
-		parse_perf_case(f, impl, halt, quiet, tsv);
+		if (parse_perf_case(f, impl, halt, quiet, tsv) != 0) {
+			r = EXIT_FAILURE;
+		}
 		fclose(f);
 	}
 
-	return EXIT_SUCCESS;
+	return r;
 }
-- 
2.43.0


From 33532463f3416b2b64571721fb5e51f7e48a6418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:36 +0000
Subject: [PATCH 120/142] fix: fsm_shortest: search from the state given,
 rather than from the start of the fsm

---
 src/libfsm/shortest.c | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/src/libfsm/shortest.c b/src/libfsm/shortest.c
index 45a441a..c3a5218 100644
--- a/src/libfsm/shortest.c
+++ b/src/libfsm/shortest.c
@@ -37,8 +37,6 @@ fsm_shortest(const struct fsm *fsm,
 	assert(goal < fsm->statecount);
 	assert(cost != NULL);
 
-	(void)start; /* unused */
-
 	/*
 	 * We find a least-cost ("shortest") path by Dijkstra's algorithm.
 	 *
@@ -64,16 +62,11 @@ fsm_shortest(const struct fsm *fsm,
 	path = NULL;
 
 	{
-		fsm_state_t qs, i;
-
-		if (!fsm_getstart(fsm, &qs)) {
-			errno = EINVAL;
-			goto error;
-		}
+		fsm_state_t i;
 
 		for (i = 0; i < fsm->statecount; i++) {
 			u = priq_push(fsm->alloc, &todo, i,
-				i == qs ? 0 : FSM_COST_INFINITY);
+				i == start ? 0 : FSM_COST_INFINITY);
 			if (u == NULL) {
 				goto error;
 			}
@@ -82,7 +75,7 @@ fsm_shortest(const struct fsm *fsm,
 			 * It's non-sensical to describe the start state as being reached
 			 * by a symbol; this field is not used.
 			 */
-			if (i == qs) {
+			if (i == start) {
 				u->c = '\0';
 			}
 		}
-- 
2.43.0


From d32a5fc65784e1ef8795c01535988968772ecf11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:36 +0000
Subject: [PATCH 121/142] fix: fsm_shortest: take the least-cost label between
 two states, rather than the first

---
 src/libfsm/shortest.c | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/libfsm/shortest.c b/src/libfsm/shortest.c
index c3a5218..544dea6 100644
--- a/src/libfsm/shortest.c
+++ b/src/libfsm/shortest.c
@@ -101,6 +101,7 @@ fsm_shortest(const struct fsm *fsm,
 			struct priq *v;
 			unsigned c;
 			unsigned symbol = (unsigned)-1;
+			unsigned bit;
 
 			v = priq_find(todo, info.to);
 
@@ -112,22 +113,23 @@ fsm_shortest(const struct fsm *fsm,
 
 			assert(v->state == info.to);
 
-			/* find first character in bitset. */
-			for (size_t i = 0; i < 4 && symbol == (unsigned)-1; i++) {
-				const uint64_t w = info.symbols[i];
-				if (w != 0) {
-					for (size_t bit = 0; bit < 64; bit++) {
-						if (u64bitset_get(&w, bit)) {
-							symbol = 64*i + bit;
-							break;
-						}
-					}
+			/* find the least-cost character in bitset. */
+			c = FSM_COST_INFINITY;
+			for (bit = 0; bit < 256; bit++) {
+				unsigned k;
+
+				if (!u64bitset_get(info.symbols, bit)) {
+					continue;
+				}
+
+				k = cost(u->state, v->state, (char)bit);
+				if (symbol == (unsigned)-1 || k < c) {
+					c = k;
+					symbol = bit;
 				}
 			}
 			assert(symbol != (unsigned)-1); /* found */
 
-			c = cost(u->state, v->state, (char)symbol);
-
 			/* relax */
 			if (v->cost > u->cost + c) {
 				v->cost = u->cost + c;
-- 
2.43.0


From 9787429f213e5624a11defbf8ff5e632e370ed52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:22 +0000
Subject: [PATCH 122/142] fix: fsm_shortest: a path for a goal which can't be
 reached doesn't contain the goal

---
 src/libfsm/shortest.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libfsm/shortest.c b/src/libfsm/shortest.c
index 544dea6..fb141c1 100644
--- a/src/libfsm/shortest.c
+++ b/src/libfsm/shortest.c
@@ -162,11 +162,11 @@ none:
 	 * This is slightly ugly: the idea is to return something non-NULL here;
 	 * so that the caller may distinguish this case from error.
 	 *
-	 * The state u is used just because it may never be the goal state,
+	 * The start state is used just because it may never be the goal state,
 	 * (otherwise we would have been able to reach it).
 	 */
 
-	if (!path_push(fsm->alloc, &path, u->state, u->c)) {
+	if (!path_push(fsm->alloc, &path, start, '\0')) {
 		goto error;
 	}
 
-- 
2.43.0


From 3a9026847898f451d4bf26c7c0e8a3052c567dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:22 +0000
Subject: [PATCH 123/142] fix: fsm_shortest: an infinite cost doesn't wrap
 around

---
 src/libfsm/shortest.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libfsm/shortest.c b/src/libfsm/shortest.c
index fb141c1..2f8a0be 100644
--- a/src/libfsm/shortest.c
+++ b/src/libfsm/shortest.c
@@ -130,6 +130,10 @@ fsm_shortest(const struct fsm *fsm,
 			}
 			assert(symbol != (unsigned)-1); /* found */
 
+			if (c == FSM_COST_INFINITY) {
+				continue;
+			}
+
 			/* relax */
 			if (v->cost > u->cost + c) {
 				v->cost = u->cost + c;
-- 
2.43.0


From 29f37e76d92525310c31fb1ee87425e8a2bb11b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:32 +0000
Subject: [PATCH 124/142] fix: a complete state has no mode when every edge
 goes to a different state

fsm_findmode() asserted for such a state, and so did printing or compiling
any automaton which has one. The VM had no translation for the strategy
which these states then use.
---
 include/fsm/fsm.h     |  2 +-
 src/libfsm/mode.c     | 11 +++++++----
 src/libfsm/print/ir.c |  7 ++++---
 src/libfsm/vm/ir.c    | 23 +++++++++++++++++++++++
 4 files changed, 35 insertions(+), 8 deletions(-)

diff --git a/include/fsm/fsm.h b/include/fsm/fsm.h
index a811c16..663da7f 100644
--- a/include/fsm/fsm.h
+++ b/include/fsm/fsm.h
@@ -169,7 +169,7 @@ fsm_addedge_literal(struct fsm *fsm, fsm_state_t from, fsm_state_t to,
  * If non-NULL, the mode's frequency is written out to the freq pointer.
  *
  * A target state is only considered as a mode if it has more than one occurance.
- * Returns NULL if there is no mode (e.g. the given state has no edges),
+ * Returns (fsm_state_t) -1 if there is no mode (e.g. the given state has no edges),
  * and *freq is unchanged.
  */
 fsm_state_t
diff --git a/src/libfsm/mode.c b/src/libfsm/mode.c
index 87af0bd..a628415 100644
--- a/src/libfsm/mode.c
+++ b/src/libfsm/mode.c
@@ -43,13 +43,16 @@ fsm_findmode(const struct fsm *fsm, fsm_state_t state, unsigned int *freq)
 		}
 	}
 
+	/* no destination state occurs more than once */
+	if (mode.state == (fsm_state_t)-1) {
+		return mode.state;
+	}
+
+	assert(mode.freq > 1);
+
 	if (freq != NULL) {
 		*freq = mode.freq;
 	}
 
-	/* It's not meaningful to call this on a state without edges. */
-	assert(mode.state != (fsm_state_t)-1);
-
-	assert(mode.freq >= 1);
 	return mode.state;
 }
diff --git a/src/libfsm/print/ir.c b/src/libfsm/print/ir.c
index f65c286..99603dd 100644
--- a/src/libfsm/print/ir.c
+++ b/src/libfsm/print/ir.c
@@ -347,11 +347,12 @@ make_state(const struct fsm *fsm, fsm_state_t state,
 		}
 	}
 
+	mode.state = 0; /* XXX: dummy */
+	mode.freq = 0;
+
+	/* there's no mode if every edge goes to a different state */
 	if (fsm_iscomplete(fsm, state)) {
 		mode.state = fsm_findmode(fsm, state, &mode.freq);
-	} else {
-		mode.state = 0; /* XXX: dummy */
-		mode.freq = 0;
 	}
 
 	assert(mode.freq == 0 || mode.state < fsm->statecount);
diff --git a/src/libfsm/vm/ir.c b/src/libfsm/vm/ir.c
index 8df89c9..47fad6f 100644
--- a/src/libfsm/vm/ir.c
+++ b/src/libfsm/vm/ir.c
@@ -715,6 +715,25 @@ initial_translate_partial(struct dfavm_assembler_ir *a, const struct ret_list *r
 	return initial_translate_table(a, retlist, &table, opp);
 }
 
+static int
+initial_translate_complete(struct dfavm_assembler_ir *a, const struct ret_list *retlist,
+	struct ir_state *st, struct dfavm_op_ir **opp)
+{
+	struct dfa_table table;
+	size_t i, ngrps;
+
+	assert(st->strategy == IR_COMPLETE);
+
+	dfa_table_init(&table, -1, st);
+
+	ngrps = st->u.complete.n;
+	for (i=0; i < ngrps; i++) {
+		group_to_table(&table, &st->u.complete.groups[i]);
+	}
+
+	return initial_translate_table(a, retlist, &table, opp);
+}
+
 static int
 initial_translate_dominant(struct dfavm_assembler_ir *a, const struct ret_list *retlist,
 	struct ir_state *st, struct dfavm_op_ir **opp)
@@ -797,6 +816,10 @@ initial_translate_state(struct dfavm_assembler_ir *a, const struct ir *ir,
 
 	case IR_COMPLETE:
 		/* groups should be sorted */
+		if (initial_translate_complete(a, retlist, st, opp) < 0) {
+			return NULL;
+		}
+		break;
 
 	/* _currently_ expand these into a table and build the
 	 * transitions off of the table.  We can do this more
-- 
2.43.0


From 53c763f16950a2c4a93405d0d60209f6eab32c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:02 +0000
Subject: [PATCH 125/142] fix: capture paths follow their states when states
 are removed

fsm_removestate and fsm_compact_states (so fsm_trim and fsm_minimise too)
renumber states, but left the capture actions referring to the old numbers.
---
 src/libfsm/capture.c | 75 ++++++++++++++++++++++++++++++++++++++++++++
 src/libfsm/capture.h | 10 ++++++
 src/libfsm/state.c   | 17 +++++++---
 3 files changed, 97 insertions(+), 5 deletions(-)

diff --git a/src/libfsm/capture.c b/src/libfsm/capture.c
index d928a7b..e28f9e8 100644
--- a/src/libfsm/capture.c
+++ b/src/libfsm/capture.c
@@ -633,6 +633,81 @@ fsm_capture_rebase_capture_action_states(struct fsm *fsm, fsm_state_t base)
 	}
 }
 
+void *
+fsm_capture_compact_alloc(const struct fsm *fsm)
+{
+	const struct fsm_capture_info *ci = fsm->capture_info;
+
+	/* there may not be any buckets yet */
+	return f_malloc(fsm->alloc,
+	    (ci->bucket_count + 1) * sizeof(ci->buckets[0]));
+}
+
+void
+fsm_capture_compact(struct fsm *fsm, const fsm_state_t *mapping, size_t mapping_count,
+    void *space)
+{
+	struct fsm_capture_info *ci = fsm->capture_info;
+	struct fsm_capture_action_bucket *nbuckets = space;
+	const uint64_t mask = ci->bucket_count - 1;
+	size_t i, b_i;
+
+	if (ci->bucket_count == 0) {
+		f_free(fsm->alloc, space);
+		return;
+	}
+
+	for (i = 0; i < ci->bucket_count; i++) {
+		nbuckets[i].state = CAPTURE_NO_STATE;
+	}
+
+	for (i = 0; i < fsm->statecount; i++) {
+		fsm->states[i].has_capture_actions = 0;
+	}
+
+	ci->buckets_used = 0;
+
+	for (i = 0; i < ci->bucket_count; i++) {
+		struct fsm_capture_action_bucket b = ci->buckets[i];
+		uint64_t h;
+
+		if (b.state == CAPTURE_NO_STATE) {
+			continue;
+		}
+
+		assert(b.state < mapping_count);
+		b.state = mapping[b.state];
+		if (b.state == FSM_STATE_REMAP_NO_STATE) {
+			continue;
+		}
+
+		if (b.action.to != CAPTURE_NO_STATE) {
+			assert(b.action.to < mapping_count);
+			b.action.to = mapping[b.action.to];
+			if (b.action.to == FSM_STATE_REMAP_NO_STATE) {
+				continue;
+			}
+		}
+
+		h = hash_id(b.state);
+		for (b_i = 0; b_i < ci->bucket_count; b_i++) {
+			struct fsm_capture_action_bucket *nb = &nbuckets[(h + b_i) & mask];
+			if (nb->state == CAPTURE_NO_STATE) {
+				*nb = b;
+				ci->buckets_used++;
+				fsm->states[b.state].has_capture_actions = 1;
+				break;
+			}
+		}
+		assert(b_i < ci->bucket_count);
+	}
+
+	(void) mapping_count;
+
+	f_free(fsm->alloc, ci->buckets);
+	ci->buckets = nbuckets;
+}
+
 struct fsm_capture *
 fsm_capture_alloc(const struct fsm *fsm)
 {
diff --git a/src/libfsm/capture.h b/src/libfsm/capture.h
index 4c0ba47..73ed12d 100644
--- a/src/libfsm/capture.h
+++ b/src/libfsm/capture.h
@@ -53,6 +53,16 @@ fsm_capture_add_action(struct fsm *fsm,
     fsm_state_t state, enum capture_action_type type,
     unsigned id, fsm_state_t to);
 
+/* Allocate what fsm_capture_compact needs, so that it cannot fail. */
+void *
+fsm_capture_compact_alloc(const struct fsm *fsm);
+
+/* Renumber the states of capture actions, in place, discarding the actions
+ * for states mapped to FSM_STATE_REMAP_NO_STATE. Takes ownership of space. */
+void
+fsm_capture_compact(struct fsm *fsm, const fsm_state_t *mapping, size_t mapping_count,
+    void *space);
+
 /* Callback for iterating over capture actions.
  * Return 1 to continue, return 0 to halt.
  * If TO is not meaningful for a particular type, it will be
diff --git a/src/libfsm/state.c b/src/libfsm/state.c
index 00ca904..35a494e 100644
--- a/src/libfsm/state.c
+++ b/src/libfsm/state.c
@@ -19,6 +19,7 @@
 
 #include "internal.h"
 #include "endids.h"
+#include "capture.h"
 #include "eager_output.h"
 
 int
@@ -127,7 +128,7 @@ fsm_removestate(struct fsm *fsm, fsm_state_t state)
 {
 	fsm_state_t start, last, i;
 	fsm_state_t *mapping;
-	void *endid_space, *eager_output_space;
+	void *endid_space, *capture_space, *eager_output_space;
 
 	assert(fsm != NULL);
 	assert(state < fsm->statecount);
@@ -141,9 +142,11 @@ fsm_removestate(struct fsm *fsm, fsm_state_t state)
 	}
 
 	endid_space = fsm_endid_compact_alloc(fsm);
+	capture_space = fsm_capture_compact_alloc(fsm);
 	eager_output_space = fsm_eager_output_compact_alloc(fsm);
-	if (endid_space == NULL || eager_output_space == NULL) {
+	if (endid_space == NULL || capture_space == NULL || eager_output_space == NULL) {
 		f_free(fsm->alloc, endid_space);
+		f_free(fsm->alloc, capture_space);
 		f_free(fsm->alloc, eager_output_space);
 		f_free(fsm->alloc, mapping);
 		return 0;
@@ -193,6 +196,7 @@ fsm_removestate(struct fsm *fsm, fsm_state_t state)
 	fsm->statecount--;
 
 	fsm_endid_compact(fsm, mapping, last + 1, endid_space);
+	fsm_capture_compact(fsm, mapping, last + 1, capture_space);
 	fsm_eager_output_compact(fsm, mapping, last + 1, eager_output_space);
 
 	f_free(fsm->alloc, mapping);
@@ -219,7 +223,7 @@ fsm_compact_states(struct fsm *fsm,
 	fsm_state_t i, old_start = FSM_STATE_REMAP_NO_STATE;
 	fsm_state_t dst;
 	size_t kept, removed_count;
-	void *endid_space, *eager_output_space;
+	void *endid_space, *capture_space, *eager_output_space;
 	const fsm_state_t orig_statecount = fsm->statecount;
 
 	fsm_state_t *mapping = f_malloc(fsm->alloc,
@@ -253,9 +257,11 @@ fsm_compact_states(struct fsm *fsm,
 	/* Allocate everything needed before changing anything. Renumbering
 	 * edges in order does not allocate. */
 	endid_space = fsm_endid_compact_alloc(fsm);
+	capture_space = fsm_capture_compact_alloc(fsm);
 	eager_output_space = fsm_eager_output_compact_alloc(fsm);
-	if (endid_space == NULL || eager_output_space == NULL) {
+	if (endid_space == NULL || capture_space == NULL || eager_output_space == NULL) {
 		f_free(fsm->alloc, endid_space);
+		f_free(fsm->alloc, capture_space);
 		f_free(fsm->alloc, eager_output_space);
 		f_free(fsm->alloc, mapping);
 		return 0;
@@ -325,8 +331,9 @@ fsm_compact_states(struct fsm *fsm,
 		}
 	}
 
-	/* Remap end metadata */
+	/* Remap end metadata and captures */
 	fsm_endid_compact(fsm, mapping, orig_statecount, endid_space);
+	fsm_capture_compact(fsm, mapping, orig_statecount, capture_space);
 	fsm_eager_output_compact(fsm, mapping, orig_statecount, eager_output_space);
 
 	assert(dst == kept);
-- 
2.43.0


From f314fe5a99c0d68826a86d6d7215318b854b2068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:13 +0000
Subject: [PATCH 126/142] fix: a new state has no capture actions

It could be left saying it has, after another state was removed.
---
 src/libfsm/state.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/libfsm/state.c b/src/libfsm/state.c
index 35a494e..f84e963 100644
--- a/src/libfsm/state.c
+++ b/src/libfsm/state.c
@@ -66,6 +66,7 @@ fsm_addstate(struct fsm *fsm, fsm_state_t *state)
 		new->visited  = 0;
 		new->epsilons = NULL;
 		new->edges    = NULL;
+		new->has_capture_actions = 0;
 		new->has_eager_outputs = 0;
 	}
 
@@ -91,6 +92,7 @@ fsm_addstate_bulk(struct fsm *fsm, size_t n)
 			new->visited  = 0;
 			new->epsilons = NULL;
 			new->edges    = NULL;
+			new->has_capture_actions = 0;
 			new->has_eager_outputs = 0;
 		}
 
-- 
2.43.0


From 5c0f31043e8973025abc3ab695c775551d452ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:13 +0000
Subject: [PATCH 127/142] fix: fsm_capture_set_path: check for allocation
 failure

---
 src/libfsm/capture.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/libfsm/capture.c b/src/libfsm/capture.c
index e28f9e8..790b58a 100644
--- a/src/libfsm/capture.c
+++ b/src/libfsm/capture.c
@@ -148,6 +148,9 @@ fsm_capture_set_path(struct fsm *fsm, unsigned capture_id,
 	seen_words = fsm->statecount/64 + 1;
 	env.seen = f_malloc(fsm->alloc,
 	    seen_words * sizeof(env.seen[0]));
+	if (env.seen == NULL) {
+		goto cleanup;
+	}
 
 	if (!mark_capture_path(&env)) {
 		goto cleanup;
-- 
2.43.0


From de81c835433aa97c5533fa901957dd6acc283e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:14 +0000
Subject: [PATCH 128/142] fix: fsm_exec: the caller may not want captures

---
 src/libfsm/exec.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/libfsm/exec.c b/src/libfsm/exec.c
index d8cebd8..eb6caa7 100644
--- a/src/libfsm/exec.c
+++ b/src/libfsm/exec.c
@@ -114,7 +114,7 @@ fsm_exec(const struct fsm *fsm,
 	}
 	const fsm_state_t start = state;
 
-	for (i = 0; i < capture_count; i++) {
+	for (i = 0; captures != NULL && i < capture_count; i++) {
 		captures[i].pos[0] = FSM_CAPTURE_NO_POS;
 		captures[i].pos[1] = FSM_CAPTURE_NO_POS;
 	}
@@ -160,7 +160,9 @@ fsm_exec(const struct fsm *fsm,
 		    offset, captures);
 	}
 
-	fsm_capture_finalize_captures(fsm, capture_count, captures);
+	if (captures != NULL) {
+		fsm_capture_finalize_captures(fsm, capture_count, captures);
+	}
 
 	*end = state;
 	return 1;
-- 
2.43.0


From 820ac8831a5ef53849601b8af1c6fe9c12526a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:08 +0000
Subject: [PATCH 129/142] fix: an edge which cannot be allocated fails the
 conversion of an automaton to an expression

remove_state() used the edge without looking whether there is one.
---
 src/libre/ast_new_from_fsm.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/libre/ast_new_from_fsm.c b/src/libre/ast_new_from_fsm.c
index bafd998..2cbc1de 100644
--- a/src/libre/ast_new_from_fsm.c
+++ b/src/libre/ast_new_from_fsm.c
@@ -292,8 +292,12 @@ remove_state(struct ast_expr_pool **poolp, struct rese *state)
 				while (ps->from != ps->to && ps->to < s->to)
 					ps = ps->succnext;
 
-				if (ps->to != s->to)
+				if (ps->to != s->to) {
 					ps = build_reedge(p->from, s->to);
+					if (!ps) {
+						return 0;
+					}
+				}
 
 				e = ps;
 			}
-- 
2.43.0


From 20f5fbfaf10037c93b0717578e661834d7887ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:27 +0000
Subject: [PATCH 130/142] fix: an alternative which cannot match does not stop
 the others from matching

---
 src/libre/ast_rewrite.c | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/src/libre/ast_rewrite.c b/src/libre/ast_rewrite.c
index 41d9b74..bdef4be 100644
--- a/src/libre/ast_rewrite.c
+++ b/src/libre/ast_rewrite.c
@@ -373,6 +373,31 @@ rewrite_alt(struct ast_expr_pool **poolp, struct ast_expr *n, enum re_flags flag
 		i++;
 	}
 
+	/* Remove tombstone children; these can never match. If that's all
+	 * there is, the entire alternation is a tombstone */
+	for (i = 0; i < n->u.alt.count; ) {
+		if (n->u.alt.n[i]->type == AST_EXPR_TOMBSTONE) {
+			ast_expr_free(*poolp, n->u.alt.n[i]);
+
+			if (i + 1 < n->u.alt.count) {
+				memmove(&n->u.alt.n[i], &n->u.alt.n[i + 1],
+					(n->u.alt.count - i - 1) * sizeof *n->u.alt.n);
+			}
+
+			n->u.alt.count--;
+
+			if (n->u.alt.count == 0) {
+				free(n->u.alt.n);
+				n->u.alt.n = NULL;
+
+				goto tombstone;
+			}
+
+			continue;
+		}
+
+		i++;
+	}
 
 	/* de-duplicate children */
 	if (n->u.alt.count > 1) {
@@ -403,6 +428,12 @@ empty:
 
 	n->type = AST_EXPR_EMPTY;
 
+	return 1;
+
+tombstone:
+
+	n->type = AST_EXPR_TOMBSTONE;
+
 	return 1;
 }
 
-- 
2.43.0


From b457ea9223b6c5339ebfe36ae22a832c870e04f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:21 +0000
Subject: [PATCH 131/142] fix: a newline which an alternative would match after
 $ is refused, as it is elsewhere

---
 src/libre/ast_analysis.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/libre/ast_analysis.c b/src/libre/ast_analysis.c
index d8db92b..5913566 100644
--- a/src/libre/ast_analysis.c
+++ b/src/libre/ast_analysis.c
@@ -1028,6 +1028,9 @@ analysis_iter_anchoring(struct anchoring_env *env, struct ast_expr *n)
 					any_sat = 1;
 				}
 			} else if (res == AST_ANALYSIS_ERROR_UNSUPPORTED) {
+				if (env->newline_after_end_anchor_state == NAEAS_WOULD_MATCH_ONCE) {
+					return res;
+				}
 				continue;
 			} else {
 				return res;
@@ -1035,6 +1038,15 @@ analysis_iter_anchoring(struct anchoring_env *env, struct ast_expr *n)
 
 			if (env->after_end_anchor
 			    && always_consumes_input(child)) {
+				if (env->newline_after_end_anchor_state == NAEAS_WOULD_MATCH_ONCE
+				    && can_consume_single_newline(child)) {
+					LOG(3 - LOG_ANCHORING,
+					    "%s: ALT: rejecting non-optional newline match after $ as unsupported\n",
+					    __func__);
+					set_flags(n, AST_FLAG_UNSATISFIABLE);
+					return AST_ANALYSIS_ERROR_UNSUPPORTED;
+				}
+
 				LOG(3 - LOG_ANCHORING,
 				    "%s: ALT child %zd is after_end_anchor and always_consumes_input => UNSATISFIABLE\n",
 				    __func__, i);
-- 
2.43.0


From 969e7e119dc6912b82cd7c6fd420d63977249c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:32 +0000
Subject: [PATCH 132/142] fix: repeating an alternative which ends at $ needs
 the other repetitions to match

---
 src/libre/ast_rewrite.c | 146 +++++++++++++++++++++++++++++++++++++++-
 1 file changed, 145 insertions(+), 1 deletion(-)

diff --git a/src/libre/ast_rewrite.c b/src/libre/ast_rewrite.c
index bdef4be..874a1d5 100644
--- a/src/libre/ast_rewrite.c
+++ b/src/libre/ast_rewrite.c
@@ -437,6 +437,135 @@ tombstone:
 	return 1;
 }
 
+/*
+ * Is there an end anchor which some ways of matching this don't go through?
+ */
+static int
+has_optional_end_anchor(const struct ast_expr *n, int optional)
+{
+	size_t i;
+
+	switch (n->type) {
+	case AST_EXPR_ANCHOR:
+		return optional && n->u.anchor.type == AST_ANCHOR_END;
+
+	case AST_EXPR_CONCAT:
+		for (i = 0; i < n->u.concat.count; i++) {
+			if (has_optional_end_anchor(n->u.concat.n[i], optional)) {
+				return 1;
+			}
+		}
+		return 0;
+
+	case AST_EXPR_ALT:
+		for (i = 0; i < n->u.alt.count; i++) {
+			if (has_optional_end_anchor(n->u.alt.n[i], 1)) {
+				return 1;
+			}
+		}
+		return 0;
+
+	case AST_EXPR_REPEAT:
+		return has_optional_end_anchor(n->u.repeat.e,
+			optional || n->u.repeat.min == 0);
+
+	case AST_EXPR_GROUP:
+		return has_optional_end_anchor(n->u.group.e, optional);
+
+	default:
+		return 0;
+	}
+}
+
+/* Append a copy of e */
+static int
+concat_clone(struct ast_expr_pool **poolp, struct ast_expr *cat, struct ast_expr *e)
+{
+	size_t i;
+
+	/* no CONCAT directly inside a CONCAT */
+	if (e->type == AST_EXPR_CONCAT) {
+		for (i = 0; i < e->u.concat.count; i++) {
+			if (!concat_clone(poolp, cat, e->u.concat.n[i])) {
+				return 0;
+			}
+		}
+
+		return 1;
+	}
+
+	if (!ast_expr_clone(poolp, &e)) {
+		return 0;
+	}
+
+	if (!ast_add_expr_concat(cat, e)) {
+		ast_expr_free(*poolp, e);
+		return 0;
+	}
+
+	return 1;
+}
+
+/* e{m,n} to ee...e{1,n-m+1} */
+static int
+unroll_repeat(struct ast_expr_pool **poolp, struct ast_expr *n)
+{
+	struct ast_expr *cat, *e;
+	struct ast_count count;
+	unsigned i;
+
+	assert(n->type == AST_EXPR_REPEAT);
+	assert(n->u.repeat.min > 1);
+
+	count.min = 1;
+	count.max = AST_COUNT_UNBOUNDED;
+	if (n->u.repeat.max != AST_COUNT_UNBOUNDED) {
+		count.max = n->u.repeat.max - n->u.repeat.min + 1;
+	}
+
+	cat = ast_make_expr_concat(poolp, n->re_flags);
+	if (cat == NULL) {
+		return 0;
+	}
+
+	for (i = 1; i < n->u.repeat.min; i++) {
+		if (!concat_clone(poolp, cat, n->u.repeat.e)) {
+			goto error;
+		}
+	}
+
+	if (count.max == 1) {
+		if (!concat_clone(poolp, cat, n->u.repeat.e)) {
+			goto error;
+		}
+
+		ast_expr_free(*poolp, n->u.repeat.e);
+	} else {
+		e = ast_make_expr_repeat(poolp, n->re_flags, n->u.repeat.e, count);
+		if (e == NULL) {
+			goto error;
+		}
+
+		if (!ast_add_expr_concat(cat, e)) {
+			e->u.repeat.e = NULL; /* still belongs to n */
+			ast_expr_free(*poolp, e);
+			goto error;
+		}
+	}
+
+	*n = *cat;
+	cat->type = AST_EXPR_EMPTY;
+	ast_expr_free(*poolp, cat);
+
+	return 1;
+
+error:
+
+	ast_expr_free(*poolp, cat);
+
+	return 0;
+}
+
 static int
 rewrite_repeat(struct ast_expr_pool **poolp, struct ast_expr *n, enum re_flags flags)
 {
@@ -735,7 +864,22 @@ rewrite(struct ast_expr_pool **poolp, struct ast_expr *n, enum re_flags flags)
 		return 1;
 
 	case AST_EXPR_REPEAT:
-		return rewrite_repeat(poolp, n, flags);
+		if (!rewrite_repeat(poolp, n, flags)) {
+			return 0;
+		}
+
+		/*
+		 * Whether an end anchor is satisfiable depends on what follows,
+		 * which differs for the last of several repetitions of e.g.
+		 * (a$|b){2}. That's the same node for all of them here, so these
+		 * are written out.
+		 */
+		if (n->type == AST_EXPR_REPEAT && n->u.repeat.min > 1
+			&& has_optional_end_anchor(n->u.repeat.e, 0)) {
+			return unroll_repeat(poolp, n);
+		}
+
+		return 1;
 
 	case AST_EXPR_GROUP:
 		if (!rewrite(poolp, n->u.group.e, flags)) {
-- 
2.43.0


From 2f47793d144fc56643258cacbab620d49ffad0b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:07 +0000
Subject: [PATCH 133/142] fix: what an unsupported subexpression after $ would
 match is known to what surrounds it

---
 src/libre/ast_analysis.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/libre/ast_analysis.c b/src/libre/ast_analysis.c
index 5913566..21aa6f8 100644
--- a/src/libre/ast_analysis.c
+++ b/src/libre/ast_analysis.c
@@ -839,6 +839,9 @@ analysis_iter_anchoring(struct anchoring_env *env, struct ast_expr *n)
 
 			if (res != AST_ANALYSIS_OK &&
 			    res != AST_ANALYSIS_UNSATISFIABLE) { /* unsat is handled below */
+				if (child->flags & AST_FLAG_MATCHES_1NEWLINE) {
+					set_flags(n, AST_FLAG_MATCHES_1NEWLINE);
+				}
 				return res;
 			}
 
@@ -1028,6 +1031,9 @@ analysis_iter_anchoring(struct anchoring_env *env, struct ast_expr *n)
 					any_sat = 1;
 				}
 			} else if (res == AST_ANALYSIS_ERROR_UNSUPPORTED) {
+				if (child->flags & AST_FLAG_MATCHES_1NEWLINE) {
+					set_flags(n, AST_FLAG_MATCHES_1NEWLINE);
+				}
 				if (env->newline_after_end_anchor_state == NAEAS_WOULD_MATCH_ONCE) {
 					return res;
 				}
@@ -1043,7 +1049,7 @@ analysis_iter_anchoring(struct anchoring_env *env, struct ast_expr *n)
 					LOG(3 - LOG_ANCHORING,
 					    "%s: ALT: rejecting non-optional newline match after $ as unsupported\n",
 					    __func__);
-					set_flags(n, AST_FLAG_UNSATISFIABLE);
+					set_flags(n, AST_FLAG_UNSATISFIABLE | AST_FLAG_MATCHES_1NEWLINE);
 					return AST_ANALYSIS_ERROR_UNSUPPORTED;
 				}
 
@@ -1144,6 +1150,9 @@ analysis_iter_anchoring(struct anchoring_env *env, struct ast_expr *n)
 			} else {
 				LOG(3 - LOG_ANCHORING,
 				    "%s: REPEAT: analysis on child returned %d\n", __func__, res);
+				if (n->u.repeat.e->flags & AST_FLAG_MATCHES_1NEWLINE) {
+					set_flags(n, AST_FLAG_MATCHES_1NEWLINE);
+				}
 				return res;
 			}
 		}
@@ -1202,6 +1211,9 @@ analysis_iter_anchoring(struct anchoring_env *env, struct ast_expr *n)
 			if (child->flags & AST_FLAG_ANCHORED_END) {	\
 				set_flags(N, AST_FLAG_ANCHORED_END);	\
 			}						\
+			if (child->flags & AST_FLAG_MATCHES_1NEWLINE) {	\
+				set_flags(N, AST_FLAG_MATCHES_1NEWLINE); \
+			}						\
 			if (res == AST_ANALYSIS_UNSATISFIABLE) {	\
 				LOG(3 - LOG_ANCHORING,			\
 				    "%s: %s: setting UNSATISFIABLE due to unsatisfiable child\n", \
@@ -1215,10 +1227,6 @@ analysis_iter_anchoring(struct anchoring_env *env, struct ast_expr *n)
 
 		PROPAGATE_CHILD_FLAGS("GROUP", n, n->u.group.e);
 
-		if (n->u.group.e->flags & AST_FLAG_MATCHES_1NEWLINE) {
-			set_flags(n, AST_FLAG_MATCHES_1NEWLINE);
-		}
-
 		break;
 
 	case AST_EXPR_SUBTRACT:
-- 
2.43.0


From 31c30c00ca23fc4599d2deb0eeb8603f8df01937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:01 +0000
Subject: [PATCH 134/142] fix: an end anchor which allows a newline is not the
 same as one which doesn't

---
 src/libre/ast.c         | 3 +++
 src/libre/ast_rewrite.c | 5 +++++
 2 files changed, 8 insertions(+)

diff --git a/src/libre/ast.c b/src/libre/ast.c
index 90f59b8..7249e02 100644
--- a/src/libre/ast.c
+++ b/src/libre/ast.c
@@ -488,6 +488,9 @@ ast_expr_cmp(const struct ast_expr *a, const struct ast_expr *b)
 		if (a->u.anchor.type < b->u.anchor.type) { return -1; }
 		if (a->u.anchor.type > b->u.anchor.type) { return +1; }
 
+		if (a->u.anchor.is_end_nl < b->u.anchor.is_end_nl) { return -1; }
+		if (a->u.anchor.is_end_nl > b->u.anchor.is_end_nl) { return +1; }
+
 		return 0;
 
 	case AST_EXPR_SUBTRACT: {
diff --git a/src/libre/ast_rewrite.c b/src/libre/ast_rewrite.c
index 874a1d5..4376cef 100644
--- a/src/libre/ast_rewrite.c
+++ b/src/libre/ast_rewrite.c
@@ -186,6 +186,11 @@ rewrite_concat(struct ast_expr_pool **poolp, struct ast_expr *n, enum re_flags f
 					break;
 				}
 
+				/* $ and \z together are \z */
+				if (!child->u.anchor.is_end_nl) {
+					n->u.concat.n[i]->u.anchor.is_end_nl = 0;
+				}
+
 				/* delete node */
 				ast_expr_free(*poolp, n->u.concat.n[j]);
 				if (j + 1 < n->u.concat.count) {
-- 
2.43.0


From c88354bf561afa5f049efb4283b2389f86b49337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:11 +0000
Subject: [PATCH 135/142] fix: alternatives which are unsatisfiable don't hide
 one which is unsupported

---
 src/libre/ast_analysis.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/libre/ast_analysis.c b/src/libre/ast_analysis.c
index 21aa6f8..f774220 100644
--- a/src/libre/ast_analysis.c
+++ b/src/libre/ast_analysis.c
@@ -993,6 +993,7 @@ analysis_iter_anchoring(struct anchoring_env *env, struct ast_expr *n)
 
 	case AST_EXPR_ALT: {
 		int any_sat = 0;
+		int any_unsupported = 0;
 		int all_set_past_always_consuming = 1;
 
 		int all_start_anchored = 1;
@@ -1037,6 +1038,7 @@ analysis_iter_anchoring(struct anchoring_env *env, struct ast_expr *n)
 				if (env->newline_after_end_anchor_state == NAEAS_WOULD_MATCH_ONCE) {
 					return res;
 				}
+				any_unsupported = 1;
 				continue;
 			} else {
 				return res;
@@ -1081,6 +1083,10 @@ analysis_iter_anchoring(struct anchoring_env *env, struct ast_expr *n)
 		}
 
 		/* An ALT group is only unsatisfiable if they ALL are. */
+		if (!any_sat && any_unsupported) {
+			set_flags(n, AST_FLAG_UNSATISFIABLE);
+			return AST_ANALYSIS_ERROR_UNSUPPORTED;
+		}
 		if (!any_sat) {
 			LOG(3 - LOG_ANCHORING,
 			    "%s: ALT: !any_sat -> UNSATISFIABLE\n", __func__);
-- 
2.43.0


From 63f58c8e7ada69b7b8d15c80f356a0d18798a3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:53 +0000
Subject: [PATCH 136/142] fix: an end anchor followed by one which allows no
 newline allows none either

---
 src/libre/ast_analysis.c | 103 +++++++++++++++++++++++++++++++++++++++
 1 file changed, 103 insertions(+)

diff --git a/src/libre/ast_analysis.c b/src/libre/ast_analysis.c
index f774220..a5116ed 100644
--- a/src/libre/ast_analysis.c
+++ b/src/libre/ast_analysis.c
@@ -637,6 +637,96 @@ can_consume_single_newline(struct ast_expr *n)
 	return 0;
 }
 
+/* Does every way of matching this go through an end anchor
+ * which doesn't allow a newline? */
+static int
+requires_end_without_newline(const struct ast_expr *n)
+{
+	size_t i;
+
+	switch (n->type) {
+	case AST_EXPR_ANCHOR:
+		return n->u.anchor.type == AST_ANCHOR_END && !n->u.anchor.is_end_nl;
+
+	case AST_EXPR_CONCAT:
+		for (i = 0; i < n->u.concat.count; i++) {
+			if (requires_end_without_newline(n->u.concat.n[i])) {
+				return 1;
+			}
+		}
+		return 0;
+
+	case AST_EXPR_ALT:
+		for (i = 0; i < n->u.alt.count; i++) {
+			if (!(n->u.alt.n[i]->flags & AST_FLAG_UNSATISFIABLE)
+			    && !requires_end_without_newline(n->u.alt.n[i])) {
+				return 0;
+			}
+		}
+		return 1;
+
+	case AST_EXPR_REPEAT:
+		return n->u.repeat.min > 0
+		    && requires_end_without_newline(n->u.repeat.e);
+
+	case AST_EXPR_GROUP:
+		return requires_end_without_newline(n->u.group.e);
+
+	default:
+		return 0;
+	}
+}
+
+/* The end anchors in this are followed by one which doesn't allow a newline,
+ * so neither do these. Returns 0 on reaching something which may match
+ * the newline itself; anchors before that keep allowing it. */
+static int
+disallow_newline_at_end(struct ast_expr *n)
+{
+	size_t i;
+	int r;
+
+	r = 1;
+
+	switch (n->type) {
+	case AST_EXPR_ANCHOR:
+		n->u.anchor.is_end_nl = 0;
+		break;
+
+	case AST_EXPR_CONCAT:
+		for (i = n->u.concat.count; r && i > 0; i--) {
+			r = disallow_newline_at_end(n->u.concat.n[i - 1]);
+		}
+		break;
+
+	case AST_EXPR_ALT:
+		for (i = 0; i < n->u.alt.count; i++) {
+			if (!disallow_newline_at_end(n->u.alt.n[i])) {
+				r = 0;
+			}
+		}
+		break;
+
+	case AST_EXPR_REPEAT:
+		r = disallow_newline_at_end(n->u.repeat.e);
+		break;
+
+	case AST_EXPR_GROUP:
+		r = disallow_newline_at_end(n->u.group.e);
+		break;
+
+	default:
+		r = !can_consume_single_newline(n);
+		break;
+	}
+
+	if (r) {
+		n->flags &= ~(unsigned)AST_FLAG_END_NL;
+	}
+
+	return r;
+}
+
 /* Does the subtree match a literal '\n'? */
 static int
 matches_newline(const struct ast_expr *n)
@@ -876,6 +966,19 @@ analysis_iter_anchoring(struct anchoring_env *env, struct ast_expr *n)
 			env->after_end_anchor = child_env.after_end_anchor;
 		}
 
+		/* nothing before \z may leave a newline to be matched after it */
+		for (i = n->u.concat.count; i > 1; i--) {
+			if (requires_end_without_newline(n->u.concat.n[i - 1])) {
+				size_t j;
+				for (j = i - 1; j > 0; j--) {
+					if (!disallow_newline_at_end(n->u.concat.n[j - 1])) {
+						break;
+					}
+				}
+				break;
+			}
+		}
+
 		/* flow ANCHORED_START and ANCHORED_END flags upward */
 		{
 			int after_always_consumes = 0;
-- 
2.43.0


From ff525f41393c5ba446eea9df177cfb1571950044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:31 +0000
Subject: [PATCH 137/142] fix: repeating an alternative which begins at ^ needs
 the other repetitions to match

---
 src/libre/ast_rewrite.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/libre/ast_rewrite.c b/src/libre/ast_rewrite.c
index 4376cef..89731db 100644
--- a/src/libre/ast_rewrite.c
+++ b/src/libre/ast_rewrite.c
@@ -443,20 +443,20 @@ tombstone:
 }
 
 /*
- * Is there an end anchor which some ways of matching this don't go through?
+ * Is there an anchor which some ways of matching this don't go through?
  */
 static int
-has_optional_end_anchor(const struct ast_expr *n, int optional)
+has_optional_anchor(const struct ast_expr *n, int optional)
 {
 	size_t i;
 
 	switch (n->type) {
 	case AST_EXPR_ANCHOR:
-		return optional && n->u.anchor.type == AST_ANCHOR_END;
+		return optional;
 
 	case AST_EXPR_CONCAT:
 		for (i = 0; i < n->u.concat.count; i++) {
-			if (has_optional_end_anchor(n->u.concat.n[i], optional)) {
+			if (has_optional_anchor(n->u.concat.n[i], optional)) {
 				return 1;
 			}
 		}
@@ -464,18 +464,18 @@ has_optional_end_anchor(const struct ast_expr *n, int optional)
 
 	case AST_EXPR_ALT:
 		for (i = 0; i < n->u.alt.count; i++) {
-			if (has_optional_end_anchor(n->u.alt.n[i], 1)) {
+			if (has_optional_anchor(n->u.alt.n[i], 1)) {
 				return 1;
 			}
 		}
 		return 0;
 
 	case AST_EXPR_REPEAT:
-		return has_optional_end_anchor(n->u.repeat.e,
+		return has_optional_anchor(n->u.repeat.e,
 			optional || n->u.repeat.min == 0);
 
 	case AST_EXPR_GROUP:
-		return has_optional_end_anchor(n->u.group.e, optional);
+		return has_optional_anchor(n->u.group.e, optional);
 
 	default:
 		return 0;
@@ -880,7 +880,7 @@ rewrite(struct ast_expr_pool **poolp, struct ast_expr *n, enum re_flags flags)
 		 * are written out.
 		 */
 		if (n->type == AST_EXPR_REPEAT && n->u.repeat.min > 1
-			&& has_optional_end_anchor(n->u.repeat.e, 0)) {
+			&& has_optional_anchor(n->u.repeat.e, 0)) {
 			return unroll_repeat(poolp, n);
 		}
 
-- 
2.43.0


From 962a632b5d077bc0a336fc61c20d08edb37d0c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:26 +0000
Subject: [PATCH 138/142] fix: repeating what can't match because of ^ is known
 to what surrounds it

---
 src/libre/ast_analysis.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/libre/ast_analysis.c b/src/libre/ast_analysis.c
index a5116ed..2db9313 100644
--- a/src/libre/ast_analysis.c
+++ b/src/libre/ast_analysis.c
@@ -1246,6 +1246,8 @@ analysis_iter_anchoring(struct anchoring_env *env, struct ast_expr *n)
 				prune_repeat_node(n);
 				break;
 			} else if (n->u.repeat.min > 0) {
+				/* as for GROUP below, anchoring flags flow upward regardless */
+				set_flags(n, n->u.repeat.e->flags & ANCHOR_FLAG_MASK);
 				set_flags(n, AST_FLAG_UNSATISFIABLE);
 				LOG(3 - LOG_ANCHORING,
 				    "%s: REPEAT: UNSATISFIABLE and must be repeated >0 times -> UNSATISFIABLE\n", __func__);
-- 
2.43.0


From 0873ed3513f70eaf9fc4e85475657e6161c6b09e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:57 +0000
Subject: [PATCH 139/142] fix: the statements printed as calls of the API are
 balanced

---
 src/libfsm/print/api.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libfsm/print/api.c b/src/libfsm/print/api.c
index 43b8cb2..0dca60e 100644
--- a/src/libfsm/print/api.c
+++ b/src/libfsm/print/api.c
@@ -126,7 +126,7 @@ fsm_print_api(FILE *f,
 	fprintf(f, "\t\t}\n");
 	fprintf(f, "\n");
 
-	fprintf(f, "\t\tif (!fsm_addstate(fsm, &s[i]) {\n");
+	fprintf(f, "\t\tif (!fsm_addstate(fsm, &s[i])) {\n");
 	fprintf(f, "\t\t\treturn 0;\n");
 	fprintf(f, "\t\t}\n");
 
-- 
2.43.0


From c609a8d4558bce597393a726a57a3fbc16d48384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:41 +0000
Subject: [PATCH 140/142] fix: calls of the API are printed with the end ids,
 not their positions

---
 src/libfsm/print/api.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libfsm/print/api.c b/src/libfsm/print/api.c
index 0dca60e..fdf0705 100644
--- a/src/libfsm/print/api.c
+++ b/src/libfsm/print/api.c
@@ -154,7 +154,7 @@ fsm_print_api(FILE *f,
 
 			fprintf(f, "\tif (fsm_isend(fsm, s[%u])) {\n", end);
 			for (size_t id = 0; id < count; id++) {
-				fprintf(f, "\t\tif (!fsm_endid_set(fsm, s[%u], %zu)) { return 0; }\n", end, id);
+				fprintf(f, "\t\tif (!fsm_endid_set(fsm, s[%u], %u)) { return 0; }\n", end, ids[id]);
 			}
 			fprintf(f, "\t}\n");
 			fprintf(f, "\n");
-- 
2.43.0


From 5014144d8f0d70f8daf051c8561c09e149cce965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:38 +0000
Subject: [PATCH 141/142] fix: the dump program numbers tokens with a printf
 that compiles

---
 src/lx/print/dump.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lx/print/dump.c b/src/lx/print/dump.c
index 15e2367..840ad66 100644
--- a/src/lx/print/dump.c
+++ b/src/lx/print/dump.c
@@ -295,7 +295,7 @@ lx_print_dump(FILE *f, const struct ast *ast, const struct fsm_options *opt)
 		fprintf(f, "\t\t\tdump_buf(q, l);\n");
 		fprintf(f, "\t\t\tprintf(\">\\n\");\n");
 	} else {
-		fprintf(f, "\t\t\tprintf(\"<#%%u>\\n\");\n");
+		fprintf(f, "\t\t\tprintf(\"<#%%u>\\n\",\n");
 		fprintf(f, "\t\t\t\t(unsigned) t);\n");
 	}
 	fprintf(f, "\t\t\tbreak;\n");
-- 
2.43.0


From b1cf9291b5335bdb978bc01c6543659c92db21b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:38 +0000
Subject: [PATCH 142/142] fix: the dump program calls the tokens by the prefix
 they are given

---
 src/lx/print/dump.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/lx/print/dump.c b/src/lx/print/dump.c
index 840ad66..e7ec49e 100644
--- a/src/lx/print/dump.c
+++ b/src/lx/print/dump.c
@@ -272,17 +272,17 @@ lx_print_dump(FILE *f, const struct ast *ast, const struct fsm_options *opt)
 	}
 
 	fprintf(f, "\t\tswitch (t) {\n");
-	fprintf(f, "\t\tcase TOK_EOF:\n");
+	fprintf(f, "\t\tcase %sEOF:\n", prefix.tok);
 	fprintf(f, "\t\t\tprintf(\"<EOF>\\n\");\n");
 	fprintf(f, "\t\t\tbreak;\n");
 	fprintf(f, "\n");
 
-	fprintf(f, "\t\tcase TOK_ERROR:\n");
+	fprintf(f, "\t\tcase %sERROR:\n", prefix.tok);
 	fprintf(f, "\t\t\tperror(\"%snext\");\n", prefix.api);
 	fprintf(f, "\t\t\tbreak;\n");
 	fprintf(f, "\n");
 
-	fprintf(f, "\t\tcase TOK_UNKNOWN:\n");
+	fprintf(f, "\t\tcase %sUNKNOWN:\n", prefix.tok);
 	fprintf(f, "\t\t\tprintf(\"lexically uncategorised:\");\n");
 	fprintf(f, "\t\t\tdump_buf(q, l);\n");
 	fprintf(f, "\t\t\tprintf(\"\\n\");\n");
@@ -304,7 +304,8 @@ lx_print_dump(FILE *f, const struct ast *ast, const struct fsm_options *opt)
 	fprintf(f, "\t\t}\n");
 	fprintf(f, "\n");
 
-	fprintf(f, "\t} while (t != TOK_ERROR && t != TOK_EOF && t != TOK_UNKNOWN);\n");
+	fprintf(f, "\t} while (t != %sERROR && t != %sEOF && t != %sUNKNOWN);\n",
+		prefix.tok, prefix.tok, prefix.tok);
 	fprintf(f, "\n");
 
 	if (api_tokbuf == API_DYNBUF && (~api_exclude & API_BUF)) {
@@ -312,7 +313,7 @@ lx_print_dump(FILE *f, const struct ast *ast, const struct fsm_options *opt)
 		fprintf(f, "\n");
 	}
 
-	fprintf(f, "\treturn t == TOK_ERROR;\n");
+	fprintf(f, "\treturn t == %sERROR;\n", prefix.tok);
 	fprintf(f, "}\n");
 
 	return 0;
-- 
2.43.0

