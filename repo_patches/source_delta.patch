From bb6c160fac0dfeaea1a56af0d55c50efb54728a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:31 +0000
Subject: [PATCH 01/33] fix: don't confuse roots when pruning in -S ids/eds

The set of pruned paths was keyed by path alone, so a path pruned
below one root (by -maxdepth, -unique, -prune, ...) was skipped when
it was reached again from, or was itself, another root.
---
 src/bftw.c | 52 +++++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 41 insertions(+), 11 deletions(-)

diff --git a/src/bftw.c b/src/bftw.c
index f822456..fd01e2a 100644
--- a/src/bftw.c
+++ b/src/bftw.c
@@ -198,6 +198,8 @@ struct bftw_file {
 	struct bftw_file *parent;
 	/** The root under which this file was found. */
 	struct bftw_file *root;
+	/** The index of that root in bftw_args::paths. */
+	size_t root_index;
 
 	/**
 	 * List node for:
@@ -716,7 +718,7 @@ static void bftw_cache_destroy(struct bftw_cache *cache) {
 }
 
 /** Create a new bftw_file. */
-static struct bftw_file *bftw_file_new(struct bftw_cache *cache, struct bftw_file *parent, const char *name) {
+static struct bftw_file *bftw_file_new(struct bftw_cache *cache, struct bftw_file *parent, size_t root_index, const char *name) {
 	size_t namelen = strlen(name);
 	struct bftw_file *file = varena_alloc(&cache->files, namelen + 1);
 	if (!file) {
@@ -727,11 +729,13 @@ static struct bftw_file *bftw_file_new(struct bftw_cache *cache, struct bftw_fil
 
 	if (parent) {
 		file->root = parent->root;
+		file->root_index = parent->root_index;
 		file->depth = parent->depth + 1;
 		file->nameoff = bftw_child_nameoff(parent);
 		++parent->refcount;
 	} else {
 		file->root = file;
+		file->root_index = root_index;
 		file->depth = 0;
 		file->nameoff = 0;
 	}
@@ -807,6 +811,8 @@ struct bftw_state {
 	const char **paths;
 	/** The number of starting paths. */
 	size_t npaths;
+	/** The index of the starting path being visited. */
+	size_t root_index;
 	/** bftw() callback. */
 	bftw_callback *callback;
 	/** bftw() callback data. */
@@ -898,6 +904,7 @@ static bool bftw_must_buffer(const struct bftw_state *state) {
 static int bftw_state_init(struct bftw_state *state, const struct bftw_args *args) {
 	state->paths = args->paths;
 	state->npaths = args->npaths;
+	state->root_index = 0;
 	state->callback = args->callback;
 	state->ptr = args->ptr;
 	state->flags = args->flags;
@@ -2017,7 +2024,7 @@ static int bftw_visit(struct bftw_state *state, const char *name) {
 	struct bftw_file *file = state->file;
 
 	if (bftw_buffer_file(state, file, name)) {
-		file = bftw_file_new(cache, file, name);
+		file = bftw_file_new(cache, file, state->root_index, name);
 		if (!file) {
 			state->error = errno;
 			return -1;
@@ -2034,7 +2041,7 @@ static int bftw_visit(struct bftw_state *state, const char *name) {
 	switch (bftw_call_back(state, name, BFTW_PRE)) {
 	case BFTW_CONTINUE:
 		if (name) {
-			file = bftw_file_new(cache, state->file, name);
+			file = bftw_file_new(cache, state->file, state->root_index, name);
 		} else {
 			state->file = NULL;
 		}
@@ -2105,6 +2112,7 @@ static int bftw_state_destroy(struct bftw_state *state) {
  */
 static int bftw_impl(struct bftw_state *state) {
 	for (size_t i = 0; i < state->npaths; ++i) {
+		state->root_index = i;
 		if (bftw_visit(state, state->paths[i]) != 0) {
 			return -1;
 		}
@@ -2169,12 +2177,19 @@ struct bftw_ids_state {
 	size_t min_depth;
 	/** The current maximum depth (exclusive). */
 	size_t max_depth;
-	/** The set of pruned paths. */
-	struct trie pruned;
+	/** The sets of pruned paths, one for each root. */
+	struct trie *pruned;
 	/** Whether the bottom has been found. */
 	bool bottom;
 };
 
+/** Get the set of pruned paths for the current root. */
+static struct trie *bftw_ids_pruned(const struct bftw_ids_state *state) {
+	// The same path may be reachable from more than one root
+	const struct bftw_file *file = state->nested.file;
+	return &state->pruned[file ? file->root_index : state->nested.root_index];
+}
+
 /** Iterative deepening callback function. */
 static enum bftw_action bftw_ids_callback(const struct BFTW *ftwbuf, void *ptr) {
 	struct bftw_ids_state *state = ptr;
@@ -2193,13 +2208,13 @@ static enum bftw_action bftw_ids_callback(const struct BFTW *ftwbuf, void *ptr)
 	}
 
 	if (ftwbuf->depth < state->min_depth) {
-		if (trie_find_str(&state->pruned, ftwbuf->path)) {
+		if (trie_find_str(bftw_ids_pruned(state), ftwbuf->path)) {
 			return BFTW_PRUNE;
 		} else {
 			return BFTW_CONTINUE;
 		}
 	} else if (state->visit == BFTW_POST) {
-		if (trie_find_str(&state->pruned, ftwbuf->path)) {
+		if (trie_find_str(bftw_ids_pruned(state), ftwbuf->path)) {
 			return BFTW_PRUNE;
 		}
 	}
@@ -2219,7 +2234,7 @@ static enum bftw_action bftw_ids_callback(const struct BFTW *ftwbuf, void *ptr)
 
 	case BFTW_PRUNE:
 		if (ftwbuf->type == BFS_DIR) {
-			if (!trie_insert_str(&state->pruned, ftwbuf->path)) {
+			if (!trie_insert_str(bftw_ids_pruned(state), ftwbuf->path)) {
 				state->nested.error = errno;
 				ret = BFTW_STOP;
 			}
@@ -2241,19 +2256,34 @@ static int bftw_ids_init(struct bftw_ids_state *state, const struct bftw_args *a
 	state->force_visit = false;
 	state->min_depth = 0;
 	state->max_depth = 1;
-	trie_init(&state->pruned);
 	state->bottom = false;
 
+	state->pruned = ALLOC_ARRAY(struct trie, args->npaths);
+	if (!state->pruned) {
+		return -1;
+	}
+	for (size_t i = 0; i < args->npaths; ++i) {
+		trie_init(&state->pruned[i]);
+	}
+
 	struct bftw_args ids_args = *args;
 	ids_args.callback = bftw_ids_callback;
 	ids_args.ptr = state;
 	ids_args.flags &= ~BFTW_POST_ORDER;
-	return bftw_state_init(&state->nested, &ids_args);
+	if (bftw_state_init(&state->nested, &ids_args) != 0) {
+		free(state->pruned);
+		return -1;
+	}
+
+	return 0;
 }
 
 /** Finish an iterative deepening search. */
 static int bftw_ids_destroy(struct bftw_ids_state *state) {
-	trie_destroy(&state->pruned);
+	for (size_t i = 0; i < state->nested.npaths; ++i) {
+		trie_destroy(&state->pruned[i]);
+	}
+	free(state->pruned);
 	return bftw_state_destroy(&state->nested);
 }
 
-- 
2.43.0


From 40e95af15dcd4e69024d2b43db03b1752f9675af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:00 +0000
Subject: [PATCH 02/33] fix: -uid/-gid only decide -nouser/-nogroup when they
 match

When -uid N is false, the file has some other owner, about which we
know nothing.
---
 src/opt.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/opt.c b/src/opt.c
index 49e8873..e9edb06 100644
--- a/src/opt.c
+++ b/src/opt.c
@@ -1655,7 +1655,7 @@ static struct bfs_expr *data_flow_gid(struct bfs_opt *opt, struct bfs_expr *expr
 		gid_t gid = range->min;
 		bool nogroup = !bfs_getgrgid(opt->ctx->groups, gid);
 		if (errno == 0) {
-			data_flow_pred(opt, NOGROUP_PRED, nogroup);
+			constrain_pred(&opt->after_true.preds[NOGROUP_PRED], nogroup);
 		}
 	}
 
@@ -1729,7 +1729,7 @@ static struct bfs_expr *data_flow_uid(struct bfs_opt *opt, struct bfs_expr *expr
 		uid_t uid = range->min;
 		bool nouser = !bfs_getpwuid(opt->ctx->users, uid);
 		if (errno == 0) {
-			data_flow_pred(opt, NOUSER_PRED, nouser);
+			constrain_pred(&opt->after_true.preds[NOUSER_PRED], nouser);
 		}
 	}
 
-- 
2.43.0


From 877ef58f2b03dc70551535b9cf23fc158a797205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:00 +0000
Subject: [PATCH 03/33] fix: a file that is not -samefile may have the same
 inode number

Inode numbers are only unique within a device.
---
 src/opt.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/opt.c b/src/opt.c
index e9edb06..e91cdc3 100644
--- a/src/opt.c
+++ b/src/opt.c
@@ -1697,8 +1697,7 @@ static struct bfs_expr *data_flow_samefile(struct bfs_opt *opt, struct bfs_expr
 	struct df_range *true_range = &opt->after_true.ranges[INUM_RANGE];
 	constrain_range(true_range, expr->ino);
 
-	struct df_range *false_range = &opt->after_false.ranges[INUM_RANGE];
-	range_remove(false_range, expr->ino);
+	// If it's false, this could still be the same inode number on another device
 
 	return expr;
 }
-- 
2.43.0


From 967a649c5ddfc59c6f9acf523ac3bf56a846b773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:00 +0000
Subject: [PATCH 04/33] fix: don't mix up units when tracking -size ranges

The numbers of -size tests with different units can't be compared with
each other.
---
 src/opt.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/opt.c b/src/opt.c
index e91cdc3..48124c5 100644
--- a/src/opt.c
+++ b/src/opt.c
@@ -1704,6 +1704,11 @@ static struct bfs_expr *data_flow_samefile(struct bfs_opt *opt, struct bfs_expr
 
 /** Transfer function for -size. */
 static struct bfs_expr *data_flow_size(struct bfs_opt *opt, struct bfs_expr *expr, const struct visitor *visitor) {
+	// -size compares in its own unit, but SIZE_RANGE is in bytes
+	if (expr->size_unit == BFS_BYTES) {
+		data_flow_icmp(opt, expr, SIZE_RANGE);
+	}
+
 	struct df_range *range = &opt->after_true.ranges[SIZE_RANGE];
 	if (range->min == range->max) {
 		expr->probability = 0.01;
@@ -1886,7 +1891,6 @@ static struct bfs_expr *data_flow_visit(struct bfs_opt *opt, struct bfs_expr *ex
 		{eval_gid,     GID_RANGE},
 		{eval_inum,   INUM_RANGE},
 		{eval_links, LINKS_RANGE},
-		{eval_size,   SIZE_RANGE},
 		{eval_uid,     UID_RANGE},
 	};
 
-- 
2.43.0


From 46c651f2681331878e5b338ec8758b9f81eab3cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:14 +0000
Subject: [PATCH 05/33] fix: apply the umask to every action of a -perm clause

In a symbolic mode like +r+w, the umask was only applied to the first
action.
---
 src/parse.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parse.c b/src/parse.c
index 9c39d6b..e6706ff 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -1986,7 +1986,9 @@ static int parse_mode(const struct bfs_parser *parser, const char *mode, struct
 			_fallthrough;
 
 		case MODE_ACTION:
-			if (who == 0) {
+			if (state == MODE_ACTION_APPLY) {
+				// Same WHO as the previous action
+			} else if (who == 0) {
 				who = 0777;
 				mask = who & ~umask;
 			} else {
-- 
2.43.0


From a44082034270898434a72d56a891d832dac69c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:14 +0000
Subject: [PATCH 06/33] fix: keep the other signal hooks when the last one is
 removed

Removing the last hook reset the tail to the head of the list, so the
next hook to be added replaced all the remaining ones.
---
 src/sighook.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sighook.c b/src/sighook.c
index a87bed5..cfe9bc9 100644
--- a/src/sighook.c
+++ b/src/sighook.c
@@ -290,7 +290,7 @@ static void rcu_list_remove(struct rcu_list *list, struct rcu_node *node) {
 	if (next) {
 		next->self = node->self;
 	} else {
-		list->tail = &list->head;
+		list->tail = node->self;
 	}
 	rcu_destroy(&node->next);
 }
-- 
2.43.0


From 9b08fc76ba7074a7742a3b64f391a02eb7d6446c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:45 +0000
Subject: [PATCH 07/33] fix: don't treat what follows an ignored result as
 unreachable

When the result of a pure expression on the left of a comma is ignored,
it is replaced with -false.  If its data flow facts said it couldn't be
false, nothing was considered reachable after it, so for example
bfs ! -name foo , -print and bfs -print -true , -print did nothing for
the second -print.
---
 src/opt.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/opt.c b/src/opt.c
index 48124c5..871d2b1 100644
--- a/src/opt.c
+++ b/src/opt.c
@@ -1836,8 +1836,9 @@ static struct bfs_expr *opt_ignore(struct bfs_opt *opt, struct bfs_expr *expr, b
 
 done:
 	if (!delete && expr->pure) {
-		// If we're not deleting the expression entirely, replace it with -false
-		expr = opt_const(opt, false);
+		// If we're not deleting the expression entirely, replace it with -false,
+		// unless its parents may already rely on it being always true
+		expr = opt_const(opt, expr->always_true);
 	}
 	return expr;
 }
@@ -1845,6 +1846,11 @@ done:
 /** Data flow visitor function. */
 static struct bfs_expr *data_flow_visit(struct bfs_opt *opt, struct bfs_expr *expr, const struct visitor *visitor) {
 	if (opt->ignore_result) {
+		if (expr->pure) {
+			// About to be replaced with a constant, whatever its result would be
+			df_join(&opt->after_true, &opt->after_false);
+			opt->after_false = opt->after_true;
+		}
 		expr = opt_ignore(opt, expr, false);
 		if (!expr) {
 			return NULL;
-- 
2.43.0


From f4a51207dd9c8d83ea4029fc0a807058d83e5af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:39 +0000
Subject: [PATCH 08/33] fix: finish the batch that contains IOQ_STOP

---
 src/ioq.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/ioq.c b/src/ioq.c
index 1efedd7..b6b209d 100644
--- a/src/ioq.c
+++ b/src/ioq.c
@@ -891,13 +891,14 @@ static bool ioq_ring_prep(struct ioq_ring_state *state) {
 	struct ioq_batch pending;
 	ioq_batch_reset(&pending);
 
-	while (true) {
+	// If another worker overtakes us by a whole lap of the queue, IOQ_STOP
+	// may not be the last entry in the batch, so always finish the batch
+	while (!state->stop || !ioq_batch_empty(&pending)) {
 		bool block = ioq_ring_empty(state);
 		struct ioq_ent *ent = ioq_batch_pop(ioq->pending, &pending, block);
 		if (ent == &IOQ_STOP) {
 			ioqq_push(ioq->pending, ent);
 			state->stop = true;
-			break;
 		} else if (ent) {
 			ioq_prep_sqe(state, ent);
 		} else {
@@ -945,7 +946,10 @@ static void ioq_sync_work(struct ioq_thread *thread) {
 	ioq_batch_reset(&pending);
 	ioq_batch_reset(&ready);
 
-	while (true) {
+	// If another worker overtakes us by a whole lap of the queue, IOQ_STOP
+	// may not be the last entry in the batch, so always finish the batch
+	bool stop = false;
+	while (!stop || !ioq_batch_empty(&pending)) {
 		if (ioq_batch_empty(&pending)) {
 			ioq_batch_flush(ioq->ready, &ready);
 		}
@@ -953,7 +957,8 @@ static void ioq_sync_work(struct ioq_thread *thread) {
 		struct ioq_ent *ent = ioq_batch_pop(ioq->pending, &pending, true);
 		if (ent == &IOQ_STOP) {
 			ioqq_push(ioq->pending, ent);
-			break;
+			stop = true;
+			continue;
 		}
 
 		if (!ioq_check_cancel(ioq, ent)) {
-- 
2.43.0


From c295ca606e24683c0350fc102a5f3b2a27d1e244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:11 +0000
Subject: [PATCH 09/33] fix: order earlier signal hook readers before
 reclamation

---
 src/sighook.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sighook.c b/src/sighook.c
index cfe9bc9..7be228c 100644
--- a/src/sighook.c
+++ b/src/sighook.c
@@ -108,7 +108,9 @@ static void *arc_get(struct arc *arc) {
 
 /** Release a reference. */
 static void arc_put(struct arc *arc) {
-	size_t refs = fetch_sub(&arc->refs, 1, release);
+	// The last reader has to acquire what the earlier ones released, since
+	// arc_wait() may only synchronize with the last one's sem_post()
+	size_t refs = fetch_sub(&arc->refs, 1, acq_rel);
 
 	if (refs == 1) {
 #if BFS_POSIX_SEMAPHORES >= 0
-- 
2.43.0


From 4dd862a7c8f68f1bd7b3e1a16b0fb0ccea795d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:16 +0000
Subject: [PATCH 10/33] fix: don't touch a signal hook after releasing it

When the remover busy-waits (no usable semaphores), the hook that holds
the arc may already be freed when arc_put() looks at arc->sem_status.
---
 src/sighook.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/sighook.c b/src/sighook.c
index 7be228c..b70a58f 100644
--- a/src/sighook.c
+++ b/src/sighook.c
@@ -108,13 +108,19 @@ static void *arc_get(struct arc *arc) {
 
 /** Release a reference. */
 static void arc_put(struct arc *arc) {
+#if BFS_POSIX_SEMAPHORES >= 0
+	// Without a semaphore, *arc may be freed as soon as the last reference
+	// is released, so don't touch it after that
+	bool post = arc->sem_status == 0;
+#endif
+
 	// The last reader has to acquire what the earlier ones released, since
 	// arc_wait() may only synchronize with the last one's sem_post()
 	size_t refs = fetch_sub(&arc->refs, 1, acq_rel);
 
 	if (refs == 1) {
 #if BFS_POSIX_SEMAPHORES >= 0
-		if (arc->sem_status == 0 && sem_post(&arc->sem) != 0) {
+		if (post && sem_post(&arc->sem) != 0) {
 			abort();
 		}
 #endif
-- 
2.43.0


From 2365bb33fa849bb6063c413a65d0b09e79a21ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:04 +0000
Subject: [PATCH 11/33] fix: don't overflow when rounding up huge file sizes

-size computed (size + unit - 1) / unit, which overflows for sizes near
the maximum, making e.g. -size +0 false for them.
---
 src/eval.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eval.c b/src/eval.c
index 0d1bf68..418f52b 100644
--- a/src/eval.c
+++ b/src/eval.c
@@ -963,7 +963,7 @@ bool eval_size(const struct bfs_expr *expr, struct bfs_eval *state) {
 	};
 
 	off_t scale = scales[expr->size_unit];
-	off_t size = (statbuf->size + scale - 1) / scale; // Round up
+	off_t size = statbuf->size / scale + (statbuf->size % scale != 0); // Round up
 	return bfs_expr_cmp(expr, size);
 }
 
-- 
2.43.0


From ddffd345feea887919d307fa16e9ec019d4bdfb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:04 +0000
Subject: [PATCH 12/33] fix: reject -[aBcm]time arguments that overflow

Times with units were multiplied and summed without overflow checks, so
e.g. -mtime -9223372036854775807w was silently misread.
---
 src/parse.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/parse.c b/src/parse.c
index e6706ff..767997d 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -992,18 +992,19 @@ static struct bfs_expr *parse_time(struct bfs_parser *parser, int field, int arg
 	expr->num = 0;
 
 	while (true) {
+		unsigned long long unit = 1;
 		switch (*tail) {
 		case 'w':
-			time *= 7;
+			unit *= 7;
 			_fallthrough;
 		case 'd':
-			time *= 24;
+			unit *= 24;
 			_fallthrough;
 		case 'h':
-			time *= 60;
+			unit *= 60;
 			_fallthrough;
 		case 'm':
-			time *= 60;
+			unit *= 60;
 			_fallthrough;
 		case 's':
 			break;
@@ -1012,7 +1013,11 @@ static struct bfs_expr *parse_time(struct bfs_parser *parser, int field, int arg
 			return NULL;
 		}
 
-		expr->num += time;
+		if (time > (LLONG_MAX - expr->num) / unit) {
+			parse_expr_error(parser, expr, "${bld}%pq${rs} is too long a time.\n", expr->argv[1]);
+			return NULL;
+		}
+		expr->num += time * unit;
 
 		if (!*++tail) {
 			break;
-- 
2.43.0


From 418942766e26fbcdd49841226eab15e561b8a1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:04 +0000
Subject: [PATCH 13/33] fix: let mktime() determine the DST offset for
 -daystart

The DST flag of the current time does not apply to midnight on the days
that DST begins and ends, so the day would start an hour off.
---
 src/parse.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parse.c b/src/parse.c
index 767997d..ffb5a40 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -1163,6 +1163,7 @@ static struct bfs_expr *parse_daystart(struct bfs_parser *parser, int arg1, int
 	tm.tm_hour = 0;
 	tm.tm_min = 0;
 	tm.tm_sec = 0;
+	tm.tm_isdst = -1;
 
 	time_t time;
 	if (xmktime(&tm, &time) != 0) {
-- 
2.43.0


From e73b7900e9f897b4871d12455f2c3f4ae025e2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:27 +0000
Subject: [PATCH 14/33] fix: report errors that first occur in a later
 deepening pass

The ids and eds strategies assumed that an error in a directory above the
current depth range had already been reported by an earlier pass.  If the
directory had been readable before, its subtree was silently skipped and
bfs exited successfully.
---
 src/bftw.c | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/bftw.c b/src/bftw.c
index fd01e2a..31725c0 100644
--- a/src/bftw.c
+++ b/src/bftw.c
@@ -2177,7 +2177,7 @@ struct bftw_ids_state {
 	size_t min_depth;
 	/** The current maximum depth (exclusive). */
 	size_t max_depth;
-	/** The sets of pruned paths, one for each root. */
+	/** The sets of pruned and failing paths, one for each root. */
 	struct trie *pruned;
 	/** Whether the bottom has been found. */
 	bool bottom;
@@ -2200,21 +2200,26 @@ static enum bftw_action bftw_ids_callback(const struct BFTW *ftwbuf, void *ptr)
 	}
 
 	if (ftwbuf->type == BFS_ERROR) {
-		if (ftwbuf->depth + 1 >= state->min_depth) {
-			return state->delegate(ftwbuf, state->ptr);
-		} else {
+		// Any pass may be the first to fail, but later passes often fail
+		// the same way, so report (and mark) only the first error
+		struct trie_leaf *leaf = trie_insert_str(bftw_ids_pruned(state), ftwbuf->path);
+		if (!leaf) {
+			state->nested.error = errno;
+			return BFTW_STOP;
+		}
+		if (leaf->value) {
 			return BFTW_PRUNE;
 		}
+		leaf->value = state;
+		return state->delegate(ftwbuf, state->ptr);
 	}
 
+	const struct trie_leaf *leaf = trie_find_str(bftw_ids_pruned(state), ftwbuf->path);
 	if (ftwbuf->depth < state->min_depth) {
-		if (trie_find_str(bftw_ids_pruned(state), ftwbuf->path)) {
-			return BFTW_PRUNE;
-		} else {
-			return BFTW_CONTINUE;
-		}
+		return leaf ? BFTW_PRUNE : BFTW_CONTINUE;
 	} else if (state->visit == BFTW_POST) {
-		if (trie_find_str(bftw_ids_pruned(state), ftwbuf->path)) {
+		// Failing directories still get a post-order visit
+		if (leaf && !leaf->value) {
 			return BFTW_PRUNE;
 		}
 	}
-- 
2.43.0


From c2fadfcbfa9a48912fd6b7d4e1f6d8a63be54848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:44 +0000
Subject: [PATCH 15/33] fix: let -regex match the whole path when a shorter
 alternative matches first

---
 src/xregex.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/xregex.c b/src/xregex.c
index 796544e..aa9353c 100644
--- a/src/xregex.c
+++ b/src/xregex.c
@@ -266,7 +266,9 @@ int bfs_regexec(struct bfs_regex *regex, const char *str, enum bfs_regexec_flags
 
 	int ret;
 	if (flags & BFS_REGEX_ANCHOR) {
-		ret = onig_match(regex->impl, ustr, end, ustr, NULL, ONIG_OPTION_DEFAULT);
+		// Oniguruma normally stops at the first alternative that matches, but
+		// there may be another one that matches the whole string
+		ret = onig_match(regex->impl, ustr, end, ustr, NULL, ONIG_OPTION_FIND_LONGEST);
 	} else {
 		ret = onig_search(regex->impl, ustr, end, ustr, end, NULL, ONIG_OPTION_DEFAULT);
 	}
-- 
2.43.0


From cbc3891ef669a799d2bc6b3c2766087c86f612fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:44 +0000
Subject: [PATCH 16/33] fix: fold case of multi-byte characters in literal
 -iname/-ipath/-ilname patterns

---
 src/eval.c  | 5 -----
 src/parse.c | 5 ++++-
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/eval.c b/src/eval.c
index 418f52b..8585317 100644
--- a/src/eval.c
+++ b/src/eval.c
@@ -159,11 +159,6 @@ bool bfs_expr_cmp(const struct bfs_expr *expr, long long n) {
 /** Common code for fnmatch() tests. */
 static bool eval_fnmatch(const struct bfs_expr *expr, const char *str) {
 	if (expr->literal) {
-#ifdef FNM_CASEFOLD
-		if (expr->fnm_flags & FNM_CASEFOLD) {
-			return strcasecmp(expr->pattern, str) == 0;
-		}
-#endif
 		return strcmp(expr->pattern, str) == 0;
 	} else {
 		return fnmatch(expr->pattern, str, expr->fnm_flags) == 0;
diff --git a/src/parse.c b/src/parse.c
index ffb5a40..fa5c1cd 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -1122,7 +1122,10 @@ static struct bfs_expr *parse_fnmatch(const struct bfs_parser *parser, struct bf
 	// parse the pattern, so special-case patterns with no wildcards.
 	//
 	//     https://pubs.opengroup.org/onlinepubs/9799919799/utilities/V3_chap02.html#tag_19_14_01
-	expr->literal = strcspn(expr->pattern, "?*\\[") == len;
+	//
+	// strcasecmp() doesn't understand multi-byte characters, so leave
+	// case-insensitive matching to fnmatch().
+	expr->literal = !casefold && strcspn(expr->pattern, "?*\\[") == len;
 
 	return expr;
 }
-- 
2.43.0


From 2249db112fabf940c9e1455022b42b30fa18859b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:08 +0000
Subject: [PATCH 17/33] fix: don't run -execdir ... {} + for a root with a
 trailing slash in the wrong directory

---
 src/exec.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/exec.c b/src/exec.c
index 45c9f1d..677187e 100644
--- a/src/exec.c
+++ b/src/exec.c
@@ -574,7 +574,14 @@ static int bfs_exec_flush(struct bfs_exec *execbuf) {
 /** Check if we need to flush the execbuf because we're changing directories. */
 static bool bfs_exec_changed_dirs(const struct bfs_exec *execbuf, const struct BFTW *ftwbuf) {
 	if (execbuf->flags & BFS_EXEC_CHDIR) {
-		if (ftwbuf->nameoff > execbuf->wd_len
+		size_t wd_len = ftwbuf->nameoff;
+		if (wd_len == 0 && ftwbuf->path[0] == '/') {
+			++wd_len;
+		}
+
+		// A root path with trailing slashes ("foo/bar/") starts with its
+		// children's wd_path, so check that the lengths match exactly
+		if (wd_len != execbuf->wd_len
 		    || (execbuf->wd_path && strncmp(ftwbuf->path, execbuf->wd_path, execbuf->wd_len) != 0)) {
 			bfs_exec_debug(execbuf, "Changed directories, executing buffered command\n");
 			return true;
-- 
2.43.0


From 967bc1bd84ab795da307d3d13d64a143080d2297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:15 +0000
Subject: [PATCH 18/33] fix: resolve relative -execdir commands in the
 directory they run in

---
 src/xspawn.c | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/xspawn.c b/src/xspawn.c
index 3fa4e60..791ebd7 100644
--- a/src/xspawn.c
+++ b/src/xspawn.c
@@ -401,21 +401,22 @@ static bool bfs_resolve_relative(const struct bfs_resolver *res) {
 	return false;
 }
 
-/** Check if we can resolve the executable before file actions. */
-static bool bfs_can_resolve_early(const struct bfs_resolver *res, const struct bfs_spawn *ctx) {
-	if (!bfs_resolve_relative(res)) {
-		return true;
-	}
-
+/** Check if the file actions include a change of working directory. */
+static bool bfs_spawn_has_fchdir(const struct bfs_spawn *ctx) {
 	if (ctx) {
 		for_slist (const struct bfs_spawn_action, action, ctx) {
 			if (action->op == BFS_SPAWN_FCHDIR) {
-				return false;
+				return true;
 			}
 		}
 	}
 
-	return true;
+	return false;
+}
+
+/** Check if we can resolve the executable before file actions. */
+static bool bfs_can_resolve_early(const struct bfs_resolver *res, const struct bfs_spawn *ctx) {
+	return !bfs_resolve_relative(res) || !bfs_spawn_has_fchdir(ctx);
 }
 
 /** Get the required path resolution buffer size. */
@@ -442,6 +443,13 @@ static int bfs_resolve_early(struct bfs_resolver *res, const char *exe, const st
 	};
 
 	if (bfs_can_skip_resolve(res, ctx)) {
+		if (exe[0] != '/' && bfs_spawn_has_fchdir(ctx)) {
+			// Relative to the new working directory, so we can't
+			// check it from here
+			res->done = true;
+			return 0;
+		}
+
 		// Do this check eagerly, even though posix_spawn()/execv() also
 		// would, because:
 		//
-- 
2.43.0


From bcda25e4194b0c0c76499ba7f70ac6c620682c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:02:35 +0000
Subject: [PATCH 19/33] fix: don't give up on -exec ... {} + when the first
 shrunken batch would be empty

After E2BIG, the next size to try could be smaller than the first
argument, so every argument was dropped and the batch failed, even if a
single argument would have fit.
---
 src/exec.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/exec.c b/src/exec.c
index 677187e..6f0a1ba 100644
--- a/src/exec.c
+++ b/src/exec.c
@@ -539,11 +539,15 @@ static int bfs_exec_flush(struct bfs_exec *execbuf) {
 		// Try to recover from E2BIG by trying fewer and fewer arguments
 		// until they fit
 		size_t new_max = bfs_exec_update_max(execbuf);
-		while (execbuf->arg_size > new_max) {
+		if (execbuf->argc == execbuf->tmpl_argc) {
+			// Even a single argument is too big
+			break;
+		}
+		do {
 			execbuf->argv[execbuf->argc] = execbuf->argv[execbuf->argc - 1];
 			execbuf->arg_size -= bfs_exec_arg_size(execbuf->argv[execbuf->argc]);
 			--execbuf->argc;
-		}
+		} while (execbuf->arg_size > new_max && execbuf->argc > execbuf->tmpl_argc);
 	}
 
 	size_t new_argc = execbuf->argc;
-- 
2.43.0


From 476050bf4ab23581069df34cf2e55291c7645b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:26 +0000
Subject: [PATCH 20/33] fix: report allocation failures while parsing -printf
 formats

---
 src/printf.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/printf.c b/src/printf.c
index 30ec201..b6d8685 100644
--- a/src/printf.c
+++ b/src/printf.c
@@ -688,6 +688,7 @@ int bfs_printf_parse(const struct bfs_ctx *ctx, struct bfs_expr *expr, const cha
 				.str = dstralloc(2),
 			};
 			if (!fmt.str) {
+				bfs_perror(ctx, "dstralloc()");
 				goto fmt_error;
 			}
 			if (dstrapp(&fmt.str, c) != 0) {
-- 
2.43.0


From 0a5adf39be7248fbaea4802e2dedbdf1e95e4ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:26 +0000
Subject: [PATCH 21/33] fix: don't let -noerror hide failed writes

---
 src/eval.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/eval.c b/src/eval.c
index 8585317..7779e29 100644
--- a/src/eval.c
+++ b/src/eval.c
@@ -117,8 +117,11 @@ static void eval_io_error(const struct bfs_expr *expr, struct bfs_eval *state) {
 		eval_error(state, "(standard output): %s.\n", errstr());
 	}
 
-	// Don't report the error again in bfs_ctx_free()
-	clearerr(expr->cfile->file);
+	// Don't report the error again in bfs_ctx_free(), unless -noerror hid it.
+	// -noerror ignores traversal errors, but lost output is still a failure.
+	if (!state->ctx->ignore_errors) {
+		clearerr(expr->cfile->file);
+	}
 }
 
 /**
-- 
2.43.0


From 0fa5dd5401ce7f6563bb746bad3207dec54160a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:26 +0000
Subject: [PATCH 22/33] fix: set errno when bftw_type() knows that a link is
 broken

---
 src/bftw.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bftw.c b/src/bftw.c
index 31725c0..71e3101 100644
--- a/src/bftw.c
+++ b/src/bftw.c
@@ -178,6 +178,8 @@ enum bfs_type bftw_type(const struct BFTW *ftwbuf, enum bfs_stat_flags flags) {
 		if (ftwbuf->type != BFS_LNK) {
 			return ftwbuf->type;
 		} else if (ftwbuf->stat_flags & BFS_STAT_TRYFOLLOW) {
+			// We already tried to follow the link, so it must be broken
+			errno = ENOENT;
 			return BFS_ERROR;
 		}
 	}
-- 
2.43.0


From 407f785e5410af50968fe1c2b90395dc5f05ed9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:26 +0000
Subject: [PATCH 23/33] fix: don't visit pruned non-directories again in
 post-order iterative deepening

---
 src/bftw.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bftw.c b/src/bftw.c
index 71e3101..df72305 100644
--- a/src/bftw.c
+++ b/src/bftw.c
@@ -2175,6 +2175,8 @@ struct bftw_ids_state {
 	enum bftw_visit visit;
 	/** Whether to override the bftw_visit. */
 	bool force_visit;
+	/** Whether non-directories get a post-order visit too. */
+	bool post_files;
 	/** The current minimum depth (inclusive). */
 	size_t min_depth;
 	/** The current maximum depth (exclusive). */
@@ -2240,7 +2242,7 @@ static enum bftw_action bftw_ids_callback(const struct BFTW *ftwbuf, void *ptr)
 		break;
 
 	case BFTW_PRUNE:
-		if (ftwbuf->type == BFS_DIR) {
+		if (ftwbuf->type == BFS_DIR || state->post_files) {
 			if (!trie_insert_str(bftw_ids_pruned(state), ftwbuf->path)) {
 				state->nested.error = errno;
 				ret = BFTW_STOP;
@@ -2261,6 +2263,7 @@ static int bftw_ids_init(struct bftw_ids_state *state, const struct bftw_args *a
 	state->ptr = args->ptr;
 	state->visit = BFTW_PRE;
 	state->force_visit = false;
+	state->post_files = args->strategy == BFTW_IDS && (args->flags & BFTW_POST_ORDER);
 	state->min_depth = 0;
 	state->max_depth = 1;
 	state->bottom = false;
-- 
2.43.0


From 3693792c33a06a07c12a7d9e4490c0f8f5b99845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:14 +0000
Subject: [PATCH 24/33] fix: visit mount points with -xdev -depth

A mount point was pruned after its pre-order visit, so the post-order
visit that -depth evaluates never came.
---
 src/bftw.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/bftw.c b/src/bftw.c
index df72305..b679853 100644
--- a/src/bftw.c
+++ b/src/bftw.c
@@ -1815,6 +1815,14 @@ static enum bftw_action bftw_call_back(struct bftw_state *state, const char *nam
 		} else if (state->flags & BFTW_PRUNE_MOUNTS) {
 			if (bftw_is_mount(state, name)) {
 				ret = BFTW_PRUNE;
+
+				if (state->flags & BFTW_POST_ORDER) {
+					// We won't descend, so do the post-order visit right away
+					state->ftwbuf.visit = BFTW_POST;
+					if (state->callback(ftwbuf, state->ptr) == BFTW_STOP) {
+						ret = BFTW_STOP;
+					}
+				}
 			}
 		}
 		break;
-- 
2.43.0


From 51aa3b929081faf1d50b727418ba1479dd2f0978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:25 +0000
Subject: [PATCH 25/33] fix: accept empty entries in LS_COLORS

An empty entry (e.g. a leading colon, or two in a row) made parse_gnu_ls_colors() take the colon as the start of the next
entry's name, so that entry was silently ignored, although GNU ls accepts it.
---
 src/color.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/color.c b/src/color.c
index 588dbac..f812c04 100644
--- a/src/color.c
+++ b/src/color.c
@@ -560,6 +560,9 @@ static int parse_gnu_ls_colors(struct colors *colors, const char *ls_colors) {
 	dchar *value = NULL;
 
 	for (const char *chunk = ls_colors, *next; chunk; chunk = next) {
+		// Skip empty chunks, e.g. *.foo=1::*.bar=2
+		chunk += strspn(chunk, ":");
+
 		if (chunk[0] == '*') {
 			if (unescape(&key, chunk + 1, '=', &next) != 0) {
 				goto fail;
-- 
2.43.0


From 481505c541827b99cc9318c5970f83e9e9196dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:25 +0000
Subject: [PATCH 26/33] fix: make all capitalizations of a conflicting
 LS_COLORS extension case-sensitive

With three or more capitalizations, only neighbours were compared, so the outcome depended on their order.
---
 src/color.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/color.c b/src/color.c
index f812c04..96d32df 100644
--- a/src/color.c
+++ b/src/color.c
@@ -277,7 +277,7 @@ fail:
  * @ext
  *         The current extension being added.
  * @iext
- *         The previous case-insensitive match, if any, for the same extension.
+ *         The first case-insensitive match, if any, for the same extension.
  * @return
  *         Whether this extension should become case-sensitive.
  */
@@ -327,12 +327,19 @@ static int build_iext_trie(struct colors *colors) {
 		}
 
 		struct ext_color *iext = ileaf->value;
-		if (ext_case_sensitive(ext, iext)) {
-			ext->case_sensitive = true;
+		if (!iext) {
+			ileaf->value = ext;
+		} else if (ext_case_sensitive(ext, iext)) {
 			iext->case_sensitive = true;
 		}
+	}
 
-		ileaf->value = ext;
+	// A conflict applies to every capitalization of the extension
+	for_trie (leaf, &colors->ext_trie) {
+		struct ext_color *ext = leaf->value;
+		const struct trie_leaf *ileaf = trie_find_mem(&colors->iext_trie, ext->ext, ext->len + 1);
+		const struct ext_color *iext = ileaf->value;
+		ext->case_sensitive = iext->case_sensitive;
 	}
 
 	// Rebuild the trie with only the case-insensitive ones
-- 
2.43.0


From 4e337bc286c9f6cccce5cfdb47b8c16290dcb202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:25 +0000
Subject: [PATCH 27/33] fix: report why fork() failed from bfs_spawn()

Restoring the signal mask overwrote errno with 0.
---
 src/xspawn.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/xspawn.c b/src/xspawn.c
index 791ebd7..a68d903 100644
--- a/src/xspawn.c
+++ b/src/xspawn.c
@@ -659,12 +659,15 @@ static pid_t bfs_fork_spawn(struct bfs_resolver *res, const struct bfs_spawn *ct
 		bfs_spawn_exec(res, ctx, argv, envp, &old_mask, pipefd);
 	}
 
+	int fork_error = errno;
+
 	// Restore the original signal mask
 	errno = pthread_sigmask(SIG_SETMASK, &old_mask, NULL);
 	bfs_everify(errno == 0, "pthread_sigmask()");
 
 	if (pid < 0) {
 		// fork() failed
+		errno = fork_error;
 		goto fail;
 	}
 
-- 
2.43.0


From 4932ad3b609709eb7c204a2f00d9147b2bc8ae51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:25 +0000
Subject: [PATCH 28/33] fix: close the temporary descriptor of
 bfs_spawn_addopen() in the fork() path

Otherwise, the program inherits it, unlike with posix_spawn().
---
 src/xspawn.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/xspawn.c b/src/xspawn.c
index a68d903..306cf21 100644
--- a/src/xspawn.c
+++ b/src/xspawn.c
@@ -576,6 +576,7 @@ static void bfs_spawn_exec(struct bfs_resolver *res, const struct bfs_spawn *ctx
 				if (dup2(fd, action->out_fd) < 0) {
 					goto fail;
 				}
+				xclose(fd);
 			}
 			break;
 		case BFS_SPAWN_CLOSE:
-- 
2.43.0


From 215914ed5730df4e9e472f47921fc0b67093810d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:25 +0000
Subject: [PATCH 29/33] fix: skip directories when looking up a command in
 $PATH

faccessat(X_OK) succeeds for directories, so the search stopped there with EACCES instead of going on to the next component
like execvp() and the shell.
---
 src/xspawn.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/xspawn.c b/src/xspawn.c
index 306cf21..b067d5f 100644
--- a/src/xspawn.c
+++ b/src/xspawn.c
@@ -16,6 +16,7 @@
 #include <stdlib.h>
 #include <string.h>
 #include <sys/resource.h>
+#include <sys/stat.h>
 #include <sys/types.h>
 #include <unistd.h>
 
@@ -363,11 +364,19 @@ static int bfs_resolve_late(struct bfs_resolver *res) {
 			return -1;
 		}
 
-		if (xfaccessat(AT_FDCWD, buf, X_OK) == 0) {
-			res->exe = buf;
-			res->done = true;
-			return 0;
+		if (xfaccessat(AT_FDCWD, buf, X_OK) != 0) {
+			continue;
+		}
+
+		// Directories can be "executable" too, but execvp() skips them
+		struct stat sb;
+		if (stat(buf, &sb) == 0 && S_ISDIR(sb.st_mode)) {
+			continue;
 		}
+
+		res->exe = buf;
+		res->done = true;
+		return 0;
 	}
 
 	errno = ENOENT;
-- 
2.43.0


From f6982910a53fc85dedfb119db3239b5d08d1cc07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:24 +0000
Subject: [PATCH 30/33] fix: report read errors from -files0-from

bfs -files0-from DIR exited with status 1 without saying why.
---
 src/parse.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parse.c b/src/parse.c
index fa5c1cd..cf50adb 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -3571,6 +3571,7 @@ static int parse_files0_roots(struct bfs_parser *parser) {
 		char *path = xgetdelim(file, '\0');
 		if (!path) {
 			if (errno) {
+				parse_expr_error(parser, expr, "%s.\n", errstr());
 				goto fail;
 			} else {
 				break;
-- 
2.43.0


From 61298c4e413b29b97432168a99d1be13c68cf92c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:41 +0000
Subject: [PATCH 31/33] fix: report the filesystem type of bind mounts

The types are looked up by mount ID, but a bind mount from the same device
was taken for a path that is not mounted any more, so -fstype and %F gave
"unknown" for everything below it.
---
 src/mtab.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mtab.c b/src/mtab.c
index 40a9885..241c857 100644
--- a/src/mtab.c
+++ b/src/mtab.c
@@ -202,10 +202,10 @@ static int bfs_mtab_fill_types(struct bfs_mtab *mtab) {
 	int ret = -1;
 
 	// It's possible that /path/to/mount was unmounted between bfs_mtab_parse() and bfs_mtab_fill_types().
-	// In that case, the dev_t of /path/to/mount will be the same as /path/to, which should not get its
+	// In that case, the mount ID of /path/to/mount will be the same as /path/to, which should not get its
 	// fstype from the old mount record of /path/to/mount.
 	//
-	// Detect this by comparing the st_dev of the parent (/path/to) and child (/path/to/mount).  Only when
+	// Detect this by comparing the mount IDs of the parent (/path/to) and child (/path/to/mount).  Only when
 	// they differ can the filesystem type actually change between them.  As a minor optimization, we keep
 	// the parent directory open in case multiple mounts have the same parent (e.g. /mnt).
 	char *parent_dir = NULL;
@@ -251,8 +251,8 @@ static int bfs_mtab_fill_types(struct bfs_mtab *mtab) {
 			continue;
 		}
 
-		if (parent_ret == 0 && parent_stat.dev == sb.dev && parent_stat.ino != sb.ino) {
-			// Not a mount point any more (or a bind mount, but with the same fstype)
+		if (parent_ret == 0 && parent_stat.mnt_id == sb.mnt_id && parent_stat.ino != sb.ino) {
+			// Not a mount point any more (or without mount IDs, a bind mount with the same fstype)
 			continue;
 		}
 
-- 
2.43.0


From 2cc4ccb370e9842641d82dc0488ce5d5d62e1c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:41 +0000
Subject: [PATCH 32/33] fix: don't lose an error from reading one kind of ACL

For directories, the result of looking up one of the access and default ACLs
replaced an error from the other, so -acl was silently false.
---
 src/fsade.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/fsade.c b/src/fsade.c
index dfdf125..b32bf84 100644
--- a/src/fsade.c
+++ b/src/fsade.c
@@ -268,7 +268,7 @@ int bfs_check_acl(const struct BFTW *ftwbuf) {
 #  endif
 	};
 
-	int ret = -1, error = 0;
+	int ret = 0, error = 0;
 	for (size_t i = 0; i < countof(acl_types) && ret <= 0; ++i) {
 		acl_type_t type = acl_types[i];
 
@@ -280,15 +280,18 @@ int bfs_check_acl(const struct BFTW *ftwbuf) {
 
 		acl_t acl = acl_get_file(path, type);
 		if (!acl) {
-			error = errno;
-			if (is_absence_error(error)) {
-				ret = 0;
+			if (!is_absence_error(errno)) {
+				ret = -1;
+				error = errno;
 			}
 			continue;
 		}
 
-		ret = bfs_check_acl_type(acl, type);
-		error = errno;
+		int check = bfs_check_acl_type(acl, type);
+		if (check != 0) {
+			ret = check;
+			error = errno;
+		}
 		acl_free(acl);
 	}
 #endif
-- 
2.43.0


From d9ab00b190a3fc070e031cef814877419b2c4361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:41 +0000
Subject: [PATCH 33/33] fix: don't leak memory for every -context test

---
 src/fsade.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fsade.c b/src/fsade.c
index b32bf84..a5ee470 100644
--- a/src/fsade.c
+++ b/src/fsade.c
@@ -504,6 +504,10 @@ char *bfs_getfilecon(const struct BFTW *ftwbuf) {
 		ret = getfilecon(path, &con);
 	}
 
+	int error = errno;
+	free_fake_at(ftwbuf, path);
+	errno = error;
+
 	if (ret >= 0) {
 		return con;
 	} else {
-- 
2.43.0

