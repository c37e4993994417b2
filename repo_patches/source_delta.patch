From b3d8d2020c38a98463c6ea13495bff3a44653309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:23 +0000
Subject: [PATCH 01/25] fix: spasm_realloc must not return NULL for an empty
 size nor hide a failed allocation

realloc(ptr, 0) frees ptr and returns NULL, so shrinking a matrix to zero
entries turned A->x into NULL, i.e. into a pattern matrix; a later enlargement
then wrote the values through a NULL pointer.  A failed realloc(NULL, size) was
not reported either.
---
 src/spasm_util.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/spasm_util.c b/src/spasm_util.c
index 5ac2909..e7b9416 100644
--- a/src/spasm_util.c
+++ b/src/spasm_util.c
@@ -80,8 +80,10 @@ void *spasm_calloc(i64 count, i64 size)
 
 void *spasm_realloc(void *ptr, i64 size)
 {
+	if (size == 0)
+		size = 1;     /* realloc(ptr, 0) frees ptr and returns NULL: a matrix with no entries would lose its values */
 	void *x = realloc(ptr, size);
-	if (ptr != NULL && x == NULL && size != 0)
+	if (x == NULL)
 		err(1, "realloc failed");
 	return x;
 }
-- 
2.43.0


From cf59ba3e43a893ec04e869fba9e5dadd60a08235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:41 +0000
Subject: [PATCH 02/25] fix: rank upper-bound in echelonize_GPLU after Schur
 complements

When at least one Schur complement has been computed, A->n is the number of
remaining rows, not counting the pivots already in U.  min(A->n, m) was then too
small and "full rank reached" stopped the elimination early, with a wrong rank.
---
 src/spasm_echelonize.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spasm_echelonize.c b/src/spasm_echelonize.c
index 8c0778c..a31f481 100644
--- a/src/spasm_echelonize.c
+++ b/src/spasm_echelonize.c
@@ -56,7 +56,7 @@ static void echelonize_GPLU(const struct spasm_csr *A, const int *p, int n, cons
 	(void) opts;
 	assert(p != NULL);
 	int m = A->m;
-	int r = spasm_min(A->n, m);  /* upper-bound on rank */
+	int r = spasm_min(fact->U->n + n, m);  /* upper-bound on rank: A may be a Schur complement */
 	int verbose_step = spasm_max(1, n / 1000);
 	fprintf(stderr, "[echelonize/GPLU] processing matrix of dimension %d x %d\n", n, m);
 	
-- 
2.43.0


From af983c8159a2f8801089eadb6cb086ba16fd15eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:11 +0000
Subject: [PATCH 03/25] fix: fresh random combinations at each call of
 spasm_schur_dense_randomized

The generator was seeded identically at each invocation, so the completion test
re-examined the very combinations that had just been eliminated (always
reporting completion after a step with weight 0), or the same useless
combinations were drawn over and over without progress.
---
 src/spasm_schur.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/spasm_schur.c b/src/spasm_schur.c
index 80b3423..6b08f72 100644
--- a/src/spasm_schur.c
+++ b/src/spasm_schur.c
@@ -358,6 +358,12 @@ void spasm_schur_dense_randomized(const struct spasm_csr *A, const int *p, int n
 	double start = spasm_wtime();
 	int verbose_step = spasm_max(1, N / 1000);
 
+	/* each invocation must draw fresh random combinations, independent of the previous ones */
+	static u32 invocations = 0;
+	u32 seq;
+	#pragma omp atomic capture
+	seq = invocations++;
+
 	#pragma omp parallel
 	{
 		/* per-thread scratch space */
@@ -366,7 +372,7 @@ void spasm_schur_dense_randomized(const struct spasm_csr *A, const int *p, int n
 		#pragma omp for schedule(dynamic, verbose_step)
 		for (i64 k = 0; k < N; k++) {
 			spasm_prng_ctx ctx;
-			spasm_prng_seed_simple(prime, k, 0, &ctx);
+			spasm_prng_seed_simple(prime, k, seq, &ctx);
 
 			for (int j = 0; j < m; j++)
 				y[j] = 0;
-- 
2.43.0


From c8bb041a5246ace26485fd9ab911dbffbb931a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:11 +0000
Subject: [PATCH 04/25] fix: echelonize_dense_lowrank dropped rows of the
 matrix after each round

After finding rr pivots in random linear combinations of n rows, the last rr
rows were excluded from all further combinations and from the completion test,
although nothing shows that they lie in the span of U: the rank could be wrong.
---
 src/spasm_echelonize.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/spasm_echelonize.c b/src/spasm_echelonize.c
index a31f481..57688fd 100644
--- a/src/spasm_echelonize.c
+++ b/src/spasm_echelonize.c
@@ -366,8 +366,7 @@ static void echelonize_dense_lowrank(const struct spasm_csr *A, const int *p, in
 			fprintf(stderr, "[echelonize/dense/low-rank] Not enough pivots, increasing weight to %d\n", w);
 		}
 		update_U_after_rref(rr, Sm, S, datatype, Sp, q, fact);
-		n -= rr;
-		Sm -= rr;
+		Sm -= rr;          /* all the n rows remain candidates: any of them may still contribute */
 		rank_ub -= rr;
 		round += 1;
 		fprintf(stderr, "[echelonize/dense/low-rank] found %d new pivots (%d new since beginning)\n", rr,  U->n - old_un);
-- 
2.43.0


From 1cd3842401ce96498d593e286f69f1cb1e66fbdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:47 +0000
Subject: [PATCH 05/25] fix: heap overflow in echelonize_dense after Schur
 complements (L requested)

pivotal[] has one flag per row of the current Schur complement but is indexed by
row numbers of the original matrix.
---
 src/spasm_echelonize.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/spasm_echelonize.c b/src/spasm_echelonize.c
index 57688fd..c41fede 100644
--- a/src/spasm_echelonize.c
+++ b/src/spasm_echelonize.c
@@ -395,8 +395,12 @@ static void echelonize_dense(const struct spasm_csr *A, const int *p, int n, con
 	int *q = spasm_malloc(Sm * sizeof(*q));
 	size_t *Sqinv = spasm_malloc(Sm * sizeof(*Sqinv));                   /* for FFPACK */
 	size_t *Sp = spasm_malloc(opts->dense_block_size * sizeof(*Sp));     /* for FFPACK / LU only */
-	bool *pivotal = spasm_malloc(A->n * sizeof(*pivotal));
-	for (int i = 0; i < A->n; i++)
+	/* pivotal[i] refers to row i of the original matrix; A may be a Schur complement with fewer rows */
+	int orig_n = A->n;
+	for (int i = 0; (p_in != NULL) && (i < A->n); i++)
+		orig_n = spasm_max(orig_n, p_in[i] + 1);
+	bool *pivotal = spasm_malloc(orig_n * sizeof(*pivotal));
+	for (int i = 0; i < orig_n; i++)
 		pivotal[i] = 0;
 
 	int processed = 0;
-- 
2.43.0


From b25a8f0318aac922fbc284adae63d897e99c6940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:29 +0000
Subject: [PATCH 06/25] fix: rank upper-bound in echelonize_dense after Schur
 complements

A->n - U->n mixes the number of remaining rows with the total number of pivots:
it could be zero or negative while rows remained, and the low-rank phase was
then skipped, with a wrong rank.
---
 src/spasm_echelonize.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spasm_echelonize.c b/src/spasm_echelonize.c
index c41fede..c29c8c6 100644
--- a/src/spasm_echelonize.c
+++ b/src/spasm_echelonize.c
@@ -410,7 +410,7 @@ static void echelonize_dense(const struct spasm_csr *A, const int *p, int n, con
 	fprintf(stderr, "[echelonize/dense] processing dense schur complement of dimension %d x %d; block size=%d, type %s\n", 
 		n, Sm, opts->dense_block_size, spasm_datatype_name(datatype));
 	bool lowrank_mode = 0;
-	int rank_ub = spasm_min(A->n - U->n, A->m - U->n);
+	int rank_ub = spasm_min(n, Sm);
 
 	for (;;) {
 		/* compute a chunk of the schur complement, then echelonize with FFPACK */
@@ -439,7 +439,7 @@ static void echelonize_dense(const struct spasm_csr *A, const int *p, int n, con
 		processed += Sn;
 		p += Sn;
 		Sm = m - U->n;
-		rank_ub = spasm_min(A->n - U->n, A->m - U->n);
+		rank_ub = spasm_min(n - processed, Sm);
 		fprintf(stderr, "[echelonize/dense] found %d new pivots\n", rr);
 
 		/* 
-- 
2.43.0


From 75707e890df0b43dc01402acbe5a2ccd5e514b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:38 +0000
Subject: [PATCH 07/25] fix: spasm_kernel_from_rref wrote prime - 1 instead of
 -1 (overflow for primes above 2^31)

---
 src/spasm_kernel.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spasm_kernel.c b/src/spasm_kernel.c
index 7bc4a06..71ba2a9 100644
--- a/src/spasm_kernel.c
+++ b/src/spasm_kernel.c
@@ -160,7 +160,7 @@ struct spasm_csr * spasm_kernel_from_rref(const struct spasm_csr *R, const int *
 		if (qinv[j] >= 0)
 			continue;           /* skip pivotal columns of R */
 		Kj[nnz] = j;
-		Kx[nnz] = prime - 1;
+		Kx[nnz] = -1;
 		nnz += 1;
 		for (i64 px = Rtp[j]; px < Rtp[j + 1]; px++) {
 			int i = Rtj[px];
-- 
2.43.0


From 2594f46270229db3cffc4c588517ef827f8b7ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:38 +0000
Subject: [PATCH 08/25] fix: spasm_rank_certificate_load read the column
 indices into the row indices and ignored read errors

---
 src/spasm_certificate.c | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/spasm_certificate.c b/src/spasm_certificate.c
index c5aa5ae..ac876e4 100644
--- a/src/spasm_certificate.c
+++ b/src/spasm_certificate.c
@@ -245,11 +245,13 @@ bool spasm_rank_certificate_load(FILE *f, struct spasm_rank_certificate *proof)
 	int r;
 	if (1 != fscanf(f, "%d", &r))
 		return 0;
+	if (r < 0)
+		return 0;
 	proof->r = r;
-	proof->i = malloc(r * sizeof(*proof->i));
-	proof->j = malloc(r * sizeof(*proof->i));
-	proof->x = malloc(r * sizeof(*proof->i));
-	proof->y = malloc(r * sizeof(*proof->i));
+	proof->i = spasm_malloc(r * sizeof(*proof->i));
+	proof->j = spasm_malloc(r * sizeof(*proof->j));
+	proof->x = spasm_malloc(r * sizeof(*proof->x));
+	proof->y = spasm_malloc(r * sizeof(*proof->y));
 	if (1 != fscanf(f, "%" SCNd64 "\n", &proof->prime))
 		return 0;
 	char hash[65];
@@ -260,12 +262,16 @@ bool spasm_rank_certificate_load(FILE *f, struct spasm_rank_certificate *proof)
 		proof->hash[i] = strtoul(byte, NULL, 16);
 	}
 	for (int k = 0; k < r; k++)
-		fscanf(f, "%d", &proof->i[k]);
+		if (1 != fscanf(f, "%d", &proof->i[k]))
+			return 0;
 	for (int k = 0; k < r; k++)
-		fscanf(f, "%d", &proof->i[k]);
+		if (1 != fscanf(f, "%d", &proof->j[k]))
+			return 0;
 	for (int k = 0; k < r; k++)
-		fscanf(f, "%d", &proof->x[k]);
+		if (1 != fscanf(f, "%d", &proof->x[k]))
+			return 0;
 	for (int k = 0; k < r; k++)
-		fscanf(f, "%d", &proof->y[k]);
+		if (1 != fscanf(f, "%d", &proof->y[k]))
+			return 0;
 	return 1;
 }
\ No newline at end of file
-- 
2.43.0


From 654c394bcda9936d19de07f64f2adffb79fe2553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:38 +0000
Subject: [PATCH 09/25] fix: spasm_certificate_rank_verify accepted negative
 ranks

---
 src/spasm_certificate.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/spasm_certificate.c b/src/spasm_certificate.c
index ac876e4..e0a1366 100644
--- a/src/spasm_certificate.c
+++ b/src/spasm_certificate.c
@@ -100,6 +100,9 @@ bool spasm_certificate_rank_verify(const struct spasm_csr *A, const u8 *hash, co
 	int m = A->m;
 	int r = proof->r;
 
+	if (r < 0)
+		return 0;
+
 	for (int i = 0; i < 32; i++)
 		if (hash[i] != proof->hash[i])
 			return 0;
-- 
2.43.0


From bcb1701f80e51dfc35bc1401e9a9b567b96f6cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:38 +0000
Subject: [PATCH 10/25] fix: spasm_factorization_verify did not check its
 memory allocations

---
 src/spasm_certificate.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/spasm_certificate.c b/src/spasm_certificate.c
index e0a1366..358f77c 100644
--- a/src/spasm_certificate.c
+++ b/src/spasm_certificate.c
@@ -175,10 +175,10 @@ bool spasm_factorization_verify(const struct spasm_csr *A, const struct spasm_lu
 	int n = A->n;
 	int m = A->m;
 	int r = U->n;
-	spasm_ZZp *x = malloc(n * sizeof(*x));
-	spasm_ZZp *y = malloc(r * sizeof(*y));
-	spasm_ZZp *z = malloc(m * sizeof(*z));
-	spasm_ZZp *t = malloc(m * sizeof(*t));
+	spasm_ZZp *x = spasm_malloc(n * sizeof(*x));
+	spasm_ZZp *y = spasm_malloc(r * sizeof(*y));
+	spasm_ZZp *z = spasm_malloc(m * sizeof(*z));
+	spasm_ZZp *t = spasm_malloc(m * sizeof(*t));
 	bool correct = 1;
 	bool complete = 0;
 	
-- 
2.43.0


From ec70f73500347c4c2db193ffff92b379c7eeb3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:48 +0000
Subject: [PATCH 11/25] fix: MatrixMarket files without entries were rejected

---
 src/spasm_io.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spasm_io.c b/src/spasm_io.c
index 162470d..8593b7d 100644
--- a/src/spasm_io.c
+++ b/src/spasm_io.c
@@ -111,7 +111,7 @@ struct spasm_triplet *spasm_triplet_load(FILE * f, i64 prime, u8 *hash)
 	struct spasm_triplet *T = spasm_triplet_alloc(i, j, nnz, prime, prime != -1);
 
 	i64 x;
-	bool end = 0;
+	bool end = mm && (nnz == 0);
 	i64 entries = 0;
 	for (;;) { 
 		line += 1;
-- 
2.43.0


From 41eb85f9d6f0ebe83b393b3e304ad9b76553f78e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:19 +0000
Subject: [PATCH 12/25] fix: spasm_compress scrambled the rows that follow
 duplicate entries with zero sum

---
 src/spasm_triplet.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/spasm_triplet.c b/src/spasm_triplet.c
index 9c1cb58..36eeddc 100644
--- a/src/spasm_triplet.c
+++ b/src/spasm_triplet.c
@@ -42,8 +42,10 @@ static void remove_explicit_zeroes(struct spasm_csr *A)
 	if (Ax == NULL)
 		return;
 	i64 nz = 0;
+	i64 start = 0;                    /* Ap[i] before the compaction */
 	for (int i = 0; i < n; i++) {
-		for (i64 it = Ap[i]; it < Ap[i + 1]; it++) {
+		i64 end = Ap[i + 1];
+		for (i64 it = start; it < end; it++) {
 			int j = Aj[it];
 			spasm_ZZp x = Ax[it];
 			if (x == 0)
@@ -52,6 +54,7 @@ static void remove_explicit_zeroes(struct spasm_csr *A)
 			Ax[nz] = x;
 			nz += 1;
 		}
+		start = end;
 		Ap[i + 1] = nz;
 	}
 	spasm_csr_realloc(A, -1);
-- 
2.43.0


From b252f3755e055f1361e29e4081d4735e38d3efca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:51 +0000
Subject: [PATCH 13/25] fix: spasm_triplet_load silently truncated dimensions
 and coordinates that do not fit an int

---
 src/spasm_io.c | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/spasm_io.c b/src/spasm_io.c
index 8593b7d..aec41e2 100644
--- a/src/spasm_io.c
+++ b/src/spasm_io.c
@@ -60,7 +60,7 @@ struct spasm_triplet *spasm_triplet_load(FILE * f, i64 prime, u8 *hash)
 {
 	assert(f != NULL);
 	double start = spasm_wtime();
-	int i, j;
+	i64 i, j;
 	i64 nnz = 1;
 	char buffer[1024];
 	char hnnz[16];
@@ -90,23 +90,29 @@ struct spasm_triplet *spasm_triplet_load(FILE * f, i64 prime, u8 *hash)
 			if (buffer[0] != '%')
 				break;
 		}
-		if (sscanf(buffer, "%d %d %" SCNd64 "\n", &i, &j, &nnz) != 3)
+		if (sscanf(buffer, "%" SCNd64 " %" SCNd64 " %" SCNd64 "\n", &i, &j, &nnz) != 3)
 			errx(1, "[spasm_triplet_load] bad MatrixMarking dimensions (line %" PRId64 ")\n", line);
 		spasm_human_format(nnz, hnnz);
-		fprintf(stderr, "[IO] loading %d x %d MatrixMarket matrix modulo %" PRId64 " with %s non-zero... ", 
+		fprintf(stderr, "[IO] loading %" PRId64 " x %" PRId64 " MatrixMarket matrix modulo %" PRId64 " with %s non-zero... ", 
 			i, j, prime, hnnz);
 		fflush(stderr);
 	} else {
 		/* SMS header */
 		char type;
-		if (sscanf(buffer, "%d %d %c\n", &i, &j, &type) != 3)
+		if (sscanf(buffer, "%" SCNd64 " %" SCNd64 " %c\n", &i, &j, &type) != 3)
 			errx(1, "[spasm_triplet_load] bad SMS file (header)\n");
 		if (prime != -1 && type != 'M')
 			errx(1, "[spasm_triplet_load] only ``Modular'' type supported\n");
-		fprintf(stderr, "[IO] loading %d x %d SMS matrix modulo %" PRId64 "... ", i, j, prime);
+		fprintf(stderr, "[IO] loading %" PRId64 " x %" PRId64 " SMS matrix modulo %" PRId64 "... ", i, j, prime);
 		fflush(stderr);
 	}
 
+	/* dimensions that do not fit would be silently truncated */
+	if (i < 0 || j < 0 || i > INT32_MAX || j > INT32_MAX)
+		errx(1, "[spasm_triplet_load] bad dimensions (line %" PRId64 ")", line);
+	if (nnz < 0 || nnz > INT64_MAX / 8)
+		errx(1, "[spasm_triplet_load] bad number of entries (line %" PRId64 ")", line);
+
 	/* allocate result */
 	struct spasm_triplet *T = spasm_triplet_alloc(i, j, nnz, prime, prime != -1);
 
@@ -125,8 +131,10 @@ struct spasm_triplet *spasm_triplet_load(FILE * f, i64 prime, u8 *hash)
 		if (!end && eof)
 			errx(1, "[spasm_triplet_load] premature end of file (line %" PRId64 ", read %" PRId64" nz)", line, entries);
 
-		if (sscanf(buffer, "%d %d %" SCNd64 "\n", &i, &j, &x) != 3)
+		if (sscanf(buffer, "%" SCNd64 " %" SCNd64 " %" SCNd64 "\n", &i, &j, &x) != 3)
 			errx(1, "parse error line %" PRId64, line);
+		if (i < 0 || j < 0 || i > INT32_MAX || j > INT32_MAX)
+			errx(1, "bad coordinates line %" PRId64, line);
 		if (i == 0 && j == 0 && x == 0) {
 			if (mm)
 				errx(1, "SMS end marker in MatrixMarket file");
-- 
2.43.0


From 0d6544c5e67359397ad807e331f3e0c84941e50b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:13 +0000
Subject: [PATCH 14/25] fix: check_cert announced the opposite verdict,
 inverted its exit status and ignored load failures

---
 tools/check_cert.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/tools/check_cert.c b/tools/check_cert.c
index 2f6d717..dbc812b 100644
--- a/tools/check_cert.c
+++ b/tools/check_cert.c
@@ -2,6 +2,7 @@
 #include <stdio.h>
 #include <assert.h>
 #include <argp.h>
+#include <err.h>
 
 #include "spasm.h"
 #include "common.h"
@@ -70,13 +71,14 @@ int main(int argc, char **argv)
 	/* load certificate */
 	FILE *f = open_input(args.cert_file);
 	struct spasm_rank_certificate proof;
-	spasm_rank_certificate_load(f, &proof);
+	if (!spasm_rank_certificate_load(f, &proof))
+		errx(1, "Cannot read the rank certificate");
 
 	bool correct = spasm_certificate_rank_verify(A, hash, &proof);
 	
-	if (!correct)
+	if (correct)
 		fprintf(stderr, "CORRECT certificate\n");
 	else
 		fprintf(stderr, "INCORRECT certificate\n");	
-	return correct;
-}
\ No newline at end of file
+	return correct ? EXIT_SUCCESS : EXIT_FAILURE;
+}
-- 
2.43.0


From 1650c7a9a4ec489110bb0533df99e3771708b8a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:49 +0000
Subject: [PATCH 15/25] fix: rank -c certified the transpose of wide matrices,
 check_cert then rejects the certificate

---
 tools/rank.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/rank.c b/tools/rank.c
index 1437cab..4a80ca2 100644
--- a/tools/rank.c
+++ b/tools/rank.c
@@ -81,7 +81,8 @@ int main(int argc, char **argv)
 	/* load input matrix */
 	u8 hash[32];
 	struct spasm_triplet *T = load_input_matrix(&args.input, hash);
-	if (args.allow_transpose && (T->n < T->m)) {
+	/* a certificate must concern the input matrix itself, not its transpose */
+	if (args.allow_transpose && !args.certificate && (T->n < T->m)) {
 		fprintf(stderr, "[rank] transposing matrix : ");
 		fflush(stderr);
 		spasm_triplet_transpose(T);
-- 
2.43.0


From a9868bc44ab718eaddfd23ef022e36e6af50ce3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:34 +0000
Subject: [PATCH 16/25] fix: bitmap --width or --height alone produced an empty
 picture

---
 tools/bitmap.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/tools/bitmap.c b/tools/bitmap.c
index 687375a..c3017a2 100644
--- a/tools/bitmap.c
+++ b/tools/bitmap.c
@@ -59,11 +59,15 @@ int main(int argc, char **argv) {
 		h = alpha * n;
 		fprintf(stderr, "[bitmap] targeting %.1f Mpixels ; w=%d, h=%d\n", mpix, w, h);
 	}
-	if ((mpix < 0) && (w < 0) && (h > 0))
-		w = m * (h / n);
+	if ((mpix < 0) && (w < 0) && (h > 0)) {
+		h = spasm_min(h, n);
+		w = spasm_max(1, (i64) m * h / n);
+	}
 
-	if ((mpix < 0) && (w > 0) && (h < 0))
-		h = n * (w / m);
+	if ((mpix < 0) && (w > 0) && (h < 0)) {
+		w = spasm_min(w, m);
+		h = spasm_max(1, (i64) n * w / m);
+	}
 
 	w = spasm_min(w, m);
 	h = spasm_min(h, n);
-- 
2.43.0


From 36bf7eb6fae90e8f9ea3b6192ecb98184346c70a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:34 +0000
Subject: [PATCH 17/25] fix: echelonize --modulus truncated primes above 2^31

---
 tools/echelonize.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/echelonize.c b/tools/echelonize.c
index 6514a63..40e007c 100644
--- a/tools/echelonize.c
+++ b/tools/echelonize.c
@@ -27,7 +27,7 @@ void parse_command_line_options(int argc, char **argv)
 	while ((ch = getopt_long(argc, argv, "", longopts, NULL)) != -1) {
 		switch (ch) {
 		case 'p':
-			prime = atoi(optarg);
+			prime = atoll(optarg);
 			break;
 		case 'r':
 			rref = 1;
-- 
2.43.0


From 3db5bdc577f839a7454cdaf9aa9d3ff1a4cd6a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:50 +0000
Subject: [PATCH 18/25] fix: bitmap --gray aborted on matrices without entries

---
 src/spasm_io.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spasm_io.c b/src/spasm_io.c
index aec41e2..c0c52fd 100644
--- a/src/spasm_io.c
+++ b/src/spasm_io.c
@@ -237,7 +237,7 @@ void spasm_save_pnm(const struct spasm_csr *A, FILE *f, int x, int y, int mode,
 		}
 	}
 
-	double max = 0;
+	double max = 1;          /* not zero: it divides, even when there are no entries */
 	for (int j = 0; j < x * y; j++)
 		max = spasm_max(max, w[j]);
 
-- 
2.43.0


From ac398373f67f5ff7b9ebc0fcba8514b563fff21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:24 +0000
Subject: [PATCH 19/25] fix: dm --image and bitmap --mpixels wrote out of
 bounds when a dimension of the picture rounds to zero

---
 tools/bitmap.c | 4 ++--
 tools/dm.c     | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/tools/bitmap.c b/tools/bitmap.c
index c3017a2..06721ea 100644
--- a/tools/bitmap.c
+++ b/tools/bitmap.c
@@ -55,8 +55,8 @@ int main(int argc, char **argv) {
 	
 	if (mpix > 0 && w < 0 && h < 0) {
 		double alpha = sqrt((mpix * 1e6) / (((double) n) * m));
-		w = alpha * m;
-		h = alpha * n;
+		w = spasm_max(1, alpha * m);
+		h = spasm_max(1, alpha * n);
 		fprintf(stderr, "[bitmap] targeting %.1f Mpixels ; w=%d, h=%d\n", mpix, w, h);
 	}
 	if ((mpix < 0) && (w < 0) && (h > 0)) {
diff --git a/tools/dm.c b/tools/dm.c
index b6ec6de..e518ac2 100644
--- a/tools/dm.c
+++ b/tools/dm.c
@@ -99,8 +99,8 @@ int main(int argc, char **argv) {
     case 'i':
         ;
         double alpha = sqrt((mpix * 1e6) / (((double) n) * m));
-        int w = alpha * m;
-        int h = alpha * n;
+        int w = spasm_max(1, alpha * m);
+        int h = spasm_max(1, alpha * n);
         spasm_save_pnm(B, stdout, w, h, 3, DM);
         break;
     }    
-- 
2.43.0


From b2b0310591ccfc9baa9fb51222013375338da036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:52 +0000
Subject: [PATCH 20/25] fix: write errors (full disk, I/O error) were ignored,
 programs exited with status 0 after incomplete output

---
 src/spasm_certificate.c | 2 ++
 src/spasm_io.c          | 6 ++++++
 tools/dm.c              | 2 ++
 3 files changed, 10 insertions(+)

diff --git a/src/spasm_certificate.c b/src/spasm_certificate.c
index 358f77c..74af551 100644
--- a/src/spasm_certificate.c
+++ b/src/spasm_certificate.c
@@ -241,6 +241,8 @@ void spasm_rank_certificate_save(const struct spasm_rank_certificate *proof, FIL
 	for (int k = 0; k < r; k++)
 		fprintf(f, "%d ", proof->y[k]);
 	fprintf(f, "\n");
+	if (fflush(f) != 0 || ferror(f))
+		err(1, "[spasm_rank_certificate_save] write error");
 }
 
 bool spasm_rank_certificate_load(FILE *f, struct spasm_rank_certificate *proof)
diff --git a/src/spasm_io.c b/src/spasm_io.c
index c0c52fd..b800b93 100644
--- a/src/spasm_io.c
+++ b/src/spasm_io.c
@@ -185,6 +185,8 @@ void spasm_csr_save(const struct spasm_csr *A, FILE *f)
 			fprintf(f, "%d %d %" PRId64 "\n", i + 1, Aj[px] + 1, x);
 		}
 	fprintf(f, "0 0 0\n");
+	if (fflush(f) != 0 || ferror(f))
+		err(1, "[spasm_csr_save] write error");
 }
 
 /*
@@ -201,6 +203,8 @@ void spasm_triplet_save(const struct spasm_triplet *A, FILE *f)
 	for (i64 px = 0; px < nz; px++)
 		fprintf(f, "%d %d %d\n", Ai[px] + 1, Aj[px] + 1, (Ax != NULL) ? Ax[px] : 1);
 	fprintf(f, "0 0 0\n");
+	if (fflush(f) != 0 || ferror(f))
+		err(1, "[spasm_triplet_save] write error");
 }
 
 /* Saves a PBM (bitmap) of specified dimensions of A.
@@ -317,4 +321,6 @@ void spasm_save_pnm(const struct spasm_csr *A, FILE *f, int x, int y, int mode,
 	}
 
 	free(w);
+	if (fflush(f) != 0 || ferror(f))
+		err(1, "[spasm_save_pnm] write error");
 }
diff --git a/tools/dm.c b/tools/dm.c
index e518ac2..91f3f05 100644
--- a/tools/dm.c
+++ b/tools/dm.c
@@ -90,6 +90,8 @@ int main(int argc, char **argv) {
         int v_m = cc[4] - cc[3];
         if (v_n > 0 && v_m > 0)
             printf("*) V (%d x %d)\n", v_n, v_m);
+        if (fflush(stdout) != 0 || ferror(stdout))
+            err(1, "write error");
         break;
         
     case 'p':
-- 
2.43.0


From 8a5390ab4d19ec1b182382de829dad79fd6d2fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:55 +0000
Subject: [PATCH 21/25] fix: spasm_human_format left its buffer unset for
 counts of 10^15 and more (a matrix header announcing so many entries printed
 stale memory)

---
 src/spasm_util.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/spasm_util.c b/src/spasm_util.c
index e7b9416..2846303 100644
--- a/src/spasm_util.c
+++ b/src/spasm_util.c
@@ -60,6 +60,7 @@ void spasm_human_format(i64 n, char *target)
 		snprintf(target, 8, "%.1ft", n / 1e12);
 		return;
 	}
+	snprintf(target, 8, "%.1fp", n / 1e15);
 }
 
 void *spasm_malloc(i64 size)
-- 
2.43.0


From 97c1f506a0898a1b41183adef6c00a3ace5f33ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:11 +0000
Subject: [PATCH 22/25] fix: coefficients that do not fit 64 bits were silently
 replaced by the largest 64-bit integer

---
 src/spasm_io.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/spasm_io.c b/src/spasm_io.c
index b800b93..6c857d3 100644
--- a/src/spasm_io.c
+++ b/src/spasm_io.c
@@ -5,6 +5,7 @@
 #include <err.h>
 #include <string.h>
 #include <ctype.h>
+#include <errno.h>
 
 #include "spasm.h"
 
@@ -131,8 +132,12 @@ struct spasm_triplet *spasm_triplet_load(FILE * f, i64 prime, u8 *hash)
 		if (!end && eof)
 			errx(1, "[spasm_triplet_load] premature end of file (line %" PRId64 ", read %" PRId64" nz)", line, entries);
 
-		if (sscanf(buffer, "%" SCNd64 " %" SCNd64 " %" SCNd64 "\n", &i, &j, &x) != 3)
+		int pos = 0;
+		if (sscanf(buffer, "%" SCNd64 " %" SCNd64 " %n%" SCNd64 "\n", &i, &j, &pos, &x) != 3)
 			errx(1, "parse error line %" PRId64, line);
+		errno = 0;
+		if (strtoll(buffer + pos, NULL, 10) != x || errno == ERANGE)
+			errx(1, "integer too large line %" PRId64, line);
 		if (i < 0 || j < 0 || i > INT32_MAX || j > INT32_MAX)
 			errx(1, "bad coordinates line %" PRId64, line);
 		if (i == 0 && j == 0 && x == 0) {
-- 
2.43.0


From f7ce8bbdc4e5ba14492e8a439f9b89ef3de074d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:37 +0000
Subject: [PATCH 23/25] fix: spasm_rank_certificate_load accepted a file cut
 inside the digest (and read uninitialised memory) when the missing digits are
 zeroes

---
 src/spasm_certificate.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/spasm_certificate.c b/src/spasm_certificate.c
index 74af551..8f78bc3 100644
--- a/src/spasm_certificate.c
+++ b/src/spasm_certificate.c
@@ -1,5 +1,6 @@
 #include <stdlib.h>
 #include <stdio.h>
+#include <string.h>
 #include <assert.h>
 #include <math.h>
 #include <err.h>
@@ -260,7 +261,7 @@ bool spasm_rank_certificate_load(FILE *f, struct spasm_rank_certificate *proof)
 	if (1 != fscanf(f, "%" SCNd64 "\n", &proof->prime))
 		return 0;
 	char hash[65];
-	if (NULL == fgets(hash, 65, f))
+	if (NULL == fgets(hash, 65, f) || strlen(hash) != 64)
 		return 0;
 	for (int i = 0; i < 32; i++) {
 		char byte[3] = {hash[2*i], hash[2*i+1], 0};
-- 
2.43.0


From 48a07efee203eeec8f315c47e597bdc3e6ab44cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:02 +0000
Subject: [PATCH 24/25] fix: spasm_dulmage_mendelsohn and
 spasm_strongly_connected_components leaked their workspace

---
 src/spasm_dm.c  | 4 ++++
 src/spasm_scc.c | 1 +
 2 files changed, 5 insertions(+)

diff --git a/src/spasm_dm.c b/src/spasm_dm.c
index 8505d98..bdd6645 100644
--- a/src/spasm_dm.c
+++ b/src/spasm_dm.c
@@ -1,3 +1,4 @@
+#include <stdlib.h>
 #include <assert.h>
 
 #include "spasm.h"
@@ -137,6 +138,8 @@ struct spasm_dm *spasm_dulmage_mendelsohn(const struct spasm_csr *A)
 	collect_matched(m, wj, imatch, p, q, cc, rr, 2, -1);
 	collect_matched(m, wj, imatch, p, q, cc, rr, 3, 3);
 	collect_unmatched(n, wi, p, rr, 3);
+	free(jmatch);
+	free(imatch);
 
 	/* --- fine DM decomposition ---------------------------------- */
 
@@ -148,6 +151,7 @@ struct spasm_dm *spasm_dulmage_mendelsohn(const struct spasm_csr *A)
 	struct spasm_csr *B = spasm_permute(A, p, qinv, SPASM_IGNORE_VALUES);
 	struct spasm_csr *C = spasm_submatrix(B, rr[1], rr[2], cc[2], cc[3], SPASM_IGNORE_VALUES);
 	spasm_csr_free(B);
+	free(qinv);
 
 	struct spasm_dm *SCC = spasm_strongly_connected_components(C);
 	int n_scc = SCC->nb;
diff --git a/src/spasm_scc.c b/src/spasm_scc.c
index 2938b09..98590fa 100644
--- a/src/spasm_scc.c
+++ b/src/spasm_scc.c
@@ -112,6 +112,7 @@ struct spasm_dm *spasm_strongly_connected_components(const struct spasm_csr *A)
 	free(stack);
 	free(pstack);
 	free(marks);
+	free(prev);
 	free(lowlink);
 	return P;
 }
-- 
2.43.0


From ef43eb0b54cb12616827f1bd2c5da1e924023b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:13 +0000
Subject: [PATCH 25/25] fix: spasm_gesv (and the solve program) read right-hand
 sides with another number of columns out of bounds, or silently dropped their
 last columns

---
 src/spasm_solve.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/spasm_solve.c b/src/spasm_solve.c
index 7649648..4156e92 100644
--- a/src/spasm_solve.c
+++ b/src/spasm_solve.c
@@ -56,6 +56,7 @@ struct spasm_csr * spasm_gesv(const struct spasm_lu *fact, const struct spasm_cs
 	assert(fact->L != NULL);
 	int n = B->n;
 	int m = B->m;
+	assert(m == fact->U->m);
 	int Xm = fact->L->n;
 	struct spasm_triplet *X = spasm_triplet_alloc(n, Xm, (i64) Xm * n, prime, true);
 	int *Xi = X->i;
-- 
2.43.0

