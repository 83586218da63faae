From b7dd7adb18a6c660318679b4036ae4f2ff5a8d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:29 +0000
Subject: [PATCH 1/8] poik: simulation hook POIK_SIM_PARAMS (off by default) to
 override the proof dimensions

---
 c-impl/PQCrypto-SIDH/src/poik.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/c-impl/PQCrypto-SIDH/src/poik.h b/c-impl/PQCrypto-SIDH/src/poik.h
index dbc1919..3f884da 100644
--- a/c-impl/PQCrypto-SIDH/src/poik.h
+++ b/c-impl/PQCrypto-SIDH/src/poik.h
@@ -44,6 +44,15 @@
 #error "please #define POIK_BITS to {434,503,610,751} prior to including <poik.h>"
 #endif
 
+#ifdef POIK_SIM_PARAMS      // reduced proof sizes for simulation builds only (off by default)
+    #undef  POIK_REPS
+    #define POIK_REPS       POIK_SIM_REPS
+    #undef  POIK_WIDTH
+    #define POIK_WIDTH      POIK_SIM_WIDTH
+    #undef  POIK_HEIGHT
+    #define POIK_HEIGHT     POIK_SIM_HEIGHT
+#endif
+
 ////////////////////////////////////////////////////////////////
 
 typedef union {
-- 
2.43.0


From d387d83dd1b2c3b342d62206d026ebe350ba9c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:29 +0000
Subject: [PATCH 2/8] fix: prove and verify report failure when buffered output
 cannot be written

Both returned 0 although the last (for verify: the only) stdout buffer was
lost at exit, e.g. on a full disk: verify_434 < proof > /dev/full exited 0.
---
 c-impl/prove.c  | 2 +-
 c-impl/verify.c | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/c-impl/prove.c b/c-impl/prove.c
index 00d17dd..77f5d46 100644
--- a/c-impl/prove.c
+++ b/c-impl/prove.c
@@ -32,7 +32,7 @@ int main(int argc, char **argv)
 
     Prove(&sec, prf);
 
-    if (!Dump(stdout, prf)) {
+    if (!Dump(stdout, prf) || fflush(stdout)) {
         fputs("could not write proof to output file\n", stderr);
         free(prf);
         return 3;
diff --git a/c-impl/verify.c b/c-impl/verify.c
index 669e2d0..7da4188 100644
--- a/c-impl/verify.c
+++ b/c-impl/verify.c
@@ -27,7 +27,8 @@ int main()
     }
 
     if (!Dump_Fp2(stdout, &prf->E0) \
-     || !Dump_Fp2(stdout, &prf->E1)) {
+     || !Dump_Fp2(stdout, &prf->E1) \
+     || fflush(stdout)) {
         fputs("could not write curve to output file\n", stderr);
         free(prf);
         return 3;
-- 
2.43.0


From ee26d9ec635554ee7579cf80a3b988e6e54f6c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:29 +0000
Subject: [PATCH 3/8] fix: Dump() reports a failed write of a response tag

A transient write error on a tag line went unnoticed, so Dump() returned true
for a proof file with a missing line.
---
 c-impl/PQCrypto-SIDH/src/poik.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/c-impl/PQCrypto-SIDH/src/poik.c b/c-impl/PQCrypto-SIDH/src/poik.c
index cc88941..abdff65 100644
--- a/c-impl/PQCrypto-SIDH/src/poik.c
+++ b/c-impl/PQCrypto-SIDH/src/poik.c
@@ -1549,7 +1549,8 @@ bool Dump(FILE *file, struct proof const *prf) {
     for (size_t i = 0; i < POIK_REPS; ++i) {
         struct response const *const r = &prf->resp[i];
 
-        fprintf(file, "%d\n", r->tag);
+        if (fprintf(file, "%d\n", r->tag) < 0)
+            return false;
 
         switch (r->tag) {
         case RESP_LEFT:
-- 
2.43.0


From 323c1ea61be73e632868ca44b62151237184c228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:29 +0000
Subject: [PATCH 4/8] fix: start one worker when the number of processors is
 unknown

sysconf(_SC_NPROCESSORS_ONLN) returns -1 when it cannot determine the count,
which was used as the length of a stack array.
---
 c-impl/PQCrypto-SIDH/src/poik.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/c-impl/PQCrypto-SIDH/src/poik.c b/c-impl/PQCrypto-SIDH/src/poik.c
index abdff65..f0654e9 100644
--- a/c-impl/PQCrypto-SIDH/src/poik.c
+++ b/c-impl/PQCrypto-SIDH/src/poik.c
@@ -1313,8 +1313,10 @@ struct thread_state
 static void run_threads(void *(*fun)(void *), struct thread_state *state)
 {
     static size_t count = 0;
-    if (!count)
-        count = num_threads();
+    if (!count) {
+        long const n = num_threads();
+        count = n > 0 ? n : 1;  // sysconf() may not know
+    }
 
     pthread_t threads[count];
 
-- 
2.43.0


From f4c231bac491ae5bc012fa702f9e7ff39bd7e71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:29 +0000
Subject: [PATCH 5/8] fix: randombytes() opens the entropy source race-free

When the first calls come from several threads (e.g. Prove() on a stored
secret), the unsynchronised lazy open() raced and leaked descriptors.
---
 c-impl/PQCrypto-SIDH/src/random/random.c | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/c-impl/PQCrypto-SIDH/src/random/random.c b/c-impl/PQCrypto-SIDH/src/random/random.c
index b8c7e02..e2b1df6 100644
--- a/c-impl/PQCrypto-SIDH/src/random/random.c
+++ b/c-impl/PQCrypto-SIDH/src/random/random.c
@@ -29,19 +29,26 @@ int randombytes(unsigned char* random_array, unsigned long long nbytes)
 
 #elif defined(__NIX__)
     int r, n = (int)nbytes, count = 0;
-    
-    if (lock == -1) {
+    int fd = __atomic_load_n(&lock, __ATOMIC_ACQUIRE);
+
+    if (fd == -1) {
+        int expected = -1;
         do {
-            lock = open("/dev/urandom", O_RDONLY);
-            if (lock == -1) {
+            fd = open("/dev/urandom", O_RDONLY);
+            if (fd == -1) {
                 sleep(1);
             }
-        } while (lock == -1);
+        } while (fd == -1);
+        // several threads may get here at once: keep the first descriptor
+        if (!__atomic_compare_exchange_n(&lock, &expected, fd, 0, __ATOMIC_ACQ_REL, __ATOMIC_ACQUIRE)) {
+            close(fd);
+            fd = expected;
+        }
     }
 
     while (n > 0) {
         do {
-            r = read(lock, random_array+count, n);
+            r = read(fd, random_array+count, n);
             if (r == -1) {
                 sleep(1);
             }
-- 
2.43.0


From e54143af33afaaf9e4ad3d01245f8e0d550cb7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:27 +0000
Subject: [PATCH 6/8] fix: Parse() refuses numbers that only become a tag by
 overflow

---
 c-impl/PQCrypto-SIDH/src/poik.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/c-impl/PQCrypto-SIDH/src/poik.c b/c-impl/PQCrypto-SIDH/src/poik.c
index f0654e9..cdeefa3 100644
--- a/c-impl/PQCrypto-SIDH/src/poik.c
+++ b/c-impl/PQCrypto-SIDH/src/poik.c
@@ -1642,8 +1642,10 @@ bool Parse(FILE *file, struct proof *prf)
     for (size_t i = 0; i < POIK_REPS; ++i) {
         struct response *const r = &prf->resp[i];
 
-        if (1 != fscanf(file, " %d", &r->tag))
+        long tag;   // checked before it is narrowed
+        if (1 != fscanf(file, " %ld", &tag) || tag < RESP_LEFT || tag > RESP_RIGHT)
             return false;
+        r->tag = tag;
 
         switch (r->tag) {
         case RESP_LEFT:
-- 
2.43.0


From df2ebfc6d8089afd8ce5efe5b95a478234fee434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:51 +0000
Subject: [PATCH 7/8] fix: cmp_f2elm() returns -1 on a mismatch, so compressed
 SIKE rejects with the secret seed

---
 c-impl/PQCrypto-SIDH/src/fpx.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c-impl/PQCrypto-SIDH/src/fpx.c b/c-impl/PQCrypto-SIDH/src/fpx.c
index a668fea..ed4fab9 100644
--- a/c-impl/PQCrypto-SIDH/src/fpx.c
+++ b/c-impl/PQCrypto-SIDH/src/fpx.c
@@ -1063,7 +1063,7 @@ int8_t cmp_f2elm(const f2elm_t x, const f2elm_t y)
     for (int i = NWORDS_FIELD-1; i >= 0; i--)
         r |= (a[0][i] ^ b[0][i]) | (a[1][i] ^ b[1][i]);
 
-    return (int8_t)(((0-(digit_t)(r & 1)) | (0-(digit_t)(r >> 1))) >> (8*sizeof(digit_t)-1));
+    return (int8_t)(0 - (((0-(digit_t)(r & 1)) | (0-(digit_t)(r >> 1))) >> (8*sizeof(digit_t)-1)));
 }
 
 
-- 
2.43.0


From 57bce92447cadba98fe27257000ee8b987abe145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:42:47 +0000
Subject: [PATCH 8/8] fix: compressed SIKE never validates a ciphertext through
 degenerate points

---
 c-impl/PQCrypto-SIDH/src/compression/sidh_compressed.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c-impl/PQCrypto-SIDH/src/compression/sidh_compressed.c b/c-impl/PQCrypto-SIDH/src/compression/sidh_compressed.c
index 858381a..a682829 100644
--- a/c-impl/PQCrypto-SIDH/src/compression/sidh_compressed.c
+++ b/c-impl/PQCrypto-SIDH/src/compression/sidh_compressed.c
@@ -765,7 +765,7 @@ int EphemeralSecretAgreement_A(const unsigned char* PrivateKeyA, const unsigned
 int8_t validate_ciphertext(const unsigned char* ephemeralsk_, const unsigned char* CompressedPKB, const unsigned char* xKA, const unsigned char* tphiBKA_t)
 { // If ct validation passes returns 0, otherwise returns -1.
     point_proj_t phis[3] = {0}, R, S, pts[MAX_INT_POINTS_BOB];
-    f2elm_t XPB, XQB, XRB, coeff[3], A24plus = {0}, A24minus = {0}, A = {0}, comp1 = {0}, comp2 = {0}, one = {0};
+    f2elm_t XPB, XQB, XRB, coeff[3], A24plus = {0}, A24minus = {0}, A = {0}, comp1 = {0}, comp2 = {0}, one = {0}, zero = {0};
     digit_t temp[NWORDS_ORDER] = {0}, sk[NWORDS_ORDER] = {0};
     unsigned int i, row, m, index = 0, pts_index[MAX_INT_POINTS_BOB], npts = 0, ii = 0;
                     
@@ -824,5 +824,5 @@ int8_t validate_ciphertext(const unsigned char* ephemeralsk_, const unsigned cha
         
     fp2mul_mont(R->X, S->Z, comp1);
     fp2mul_mont(R->Z, S->X, comp2);             
-    return (cmp_f2elm(comp1, comp2));
+    return (cmp_f2elm(comp1, comp2) | ~cmp_f2elm(comp1, zero));  // Degenerate points, for which both products vanish, never match
 }
-- 
2.43.0

