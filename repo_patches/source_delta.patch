From a4a214096da196edf088c28a9503f5688ceb0ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:15 +0000
Subject: [PATCH 001/192] fix: apop_map by columns names its output rows from
 the input columns

---
 apop_mapply.m4.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apop_mapply.m4.c b/apop_mapply.m4.c
index bd9ac81..fb1dd60 100644
--- a/apop_mapply.m4.c
+++ b/apop_mapply.m4.c
@@ -177,7 +177,7 @@ APOP_VAR_ENDHEAD
         } else if (by_apop_rows || part == 'r')
              apop_name_stack(out->names, in->names, 'r');
         else if (part == 'c')
-            apop_name_stack(in->names, out->names, 'r', 'c');
+            apop_name_stack(out->names, in->names, 'r', 'c');
     }
 
     if (by_apop_rows) mapply_core(in, NULL, NULL, fn, out ? out->vector : NULL, use_index, use_param, param, 'r', by_apop_rows);
-- 
2.43.0


From 0ef3c5be4b804eda4564e190accb10ac5f78c407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:32 +0000
Subject: [PATCH 002/192] fix: apop_map with no output survives multi-page data

---
 apop_mapply.m4.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/apop_mapply.m4.c b/apop_mapply.m4.c
index fb1dd60..d58f6f7 100644
--- a/apop_mapply.m4.c
+++ b/apop_mapply.m4.c
@@ -210,7 +210,9 @@ APOP_VAR_ENDHEAD
         }
     }
     if ((all_pages=='y' || all_pages=='Y') && in->more){
-        out->more = apop_map_base(in->more, fn_d, fn_v, fn_r, fn_dp, fn_vp, fn_rp, fn_dpi, fn_vpi, fn_rpi, fn_di, fn_vi, fn_ri, param, inplace, part, all_pages);
+        apop_data *more_out = apop_map_base(in->more, fn_d, fn_v, fn_r, fn_dp, fn_vp, fn_rp, fn_dpi, fn_vpi, fn_rpi, fn_di, fn_vi, fn_ri, param, inplace, part, all_pages);
+        if (!out) return more_out; //inplace=='v': no output to attach pages to.
+        out->more = more_out;
         Apop_stopif(out->more->error, out->error=out->more->error, 1, "Error in subpage; marked parent page with same error code.");
     }
     return out;
-- 
2.43.0


From fc0b375032f2a4d4d68702ea3cf63681eaeed59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:42 +0000
Subject: [PATCH 003/192] fix: apop_map over a missing matrix does not return
 uninitialised cells

---
 apop_mapply.m4.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/apop_mapply.m4.c b/apop_mapply.m4.c
index d58f6f7..90867cc 100644
--- a/apop_mapply.m4.c
+++ b/apop_mapply.m4.c
@@ -154,7 +154,7 @@ APOP_VAR_ENDHEAD
     apop_data *out =   (inplace=='y') ? in
                      : (inplace=='v') ? NULL
                      : by_apop_rows ? apop_data_alloc(GSL_MAX(in->textsize[0], maxsize))
-                     : part == 'v' || (in->vector && ! in->matrix) ? apop_data_alloc(vsize)
+                     : part == 'v' || (part == 'a' && in->vector && ! in->matrix) ? apop_data_alloc(vsize)
                      : part == 'm' ? apop_data_alloc(msize1, msize2)
                      : part == 'a' ? apop_data_alloc(vsize, msize1, msize2)
                      : part == 'r' ? apop_data_alloc(maxsize)
@@ -163,7 +163,7 @@ APOP_VAR_ENDHEAD
                             "No vector in your input data set for me to write outputs to; "
                             "allocating one for you of size %i", maxsize);
     if (in->names && out && !(inplace=='y')){
-        if (part == 'v'  || (in->vector && ! in->matrix)) {
+        if (part == 'v'  || (part == 'a' && in->vector && ! in->matrix)) {
              apop_name_stack(out->names, in->names, 'v');
              apop_name_stack(out->names, in->names, 'r');
         }
-- 
2.43.0


From 8d34a8f508a58ad3740631820943288ccf3db840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:22 +0000
Subject: [PATCH 004/192] fix: apop_map over columns in place allocates one
 cell per column

---
 apop_mapply.m4.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/apop_mapply.m4.c b/apop_mapply.m4.c
index 90867cc..3b78514 100644
--- a/apop_mapply.m4.c
+++ b/apop_mapply.m4.c
@@ -159,9 +159,9 @@ APOP_VAR_ENDHEAD
                      : part == 'a' ? apop_data_alloc(vsize, msize1, msize2)
                      : part == 'r' ? apop_data_alloc(maxsize)
                      : part == 'c' ?  apop_data_alloc(msize2) : NULL;
-    Apop_stopif(inplace=='y' && (part=='r'||part=='c') && !in->vector, in->vector=gsl_vector_alloc(maxsize), 2, 
+    Apop_stopif(inplace=='y' && (part=='r'||part=='c') && !in->vector, in->vector=gsl_vector_alloc(part=='c' ? msize2 : maxsize), 2, 
                             "No vector in your input data set for me to write outputs to; "
-                            "allocating one for you of size %i", maxsize);
+                            "allocating one for you of size %i", part=='c' ? msize2 : maxsize);
     if (in->names && out && !(inplace=='y')){
         if (part == 'v'  || (part == 'a' && in->vector && ! in->matrix)) {
              apop_name_stack(out->names, in->names, 'v');
-- 
2.43.0


From 06ee04ee0a5eaca406fa8f6a4250a0af5a99044f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:29 +0000
Subject: [PATCH 005/192] fix: apop_rng_get_thread finds the OpenMP thread and
 reads its store under the lock

---
 apop_asst.m4.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/apop_asst.m4.c b/apop_asst.m4.c
index 37ede53..2d3a69c 100644
--- a/apop_asst.m4.c
+++ b/apop_asst.m4.c
@@ -358,14 +358,12 @@ gsl_rng *apop_rng_get_thread_base(int thread){
     static int rng_ct = -1;
 
     if (thread==-1){
-        #ifdef OpenMP
-            thread = omp_get_thread_num();
-        #else
-            thread = 0;
-        #endif
+        thread = omp_threadnum;
     }
 
+    gsl_rng *out;
     OMP_critical(rng_get_thread)
+    {
     if (thread > rng_ct)
         {
             rngs = realloc(rngs, sizeof(gsl_rng*)*(thread+1));
@@ -373,7 +371,9 @@ gsl_rng *apop_rng_get_thread_base(int thread){
                 rngs[i] = apop_rng_alloc(++apop_opts.rng_seed);
             rng_ct = thread;
         }
-    return rngs[thread];
+    out = rngs[thread]; //another thread may be reallocating rngs outside of this block.
+    }
+    return out;
 }
 
 /** Make a set of random draws from a model and write them to an \ref apop_data set.
-- 
2.43.0


From 9b334310c46554ad26b9e2c7eb8bb8c4426200b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:17 +0000
Subject: [PATCH 006/192] fix: apop_generalized_harmonic reads its cache under
 the lock and records its length

---
 apop_asst.m4.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/apop_asst.m4.c b/apop_asst.m4.c
index 2d3a69c..91b46a4 100644
--- a/apop_asst.m4.c
+++ b/apop_asst.m4.c
@@ -146,6 +146,7 @@ When reading the code, remember that the zeroth element holds the value for N=1,
     static int * 	 lengths= NULL;
     static int		 count	= 0;
     static long double ** precalced=NULL;
+    long double out;
     int	old_len, i;
     OMP_critical(generalized_harmonic)
     { //Due to memoization, this can't parallelize.
@@ -171,9 +172,11 @@ When reading the code, remember that the zeroth element holds the value for N=1,
 		precalced[i] = realloc(precalced[i], sizeof(long double) * N);
 		for (int j = old_len; j<N; j++)
 			precalced[i][j] = precalced[i][j-1] + 1/pow((j+1),s);
+		lengths[i]	= N;
 	}
+	out = precalced[i][N-1]; //read it here: outside, another thread may be reallocating.
     }
-	return 	precalced[i][N-1];
+	return out;
 }
 
 /** Call \c system(), but with <tt>printf</tt>-style arguments. E.g.,
-- 
2.43.0


From 0ed0e1eea236a5e61689a628a30a096688b8c6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:28 +0000
Subject: [PATCH 007/192] fix: function tables are searched and grown under one
 lock

---
 apop_vtables.c | 90 ++++++++++++++++++++------------------------------
 1 file changed, 35 insertions(+), 55 deletions(-)

diff --git a/apop_vtables.c b/apop_vtables.c
index da4a4b1..6573de6 100644
--- a/apop_vtables.c
+++ b/apop_vtables.c
@@ -2,15 +2,6 @@
 #include <string.h>
 #include "apop_internal.h" //just for OMP_critical
 
-#ifdef _OPENMP
-#include <omp.h>
-#define lock omp_set_lock(&v->mutex);
-#define unlock omp_unset_lock(&v->mutex);
-#else
-#define lock 
-#define unlock 
-#endif
-
 /** \cond doxy_ignore */
 typedef struct {
     size_t hash;
@@ -22,13 +13,10 @@ typedef struct {
     unsigned long int hashed_name;
     int elmt_ct;
     apop_vtable_elmt_s *elmts;
-#ifdef _OPENMP
-    omp_lock_t mutex;
-#endif
 } apop_vtable_s;
 
-apop_vtable_s *vtable_list;
-int ignore_me;
+//The list and its tables are reallocated as they grow, so all access is via critical regions.
+static apop_vtable_s *vtable_list;
 /** \endcond */ //End of Doxygen ignore.
 
 //The Dan J Bernstein string hashing algorithm.
@@ -49,70 +37,62 @@ static apop_vtable_s *find_tab(unsigned long h, int *ctr){
 //return 0 = found; removed
 //return 1 = not found; no-op
 int apop_vtable_drop(char const *tabname, unsigned long hash){
-    if (!vtable_list) return 1;
     unsigned long h = apop_settings_hash(tabname);
-    apop_vtable_s *v = find_tab(h, &ignore_me);
-
-    lock
-    for (int i=0; i< v->elmt_ct; i++)
-        if (hash == v->elmts[i].hash) {
-            memmove(v->elmts+i, v->elmts+i+1, sizeof(apop_vtable_elmt_s)*(v->elmt_ct-i));
-            v->elmt_ct--;
-            unlock
-            return 0;
-        }
-    unlock
-    return 1;
+    int ctr, out = 1;
+    OMP_critical (vtables)
+    if (vtable_list){
+        apop_vtable_s *v = find_tab(h, &ctr);
+        for (int i=0; i< v->elmt_ct; i++)
+            if (hash == v->elmts[i].hash) {
+                memmove(v->elmts+i, v->elmts+i+1, sizeof(apop_vtable_elmt_s)*(v->elmt_ct-i-1));
+                v->elmt_ct--;
+                out = 0;
+                break;
+            }
+    }
+    return out;
 }
 
 int apop_vtable_add(char const *tabname, void *fn_in, unsigned long hash){
-    if (!vtable_list){vtable_list = calloc(1, sizeof(apop_vtable_s));}
-
     unsigned long h = apop_settings_hash(tabname);
     int ctr;
-    apop_vtable_s *v;
-
-
-    //add a table if need be.
-    OMP_critical (new_vtable)
+    OMP_critical (vtables)
     {
-    v = find_tab(h, &ctr);
+    if (!vtable_list){vtable_list = calloc(1, sizeof(apop_vtable_s));}
 
+    //add a table if need be.
+    apop_vtable_s *v = find_tab(h, &ctr);
     if (!v->hashed_name){
         vtable_list = realloc(vtable_list, (ctr+2)* sizeof(apop_vtable_s));
         vtable_list[ctr] = (apop_vtable_s){.elmts=calloc(1, sizeof(apop_vtable_elmt_s))};
         vtable_list[ctr+1] = (apop_vtable_s){ };
-        #ifdef _OPENMP
-            omp_init_lock(&vtable_list[ctr].mutex);
-            omp_set_lock(&vtable_list[ctr].mutex);
-        #endif
         vtable_list[ctr].name = tabname;
         vtable_list[ctr].hashed_name = h;
         v = vtable_list+ctr;
-        unlock
-    }
     }
 
-    lock
     //If this hash is already present, don't re-add. 
-    for (int i=0; i< v->elmt_ct; i++) if (hash == v->elmts[i].hash) {unlock; return 0;}
+    int found = 0;
+    for (int i=0; i< v->elmt_ct && !found; i++) found = (hash == v->elmts[i].hash);
 
     //insert
-    v->elmts = realloc(v->elmts, (++(v->elmt_ct))* sizeof(apop_vtable_elmt_s));
-    v->elmts[v->elmt_ct-1] = (apop_vtable_elmt_s){.hash=hash, .fn=fn_in};
-    unlock
+    if (!found){
+        v->elmts = realloc(v->elmts, (++(v->elmt_ct))* sizeof(apop_vtable_elmt_s));
+        v->elmts[v->elmt_ct-1] = (apop_vtable_elmt_s){.hash=hash, .fn=fn_in};
+    }
+    }
     return 0;
 }
 
 void *apop_vtable_get(char const *tabname, unsigned long hash){
-    if (!vtable_list) return NULL;
     unsigned long thash = apop_settings_hash(tabname);
-    apop_vtable_s *v = find_tab(thash, &ignore_me);
-    if (!v->hashed_name) return NULL;
-
-    lock
-    for (int i=0; i< v->elmt_ct; i++)
-        if (hash == v->elmts[i].hash) {unlock; return v->elmts[i].fn;}
-    unlock
-    return NULL;
+    int ctr;
+    void *out = NULL;
+    OMP_critical (vtables)
+    if (vtable_list){
+        apop_vtable_s *v = find_tab(thash, &ctr);
+        for (int i=0; i< v->elmt_ct; i++)
+            if (hash == v->elmts[i].hash) {out = v->elmts[i].fn; break;}
+    }
+    return out;
 }
-- 
2.43.0


From 65fd66acb172711375caadcda101b62b63328332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:27 +0000
Subject: [PATCH 008/192] fix: Apop_rs keeps the row names of every row in the
 view

---
 apop.m4.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apop.m4.h b/apop.m4.h
index cefd8da..e637e70 100644
--- a/apop.m4.h
+++ b/apop.m4.h
@@ -870,7 +870,7 @@ The view is automatically allocated, and disappears as soon as the program leave
                 .colhash = (d)->names->colhash,                                  \
                 .text = (d)->names->text,                                        \
                 .colct = (d)->names->colct,                                      \
-                .rowct = (d)->names->row ? (GSL_MIN(1, GSL_MAX((d)->names->rowct - (int)(rownum), 0)))      \
+                .rowct = (d)->names->row ? (GSL_MIN((int)(len), GSL_MAX((d)->names->rowct - (int)(rownum), 0)))      \
                                           : 0,                                   \
                 .textct = (d)->names->textct }),                                 \
         .vector= Apop_subvector((d->vector), (rownum), (len)),                   \
-- 
2.43.0


From ee83b59c24b668679ed99fbc33d9c41d69a24065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:27 +0000
Subject: [PATCH 009/192] fix: apop_linear_constraint takes the angle between
 constraints from their norms

---
 apop_linear_constraint.m4.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apop_linear_constraint.m4.c b/apop_linear_constraint.m4.c
index 688242a..93245da 100644
--- a/apop_linear_constraint.m4.c
+++ b/apop_linear_constraint.m4.c
@@ -34,7 +34,7 @@ static int binds(gsl_vector const *v, double k, gsl_vector const *b, double marg
 static double trig_bit(gsl_vector *dimv, gsl_vector *otherv, double off_by){
     double theta, costheta, dot, out;
     gsl_blas_ddot(dimv, otherv, &dot);
-    costheta = dot/(magnitude(dimv)*magnitude(otherv));
+    costheta = dot/sqrt(magnitude(dimv)*magnitude(otherv)); //magnitude is the squared norm
     theta = acos(costheta);
     out = off_by/gsl_pow_2(sin(theta)); 
     return out;
-- 
2.43.0


From 61cd5a430dbe8eeffa8035188ca2149302959beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:37 +0000
Subject: [PATCH 010/192] fix: apop_linear_constraint forgets the nearest point
 found by earlier calls

---
 apop_linear_constraint.m4.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apop_linear_constraint.m4.c b/apop_linear_constraint.m4.c
index 93245da..aa2952a 100644
--- a/apop_linear_constraint.m4.c
+++ b/apop_linear_constraint.m4.c
@@ -151,8 +151,8 @@ APOP_VAR_ENDHEAD
         closest_pt  = gsl_vector_calloc(beta->size);
         candidate   = gsl_vector_alloc(beta->size);
         fix         = gsl_vector_alloc(beta->size);
-        closest_pt->data[0] = GSL_NEGINF;
     }
+    closest_pt->data[0] = GSL_NEGINF; //forget the candidate from any prior call
     /* Do any constraints bind?*/
     memset(bindlist, 0, sizeof(int)*constraint_ct);
     for (i=0; i< constraint_ct; i++){
-- 
2.43.0


From 3f475a67dc0c34553197b05984ecdc920f4d72fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:14 +0000
Subject: [PATCH 011/192] fix: annealing searches do not bootstrap themselves
 without end

---
 apop_mle.m4.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/apop_mle.m4.c b/apop_mle.m4.c
index 7377bfb..2ab044a 100644
--- a/apop_mle.m4.c
+++ b/apop_mle.m4.c
@@ -873,7 +873,6 @@ static void apop_annealing(infostruct *i){
     }
     signal(SIGINT, NULL);
     apop_data_unpack(i->beta, i->model->parameters); 
-    apop_estimate_parameter_tests(i->model);
     apopstatus = 0;
 done:
     if (mp->rng) r = NULL;
-- 
2.43.0


From f0360347ef682efdc699c768ea01ee08478cc38d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:14 +0000
Subject: [PATCH 012/192] fix: prediction and parameter-model lookups hash the
 model, not only its estimate function

---
 apop.m4.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/apop.m4.h b/apop.m4.h
index e637e70..ba0942a 100644
--- a/apop.m4.h
+++ b/apop.m4.h
@@ -533,11 +533,11 @@ typedef void (*apop_score_type)(apop_data *d, gsl_vector *gradient, apop_model *
 make_vtab_fns(apop_score)
 
 typedef apop_model* (*apop_parameter_model_type)(apop_data *, apop_model *);
-#define apop_parameter_model_hash(m1) ((size_t)((m1)->log_likelihood ? (m1)->log_likelihood : (m1)->p)*33 + (m1)->estimate ? (size_t)(m1)->estimate: 27)
+#define apop_parameter_model_hash(m1) ((size_t)((m1)->log_likelihood ? (m1)->log_likelihood : (m1)->p)*33 + ((m1)->estimate ? (size_t)(m1)->estimate: 27))
 make_vtab_fns(apop_parameter_model)
 
 typedef apop_data * (*apop_predict_type)(apop_data *d, apop_model *params);
-#define apop_predict_hash(m1) ((size_t)((m1)->log_likelihood ? (m1)->log_likelihood : (m1)->p)*33 + (m1)->estimate ? (size_t)(m1)->estimate: 27)
+#define apop_predict_hash(m1) ((size_t)((m1)->log_likelihood ? (m1)->log_likelihood : (m1)->p)*33 + ((m1)->estimate ? (size_t)(m1)->estimate: 27))
 make_vtab_fns(apop_predict)
 
 typedef void (*apop_model_print_type)(apop_model *params, FILE *out);
-- 
2.43.0


From d2f64aa620624c6f2843222221e2e8585889e29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:46 +0000
Subject: [PATCH 013/192] fix: Newton-type likelihood searches survive a bad
 start, stop on SIGINT and report success

---
 apop_mle.m4.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/apop_mle.m4.c b/apop_mle.m4.c
index 2ab044a..292e9e8 100644
--- a/apop_mle.m4.c
+++ b/apop_mle.m4.c
@@ -894,18 +894,26 @@ static apop_model * find_roots (infostruct p) {
         : !strcasecmp(mlep->method, "Newton hybrid no scale") ? gsl_multiroot_fsolver_hybrids
                                                    : gsl_multiroot_fsolver_hybrid;
     s = gsl_multiroot_fsolver_alloc (T, betasize);
+    ctrl_c = 0;
+    if (setjmp(p.bad_eval_jump))
+        Apop_stopif(1, return dist, 0, "Failure evaluating likelihood at the starting point. Add a starting point?");
     gsl_multiroot_fsolver_set (s, &f, p.beta);
+    signal(SIGINT, mle_sigint);
     do {
         iter++;
-        if (setjmp(p.bad_eval_jump)) break;
+        if (setjmp(p.bad_eval_jump)) {
+            status = GSL_EBADFUNC;
+            break;
+        }
         status = gsl_multiroot_fsolver_iterate (s);
         if (!mlep || mlep->verbose)
             printf ("iter = %3zu x = % .3f f(x) = % .3e\n", iter, gsl_vector_get (s->x, 0), gsl_vector_get (s->f, 0));
         if (status)   /* check if solver is stuck */
             break;
         status = gsl_multiroot_test_residual (s->f, mlep->tolerance);
-    } while (status == GSL_CONTINUE && iter < mlep->max_iterations);
-    if (GSL_SUCCESS) apopstatus = 0;
+    } while (status == GSL_CONTINUE && iter < mlep->max_iterations && !ctrl_c);
+    signal(SIGINT, NULL);
+    if (status == GSL_SUCCESS && !ctrl_c) apopstatus = 0;
     Apop_notify(2, "status = %s\n", gsl_strerror(status));
     apop_data_unpack(s->x, dist->parameters);
     gsl_multiroot_fsolver_free (s);
-- 
2.43.0


From 4757d6b5e0c8765d53c88e64ddfc7214f4fb1111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:41 +0000
Subject: [PATCH 014/192] fix: interrupted or unfinished likelihood searches
 are not reported as converged

---
 apop_mle.m4.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/apop_mle.m4.c b/apop_mle.m4.c
index 292e9e8..2de1097 100644
--- a/apop_mle.m4.c
+++ b/apop_mle.m4.c
@@ -463,6 +463,7 @@ Inside the infostruct, you'll find these elements:
         Apop_stopif(status == GSL_SUCCESS, apopstatus=0, 2, "Optimum found.");
     } while (status == GSL_CONTINUE && iter < mp->max_iterations && !ctrl_c);
     signal(SIGINT, NULL);
+    if (ctrl_c) apopstatus = -1; //interrupted, so not an optimum.
 	Apop_stopif(iter==mp->max_iterations, apopstatus = -1, 1, "Max iterations reached, implying that I did not find an optimum.");
 	//Clean up, copy results to output estimate.
     apop_data_unpack(s->x, est->parameters);
@@ -484,8 +485,8 @@ static void apop_maximum_likelihood_no_d(apop_data * data, infostruct * i){
     double size;
     s = gsl_multimin_fminimizer_alloc(gsl_multimin_fminimizer_nmsimplex, betasize);
     ss = gsl_vector_alloc(betasize);
-    ctrl_c      =
-    apopstatus = 0; //assume failure until we score a success.
+    ctrl_c     = 0;
+    apopstatus = -1; //assume failure until we score a success.
     gsl_vector_set_all (ss,  mp->step_size);
     gsl_multimin_function  minme = {.f = negshell, .n= betasize, .params = i};
     if (setjmp(i->bad_eval_jump))
@@ -496,7 +497,7 @@ static void apop_maximum_likelihood_no_d(apop_data * data, infostruct * i){
     do {  
         iter++;
         if (setjmp(i->bad_eval_jump)) {
-            apopstatus = -1;
+            status = GSL_EBADFUNC;
             break;
         }
     status  = gsl_multimin_fminimizer_iterate(s);
@@ -520,7 +521,7 @@ static void apop_maximum_likelihood_no_d(apop_data * data, infostruct * i){
     signal(SIGINT, NULL);
 	Apop_stopif(iter == mp->max_iterations && mp->verbose, /*continue*/, 
                 1, "Optimization reached maximum number of iterations.");
-    if (status == GSL_SUCCESS) apopstatus = 0;
+    if (status == GSL_SUCCESS && !ctrl_c) apopstatus = 0;
     apop_data_unpack(s->x, est->parameters);
 	gsl_multimin_fminimizer_free(s);
     auxinfo(est->parameters, i, apopstatus, i->best_ll);
-- 
2.43.0


From eb9d24e924a570d4e20feb77b6ae2079fc1619dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:41 +0000
Subject: [PATCH 015/192] fix: annealing puts the SIGINT handler back and
 reports interrupts

---
 apop_mle.m4.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/apop_mle.m4.c b/apop_mle.m4.c
index 2de1097..ec58e19 100644
--- a/apop_mle.m4.c
+++ b/apop_mle.m4.c
@@ -871,11 +871,12 @@ static void apop_annealing(infostruct *i){
           annealing_free,     // gsl_siman_destroy_t destructor
           betasize,           // size_t element_size
           simparams);         // gsl_siman_params_t params
+        //on an interrupt or bad evaluation, keep the parameters the search was on at the time.
+        apop_data_unpack(i->beta, i->model->parameters); 
+        apopstatus = 0;
     }
-    signal(SIGINT, NULL);
-    apop_data_unpack(i->beta, i->model->parameters); 
-    apopstatus = 0;
 done:
+    signal(SIGINT, NULL);
     if (mp->rng) r = NULL;
     auxinfo(i->model->parameters, i, apopstatus, i->best_ll);
 }
-- 
2.43.0


From ee1de5daea1c65cff41d0b8b8927cf8ec40a9f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:10 +0000
Subject: [PATCH 016/192] fix: dimension-cycling searches stop on SIGINT and at
 max_iterations, and restore the starting point

---
 apop_mle.m4.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/apop_mle.m4.c b/apop_mle.m4.c
index ec58e19..671b7c8 100644
--- a/apop_mle.m4.c
+++ b/apop_mle.m4.c
@@ -541,18 +541,21 @@ static void dim_cycle(apop_data *d, apop_model *est, infostruct info){
     int iteration = 0;
     apop_mle_settings *mp = Apop_settings_get_group(est, apop_mle);
     double tol = mp->dim_cycle_tolerance;
+    double *starting_pt = mp->starting_pt;
     int betasize = info.beta->size;
     Apop_settings_set(est, apop_mle, dim_cycle_tolerance, 0);//so sub-estimations won't use this function.
     gsl_vector *paramv = apop_data_pack(est->parameters);
     apop_model *full_est = NULL; //an alias
     do {
+        iteration++;
         if (mp->verbose){
-            if (!(iteration++))
+            if (iteration == 1)
                 printf("Cycling toward an optimum. Listing (dim):log likelihood.\n");
             printf("Iteration %i:\n", iteration);
         }
         last_ll = this_ll;
-        for (int i=0; i< betasize; i++){
+        ctrl_c = 0;
+        for (int i=0; i< betasize && !ctrl_c; i++){
             gsl_vector_set(info.beta, i, GSL_NAN);
             apop_data_unpack(info.beta, est->parameters);
             apop_model *m_onedim = apop_model_fix_params(est);
@@ -567,8 +570,9 @@ static void dim_cycle(apop_data *d, apop_model *est, infostruct info){
         if (mp->verbose) printf("\n");
         apop_data_pack(full_est->parameters, paramv);
         Apop_settings_add(est, apop_mle, starting_pt, paramv->data);
-    } while (fabs(this_ll - last_ll) > tol);
+    } while (fabs(this_ll - last_ll) > tol && iteration < mp->max_iterations && !ctrl_c);
     Apop_settings_set(est, apop_mle, dim_cycle_tolerance, tol);
+    Apop_settings_set(est, apop_mle, starting_pt, starting_pt); //paramv's data is about to be freed.
     gsl_vector_free(paramv);
 }
 
@@ -828,7 +832,7 @@ static void annealing_free(void *xp){
 static double set_start(double in){ return in ? in : 1; }
 
 jmp_buf anneal_jump;
-static void anneal_sigint(int){ longjmp(anneal_jump,1); }
+static void anneal_sigint(int){ ctrl_c++; longjmp(anneal_jump,1); }
 
 static void apop_annealing(infostruct *i){
     apop_model *ep = i->model;
@@ -858,6 +862,7 @@ static void apop_annealing(infostruct *i){
         apopstatus = -1;
         goto done;
     }
+    ctrl_c = 0;
     if (!setjmp(anneal_jump)){
         signal(SIGINT, anneal_sigint);
         gsl_siman_solve(r,    // const gsl_rng * r
-- 
2.43.0


From 214eea8800af6f1dcc2645cc1af300060a879b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:01 +0000
Subject: [PATCH 017/192] fix: likelihood searches catch SIGINT from their
 first evaluation on

---
 apop_mle.m4.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/apop_mle.m4.c b/apop_mle.m4.c
index 671b7c8..7f8ddc6 100644
--- a/apop_mle.m4.c
+++ b/apop_mle.m4.c
@@ -442,10 +442,10 @@ Inside the infostruct, you'll find these elements:
         .n		= betasize,
         .params	= i};
     ctrl_c = 0;
+    signal(SIGINT, mle_sigint);
     if (setjmp(i->bad_eval_jump))
-        Apop_stopif(1, return, 0, "Failure evaluating likelihood at the starting point. Add a starting point?");
+        Apop_stopif(1, signal(SIGINT, NULL); return, 0, "Failure evaluating likelihood at the starting point. Add a starting point?");
 	gsl_multimin_fdfminimizer_set (s, &minme, i->beta, mp->step_size, mp->tolerance);
-    signal(SIGINT, mle_sigint);
     do { 	
         iter++;
         if (setjmp(i->bad_eval_jump)) {
@@ -489,11 +489,11 @@ static void apop_maximum_likelihood_no_d(apop_data * data, infostruct * i){
     apopstatus = -1; //assume failure until we score a success.
     gsl_vector_set_all (ss,  mp->step_size);
     gsl_multimin_function  minme = {.f = negshell, .n= betasize, .params = i};
+    signal(SIGINT, mle_sigint);
     if (setjmp(i->bad_eval_jump))
-        Apop_stopif(1, return, 0, "Failure evaluating likelihood at the starting point. Add a starting point?");
+        Apop_stopif(1, signal(SIGINT, NULL); return, 0, "Failure evaluating likelihood at the starting point. Add a starting point?");
     gsl_multimin_fminimizer_set (s, &minme, i->beta,  ss);
     //i->beta = s->x;
-    signal(SIGINT, mle_sigint);
     do {  
         iter++;
         if (setjmp(i->bad_eval_jump)) {
@@ -902,10 +902,10 @@ static apop_model * find_roots (infostruct p) {
                                                    : gsl_multiroot_fsolver_hybrid;
     s = gsl_multiroot_fsolver_alloc (T, betasize);
     ctrl_c = 0;
+    signal(SIGINT, mle_sigint);
     if (setjmp(p.bad_eval_jump))
-        Apop_stopif(1, return dist, 0, "Failure evaluating likelihood at the starting point. Add a starting point?");
+        Apop_stopif(1, signal(SIGINT, NULL); return dist, 0, "Failure evaluating likelihood at the starting point. Add a starting point?");
     gsl_multiroot_fsolver_set (s, &f, p.beta);
-    signal(SIGINT, mle_sigint);
     do {
         iter++;
         if (setjmp(p.bad_eval_jump)) {
-- 
2.43.0


From 02f18a0716f58991e938a5b813d8406c51622425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:27 +0000
Subject: [PATCH 018/192] fix: re-estimating a model does not leave the earlier
 search's status and likelihood in front

---
 apop_mle.m4.c   | 5 +++++
 apop_model.m4.c | 1 +
 2 files changed, 6 insertions(+)

diff --git a/apop_mle.m4.c b/apop_mle.m4.c
index 7f8ddc6..3b80711 100644
--- a/apop_mle.m4.c
+++ b/apop_mle.m4.c
@@ -652,6 +652,11 @@ void apop_maximum_likelihood(apop_data * data, apop_model *dist){
                        .path           = mp->path,
                        .model          = dist};
     get_desires(dist, &info);
+    if (dist->info) {//status and likelihoods from an earlier search would shadow those from this one.
+        apop_data_free(dist->info);
+        dist->info = apop_data_alloc();
+        Asprintf(&dist->info->names->title, "<Info>");
+    }
     info.beta = apop_data_pack(dist->parameters);
     if (setup_starting_point(mp, info.beta)) return;
     info.model->data = data;
diff --git a/apop_model.m4.c b/apop_model.m4.c
index ad03cd3..4aecc0a 100644
--- a/apop_model.m4.c
+++ b/apop_model.m4.c
@@ -228,6 +228,7 @@ MLE settings.
 */
 apop_model *apop_estimate(apop_data *d, apop_model *m){
     apop_model *out = apop_model_copy(m);
+    if (out->info) apop_data_free(out->info); //describes m's estimation, not this one.
     apop_prep(d, out);
     if (out->estimate) out->estimate(d, out); 
     else               apop_maximum_likelihood(d, out);
-- 
2.43.0


From a7f3e550ddda844194bd2cdcbec3ec87fb7e1963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:05 +0000
Subject: [PATCH 019/192] fix: AIC and BIC do not read the parameter count from
 a freed vector

---
 apop_mle.m4.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/apop_mle.m4.c b/apop_mle.m4.c
index 3b80711..03ad406 100644
--- a/apop_mle.m4.c
+++ b/apop_mle.m4.c
@@ -468,8 +468,8 @@ Inside the infostruct, you'll find these elements:
 	//Clean up, copy results to output estimate.
     apop_data_unpack(s->x, est->parameters);
 	gsl_multimin_fdfminimizer_free(s);
-    gsl_vector_free(i->beta);
     auxinfo(est->parameters, i, apopstatus, i->best_ll);
+    gsl_vector_free(i->beta);
 }
 
 /* See apop_maximum_likelihood_w_d for notes. */
@@ -929,7 +929,7 @@ static apop_model * find_roots (infostruct p) {
     Apop_notify(2, "status = %s\n", gsl_strerror(status));
     apop_data_unpack(s->x, dist->parameters);
     gsl_multiroot_fsolver_free (s);
-    gsl_vector_free (p.beta);
     auxinfo(dist->parameters, &p, apopstatus, 0); //root-finders don't store best val.
+    gsl_vector_free (p.beta);
     return dist;
 }
-- 
2.43.0


From 35dbb1b0e096b6b7a99dc2c026d8faa7d534c06b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:15 +0000
Subject: [PATCH 020/192] fix: a Hessian that can not be inverted does not
 crash the covariance calculation

---
 apop_mle.m4.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/apop_mle.m4.c b/apop_mle.m4.c
index 03ad406..5959a66 100644
--- a/apop_mle.m4.c
+++ b/apop_mle.m4.c
@@ -253,6 +253,8 @@ APOP_VAR_ENDHEAD
     }
     apop_data *out = apop_data_alloc();
     out->matrix = apop_matrix_inverse(hessian->matrix);
+    Apop_stopif(!out->matrix, out->error='i'; apop_data_free(hessian); return out, 
+                0, "The Hessian could not be inverted, so there is no covariance matrix to report.");
     gsl_matrix_scale(out->matrix, -1);
     if (hessian->names->row){
         apop_name_stack(out->names, hessian->names, 'r');
-- 
2.43.0


From 55a6920235dc512e76fcf7bcf92caec5f7b37e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:05 +0000
Subject: [PATCH 021/192] fix: numerical derivatives put the model's parameters
 back where they were

---
 apop_mle.m4.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/apop_mle.m4.c b/apop_mle.m4.c
index 5959a66..669a874 100644
--- a/apop_mle.m4.c
+++ b/apop_mle.m4.c
@@ -104,6 +104,8 @@ static void apop_internal_numerical_gradient(apop_fn_with_params ll,
 		gsl_deriv_central(&F, gsl_vector_get(beta,j), delta, &result, &err);
 		gsl_vector_set(out, j, result);
 	}
+    apop_data_unpack(beta, info->model->parameters); //one_d left them at its last evaluation.
+    gsl_vector_free(i.gp->beta);
     gsl_vector_free(beta);
 }
 
-- 
2.43.0


From 2066a7019a13a1ba783e61208601d96ad8598bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:33 +0000
Subject: [PATCH 022/192] fix: threads drawing at once from a new PMF set up
 its settings only once

---
 model/apop_pmf.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/model/apop_pmf.c b/model/apop_pmf.c
index 792a18a..21ac955 100644
--- a/model/apop_pmf.c
+++ b/model/apop_pmf.c
@@ -133,9 +133,12 @@ do it before the first draw or CDF calculation.
 */
 static int draw (double *out, gsl_rng *r, apop_model *m){
     Nullcheck_m(m, 1) Nullcheck_d(m->data, 1)
-    apop_pmf_settings *settings = Apop_settings_get_group(m, apop_pmf);
+    apop_pmf_settings *settings;
     #pragma omp critical (pmfsetup)
+    {
+    settings = Apop_settings_get_group(m, apop_pmf);
     if (!settings) settings = Apop_model_add_group(m, apop_pmf);
+    }
     Get_vmsizes(m->data) //maxsize
     size_t current; 
     if (!m->data->weights) //all rows are equiprobable
-- 
2.43.0


From 60de6d7925054f3e6321d4b3e886290d63ab362e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:33 +0000
Subject: [PATCH 023/192] fix: threads drawing at once from a kernel density do
 not move each other's kernel

---
 model/apop_kerneld.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/model/apop_kerneld.c b/model/apop_kerneld.c
index f3c8d1b..5327c32 100644
--- a/model/apop_kerneld.c
+++ b/model/apop_kerneld.c
@@ -146,11 +146,16 @@ static int kernel_draw(double *d, gsl_rng *r, apop_model *m){
     apop_kernel_density_settings *ks = apop_settings_get_group(m, apop_kernel_density);
     apop_model *pmf = apop_settings_get(m, apop_kernel_density, base_pmf);
     apop_data *point = apop_data_alloc(1, pmf->dsize);
-    Apop_stopif(apop_draw(Apop_rv(point, 0)->data, r, pmf), return 1, 0, "Unable to use the PMF over kernels to select a kernel from which to draw.");
+    Apop_stopif(apop_draw(Apop_rv(point, 0)->data, r, pmf), apop_data_free(point); return 1, 0, "Unable to use the PMF over kernels to select a kernel from which to draw.");
+    int fail;
+    OMP_critical(kernel_p_cdf) //there is only one kernel, moved from point to point
+    {
     (ks->set_fn)(point, ks->kernel);
     //Now draw from the distribution around that point.
-    Apop_stopif(apop_draw(d, r, ks->kernel), return 2, 0, "unable to draw from a single selected kernel.");
+    fail = apop_draw(d, r, ks->kernel);
+    }
     apop_data_free(point);
+    Apop_stopif(fail, return 2, 0, "unable to draw from a single selected kernel.");
     return 0;
 }
 
-- 
2.43.0


From 2793244f2ef98c4d6b92e0ff050593e3e57259ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:33 +0000
Subject: [PATCH 024/192] fix: draws from a multinomial leave its parameters
 alone and stay within the output

---
 model/apop_multinomial.c | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/model/apop_multinomial.c b/model/apop_multinomial.c
index 36990f7..07ce75d 100644
--- a/model/apop_multinomial.c
+++ b/model/apop_multinomial.c
@@ -129,30 +129,27 @@ static apop_model *multinomial_paramdist(apop_data *d, apop_model *m){
 
 static int multinomial_rng(double *out, gsl_rng *r, apop_model* est){
     Nullcheck_mp(est, 1);
-    double * p = est->parameters->vector->data;
-    //the trick where we turn the params into a p-vector
-    int N = p[0];
+    int N = gsl_vector_get(est->parameters->vector, 0);
 
     if (est->parameters->vector->size == 2) {
         *out = gsl_ran_binomial_knuth(r, 1-gsl_vector_get(est->parameters->vector, 1), N);
-        out[1] = N-*out;
-        goto done;
+        if (est->dsize != 1) out[1] = N-*out; //the Binomial's draw is only one number.
+        return 0;
     }
     //else, multinomial
     //cut/pasted/modded from the GSL. Copyright them.
-    p[0] = 1 - (apop_sum(est->parameters->vector)-N);
+    double p0 = 1 - (apop_sum(est->parameters->vector)-N);
     double sum_p = 0.0;
     int sum_n = 0;
 
     for (int i = 0; i < est->parameters->vector->size; i++) {
-        out[i] = (p[i] > 0)
-                ? gsl_ran_binomial (r, p[i] / (1 - sum_p), N - sum_n)
+        double p = i ? gsl_vector_get(est->parameters->vector, i) : p0; //other threads may be using the parameters.
+        out[i] = (p > 0)
+                ? gsl_ran_binomial (r, p / (1 - sum_p), N - sum_n)
                 : 0;
-        sum_p += p[i];
+        sum_p += p;
         sum_n += out[i];
     }
-    done:
-    p[0] = N;
     return 0;
 }
 
-- 
2.43.0


From ad34cce94f773541ee4ce1d66aa55ef2fd92692c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:33 +0000
Subject: [PATCH 025/192] fix: an estimated multinomial's draws have one
 element per bin

---
 model/apop_multinomial.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/model/apop_multinomial.c b/model/apop_multinomial.c
index 07ce75d..800d7ce 100644
--- a/model/apop_multinomial.c
+++ b/model/apop_multinomial.c
@@ -181,7 +181,7 @@ static void multinomial_estimate(apop_data * data,  apop_model *est){
         sprintf(name, "p%i", i);
         apop_name_add(est->parameters->names, name, 'r');
     }
-    est->dsize = n;
+    if (est->dsize != 1) est->dsize = v->size; //the Binomial's draw is only one number.
     make_covar(est);
     apop_data_add_named_elmt(est->info, "log likelihood", multinomial_log_likelihood(data, est));
 }
-- 
2.43.0


From 1706bec635804236c7fb81d2ed444a4532064a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:33 +0000
Subject: [PATCH 026/192] fix: logit draws use the probabilities for the X they
 drew

---
 model/apop_probit.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/model/apop_probit.c b/model/apop_probit.c
index 8cddb54..ed3fdd2 100644
--- a/model/apop_probit.c
+++ b/model/apop_probit.c
@@ -302,9 +302,13 @@ static size_t get_draw_size(apop_model *in){
 
 static int logit_rng(double *out, gsl_rng *r, apop_model *m){
     //X is drawn from the input distribution, then Y = X\beta + epsilon
-    apop_lm_settings *olp = apop_settings_get_group(m, apop_lm);
+    apop_lm_settings *olp;
+    OMP_critical(logitsetup)
+    {
+    olp = apop_settings_get_group(m, apop_lm);
     if (!olp) olp=Apop_model_add_group(m, apop_lm
                                 , .input_distribution= apop_estimate(m->data, apop_pmf));
+    }
 
     size_t datasize = get_draw_size(olp->input_distribution);
     apop_data *x = apop_data_alloc(datasize);
@@ -320,10 +324,13 @@ static int logit_rng(double *out, gsl_rng *r, apop_model *m){
     xbeta_w_numeraire->weights = xbeta_w_numeraire->vector;
     xbeta_w_numeraire->vector = NULL;
 
-    Staticdef(apop_model*, a_pmf, apop_model_copy(apop_pmf))
-    a_pmf->dsize = 0; //so draws produce a row number
+    apop_model *a_pmf = apop_model_copy(apop_pmf); //its CMF is good for only this x.
     a_pmf->data = xbeta_w_numeraire;
-    Apop_stopif(apop_draw(out, r, a_pmf), return 1, 
+    Apop_model_add_group(a_pmf, apop_pmf, .draw_index='y'); //so draws produce a row number
+    int fail = apop_draw(out, r, a_pmf);
+    apop_model_free(a_pmf);
+    apop_data_free(xbeta_w_numeraire);
+    Apop_stopif(fail, apop_data_free(x); return 1, 
                         0, "Couldn't draw from a PMF populated using X'β.");
     if (m->dsize>1) memcpy(out+1, x->vector->data, datasize *sizeof(double));
     apop_data_free(x);
-- 
2.43.0


From 468d8f827f9c1913c7ce8953428e29808a99e503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:45 +0000
Subject: [PATCH 027/192] fix: the default draw method is announced only after
 its settings are in place

---
 apop_model.m4.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apop_model.m4.c b/apop_model.m4.c
index 4aecc0a..7dce0bb 100644
--- a/apop_model.m4.c
+++ b/apop_model.m4.c
@@ -429,8 +429,8 @@ int apop_draw(double *out, gsl_rng *r, apop_model *m){
         swapped->data = m->parameters;
         Apop_settings_add_group(swapped, apop_mcmc, .burnin=0.999, .periods=1000);
         apop_model *est = apop_model_metropolis(m->parameters, r, swapped); //leak.
-        m->draw = apop_model_metropolis_draw;
         apop_settings_copy_group(m, est, "apop_mcmc");
+        m->draw = apop_model_metropolis_draw;
     }
     return apop_draw(out, r, m);
 }
-- 
2.43.0


From bcf9dec3b0e5d71433167edf7ec316c0eaae3c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:45 +0000
Subject: [PATCH 028/192] fix: threads using the default univariate draw method
 share its history safely

---
 apop_arms.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/apop_arms.c b/apop_arms.c
index 0aad8e5..1d4517f 100644
--- a/apop_arms.c
+++ b/apop_arms.c
@@ -23,6 +23,7 @@ double logshift(double y, double y0);
 double perfunc(apop_arms_settings*, double x);
 void display(FILE *f, arms_state *env, apop_arms_settings *);
 int initial (apop_arms_settings* params, arms_state *state);
+static int arms_draw (double *out, gsl_rng *r, apop_model *m);
 
 Apop_settings_copy(apop_arms,
     out->state = malloc(sizeof(arms_state));
@@ -87,6 +88,13 @@ http://www.amsta.leeds.ac.uk/~wally.gilks/adaptive.rejection/web_page/Welcome.ht
 \li There are a great number of parameters, in the \c apop_arms_settings structure.  The structure also holds a history of the points tested to date. That means that the system will be more accurate as more draws are made. It also means that if the parameters change, or you use \ref apop_model_copy, you should call <tt>Apop_settings_rm_group(your_model, apop_arms)</tt> to clear the model of points that are not valid for a different situation.
   */
 int apop_arms_draw (double *out, gsl_rng *r, apop_model *m){
+    int fail;
+    OMP_critical(arms_draw) //each draw adds to the history of points in the settings group.
+    fail = arms_draw(out, r, m);
+    return fail;
+}
+
+static int arms_draw (double *out, gsl_rng *r, apop_model *m){
     apop_arms_settings *params = Apop_settings_get_group(m, apop_arms);
     if (!params) params = Apop_model_add_group(m, apop_arms, .model=m);
   POINT pwork;        /* a working point, not yet incorporated in envelope */
-- 
2.43.0


From b6ae56d80b15c180975fde32efb731f0ec9f18ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:19 +0000
Subject: [PATCH 029/192] fix: GSL's error handler is one per process, so count
 its users and always restore it

---
 apop_data.m4.c           | 26 +++++---------------------
 apop_internal.h          |  4 ++++
 apop_linear_algebra.m4.c | 29 +++++++++++++++++++++--------
 3 files changed, 30 insertions(+), 29 deletions(-)

diff --git a/apop_data.m4.c b/apop_data.m4.c
index fe98f24..7d9d6f4 100644
--- a/apop_data.m4.c
+++ b/apop_data.m4.c
@@ -3,9 +3,6 @@ The apop_data structure joins together a gsl_matrix, apop_name, and a table of s
 /* Copyright (c) 2006--2009 by Ben Klemens.  Licensed under the GPLv2; see COPYING.  */
 
 #include "apop_internal.h"
-//apop_gsl_error is in apop_linear_algebra.c
-#define Set_gsl_handler gsl_error_handler_t *prior_handler = gsl_set_error_handler(apop_gsl_error);
-#define Unset_gsl_handler gsl_set_error_handler(prior_handler);
 
 /** Allocate an \ref apop_data structure.
  
@@ -52,12 +49,12 @@ APOP_VAR_ENDHEAD
     Set_gsl_handler
     if (msize2 > 0  && msize1 > 0){
         setme->matrix = gsl_matrix_alloc(msize1,msize2);
-        Apop_stopif(!setme->matrix, setme->error='a'; return setme,
+        Apop_stopif(!setme->matrix, setme->error='a'; Unset_gsl_handler return setme,
                 0, "malloc failed on a %zu x %i matrix. Probably out of memory.", msize1, msize2);
     }
     if (vsize){
         setme->vector = gsl_vector_alloc(vsize);
-        Apop_stopif(!setme->vector, setme->error='a'; return setme,
+        Apop_stopif(!setme->vector, setme->error='a'; Unset_gsl_handler return setme,
                 0, "malloc failed on a vector of size %zu. Probably out of memory.", vsize);
     }
     Unset_gsl_handler
@@ -842,19 +839,6 @@ APOP_VAR_ENDHEAD
     }
 }
 
-/* The only hint the GSL gives that something failed is that the error-handler is called.
-   The error handling function won't let you set an output to the function. So all we
-   can do is use a global variable.
-*/
-
-static threadlocal int error_for_set; //see apop_internal.h
-
-void apop_gsl_error_for_set(const char *reason, const char *file, int line, int gsl_errno){
-    Apop_notify(1, "%s: %s", file, reason);
-    Apop_maybe_abort(1);
-    error_for_set = -1;
-}
-
 /**  Set a data element.
 See \ref data_set_get "the set/get page" for details and examples. 
  
@@ -901,16 +885,16 @@ APOP_VAR_HEAD int apop_data_set(apop_data *data, size_t row, int col, const doub
         Apop_stopif(col == -2, return -1, 1, "Couldn't find '%s' amongst the column names. Making no changes.", colname);
     }
 APOP_VAR_ENDHEAD
-    Set_gsl_handler
     if (col==-1 || (col == 0 && !data->matrix && data->vector)){
         Apop_stopif(!data->vector, return -1, 1, "You're trying to set a vector element (row=-1) but the vector is NULL.");
+        Apop_stopif(row >= data->vector->size, return -1, 1, "You're trying to set vector element %zu but the vector's size is %zu.", row, data->vector->size);
         gsl_vector_set(data->vector, row, val);
     } else {
         Apop_stopif(!data->matrix, return -1, 1, "You're trying to set the matrix element (%zu, %i) but the matrix is NULL.", row, col);
+        Apop_stopif(row >= data->matrix->size1 || col < 0 || col >= data->matrix->size2, return -1, 1, "You're trying to set the matrix element (%zu, %i) but the matrix is %zu x %zu.", row, col, data->matrix->size1, data->matrix->size2);
         gsl_matrix_set(data->matrix, row, col, val);
     }
-    Unset_gsl_handler
-    return error_for_set;
+    return 0;
 }
 
 /** A convenience function to add a named element to a data set.  Many of Apophenia's
diff --git a/apop_internal.h b/apop_internal.h
index 9993889..6d73730 100644
--- a/apop_internal.h
+++ b/apop_internal.h
@@ -41,6 +41,10 @@ int apop_use_sqlite_prepared_statements(size_t col_ct);
 int apop_prepare_prepared_statements(char const *tabname, size_t col_ct, sqlite3_stmt **statement);
 char *prep_string_for_sqlite(int prepped_statements, char const *astring);//apop_conversions.c
 void apop_gsl_error(char const *reason, char const *file, int line, int gsl_errno); //apop_linear_algebra.c
+void apop_set_gsl_handler();
+void apop_unset_gsl_handler();
+#define Set_gsl_handler apop_set_gsl_handler();
+#define Unset_gsl_handler apop_unset_gsl_handler();
 
 //For when we're forced to use a global variable.
 #undef threadlocal
diff --git a/apop_linear_algebra.m4.c b/apop_linear_algebra.m4.c
index e2f1c26..15fc549 100644
--- a/apop_linear_algebra.m4.c
+++ b/apop_linear_algebra.m4.c
@@ -14,8 +14,21 @@ void apop_gsl_error(const char *reason, const char *file, int line, int gsl_errn
 #define Checkgsl(...) if (__VA_ARGS__) {goto done;}
 #define Check_gsl_with_out(...) if (__VA_ARGS__) {out->error='m'; goto done;}
 #define Check_gsl_with_outmp(...) if (__VA_ARGS__) {gsl_matrix_free(*out); *out=NULL; goto done;}
-#define Set_gsl_handler gsl_error_handler_t *prior_handler = gsl_set_error_handler(apop_gsl_error);
-#define Unset_gsl_handler gsl_set_error_handler(prior_handler);
+
+/* There is only one GSL error handler for the whole process, so the first thread to
+need ours installs it, and the last one to finish with it restores what was there. */
+static int handler_users;
+static gsl_error_handler_t *prior_handler;
+
+void apop_set_gsl_handler(){
+    OMP_critical(gsl_handler)
+    if (!handler_users++) prior_handler = gsl_set_error_handler(apop_gsl_error);
+}
+
+void apop_unset_gsl_handler(){
+    OMP_critical(gsl_handler)
+    if (!--handler_users) gsl_set_error_handler(prior_handler);
+}
 
 /**
 Calculate the determinant of a matrix, its inverse, or both, via LU decomposition. The \c in matrix is not destroyed in the process.
@@ -38,9 +51,9 @@ then \c *out is pointed to the matrix inverse. In case of difficulty, I will set
 */
 
 double apop_det_and_inv(const gsl_matrix *in, gsl_matrix **out, int calc_det, int calc_inv) {
-    Set_gsl_handler
-    Apop_stopif(in->size1 != in->size2, *out=NULL; return GSL_NAN, 0, "You asked me to invert a %zu X %zu matrix, "
+    Apop_stopif(in->size1 != in->size2, if (out) *out=NULL; return GSL_NAN, 0, "You asked me to invert a %zu X %zu matrix, "
             "but inversion requires a square matrix.", in->size1, in->size2);
+    Set_gsl_handler
     int sign;
     double the_determinant = GSL_NAN;
 	gsl_matrix *invert_me = gsl_matrix_alloc(in->size1, in->size1);
@@ -114,15 +127,15 @@ APOP_VAR_HEAD apop_data * apop_matrix_pca(gsl_matrix *data, int const dimensions
 APOP_VAR_ENDHEAD
     Set_gsl_handler
     apop_data *pc_space	= apop_data_alloc(0, data->size2, dimensions_we_want);
-    Apop_stopif(pc_space->error, return pc_space, 0, "Allocation error.");
+    Apop_stopif(pc_space->error, Unset_gsl_handler return pc_space, 0, "Allocation error.");
 	pc_space->vector = gsl_vector_alloc(dimensions_we_want);
-    Apop_stopif(!pc_space->vector, pc_space->error='a'; return pc_space, 
+    Apop_stopif(!pc_space->vector, pc_space->error='a'; Unset_gsl_handler return pc_space, 
                 0, "Allocation error setting up a %i vector.", dimensions_we_want);
     gsl_matrix *eigenvectors = gsl_matrix_alloc(data->size2, data->size2);
     gsl_vector *dummy_v 	 = gsl_vector_alloc(data->size2);
     gsl_vector *all_evalues  = gsl_vector_alloc(data->size2);
     gsl_matrix *square  	 = gsl_matrix_calloc(data->size2, data->size2);
-    Apop_stopif(!eigenvectors || !dummy_v || !all_evalues || !square, pc_space->error='a'; return pc_space, 
+    Apop_stopif(!eigenvectors || !dummy_v || !all_evalues || !square, pc_space->error='a'; Unset_gsl_handler return pc_space, 
                 0, "Allocation error setting up workspace for %zu dimensions.", data->size2);
     double eigentotals	= 0;
     for (int i=0; i< data->size2; i++)
@@ -385,7 +398,6 @@ APOP_VAR_HEAD apop_data * apop_dot(const apop_data *d1, const apop_data *d2, cha
     char apop_varad_var(form1, 0)
     char apop_varad_var(form2, 0)
 APOP_VAR_ENDHEAD
-    Set_gsl_handler
     int         uselm, userm;
     gsl_matrix  *lm = d1->matrix, 
                 *rm = d2->matrix;
@@ -410,6 +422,7 @@ APOP_VAR_ENDHEAD
         Apop_stopif(1, return NULL, 0, "The right data set has neither non-NULL "
                                   "matrix nor vector. Returning NULL.");
     }
+    Set_gsl_handler
     apop_data *out = apop_data_alloc();
     #define Dimcheck(lr, lc, rr, rc) Apop_stopif((lc)!=(rr), out->error='d'; goto done,\
         0, "mismatched dimensions: %zuX%zu dot %zuX%zu. %s", (lr), (lc), (rr), (rc),\
-- 
2.43.0


From 453af9d58c79e1e615ce47fa7ce18b22c8c19874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:19 +0000
Subject: [PATCH 030/192] fix: each thread's multinomial probit log likelihood
 uses its own working data

---
 model/apop_probit.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/model/apop_probit.c b/model/apop_probit.c
index ed3fdd2..34ced3a 100644
--- a/model/apop_probit.c
+++ b/model/apop_probit.c
@@ -111,7 +111,8 @@ static long double multiprobit_log_likelihood(apop_data *d, apop_model *p){
         spare_probit = apop_model_copy(apop_probit);
         spare_probit->parameters = apop_data_alloc();
     }
-    Staticdef(apop_data *, working_data, apop_data_alloc());
+    static threadlocal apop_data *working_data = NULL; //one per thread, as with the spare_probit.
+    if (!working_data) working_data = apop_data_alloc();
     working_data->matrix = d->matrix;
     gsl_vector *original_outcome = d->vector;
     double ll = 0;
-- 
2.43.0


From f5aaf6cf04654673e986ed9074941cc0af6999ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:19 +0000
Subject: [PATCH 031/192] fix: apop_model_entropy: no thread goes on until the
 table of special cases is ready

---
 apop_stats.m4.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/apop_stats.m4.c b/apop_stats.m4.c
index 9ba60c6..464c07d 100644
--- a/apop_stats.m4.c
+++ b/apop_stats.m4.c
@@ -685,8 +685,11 @@ APOP_VAR_HEAD long double apop_model_entropy(apop_model *in, int draws){
     Apop_stopif(!in, return NAN, 0, "NULL input model. Returning NaN.");
     int apop_varad_var(draws, 1000);
 APOP_VAR_ENDHEAD
-    static int setup=0; if (!(setup++)){
+    static int setup=0;
+    OMP_critical(entropy_setup) //others wait until the table is ready.
+    if (!setup){
         apop_entropy_vtable_add(norment, apop_normal);
+        setup = 1;
     }
     apop_entropy_type e_fn = apop_entropy_vtable_get(in);
     if (e_fn) return e_fn(in);
-- 
2.43.0


From ff523e21a7da2acc92658f945e604429326f923c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:19 +0000
Subject: [PATCH 032/192] fix: apop_update: no thread goes on until the table
 of conjugate pairs is ready

---
 apop_update.m4.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/apop_update.m4.c b/apop_update.m4.c
index edf0617..28ee46c 100644
--- a/apop_update.m4.c
+++ b/apop_update.m4.c
@@ -186,12 +186,15 @@ APOP_VAR_HEAD apop_model * apop_update(apop_data *data, apop_model *prior, apop_
     apop_model *apop_varad_var(likelihood, NULL);
     gsl_rng *apop_varad_var(rng, apop_rng_get_thread(-1));
 APOP_VAR_END_HEAD
-    static int setup=0; if (!(setup++)){
+    static int setup=0;
+    OMP_critical(update_setup) //others wait until the table is ready.
+    if (!setup){
         apop_update_vtable_add(betabinom, apop_beta, apop_binomial);
         apop_update_vtable_add(betabernie, apop_beta, apop_bernoulli);
         apop_update_vtable_add(gammaexpo, apop_gamma, apop_exponential);
         apop_update_vtable_add(gammapoisson, apop_gamma, apop_poisson);
         apop_update_vtable_add(normnorm, apop_normal, apop_normal);
+        setup = 1;
     }
     apop_update_type conj = apop_update_vtable_get(prior, likelihood);
     if (conj) return conj(data, prior, likelihood);
-- 
2.43.0


From d58569a42924fc9932643fbcbb2d5bb9d7f24378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:19 +0000
Subject: [PATCH 033/192] fix: ARMS draws in different threads evaluate
 densities at their own points

---
 apop_arms.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/apop_arms.c b/apop_arms.c
index 1d4517f..f4e3f3a 100644
--- a/apop_arms.c
+++ b/apop_arms.c
@@ -533,9 +533,9 @@ double logshift(double y, double y0){
 
 double perfunc(apop_arms_settings *params, double x){
 // to evaluate log density and increment count of evaluations 
-    Staticdef( apop_data *, d , apop_data_alloc(1,1));
-    d->matrix->data[0] = x;
+    apop_data *d = apop_data_falloc((1,1), x); //local: there may be several threads drawing.
   double y = apop_log_likelihood(d, params->model);
+  apop_data_free(d);
   Apop_assert(isfinite(y), "Evaluating the log likelihood at %g returned %g.", x, y);
   (params->neval)++; // increment count of function evaluations
   return y;
-- 
2.43.0


From 7a409ad8cdf3a58b0fc1b0c6f8fdc8571a7ce433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:19 +0000
Subject: [PATCH 034/192] fix: one loess estimation or prediction at a time

---
 model/apop_loess.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/model/apop_loess.c b/model/apop_loess.c
index 8f06449..0358b53 100644
--- a/model/apop_loess.c
+++ b/model/apop_loess.c
@@ -3574,6 +3574,7 @@ apop_data * loess_predict (apop_data *in, apop_model *m){
     int want_cov = Apop_settings_get(m, apop_loess, want_predict_ci)=='y';
     struct pred_struct pred = (struct pred_struct){ };
 
+    OMP_critical(loess) //the FORTRAN-derived code above is full of static variables.
     predict(eval_here, in->matrix->size1, &(Apop_settings_get(m, apop_loess, lo_s)), &pred, want_cov);
 
     //Massage FORTRAN's output to Apophenia's formats
@@ -3618,6 +3619,7 @@ static void apop_loess_est(apop_data *d, apop_model *out){
     if (!Apop_settings_get_group(out, apop_loess))
         Apop_model_add_group(out, apop_loess, .data=d);
     out->data = d;
+    OMP_critical(loess)
     loess(&Apop_settings_get(out, apop_loess, lo_s));
 
     //setup the expected matrix. In a perfect world, this wouldn't all be cut/pasted from apop_OLS.
-- 
2.43.0


From 2afb68248b6ae52e61bcddbfe0bf1d5b78d5c253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:29 +0000
Subject: [PATCH 035/192] fix: a singular Jacobian in a Newton search is a
 failed search, not an abort

---
 apop_mle.m4.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/apop_mle.m4.c b/apop_mle.m4.c
index 669a874..27fee3b 100644
--- a/apop_mle.m4.c
+++ b/apop_mle.m4.c
@@ -913,7 +913,8 @@ static apop_model * find_roots (infostruct p) {
     ctrl_c = 0;
     signal(SIGINT, mle_sigint);
     if (setjmp(p.bad_eval_jump))
-        Apop_stopif(1, signal(SIGINT, NULL); return dist, 0, "Failure evaluating likelihood at the starting point. Add a starting point?");
+        Apop_stopif(1, Unset_gsl_handler signal(SIGINT, NULL); return dist, 0, "Failure evaluating likelihood at the starting point. Add a starting point?");
+    Set_gsl_handler //a singular Jacobian is a failed search, not a reason to halt.
     gsl_multiroot_fsolver_set (s, &f, p.beta);
     do {
         iter++;
@@ -928,6 +929,7 @@ static apop_model * find_roots (infostruct p) {
             break;
         status = gsl_multiroot_test_residual (s->f, mlep->tolerance);
     } while (status == GSL_CONTINUE && iter < mlep->max_iterations && !ctrl_c);
+    Unset_gsl_handler
     signal(SIGINT, NULL);
     if (status == GSL_SUCCESS && !ctrl_c) apopstatus = 0;
     Apop_notify(2, "status = %s\n", gsl_strerror(status));
-- 
2.43.0


From 1ff1843cbe88417133cfda3fbfe70308976b64e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:21 +0000
Subject: [PATCH 036/192] fix: database failures are told from SQLite's return
 code, not from whether it left a message

---
 apop_db.m4.c     | 43 +++++++++++++++----------------------------
 apop_db_sqlite.c | 34 +++++++++++++++++++++++++---------
 2 files changed, 40 insertions(+), 37 deletions(-)

diff --git a/apop_db.m4.c b/apop_db.m4.c
index fe7243f..6a28c1c 100644
--- a/apop_db.m4.c
+++ b/apop_db.m4.c
@@ -17,10 +17,6 @@ apop_opts_type apop_opts	=
             .log_file = NULL,
             .rng_seed = 479901,            .version = m4_apop_version };
 
-#define ERRCHECK {Apop_stopif(err, return 1, 0, "%s: %s",query, err); }
-#define ERRCHECK_NR {Apop_stopif(err, return NULL, 0, "%s: %s",query, err); }
-#define ERRCHECK_SET_ERROR(outdata) {Apop_stopif(err, if (!(outdata)) (outdata)=apop_data_alloc(); (outdata)->error='q'; sqlite3_free(err); return outdata, 0, "%s: %s",query, err); }
-
 #include "apop_db_sqlite.c" // callback_t is defined here, btw.
 
 
@@ -139,22 +135,21 @@ APOP_VAR_END_HEAD
 #else
         Apop_stopif(1, return -1, 0, "Apophenia was compiled without mysql support.");
 #endif
-    char *err=NULL, *q2;
+    char *q2;
     tab_exists_t te = { .name = name };
     tab_exists_t tev = { .name = name };
 	if (db==NULL) return 0;
-	sqlite3_exec(db, "select name from sqlite_master where type='table'", tab_exists_callback, &te, &err); 
-	sqlite3_exec(db, "select name from sqlite_master where type='view'", tab_exists_callback, &tev, &err); 
-    char query[]="Selecting names from sqlite_master";//for ERRCHECK.
-	ERRCHECK
+	if (sqlite_run("select name from sqlite_master where type='table'", tab_exists_callback, &te)
+	    || sqlite_run("select name from sqlite_master where type='view'", tab_exists_callback, &tev))
+        return -1;
 	if ((remove==1|| remove=='d') && (te.isthere||tev.isthere)){
         if (te.isthere)
             Asprintf(&q2, "drop table %s;", name);
         else
             Asprintf(&q2, "drop view %s;", name);
-		sqlite3_exec(db, q2, NULL, NULL, &err); 
+		int failed = sqlite_run(q2, NULL, NULL);
         free(q2);
-        ERRCHECK
+        if (failed) return -1;
     }
 	return (te.isthere||tev.isthere);
 }
@@ -180,13 +175,10 @@ APOP_VAR_END_HEAD
         {Apop_stopif(1, return -1, 0, "Apophenia was compiled without mysql support.");}
 #endif
     else {
-        char *err, *query = "db close";//for errcheck.
-        if (vacuum==1 || vacuum=='v') {
-            sqlite3_exec(db, "VACUUM", NULL, NULL, &err);
-            ERRCHECK
-        }
-        sqlite3_close(db);
-    	//ERRCHECK
+        if (!db) return 0;
+        if (vacuum==1 || vacuum=='v')
+            if (sqlite_run("VACUUM", NULL, NULL)) return 1;
+        Apop_stopif(sqlite3_close(db)!=SQLITE_OK, return 1, 0, "db close: %s", sqlite3_errmsg(db));
         db  = NULL;
     }
     return 0;
@@ -202,7 +194,7 @@ age);", tablename)</tt>.
 \return 0 on success, 1 on failure.
 */
 int apop_query(const char *fmt, ...){
-    char *err=NULL;
+    int failed;
     Fillin(query, fmt)
     if (!apop_opts.db_engine) get_db_type();
     if (apop_opts.db_engine == 'm')
@@ -213,12 +205,9 @@ int apop_query(const char *fmt, ...){
         Apop_stopif(1, return 1, 0, "Apophenia was compiled without mysql support.");
 #endif
     else 
-        {if (!db) apop_db_open(NULL);
-        sqlite3_exec(db, query, NULL,NULL, &err);
-	    ERRCHECK
-        }
+        failed = sqlite_run(query, NULL, NULL);
 	free(query);
-	return 0;
+	return failed ? 1 : 0;
 }
 
 /** Dump the results of a query into an array of strings.
@@ -328,12 +317,10 @@ apop_data * apop_query_to_data(const char * fmt, ...){
 #endif
 
     //else
-    char *err=NULL;
     callback_t qinfo = {.firstcall = 1, .namecol=-1};
-	if (db==NULL) apop_db_open(NULL);
-    sqlite3_exec(db, query,db_to_table,&qinfo, &err); 
+    int failed = sqlite_run(query, db_to_table, &qinfo);
     free (query);
-    ERRCHECK_SET_ERROR(qinfo.outdata)
+    if (failed) Mark_query_error(qinfo.outdata)
 	return qinfo.outdata;
 }
 
diff --git a/apop_db_sqlite.c b/apop_db_sqlite.c
index ca61283..de20854 100644
--- a/apop_db_sqlite.c
+++ b/apop_db_sqlite.c
@@ -146,9 +146,26 @@ sqfn(sqrt) sqfn(exp) sqfn(log) sqfn(log10) sqfn(sin)
 sqfn(cos) sqfn(tan) sqfn(asin) sqfn(acos) sqfn(atan)
 
 
+/* Run a query, opening the database first if need be. Returns zero on success; else reports
+ the trouble and returns a nonzero code. SQLite's return code is what counts: some failures (such
+ as running out of memory) come without an error message. */
+static int sqlite_run(char const *query, int (*callback)(void*, int, char**, char**), void *info){
+    char *err = NULL;
+    Apop_stopif(!db && apop_db_open(NULL), return SQLITE_CANTOPEN, 0, "%s: no database is open.", query);
+    int status = sqlite3_exec(db, query, callback, info, &err);
+    Apop_stopif(status != SQLITE_OK, sqlite3_free(err); return status,
+                0, "%s: %s", query, err ? err : sqlite3_errstr(status));
+    return 0;
+}
+
+//Mark the output of a failed query, allocating a blank set if need be.
+#define Mark_query_error(outdata) {                     \
+        if (!(outdata)) (outdata) = apop_data_alloc();  \
+        if (outdata) (outdata)->error = 'q'; }
+
 static int apop_sqlite_db_open(char const *filename){
     int status = sqlite3_open(filename ? filename : ":memory:", &db);
-    Apop_stopif(status, db=NULL; return status,
+    Apop_stopif(status, sqlite3_close(db); db=NULL; return status,
             0, "The database %s didn't open.", filename ? filename : "in memory");
 	sqlite3_create_function(db, "stddev", 1, SQLITE_ANY, NULL, NULL, &twoStep, &stdDevFinalize);
 	sqlite3_create_function(db, "std", 1, SQLITE_ANY, NULL, NULL, &twoStep, &stdDevFinalizePop);
@@ -211,10 +228,11 @@ static int db_to_chars(void *qinfo,int argc, char **argv, char **column){
 }
 
 apop_data * apop_sqlite_query_to_text(char *query){
-    char *err = NULL;
     callback_t qinfo = {.outdata=apop_data_alloc(), .namecol=-1, .firstcall=1};
-    if (db==NULL) apop_db_open(NULL);
-    sqlite3_exec(db, query, db_to_chars, &qinfo, &err); ERRCHECK_SET_ERROR(qinfo.outdata)
+    if (sqlite_run(query, db_to_chars, &qinfo)){
+        Mark_query_error(qinfo.outdata)
+        return qinfo.outdata;
+    }
     if (qinfo.outdata->textsize[0]==0){
         apop_data_free(qinfo.outdata);
         return NULL;
@@ -317,13 +335,11 @@ static int multiquery_callback(void *instruct, int argc, char **argv, char **col
 apop_data *apop_sqlite_multiquery(const char *intypes, char *query){
     Apop_stopif(!intypes, apop_return_data_error('t'), 0, "You gave me NULL for the list of input types. I can't work with that.");
     Apop_stopif(!query, apop_return_data_error('q'), 0, "You gave me a NULL query. I can't work with that.");
-    char *err = NULL;
     apop_qt info = { };
     count_types(&info, intypes);
-	if (!db) apop_db_open(NULL);
-    sqlite3_exec(db, query, multiquery_callback, &info, &err); 
-    Apop_stopif(info.error_thrown, if (!info.d) apop_data_alloc(); info.d->error='d'; return info.d,
+    int failed = sqlite_run(query, multiquery_callback, &info);
+    Apop_stopif(info.error_thrown, if (!info.d) info.d=apop_data_alloc(); info.d->error='d'; return info.d,
             0, "dimension error");
-    ERRCHECK_SET_ERROR(info.d)
+    if (failed) Mark_query_error(info.d)
 	return info.d;
 }
-- 
2.43.0


From 142f4b7f40b14a6383201e723d9c6d07b7f64555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:37 +0000
Subject: [PATCH 037/192] fix: scalar and vector queries report failed queries,
 and don't turn off other threads' messages

---
 apop_db.m4.c | 57 +++++++++++++++++++++-------------------------------
 1 file changed, 23 insertions(+), 34 deletions(-)

diff --git a/apop_db.m4.c b/apop_db.m4.c
index 6a28c1c..37e96a3 100644
--- a/apop_db.m4.c
+++ b/apop_db.m4.c
@@ -288,6 +288,13 @@ static int db_to_table(void *qinfo, int argc, char **argv, char **column){
 	return 0;
 }
 
+//The body of apop_query_to_data, sans printing the query. Doesn't free the query.
+static apop_data *sqlite_query_to_data(char const *query){
+    callback_t qinfo = {.firstcall = 1, .namecol=-1};
+    if (sqlite_run(query, db_to_table, &qinfo)) Mark_query_error(qinfo.outdata)
+    return qinfo.outdata;
+}
+
 /** Queries the database and dumps the result into an \ref apop_data set.
 
 \param fmt A <tt>printf</tt>-style SQL query.
@@ -317,29 +324,17 @@ apop_data * apop_query_to_data(const char * fmt, ...){
 #endif
 
     //else
-    callback_t qinfo = {.firstcall = 1, .namecol=-1};
-    int failed = sqlite_run(query, db_to_table, &qinfo);
+    apop_data *out = sqlite_query_to_data(query);
     free (query);
-    if (failed) Mark_query_error(qinfo.outdata)
-	return qinfo.outdata;
+	return out;
 }
-
-
-    /** \cond doxy_ignore */
-//These used to do more, but I'll leave them as a macro anyway in case of future expansion.
-#define Store_settings  \
-    int v = apop_opts.verbose; apop_opts.verbose=0;/*hack to prevent double-printing.*/ \
-
-#define Restore_settings  \
-    apop_opts.verbose=v;
-    /** \endcond */
-
 /** Queries the database and dumps the first column of the result into a \c gsl_vector.
 
 \param fmt A <tt>printf</tt>-style SQL query.
 \return	 A <tt>gsl_vector</tt> holding the first column of the returned matrix. Thus, if your query returns multiple lines, you will get no warning, and the function will return the first in the list.
-\exception out->error=='q' Query error. A valid query that returns no rows is not an error; in that case, you get \c NULL.
 
+\li If the query fails, or is valid but returns no rows, the function returns \c NULL. If you need to
+    distinguish between the two, use \ref apop_query_to_data.
 \li Uses \ref apop_query_to_data internally, then throws away all but the first column
     of the matrix.
 \li If \c apop_opts.db_name_column is set, then I'll ignore that column. It gets put
@@ -357,16 +352,14 @@ gsl_vector * apop_query_to_vector(const char * fmt, ...){
 #else
         Apop_stopif(1, return NULL, 0, "Apophenia was compiled without mysql support.");
 #endif
-    apop_data *d=NULL;
-    gsl_vector *out;
-	if (db==NULL) apop_db_open(NULL);
-    Store_settings
-	d	= apop_query_to_data("%s", query);
-    Restore_settings
-    Apop_stopif(!d, return NULL, 2, "Query [%s] turned up a blank table. Returning NULL.", query);
-    //else:
-    out = gsl_vector_alloc(d->matrix->size1);
-	gsl_matrix_get_col(out, d->matrix, 0);
+    gsl_vector *out = NULL;
+    apop_data *d = sqlite_query_to_data(query);
+    Apop_stopif(!d, free(query); return NULL, 2, "Query [%s] turned up a blank table. Returning NULL.", query);
+    Apop_stopif(d->error, apop_data_free(d); free(query); return NULL, 0, "Query [%s] failed. Returning NULL.", query);
+    if (d->matrix){
+        out = gsl_vector_alloc(d->matrix->size1);
+        if (out) gsl_matrix_get_col(out, d->matrix, 0);
+    }
 	apop_data_free(d);
     free(query);
 	return out;
@@ -401,14 +394,10 @@ double apop_query_to_float(const char * fmt, ...){
         Apop_stopif(1, return NAN, 0, "Apophenia was compiled without mysql support.");
 #endif
     } else {
-        apop_data *d=NULL;
-        if (db==NULL) apop_db_open(NULL);
-        Store_settings
-        d = apop_query_to_data("%s", query);
-        Restore_settings
-        Apop_stopif(!d, return GSL_NAN, 2, "Query [%s] turned up a blank table. Returning NaN.", query);
-        Apop_stopif(d->error, return GSL_NAN, 0, "Query [%s] failed. Returning NaN.", query);
-        out	= apop_data_get(d);
+        apop_data *d = sqlite_query_to_data(query);
+        Apop_stopif(!d, free(query); return GSL_NAN, 2, "Query [%s] turned up a blank table. Returning NaN.", query);
+        Apop_stopif(d->error, apop_data_free(d); free(query); return GSL_NAN, 0, "Query [%s] failed. Returning NaN.", query);
+        out = d->matrix ? apop_data_get(d) : GSL_NAN;
         apop_data_free(d);
     }
     free(query);
-- 
2.43.0


From 5e612d5511b00b75aa93aca7464450e0b7ed181c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:11 +0000
Subject: [PATCH 038/192] fix: text cells are data, not printf formats

---
 apop_conversions.m4.c | 4 ++--
 apop_data.m4.c        | 2 +-
 apop_db_sqlite.c      | 3 ++-
 apop_rake.m4.c        | 4 ++--
 apop_regression.m4.c  | 6 +++---
 5 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/apop_conversions.m4.c b/apop_conversions.m4.c
index f98d43d..1b57fd4 100644
--- a/apop_conversions.m4.c
+++ b/apop_conversions.m4.c
@@ -573,7 +573,7 @@ static void get_field_names(int has_col_names, char **field_names, FILE *infile,
             parse_a_line(infile, buffer, ptr, add_this_line, field_ends, delimiters);
         fn	= apop_text_alloc(fn, add_this_line->textsize[0], 1);
         for (int i=0; i< fn->textsize[0]; i++)
-            if (field_names) apop_text_set(fn, i, 0, field_names[i]);
+            if (field_names) apop_text_set(fn, i, 0, "%s", field_names[i]);
             else             apop_text_set(fn, i, 0, "col_%i", i);
     }
 }
@@ -932,7 +932,7 @@ apop_data *apop_text_fill_base(apop_data *data, char* text[]){
     int ctr=0;
     for (int i=0; i< data->textsize[0]; i++)
         for (int j=0; j< data->textsize[1]; j++)
-            apop_text_set(data, i, j, text[ctr++]);
+            apop_text_set(data, i, j, "%s", text[ctr++]);
     return data;
 }
 
diff --git a/apop_data.m4.c b/apop_data.m4.c
index 7d9d6f4..04e5beb 100644
--- a/apop_data.m4.c
+++ b/apop_data.m4.c
@@ -1171,7 +1171,7 @@ APOP_VAR_ENDHEAD
             for (int c=0; c< in->textsize[1]; c++)
                 if (in->text[r][c] == apop_nul_string)
                      apop_text_blank(out, c, r);
-                else apop_text_set(out, c, r, in->text[r][c]);
+                else apop_text_set(out, c, r, "%s", in->text[r][c]);
     }
     if (in->names && in->names->textct && !in->names->colct)
         apop_name_stack(out->names, in->names, 't', 'r');
diff --git a/apop_db_sqlite.c b/apop_db_sqlite.c
index de20854..06b5012 100644
--- a/apop_db_sqlite.c
+++ b/apop_db_sqlite.c
@@ -219,7 +219,8 @@ static int db_to_chars(void *qinfo,int argc, char **argv, char **column){
             apop_name_add(d->names, argv[jj], 'r'); 
             ncshift ++;
         } else {
-            apop_text_set(d, rows, jj-ncshift, (argv[jj]==NULL)? apop_opts.nan_string: argv[jj]);
+            if (argv[jj]) apop_text_set(d, rows, jj-ncshift, "%s", argv[jj]);
+            else          apop_text_set(d, rows, jj-ncshift, NULL); //fills with apop_opts.nan_string
             //Asprintf(&(d->text[rows][jj-ncshift]), "%s", (argv[jj]==NULL)? "NaN": argv[jj]);
             if(addnames)
                 apop_name_add(d->names, column[jj], 't'); 
diff --git a/apop_rake.m4.c b/apop_rake.m4.c
index 7b0e800..aa00c42 100644
--- a/apop_rake.m4.c
+++ b/apop_rake.m4.c
@@ -349,12 +349,12 @@ apop_data *get_var_list(char const *margin_table, char const *count_col, char co
         for (int i=0; i< all_vars_d->textsize[0]; i++)
             if (all_vars_d->text[i][1] && (count_col ? strcmp(all_vars_d->text[i][1], count_col) : 1)
                  && (init_count_col ? strcmp(all_vars_d->text[i][1], init_count_col): 1))
-                    apop_text_set(all_vars_d, 0, ctr++, all_vars_d->text[i][1]);
+                    apop_text_set(all_vars_d, 0, ctr++, "%s", all_vars_d->text[i][1]);
         apop_text_alloc(all_vars_d, 1, ctr);
         *var_ct = ctr;
     } else {
         all_vars_d = apop_text_alloc(NULL, 1, *var_ct); 
-        for (int i=0; i<*var_ct; i++) apop_text_set(all_vars_d, 0, i, varlist[i]);
+        for (int i=0; i<*var_ct; i++) apop_text_set(all_vars_d, 0, i, "%s", varlist[i]);
     }
     Apop_stopif(!all_vars_d, apop_return_data_error(y), 0, "Trouble getting/parsing the list of variables.");
     return all_vars_d;
diff --git a/apop_regression.m4.c b/apop_regression.m4.c
index ad892ab..48852a4 100644
--- a/apop_regression.m4.c
+++ b/apop_regression.m4.c
@@ -107,7 +107,7 @@ apop_data * apop_text_unique_elements(const apop_data *d, size_t col){
     //pack and ship
     apop_data *out = apop_text_alloc(NULL, elmt_ctr, 1);
     for (int j=0; j< elmt_ctr; j++)
-        apop_text_set(out, j, 0, telmts[j]);
+        apop_text_set(out, j, 0, "%s", telmts[j]);
     free(telmts);
     return out;
 }
@@ -236,12 +236,12 @@ static apop_data * dummies_and_factors_core(apop_data *d, int col, char type,
             else {
                 index = elmt_ctr++;
                 *factor_list = apop_text_alloc(*factor_list, elmt_ctr, 1);
-                apop_text_set(*factor_list, index, 0, d->text[i][col]);
+                apop_text_set(*factor_list, index, 0, "%s", d->text[i][col]);
                 (*factor_list)->vector = apop_vector_realloc((*factor_list)->vector, elmt_ctr);
                 apop_data_set(*factor_list, index, -1, index);
 
                 telmts = apop_text_alloc(telmts, 1, elmt_ctr);
-                apop_text_set(telmts, 0, index, d->text[i][col]);
+                apop_text_set(telmts, 0, index, "%s", d->text[i][col]);
                 if (dummyfactor == 'd'){
                     out->matrix = apop_matrix_realloc(out->matrix, out->matrix->size1, out->matrix->size2+1);
                     gsl_vector_set_zero(Apop_cv(out, out->matrix->size2-1));
-- 
2.43.0


From 70eee52bc3829bbe92a736ce13b2dfee2d539b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:11 +0000
Subject: [PATCH 039/192] fix: filling a text grid from too few strings stops
 at the last string

---
 apop_conversions.m4.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apop_conversions.m4.c b/apop_conversions.m4.c
index 1b57fd4..6b66e38 100644
--- a/apop_conversions.m4.c
+++ b/apop_conversions.m4.c
@@ -931,7 +931,7 @@ apop_data *apop_text_fill_base(apop_data *data, char* text[]){
 
     int ctr=0;
     for (int i=0; i< data->textsize[0]; i++)
-        for (int j=0; j< data->textsize[1]; j++)
+        for (int j=0; j< data->textsize[1] && ctr < textct; j++)
             apop_text_set(data, i, j, "%s", text[ctr++]);
     return data;
 }
-- 
2.43.0


From 98ebc0ba71f02b4aa49c9eccfbf3e9ccd76082d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:11 +0000
Subject: [PATCH 040/192] fix: aggregate functions survive a failed allocation
 of their context

---
 apop_db_sqlite.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/apop_db_sqlite.c b/apop_db_sqlite.c
index 06b5012..b5bed84 100644
--- a/apop_db_sqlite.c
+++ b/apop_db_sqlite.c
@@ -68,7 +68,7 @@ static void stdDevFinalizePop(sqlite3_context *context){
     StdDevCtx *p = sqlite3_aggregate_context(context, sizeof(*p));
     if (p && p->cnt>1)
       sqlite3_result_double(context, sqrt((p->avg2 - gsl_pow_2(p->avg))));
-    else if (p->cnt == 1)
+    else if (p && p->cnt == 1)
       	sqlite3_result_double(context, 0);
 }
 
@@ -76,7 +76,7 @@ static void varFinalizePop(sqlite3_context *context){
   StdDevCtx *p = sqlite3_aggregate_context(context, sizeof(*p));
     if( p && p->cnt>1 )
         sqlite3_result_double(context, (p->avg2 - gsl_pow_2(p->avg)));
-    else if (p->cnt == 1)
+    else if (p && p->cnt == 1)
     	sqlite3_result_double(context, 0);
 }
 
@@ -86,7 +86,7 @@ static void stdDevFinalize(sqlite3_context *context){
       double rCnt = p->cnt;
       sqlite3_result_double(context,
          sqrt((p->avg2 - gsl_pow_2(p->avg))*rCnt/(rCnt-1.0)));
-    } else if (p->cnt == 1)
+    } else if (p && p->cnt == 1)
       	sqlite3_result_double(context, 0);
 }
 
@@ -96,7 +96,7 @@ static void varFinalize(sqlite3_context *context){
       double rCnt = p->cnt;
       sqlite3_result_double(context,
          (p->avg2 - gsl_pow_2(p->avg))*rCnt/(rCnt-1.0));
-    } else if (p->cnt == 1)
+    } else if (p && p->cnt == 1)
       	sqlite3_result_double(context, 0);
 }
 
@@ -107,7 +107,7 @@ static void skewFinalize(sqlite3_context *context){
       sqlite3_result_double(context,
          (p->avg3*rCnt - 3*p->avg2*p->avg*rCnt 
                         + 2*rCnt * gsl_pow_3(p->avg)) * rCnt/((rCnt-1.0)*(rCnt-2.0)));
-    } else if (p->cnt == 1)
+    } else if (p && p->cnt == 1)
       	sqlite3_result_double(context, 0);
 }
 
@@ -123,7 +123,7 @@ static void kurtFinalize(sqlite3_context *context){
       long double coeff1= n*gsl_pow_2(n-1)+ (6*n-9);
       long double coeff2= n*(6*n-9);
       sqlite3_result_double(context, coeff0*(coeff1 * kurtovern + coeff2 * gsl_pow_2(var)));
-    } else if (p->cnt == 1)
+    } else if (p && p->cnt == 1)
       sqlite3_result_double(context, 0);
 }
 
-- 
2.43.0


From cda4719e0126353ca4546481a456432f86fa8c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:11 +0000
Subject: [PATCH 041/192] fix: a NULL in the row name column doesn't shift the
 names of the rows below

---
 apop_db.m4.c     | 2 +-
 apop_db_sqlite.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/apop_db.m4.c b/apop_db.m4.c
index 37e96a3..fd0cfd7 100644
--- a/apop_db.m4.c
+++ b/apop_db.m4.c
@@ -281,7 +281,7 @@ static int db_to_table(void *qinfo, int argc, char **argv, char **column){
                  ? GSL_NAN : atof(argv[jj]);
             gsl_matrix_set(qi->outdata->matrix,qi->currentrow,jj-ncfound, valor);
         } else {
-            apop_name_add(qi->outdata->names, argv[jj], 'r');
+            apop_name_add(qi->outdata->names, argv[jj] ? argv[jj] : "NaN", 'r');
             ncfound = 1;
         }
     (qi->currentrow)++;
diff --git a/apop_db_sqlite.c b/apop_db_sqlite.c
index b5bed84..227ba82 100644
--- a/apop_db_sqlite.c
+++ b/apop_db_sqlite.c
@@ -216,7 +216,7 @@ static int db_to_chars(void *qinfo,int argc, char **argv, char **column){
     apop_text_alloc(d, rows+1, cols);//doesn't move d.
     for (size_t jj=0; jj<argc; jj++)
         if (jj == qi->namecol){
-            apop_name_add(d->names, argv[jj], 'r'); 
+            apop_name_add(d->names, argv[jj] ? argv[jj] : "NaN", 'r');
             ncshift ++;
         } else {
             if (argv[jj]) apop_text_set(d, rows, jj-ncshift, "%s", argv[jj]);
-- 
2.43.0


From b9fff124ad4b7873cf9344bdfdc062344d6bb07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:55 +0000
Subject: [PATCH 042/192] fix: a mixed query with more columns than types
 doesn't read past the list of types

---
 apop_db_sqlite.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/apop_db_sqlite.c b/apop_db_sqlite.c
index 227ba82..c07d747 100644
--- a/apop_db_sqlite.c
+++ b/apop_db_sqlite.c
@@ -6,6 +6,7 @@ Copyright (c) 2006--2007 by Ben Klemens.  Licensed under the GPLv2; see COPYING.
 #include <sqlite3.h>
 #include <string.h>
 
+extern char *apop_nul_string;
 sqlite3	*db=NULL;	                //There's only one SQLite database handle. Here it is.
 
 
@@ -294,11 +295,14 @@ static int multiquery_callback(void *instruct, int argc, char **argv, char **col
         in->d->textsize[0]         = in->thisrow;
         in->d->text                = realloc(in->d->text, sizeof(char ***)*in->thisrow);
         in->d->text[in->thisrow-1] = malloc(sizeof(char**) * in->d->textsize[1]);
+        for (i=0; i< in->d->textsize[1]; i++)
+            in->d->text[in->thisrow-1][i] = apop_nul_string;
     }
     if (in->intypes[2])
         apop_matrix_realloc(in->d->matrix, in->thisrow, in->intypes[2]);
     for (i=in->current=0; i< argc; i++){
-        c   = in->instring[in->current++];
+        c   = in->instring[in->current];
+        if (c) in->current++; //else the query gave more columns than types.
         if (c=='n'||c=='N'){
             apop_name_add(in->d->names, (argv[i]? argv[i] : "NaN")  , 'r'); 
             if(addnames)
-- 
2.43.0


From 7b3dce436acef81bc3c582997fad717c0eecf760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:03 +0000
Subject: [PATCH 043/192] fix: threads that find no database open wind up with
 the same one, fully set up

---
 apop_db.m4.c     |  2 +-
 apop_db_sqlite.c | 50 ++++++++++++++++++++++++++++++------------------
 2 files changed, 32 insertions(+), 20 deletions(-)

diff --git a/apop_db.m4.c b/apop_db.m4.c
index fd0cfd7..209cabf 100644
--- a/apop_db.m4.c
+++ b/apop_db.m4.c
@@ -566,7 +566,7 @@ int apop_data_to_db(const apop_data *set, const char *tabname, const char output
         Apop_stopif(1, return -1, apop_errorlevel, "Apophenia was compiled without mysql support.");
 #endif
     else {
-        if (db==NULL) apop_db_open(NULL);
+        Apop_stopif(need_db(), return -1, 0, "No database is open.");
         if (((output_append =='a' || output_append =='A') && apop_table_exists(tabname)) )
             Asprintf(&q, " ");
         else {
diff --git a/apop_db_sqlite.c b/apop_db_sqlite.c
index c07d747..a4010a3 100644
--- a/apop_db_sqlite.c
+++ b/apop_db_sqlite.c
@@ -147,12 +147,22 @@ sqfn(sqrt) sqfn(exp) sqfn(log) sqfn(log10) sqfn(sin)
 sqfn(cos) sqfn(tan) sqfn(asin) sqfn(acos) sqfn(atan)
 
 
+/* Functions that need a database open one in memory if there is none yet. If several threads find that
+ at once, they have to wind up with the same one. Returns zero iff there is an open database. */
+static int need_db(){
+    if (db) return 0;
+    int status = 0;
+    OMP_critical(apop_db_open_default)
+        if (!db) status = apop_db_open(NULL);
+    return status;
+}
+
 /* Run a query, opening the database first if need be. Returns zero on success; else reports
  the trouble and returns a nonzero code. SQLite's return code is what counts: some failures (such
  as running out of memory) come without an error message. */
 static int sqlite_run(char const *query, int (*callback)(void*, int, char**, char**), void *info){
     char *err = NULL;
-    Apop_stopif(!db && apop_db_open(NULL), return SQLITE_CANTOPEN, 0, "%s: no database is open.", query);
+    Apop_stopif(need_db(), return SQLITE_CANTOPEN, 0, "%s: no database is open.", query);
     int status = sqlite3_exec(db, query, callback, info, &err);
     Apop_stopif(status != SQLITE_OK, sqlite3_free(err); return status,
                 0, "%s: %s", query, err ? err : sqlite3_errstr(status));
@@ -165,28 +175,30 @@ static int sqlite_run(char const *query, int (*callback)(void*, int, char**, cha
         if (outdata) (outdata)->error = 'q'; }
 
 static int apop_sqlite_db_open(char const *filename){
-    int status = sqlite3_open(filename ? filename : ":memory:", &db);
-    Apop_stopif(status, sqlite3_close(db); db=NULL; return status,
+    sqlite3 *newdb = NULL; //Other threads don't get to see the connection until it is set up.
+    int status = sqlite3_open(filename ? filename : ":memory:", &newdb);
+    Apop_stopif(status, sqlite3_close(newdb); db=NULL; return status,
             0, "The database %s didn't open.", filename ? filename : "in memory");
-	sqlite3_create_function(db, "stddev", 1, SQLITE_ANY, NULL, NULL, &twoStep, &stdDevFinalize);
-	sqlite3_create_function(db, "std", 1, SQLITE_ANY, NULL, NULL, &twoStep, &stdDevFinalizePop);
-	sqlite3_create_function(db, "stddev_samp", 1, SQLITE_ANY, NULL, NULL, &twoStep, &stdDevFinalize);
-	sqlite3_create_function(db, "stddev_pop", 1, SQLITE_ANY, NULL, NULL, &twoStep, &stdDevFinalizePop);
-	sqlite3_create_function(db, "var", 1, SQLITE_ANY, NULL, NULL, &twoStep, &varFinalize);
-	sqlite3_create_function(db, "var_samp", 1, SQLITE_ANY, NULL, NULL, &twoStep, &varFinalize);
-	sqlite3_create_function(db, "var_pop", 1, SQLITE_ANY, NULL, NULL, &twoStep, &varFinalizePop);
-	sqlite3_create_function(db, "variance", 1, SQLITE_ANY, NULL, NULL, &twoStep, &varFinalizePop);
-	sqlite3_create_function(db, "skew", 1, SQLITE_ANY, NULL, NULL, &threeStep, &skewFinalize);
-	sqlite3_create_function(db, "kurt", 1, SQLITE_ANY, NULL, NULL, &fourStep, &kurtFinalize);
-	sqlite3_create_function(db, "kurtosis", 1, SQLITE_ANY, NULL, NULL, &fourStep, &kurtFinalize);
-	sqlite3_create_function(db, "ln", 1, SQLITE_ANY, NULL, &logFn, NULL, NULL);
-	sqlite3_create_function(db, "ran", 0, SQLITE_ANY, NULL, &rngFn, NULL, NULL);
-	sqlite3_create_function(db, "pow", 2, SQLITE_ANY, NULL, &powFn, NULL, NULL);
+	sqlite3_create_function(newdb, "stddev", 1, SQLITE_ANY, NULL, NULL, &twoStep, &stdDevFinalize);
+	sqlite3_create_function(newdb, "std", 1, SQLITE_ANY, NULL, NULL, &twoStep, &stdDevFinalizePop);
+	sqlite3_create_function(newdb, "stddev_samp", 1, SQLITE_ANY, NULL, NULL, &twoStep, &stdDevFinalize);
+	sqlite3_create_function(newdb, "stddev_pop", 1, SQLITE_ANY, NULL, NULL, &twoStep, &stdDevFinalizePop);
+	sqlite3_create_function(newdb, "var", 1, SQLITE_ANY, NULL, NULL, &twoStep, &varFinalize);
+	sqlite3_create_function(newdb, "var_samp", 1, SQLITE_ANY, NULL, NULL, &twoStep, &varFinalize);
+	sqlite3_create_function(newdb, "var_pop", 1, SQLITE_ANY, NULL, NULL, &twoStep, &varFinalizePop);
+	sqlite3_create_function(newdb, "variance", 1, SQLITE_ANY, NULL, NULL, &twoStep, &varFinalizePop);
+	sqlite3_create_function(newdb, "skew", 1, SQLITE_ANY, NULL, NULL, &threeStep, &skewFinalize);
+	sqlite3_create_function(newdb, "kurt", 1, SQLITE_ANY, NULL, NULL, &fourStep, &kurtFinalize);
+	sqlite3_create_function(newdb, "kurtosis", 1, SQLITE_ANY, NULL, NULL, &fourStep, &kurtFinalize);
+	sqlite3_create_function(newdb, "ln", 1, SQLITE_ANY, NULL, &logFn, NULL, NULL);
+	sqlite3_create_function(newdb, "ran", 0, SQLITE_ANY, NULL, &rngFn, NULL, NULL);
+	sqlite3_create_function(newdb, "pow", 2, SQLITE_ANY, NULL, &powFn, NULL, NULL);
 
-#define sqlink(name) sqlite3_create_function(db, #name , 1, SQLITE_ANY, NULL, &name##Fn, NULL, NULL);
+#define sqlink(name) sqlite3_create_function(newdb, #name , 1, SQLITE_ANY, NULL, &name##Fn, NULL, NULL);
     sqlink(sqrt) sqlink(exp) sqlink(sin) sqlink(cos)
     sqlink(tan) sqlink(asin) sqlink(acos) sqlink(atan) sqlink(log) sqlink(log10)
-	apop_query("pragma short_column_names");
+	sqlite3_exec(newdb, "pragma short_column_names", NULL, NULL, NULL);
+    db = newdb;
     return 0;
 }
 
-- 
2.43.0


From 96f267ed26fc478b2b6b6d17f9c89d1483ac3516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:23 +0000
Subject: [PATCH 044/192] fix: reading text: short reads and 0xFF bytes are not
 the end of the file

---
 apop_conversions.m4.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/apop_conversions.m4.c b/apop_conversions.m4.c
index 6b66e38..2de53a4 100644
--- a/apop_conversions.m4.c
+++ b/apop_conversions.m4.c
@@ -472,14 +472,13 @@ typedef struct{
 
 static const size_t bs=1e5;
 static int get_next(char *buffer, size_t *ptr, FILE *infile){
-    int r;
     if (*ptr>=bs){
         size_t len=fread(buffer, 1, bs, infile);
-        if (len < bs) buffer[len]=(char)-1;
-        *ptr=0;
+        if (!len) return EOF; //leave *ptr as is, so asking again will give EOF again.
+        *ptr = bs-len; //a short read goes at the end of the buffer.
+        if (len < bs) memmove(buffer+*ptr, buffer, len);
     }
-    r = buffer[(*ptr)++];
-    return r == (char)-1 ? EOF : r;
+    return (unsigned char) buffer[(*ptr)++];
 }
 
 static apop_char_info parse_next_char(char *buffer, size_t *ptr, FILE *f, char const *delimiters){
-- 
2.43.0


From c68ae3e0853b8cf3e5500507e6d7a6736990c12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:23 +0000
Subject: [PATCH 045/192] fix: reading text: NULs are padding, not delimiters

---
 apop_conversions.m4.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apop_conversions.m4.c b/apop_conversions.m4.c
index 2de53a4..41c349d 100644
--- a/apop_conversions.m4.c
+++ b/apop_conversions.m4.c
@@ -483,7 +483,7 @@ static int get_next(char *buffer, size_t *ptr, FILE *infile){
 
 static apop_char_info parse_next_char(char *buffer, size_t *ptr, FILE *f, char const *delimiters){
     int c = get_next(buffer, ptr, f);
-    int is_delimiter = !!strchr(delimiters, c);
+    int is_delimiter = c && strchr(delimiters, c); //a NUL is padding, not the end of the delimiter list
     return (apop_char_info){.c=c, 
             .type = (c==' '||c=='\r' ||c=='\t' || c==0)? (is_delimiter ? 'W'  : 'w')
                     :is_delimiter    ? 'd'
-- 
2.43.0


From ea1a5ef01b638e3490506cd77c00c26c734a29c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:32 +0000
Subject: [PATCH 046/192] fix: reading text: files with no data lines end the
 read; failed reads are reported

---
 apop_conversions.m4.c | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/apop_conversions.m4.c b/apop_conversions.m4.c
index 41c349d..16a475d 100644
--- a/apop_conversions.m4.c
+++ b/apop_conversions.m4.c
@@ -562,14 +562,16 @@ static line_parse_t parse_a_line(FILE *infile, char *buffer, size_t *ptr, apop_d
 }
 
 //On return, fn has copies of the field names, and add_this_line has the first data line.
+//If the file ends before there is a data line, add_this_line is still blank.
 static void get_field_names(int has_col_names, char **field_names, FILE *infile, char *buffer, size_t *ptr,
                                 apop_data *add_this_line, apop_data *fn, int const *field_ends, char const *delimiters){
+    line_parse_t L = { };
     if (has_col_names && field_names == NULL){
-        while (fn->textsize[0] ==0) parse_a_line(infile, buffer, ptr, fn, field_ends, delimiters);
-        while (add_this_line->textsize[0] ==0) parse_a_line(infile, buffer, ptr, add_this_line, field_ends, delimiters);
+        while (fn->textsize[0] ==0 && !L.eof) L = parse_a_line(infile, buffer, ptr, fn, field_ends, delimiters);
+        while (add_this_line->textsize[0] ==0 && !L.eof) L = parse_a_line(infile, buffer, ptr, add_this_line, field_ends, delimiters);
     } else{
-        while (add_this_line->textsize[0] ==0) 
-            parse_a_line(infile, buffer, ptr, add_this_line, field_ends, delimiters);
+        while (add_this_line->textsize[0] ==0 && !L.eof)
+            L = parse_a_line(infile, buffer, ptr, add_this_line, field_ends, delimiters);
         fn	= apop_text_alloc(fn, add_this_line->textsize[0], 1);
         for (int i=0; i< fn->textsize[0]; i++)
             if (field_names) apop_text_set(fn, i, 0, "%s", field_names[i]);
@@ -622,16 +624,16 @@ APOP_VAR_ENDHEAD
         apop_data *field_names = apop_data_alloc();
         get_field_names(1, NULL, infile, buffer, &ptr, add_this_line, field_names, field_ends, delimiters);
         L.ct = *add_this_line->textsize;
-        set = apop_data_alloc(0,1, L.ct - hasrows);
-	    set->names->colct = 0;
-	    set->names->col = malloc(sizeof(char*));
-        for (int j=0; j< L.ct - hasrows; j++)
+        L.eof = !L.ct; //no data lines.
+        set = L.ct ? apop_data_alloc(0,1, L.ct - hasrows) : apop_data_alloc();
+        int namect = L.ct ? GSL_MIN(L.ct - hasrows, *field_names->textsize) : *field_names->textsize;
+        for (int j=0; j< namect; j++)
             apop_name_add(set->names, *field_names->text[j], 'c');
         apop_data_free(field_names);
     } 
 
     //Now do the body.
-	while(!set || !L.eof || L.ct){
+	while(!L.eof || L.ct){
         if (!L.ct) { //skip blank lines
             L=parse_a_line(infile,buffer, &ptr,  add_this_line, field_ends, delimiters);
             continue;
@@ -667,6 +669,8 @@ APOP_VAR_ENDHEAD
         L=parse_a_line(infile, buffer, &ptr, add_this_line, field_ends, delimiters);
 	}
     apop_data_free(add_this_line);
+    if (!set) set = apop_data_alloc(); //a blank file.
+    Apop_stopif(ferror(infile), set->error='t', 0, "Trouble reading %s.", text_file);
     if (strcmp(text_file,"-")) fclose(infile);
 	return set;
 }
-- 
2.43.0


From f561b4667bcefd642068c6d094034acf14766dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:33 +0000
Subject: [PATCH 047/192] fix: reading text: short lines end in NaNs; what is
 returned after a bad line is only the good lines

---
 apop_conversions.m4.c | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/apop_conversions.m4.c b/apop_conversions.m4.c
index 16a475d..35b107d 100644
--- a/apop_conversions.m4.c
+++ b/apop_conversions.m4.c
@@ -615,7 +615,7 @@ APOP_VAR_ENDHEAD
     apop_data *add_this_line= apop_data_alloc();
     int row = 0,
         hasrows = (has_row_names == 'y');
-    Apop_stopif(prep_text_reading(text_file, &infile), apop_return_data_error(t),
+    Apop_stopif(prep_text_reading(text_file, &infile), apop_data_free(add_this_line); apop_return_data_error(t),
             0, "trouble opening %s", text_file);
 
     line_parse_t L={ };
@@ -641,20 +641,23 @@ APOP_VAR_ENDHEAD
         if (!set) set = apop_data_alloc(0, 1, L.ct-hasrows); //for .has_col_names=='n'.
         row++;
         int cols = set->matrix  ? set->matrix->size2 : L.ct - hasrows;
-        set->matrix = apop_matrix_realloc(set->matrix, row, cols);
-        Apop_stopif(!set->matrix, set->error='a'; return set, 0, "allocation error.");
-        if (hasrows) {
-            apop_name_add(set->names, *add_this_line->text[0], 'r');
-            Apop_stopif(L.ct-1 > set->matrix->size2, set->error='t'; return set, 1,
-                 "row %i (not counting rownames) has %i elements (not counting the rowname), "
-                 "but I thought this was a data set with %zu elements per row. "
-                 "Stopping the file read; returning what I have so far.", row, L.ct-1, set->matrix->size2);
-        } else Apop_stopif(L.ct > set->matrix->size2, set->error='t'; return set, 1,
-                 "row %i has %i elements, "
-                 "but I thought this was a data set with %zu elements per row. "
-                 "Stopping the file read; returning what I have so far. Set has_row_names?", row, L.ct, set->matrix->size2);
-        for (int col=hasrows; col < L.ct; col++){
-            char *thisstr = *add_this_line->text[col];
+        if (L.ct - hasrows > cols){
+            set->error = 't';
+            Apop_notify(1, "row %i (not counting any row names) has %i elements, "
+                 "but I thought this was a data set with %i elements per row. "
+                 "Stopping the file read; returning what I have so far. Set has_row_names?", row, L.ct - hasrows, cols);
+            break;
+        }
+        gsl_matrix *longer = apop_matrix_realloc(set->matrix, row, cols);
+        if (!longer){
+            set->error = 'a';
+            Apop_notify(0, "allocation error.");
+            break;
+        }
+        set->matrix = longer;
+        if (hasrows) apop_name_add(set->names, *add_this_line->text[0], 'r');
+        for (int col=hasrows; col < cols + hasrows; col++){
+            char *thisstr = col < L.ct ? *add_this_line->text[col] : ""; //short lines end in blanks.
             if (strlen(thisstr)){
                 double val = strtod(thisstr, &str);
                 if (thisstr != str)
-- 
2.43.0


From 0d377ba95d2109e36db069778b406c4a7b272916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:33 +0000
Subject: [PATCH 048/192] fix: text with quotes goes into SQL as is; text read
 as NaN is stored as NULL

---
 apop_conversions.m4.c | 36 ++++++++++++++++++++++++------------
 apop_internal.h       |  1 +
 2 files changed, 25 insertions(+), 12 deletions(-)

diff --git a/apop_conversions.m4.c b/apop_conversions.m4.c
index 35b107d..cc01a07 100644
--- a/apop_conversions.m4.c
+++ b/apop_conversions.m4.c
@@ -954,6 +954,21 @@ static char *get_field_conditions(char *var, apop_data *field_params){
     return (apop_opts.db_engine == 'm') ? "varchar(100)" : "numeric";
 }
 
+//A string as an SQL literal: in single quotes, with each single quote in the string doubled.
+char *quote_for_sql(char const *in){
+    char *out = malloc(2*strlen(in)+3);
+    Apop_stopif(!out, return NULL, 0, "out of memory?");
+    char *o = out;
+    *o++ = '\'';
+    for ( ; *in; in++){
+        if (*in == '\'') *o++ = '\'';
+        *o++ = *in;
+    }
+    *o++ = '\'';
+    *o = '\0';
+    return out;
+}
+
 static int tab_create_mysql(char *tabname, int has_row_names, apop_data *field_params, char *table_params, apop_data const *fn){
     char *q = NULL;
     Asprintf(&q, "create table %s", tabname);
@@ -978,13 +993,15 @@ static int tab_create_sqlite(char *tabname, int has_row_names, apop_data *field_
         if (i==0){
             if (has_row_names) xprintf(&q, "%s ('row_names', ", q);
             else               xprintf(&q, "%s (", q);
-        } else xprintf(&q, "%s' %s, ", q, get_field_conditions(*fn->text[i-1], field_params));
-        xprintf(&q, "%s '%s", q, *fn->text[i]);
+        } else xprintf(&q, "%s %s, ", q, get_field_conditions(*fn->text[i-1], field_params));
+        char *name = quote_for_sql(*fn->text[i]);
+        xprintf(&q, "%s %s", q, name);
+        free(name);
     }
-    xprintf(&q, "%s' %s%s%s);", q, get_field_conditions(*fn->text[fn->textsize[0]-1], field_params)
+    xprintf(&q, "%s %s%s%s);", q, get_field_conditions(*fn->text[fn->textsize[0]-1], field_params)
                                 , table_params? ", ": "", XN(table_params));
-    apop_query("%s", q);
-    Apop_stopif(!apop_table_exists(tabname), return -1, 0, "query \"%s\" failed.", q);
+    int failed = apop_query("%s", q) || apop_table_exists(tabname)!=1;
+    Apop_stopif(failed, free(q); return -1, 0, "query \"%s\" failed.", q);
     free(q);
     return 0;
 }
@@ -1003,12 +1020,7 @@ char *prep_string_for_sqlite(int prepped_statements, char const *astring){
 	if(strtod(astring, &tail)) 
         /*do nothing.*/;
     if (*tail!='\0'){	//then it's not a number.
-        if (!prepped_statements){
-            if (strchr(astring, '\''))
-                Asprintf(&out,"\"%s\"", astring);
-            else
-                Asprintf(&out,"'%s'", astring);
-        } else  out = strdup(astring);
+        out = prepped_statements ? strdup(astring) : quote_for_sql(astring);
 	} else {	    //number, maybe INF or NAN. Also, sqlite wants 0.1, not .1
 		assert(*astring!='\0');
         if (isinf(atof(astring))==1)
@@ -1016,7 +1028,7 @@ char *prep_string_for_sqlite(int prepped_statements, char const *astring){
         else if (isinf(atof(astring))==-1)
 			out = strdup("-9e9999999");
         else if (gsl_isnan(atof(astring)))
-			out = strdup("0.0/0.0");
+            return NULL;
         else if (astring[0]=='.')
 			Asprintf(&out, "0%s",astring);
 		else out = strdup(astring);
diff --git a/apop_internal.h b/apop_internal.h
index 6d73730..6854a7b 100644
--- a/apop_internal.h
+++ b/apop_internal.h
@@ -40,6 +40,7 @@ void xprintf(char **q, char *format, ...);
 int apop_use_sqlite_prepared_statements(size_t col_ct);
 int apop_prepare_prepared_statements(char const *tabname, size_t col_ct, sqlite3_stmt **statement);
 char *prep_string_for_sqlite(int prepped_statements, char const *astring);//apop_conversions.c
+char *quote_for_sql(char const *in);//apop_conversions.c
 void apop_gsl_error(char const *reason, char const *file, int line, int gsl_errno); //apop_linear_algebra.c
 void apop_set_gsl_handler();
 void apop_unset_gsl_handler();
-- 
2.43.0


From 4f02bf9bdee9b936674339244a6592689b247820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:47 +0000
Subject: [PATCH 049/192] fix: apop_text_to_db: the last line counts, failures
 are reported, resources are released

---
 apop_conversions.m4.c | 94 +++++++++++++++++++++----------------------
 1 file changed, 47 insertions(+), 47 deletions(-)

diff --git a/apop_conversions.m4.c b/apop_conversions.m4.c
index cc01a07..a856bd3 100644
--- a/apop_conversions.m4.c
+++ b/apop_conversions.m4.c
@@ -980,8 +980,8 @@ static int tab_create_mysql(char *tabname, int has_row_names, apop_data *field_p
     }
     xprintf(&q, "%s %s%s%s)", q, get_field_conditions(*fn->text[fn->textsize[0]-1], field_params)
                                 , table_params? ", ": "", XN(table_params));
-    apop_query("%s", q);
-    Apop_stopif(!apop_table_exists(tabname), return -1, 0, "query \"%s\" failed.", q);
+    int failed = apop_query("%s", q) || apop_table_exists(tabname)!=1;
+    Apop_stopif(failed, free(q); return -1, 0, "query \"%s\" failed.", q);
     free(q);
     return 0;
 }
@@ -1036,9 +1036,10 @@ char *prep_string_for_sqlite(int prepped_statements, char const *astring){
     return out;
 }
 
-static void line_to_insert(line_parse_t L, apop_data const*addme, char const *tabname, 
-                             sqlite3_stmt *p_stmt, int row){
-    if (!L.ct) return;
+//Returns 0 if the whole line is now in the table, -1 if not.
+static int line_to_insert(line_parse_t L, apop_data const*addme, char const *tabname,
+                             sqlite3_stmt *p_stmt, int row, int col_ct){
+    int out = 0;
     int field = 1;
     char comma = ' ';
     char *q = NULL;
@@ -1050,7 +1051,7 @@ static void line_to_insert(line_parse_t L, apop_data const*addme, char const *ta
                 field++; //leave NULL and cleared
             else 
                Apop_stopif(sqlite3_bind_text(p_stmt, field++, prepped, -1, SQLITE_TRANSIENT)!=SQLITE_OK,
-                /*keep going */, 0, "Something wrong on line %i, field %i [%s].\n"
+                out = -1 /*keep going */, 0, "Something wrong on line %i, field %i [%s].\n"
                                             , row, field-1, *addme->text[col]);
         } else {
             xprintf(&q, "%s%c %s", q, comma,  (prepped && strlen(prepped) ? prepped : " NULL"));
@@ -1059,9 +1060,17 @@ static void line_to_insert(line_parse_t L, apop_data const*addme, char const *ta
         free(prepped);
     }
     if (!p_stmt){
-        apop_query("%s)",q); 
+        for (int col=L.ct; col < col_ct; col++) //short lines end in blanks.
+            xprintf(&q, "%s, NULL", q);
+        if (apop_query("%s)",q)) out = -1;
         free (q);
+        return out;
     }
+    int err = sqlite3_step(p_stmt);
+    Apop_stopif(err!=SQLITE_OK && err != SQLITE_DONE, out = -1, 0, "sqlite insert query gave error code %i.\n", err);
+    sqlite3_reset(p_stmt);          //repeats any error from the step.
+    sqlite3_clear_bindings(p_stmt); //needed for NULLs
+    return out;
 }
 
 int apop_use_sqlite_prepared_statements(size_t col_ct){
@@ -1151,70 +1160,61 @@ APOP_VAR_HEAD int apop_text_to_db(char const *text_file, char *tabname, int has_
     char apop_varad_var(if_table_exists, 'n')
 APOP_VAR_ENDHEAD
     int  batch_size  = 10000,
-      	 col_ct, ct = 0, rows = 1;
-    FILE *infile;
+      	 col_ct, ct = 0, rows = 0, out = -1;
+    FILE *infile = NULL;
     char buffer[bs];
     size_t ptr = bs;
-    apop_data *add_this_line = apop_data_alloc();
+    apop_data *add_this_line = apop_data_alloc(), *fn = apop_data_alloc();
     sqlite3_stmt *statement = NULL;
     line_parse_t L = {1,0};
         
-    bool tab_exists = apop_table_exists(tabname);
+    int tab_exists = apop_table_exists(tabname);
+    Apop_stopif(tab_exists==-1, goto done, 0, "Can't tell whether table %s exists; not reading %s.", tabname, text_file);
     if (tab_exists){
-        Apop_stopif(if_table_exists=='n', return -1, 0, "table %s exists; not recreating it.", tabname);
-        if (if_table_exists=='d')      
-            apop_query("delete from %s", tabname);
-        else if (if_table_exists=='o') {
-            apop_query("drop table %s", tabname); 
-            tab_exists=false;
+        Apop_stopif(if_table_exists=='n', goto done, 0, "table %s exists; not recreating it.", tabname);
+        if (if_table_exists=='d')
+            Apop_stopif(apop_query("delete from %s", tabname), goto done, 0, "couldn't delete the data in %s.", tabname);
+        if (if_table_exists=='o') {
+            Apop_stopif(apop_query("drop table %s", tabname), goto done, 0, "couldn't drop %s.", tabname);
+            tab_exists = 0;
         }
     }
 
     //get names and the first row.
-    if (prep_text_reading(text_file, &infile)) return -1;
-    apop_data *fn = apop_data_alloc();
+    if (prep_text_reading(text_file, &infile)) goto done;
     get_field_names(has_col_names=='y', field_names, infile, buffer, &ptr,
                                     add_this_line, fn, field_ends, delimiters);
     col_ct = L.ct = *add_this_line->textsize;
-    Apop_stopif(!col_ct, return -1, 0, "counted zero columns in the input file (%s).", tabname);
+    Apop_stopif(!col_ct, goto done, 0, "counted zero columns in the input file (%s).", tabname);
     if (!tab_exists)
         Apop_stopif( ((apop_opts.db_engine=='m') ? tab_create_mysql : tab_create_sqlite)(tabname, has_row_names=='y', field_params, table_params, fn),
-            return -1, 0, "Creating the table in the database failed.");
+            goto done, 0, "Creating the table in the database failed.");
 #if SQLITE_VERSION_NUMBER < 3003009
     Apop_notify(1, "Apophenia was compiled using a version of SQLite from mid-2007 or earlier. "
                     "The code for reading in text files using such an old version is no longer supported, "
                     "so if errors crop up please see about installing a more recent version of SQLite's library.");
 #endif
-    int use_sqlite_prepared_statements = apop_use_sqlite_prepared_statements(col_ct);
-    if (use_sqlite_prepared_statements)
+    if (apop_use_sqlite_prepared_statements(col_ct))
         Apop_stopif(apop_prepare_prepared_statements(tabname, col_ct, &statement), 
-                return -1, 0, "Trouble preparing the prepared statement for SQLite.");
+                goto done, 0, "Trouble preparing the prepared statement for SQLite.");
     //done with table & query setup.
     //convert a data line into SQL: insert into TAB values (0.3, 7, "et cetera");
-	while(L.ct && !L.eof){
-        line_to_insert(L, add_this_line, tabname, statement, rows);
+    int failed = 0;
+    while(L.ct){
+        if (line_to_insert(L, add_this_line, tabname, statement, rows+1, col_ct)) failed = 1;
+        else rows++;
         if (apop_opts.verbose > 1 && !(ct++ % batch_size)) 
             {fprintf(stderr, "."); fflush(NULL);}
-        if (use_sqlite_prepared_statements){
-            int err = sqlite3_step(statement);
-            if (err!=0 && err != 101) //0=ok, 101=done
-                Apop_notify(0, "sqlite insert query gave error code %i.\n", err);
-            Apop_assert_c(!sqlite3_reset(statement), -1, apop_errorlevel, "SQLite error.");
-#if SQLITE_VERSION_NUMBER >= 3003009
-            Apop_assert_c(!sqlite3_clear_bindings(statement), -1, apop_errorlevel, "SQLite error."); //needed for NULLs
-#endif
-        }
-        do {
-            L = parse_a_line(infile, buffer, &ptr, add_this_line, field_ends, delimiters);
-            rows ++;
-        } while (!L.ct && !L.eof); //skip blank lines
-	}
-    apop_data_free(add_this_line);
-#if SQLITE_VERSION_NUMBER >= 3003009
-	if (use_sqlite_prepared_statements){
-        Apop_assert_c(sqlite3_finalize(statement) ==SQLITE_OK, -1, apop_errorlevel, "SQLite error.");
+        if (L.eof) break; //the last line has elements and is terminated by EOF.
+        do L = parse_a_line(infile, buffer, &ptr, add_this_line, field_ends, delimiters);
+        while (!L.ct && !L.eof); //skip blank lines
     }
-#endif
-    if (strcmp(text_file,"-")) fclose(infile);
-	return rows;
+    Apop_stopif(ferror(infile), failed = 1, 0, "Trouble reading %s.", text_file);
+    if (!failed) out = rows;
+done:
+    apop_data_free(add_this_line);
+    apop_data_free(fn);
+    if (statement) sqlite3_finalize(statement);
+    if (infile && strcmp(text_file,"-")) fclose(infile);
+    return out;
 }
-- 
2.43.0


From cc8396621a925f6db024591509c52183fbbd6f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:47 +0000
Subject: [PATCH 050/192] fix: writing data to the database: every cell in its
 column, failures are reported

---
 apop_db.m4.c | 165 ++++++++++++++++++++++++++-------------------------
 1 file changed, 84 insertions(+), 81 deletions(-)

diff --git a/apop_db.m4.c b/apop_db.m4.c
index 209cabf..768ce96 100644
--- a/apop_db.m4.c
+++ b/apop_db.m4.c
@@ -457,75 +457,94 @@ void qxprintf(char **q, char *format, ...){
     free(r);
 }
 
+//Numbers are written so that reading them back produces the same number.
 static void add_a_number (char **q, char *comma, double v){
     if (gsl_isnan(v))
         qxprintf(q,"%s%c NULL ", *q, *comma);
-    else if (isinf(v)==1)
-        qxprintf(q,"%s%c  'inf'", *q, *comma);
-    else if (isinf(v)==-1)
-        qxprintf(q,"%s%c  '-inf' ", *q, *comma);
+    else if (isinf(v))
+        qxprintf(q, (apop_opts.db_engine == 'm') ? "%s%c  '%sinf'" : "%s%c  %s9e999", *q, *comma, v < 0 ? "-" : "");
     else
-        qxprintf(q,"%s%c %g ",*q ,*comma, v);
+        qxprintf(q,"%s%c %.17g ",*q ,*comma, v);
     *comma = ',';
 }
 
-static int run_prepared_statements(apop_data const *set, sqlite3_stmt *p_stmt){
+static void add_a_string (char **q, char *comma, char const *s){
+    char *quoted = s ? quote_for_sql(s) : NULL;
+    qxprintf(q,"%s%c %s ", *q, *comma, quoted ? quoted : "NULL");
+    free(quoted);
+    *comma = ',';
+}
+
+//The strings to be written to the database; NULL is written as an SQL NULL.
+static char const *row_name_for_db(apop_data const *set, size_t row){
+    return set->names->rowct > row && strlen(set->names->row[row]) ? set->names->row[row] : NULL;
+}
+
+static char const *text_for_db(apop_data const *set, size_t row, size_t col){
+    if (set->textsize[0] <= row) return NULL;
+    char const *s = set->text[row][col];
+    return (!strlen(s) || (apop_opts.nan_string && !strcasecmp(apop_opts.nan_string, s))) ? NULL : s;
+}
+
+static double element_for_db(gsl_vector const *v, size_t row){
+    return v->size > row ? gsl_vector_get(v, row) : GSL_NAN;
+}
+
+static double matrix_element_for_db(gsl_matrix const *m, size_t row, size_t col){
+    return m->size1 > row ? gsl_matrix_get(m, row, col) : GSL_NAN;
+}
+
+/* Every row has every field. Where there is nothing to write (a missing name, or a part of the data set
+   with fewer rows than the others), the field is left NULL. */
+static int run_prepared_statements(apop_data const *set, sqlite3_stmt *p_stmt, size_t rows, int use_row){
 #if SQLITE_VERSION_NUMBER < 3003009
      Apop_stopif(1, return -1, 0, "Attempting to use prepared statements, but using a version of SQLite that doesn't support them.");
 #else
-    Get_vmsizes(set) //firstcol, msize1, maxsize
-    for (size_t row=0; row < maxsize; row++){
-        size_t field =1;
-        if (set->names && set->names->rowct>row){
-            if (!strlen(set->names->row[row])) field++; //leave NULL and cleared
-            Apop_stopif(sqlite3_bind_text(p_stmt, field++, set->names->row[row], -1, SQLITE_TRANSIENT),
-                    return -1, apop_errorlevel, 
-                    "Something wrong with the row name for line %zu, [%s].\n" , row, set->names->row[row]);
-        }
-        if (set->vector && set->vector->size > row)
-                Apop_stopif(sqlite3_bind_double(p_stmt, field++, apop_data_get(set, row, -1)),
-                    return -1, apop_errorlevel, 
-                    "Something wrong with the vector element on line %zu, [%g].\n" ,row,  apop_data_get(set, row, -1));
-        if (msize1 > row)
-            for (size_t col=0; col < msize2; col++)
-                Apop_stopif(sqlite3_bind_double(p_stmt, field++, apop_data_get(set, row, col)),
-                    return -1, apop_errorlevel, 
-                    "Something wrong with the matrix element %zu on line %zu, [%g].\n" ,col, row,  apop_data_get(set, row, col));
-        if (*set->textsize > row)
-            for (size_t col=0; col < set->textsize[1]; col++){
-                if (!strlen(set->text[row][col]) || (apop_opts.nan_string && !strcasecmp(apop_opts.nan_string, set->text[row][col])))
-                    {field++; continue;} //leave NULL and cleared
-                Apop_stopif(sqlite3_bind_text(p_stmt, field++, set->text[row][col], -1, SQLITE_TRANSIENT),
-                    return -1, apop_errorlevel, 
-                    "Something wrong with a text element at row %zu, col %zu [%s].\n" , row, col, set->text[row][col]);
-            }
-        if (set->weights && set->weights->size > row)
-                Apop_stopif(sqlite3_bind_double(p_stmt, field++, gsl_vector_get(set->weights, row)),
-                    return -1, apop_errorlevel, 
-                    "Something wrong with the weight element on line %zu, [%g].\n" ,row,  gsl_vector_get(set->weights, row));
-        int err = sqlite3_step(p_stmt);
-        Apop_stopif(err!=0 && err != 101 //0=ok, 101=done
-                    , , 0, "prepared sqlite insert query gave error code %i.\n", err);
-        Apop_stopif(sqlite3_reset(p_stmt), return -1, apop_errorlevel, "SQLite error.");
-        Apop_stopif(sqlite3_clear_bindings(p_stmt), return -1, apop_errorlevel, "SQLite error."); //needed for NULLs
+    int status = 0;
+    #define Bind_text(string) {                                     \
+        char const *s = (string); field++;                          \
+        if (s) status = status ? status : sqlite3_bind_text(p_stmt, field, s, -1, SQLITE_TRANSIENT); }
+    #define Bind_number(val) {                                      \
+        field++;                                                    \
+        status = status ? status : sqlite3_bind_double(p_stmt, field, (val)); }
+
+    for (size_t row=0; row < rows && !status; row++){
+        int field = 0;
+        if (use_row)     Bind_text(row_name_for_db(set, row))
+        if (set->vector) Bind_number(element_for_db(set->vector, row))
+        if (set->matrix)
+            for (size_t col=0; col < set->matrix->size2; col++)
+                Bind_number(matrix_element_for_db(set->matrix, row, col))
+        for (size_t col=0; col < set->textsize[1]; col++)
+            Bind_text(text_for_db(set, row, col))
+        if (set->weights) Bind_number(element_for_db(set->weights, row))
+        if (!status) status = sqlite3_step(p_stmt);
+        if (status == SQLITE_DONE) status = SQLITE_OK;
+        Apop_stopif(status, , 0, "Trouble writing line %zu to the database, around field %i: %s.", row, field, sqlite3_errstr(status));
+        sqlite3_reset(p_stmt);
+        sqlite3_clear_bindings(p_stmt); //needed for NULLs
     }
-    Apop_stopif(sqlite3_finalize(p_stmt)!=SQLITE_OK, return -1, apop_errorlevel, "SQLite error.");
-    return 0;
+    sqlite3_finalize(p_stmt);
+    return status ? -1 : 0;
 #endif
 }
 
 //users are expected to call apop_data_print.
 int apop_data_to_db(const apop_data *set, const char *tabname, const char output_append){
     Apop_stopif(!set, return -1, 1, "you sent me a NULL data set. Database table %s will not be created.", tabname);
-    int	i,j; 
+    int	i; 
     char *q;
     char comma = ' ';
-    int use_row = (apop_opts.db_name_column && strlen(apop_opts.db_name_column))  && set->names
-                && ((set->matrix && set->names->rowct == set->matrix->size1)
-                    || (set->vector && set->names->rowct == set->vector->size));
+    int use_row = (apop_opts.db_name_column && strlen(apop_opts.db_name_column))  && set->names && set->names->rowct;
 
     if (!apop_opts.db_engine) get_db_type();
-    if (apop_table_exists(tabname))
+    Get_vmsizes(set) //vsize, wsize, msize2, maxsize
+    int col_ct = use_row + set->textsize[1] + msize2 + !!set->vector + !!set->weights;
+    Apop_stopif(!col_ct, return -1, 0, "Input data set has zero columns of data (no rownames, text, matrix, vector, or weights). I can't create a table like that, sorry.");
+    int rows = GSL_MAX(maxsize, GSL_MAX(wsize, use_row ? set->names->rowct : 0));
+    int tab_exists = apop_table_exists(tabname);
+    Apop_stopif(tab_exists==-1, return -1, 0, "Can't tell whether table %s exists; not writing to it.", tabname);
+    if (tab_exists)
         Asprintf(&q, " ");
     else if (apop_opts.db_engine == 'm')
 #ifdef HAVE_MYSQL
@@ -559,7 +578,7 @@ int apop_data_to_db(const apop_data *set, const char *tabname, const char output
                     qxprintf(&q, "%s%c\n %s  varchar(1000) ", q, comma, set->names->text[i]);
                 comma = ',';
             }
-            apop_query("%s); ", q);
+            Apop_stopif(apop_query("%s); ", q), free(q); return -1, 0, "Couldn't create table %s.", tabname);
             sprintf(q, " ");
         }
 #else 
@@ -590,55 +609,39 @@ int apop_data_to_db(const apop_data *set, const char *tabname, const char output
                 }
             for(i=0; i< set->textsize[1]; i++){
                 if(!set->names || set->names->textct <= i) qxprintf(&q, "%s%c\n tc%i ", q, comma, i);
-                else qxprintf(&q, "%s%c\n %s ", q, comma, set->names->text[i]);
+                else qxprintf(&q, "%s%c\n \"%s\" ", q, comma, set->names->text[i]);
                 comma = ',';
             }
             if (set->weights) qxprintf(&q, "%s%c\n \"weights\" numeric", q, comma);
             qxprintf(&q,"%s);",q);
-            apop_query("%s", q);
-            qxprintf(&q," ");
+            Apop_stopif(apop_query("%s", q), free(q); return -1, 0, "Couldn't create table %s.", tabname);
         }
     }
 
-    Get_vmsizes(set) //firstcol, msize2, maxsize
-    int col_ct = (set->names ? !!set->names->rowct : 0) + set->textsize[1] + msize2 - firstcol + !!set->weights;
-    Apop_stopif(!col_ct, return -1, 0, "Input data set has zero columns of data (no rownames, text, matrix, vector, or weights). I can't create a table like that, sorry.");
     if(apop_use_sqlite_prepared_statements(col_ct)){
         sqlite3_stmt *statement;
         Apop_stopif(
             apop_prepare_prepared_statements(tabname, col_ct, &statement), 
-            return -1, 0, "Trouble preparing prepared statements.");
+            free(q); return -1, 0, "Trouble preparing prepared statements.");
         Apop_stopif(
-            run_prepared_statements(set, statement), 
-            return -1, 0, "error in insertions.");
+            run_prepared_statements(set, statement, rows, use_row),
+            free(q); return -1, 0, "error in insertions.");
     } else {
-        for(i=0; i< maxsize; i++){
+        for(i=0; i< rows; i++){
             comma = ' ';
-            qxprintf(&q, "%s \n insert into %s values(",q, tabname);
-            if (use_row){
-                char *fixed= prep_string_for_sqlite(0, set->names->row[i]);
-                qxprintf(&q, "%s %s ",q, fixed);
-                free(fixed);
-                comma = ',';
-            }
-            if (set->vector)
-               add_a_number (&q, &comma, gsl_vector_get(set->vector,i));
+            qxprintf(&q, "insert into %s values(", tabname);
+            if (use_row)     add_a_string(&q, &comma, row_name_for_db(set, i));
+            if (set->vector) add_a_number(&q, &comma, element_for_db(set->vector, i));
             if (set->matrix)
-                for(j=0; j< set->matrix->size2; j++)
-                   add_a_number (&q, &comma, gsl_matrix_get(set->matrix,i,j));
-            for(j=0; j< set->textsize[1]; j++){
-                char *fixed= prep_string_for_sqlite(0, set->text[i][j]);
-                qxprintf(&q, "%s%c %s ",q, comma,fixed ? fixed : "''");
-                free(fixed);
-                comma = ',';
-            }
-            if (set->weights)
-               add_a_number (&q, &comma, gsl_vector_get(set->weights,i));
+                for(int j=0; j< set->matrix->size2; j++)
+                    add_a_number(&q, &comma, matrix_element_for_db(set->matrix, i, j));
+            for(int j=0; j< set->textsize[1]; j++)
+                add_a_string(&q, &comma, text_for_db(set, i, j));
+            if (set->weights) add_a_number(&q, &comma, element_for_db(set->weights, i));
             qxprintf(&q,"%s);",q);
-            apop_query("%s", q); 
-            q[0]='\0';
+            Apop_stopif(apop_query("%s", q), free(q); return -1, 0, "Couldn't write row %i to %s.", i, tabname);
         }
     }
-	free(q);
+    free(q);
     return 0;
 }
-- 
2.43.0


From 14f6d02559cccedd646a3f9b7fd0674d861b8647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:47 +0000
Subject: [PATCH 051/192] fix: overwriting a table that can't be removed
 doesn't append to it

---
 apop_output.m4.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/apop_output.m4.c b/apop_output.m4.c
index 3bbde30..e611a43 100644
--- a/apop_output.m4.c
+++ b/apop_output.m4.c
@@ -326,7 +326,8 @@ APOP_VAR_HEAD void apop_data_print(const apop_data *data, Output_declares){
     Dispatch_output
 APOP_VAR_ENDHEAD 
     if (output_type  == 'd'){
-        if (output_append == 'w') apop_table_exists(output_name, 'd');
+        Apop_stopif(output_append == 'w' && apop_table_exists(output_name, 'd')==-1, return, 0,
+                            "Couldn't remove the existing table %s; not writing to it.", output_name);
         apop_data_to_db(data, output_name, output_append);
         return;
     }
-- 
2.43.0


From a3fc3902a7425c961afac312a235e4f19fa8760c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:47 +0000
Subject: [PATCH 052/192] fix: apop_text_to_db: the row names column has a name
 of its own

---
 apop_conversions.m4.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/apop_conversions.m4.c b/apop_conversions.m4.c
index a856bd3..6f5cb18 100644
--- a/apop_conversions.m4.c
+++ b/apop_conversions.m4.c
@@ -563,7 +563,7 @@ static line_parse_t parse_a_line(FILE *infile, char *buffer, size_t *ptr, apop_d
 
 //On return, fn has copies of the field names, and add_this_line has the first data line.
 //If the file ends before there is a data line, add_this_line is still blank.
-static void get_field_names(int has_col_names, char **field_names, FILE *infile, char *buffer, size_t *ptr,
+static void get_field_names(int has_col_names, int has_row_names, char **field_names, FILE *infile, char *buffer, size_t *ptr,
                                 apop_data *add_this_line, apop_data *fn, int const *field_ends, char const *delimiters){
     line_parse_t L = { };
     if (has_col_names && field_names == NULL){
@@ -572,7 +572,8 @@ static void get_field_names(int has_col_names, char **field_names, FILE *infile,
     } else{
         while (add_this_line->textsize[0] ==0 && !L.eof)
             L = parse_a_line(infile, buffer, ptr, add_this_line, field_ends, delimiters);
-        fn	= apop_text_alloc(fn, add_this_line->textsize[0], 1);
+        int namect = add_this_line->textsize[0] - (has_row_names && add_this_line->textsize[0]);
+        fn	= apop_text_alloc(fn, namect, 1);
         for (int i=0; i< fn->textsize[0]; i++)
             if (field_names) apop_text_set(fn, i, 0, "%s", field_names[i]);
             else             apop_text_set(fn, i, 0, "col_%i", i);
@@ -622,7 +623,7 @@ APOP_VAR_ENDHEAD
     //First, handle the top line, if we're told that it has column names.
     if (has_col_names=='y'){
         apop_data *field_names = apop_data_alloc();
-        get_field_names(1, NULL, infile, buffer, &ptr, add_this_line, field_names, field_ends, delimiters);
+        get_field_names(1, hasrows, NULL, infile, buffer, &ptr, add_this_line, field_names, field_ends, delimiters);
         L.ct = *add_this_line->textsize;
         L.eof = !L.ct; //no data lines.
         set = L.ct ? apop_data_alloc(0,1, L.ct - hasrows) : apop_data_alloc();
@@ -1182,12 +1183,12 @@ APOP_VAR_ENDHEAD
 
     //get names and the first row.
     if (prep_text_reading(text_file, &infile)) goto done;
-    get_field_names(has_col_names=='y', field_names, infile, buffer, &ptr,
+    get_field_names(has_col_names=='y', has_row_names=='y', field_names, infile, buffer, &ptr,
                                     add_this_line, fn, field_ends, delimiters);
     col_ct = L.ct = *add_this_line->textsize;
     Apop_stopif(!col_ct, goto done, 0, "counted zero columns in the input file (%s).", tabname);
     if (!tab_exists)
-        Apop_stopif( ((apop_opts.db_engine=='m') ? tab_create_mysql : tab_create_sqlite)(tabname, has_row_names=='y', field_params, table_params, fn),
+        Apop_stopif(!*fn->textsize || ((apop_opts.db_engine=='m') ? tab_create_mysql : tab_create_sqlite)(tabname, has_row_names=='y', field_params, table_params, fn),
             goto done, 0, "Creating the table in the database failed.");
 #if SQLITE_VERSION_NUMBER < 3003009
     Apop_notify(1, "Apophenia was compiled using a version of SQLite from mid-2007 or earlier. "
-- 
2.43.0


From 2fed8ec832b39ef8d906e361f062b348b9ebdad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:06 +0000
Subject: [PATCH 053/192] fix: reading text: lines that hold only a row name

---
 apop_conversions.m4.c | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/apop_conversions.m4.c b/apop_conversions.m4.c
index 6f5cb18..618e93e 100644
--- a/apop_conversions.m4.c
+++ b/apop_conversions.m4.c
@@ -614,7 +614,7 @@ APOP_VAR_ENDHEAD
     char buffer[bs];
     size_t ptr=bs;
     apop_data *add_this_line= apop_data_alloc();
-    int row = 0,
+    int row = 0, cols = 0,
         hasrows = (has_row_names == 'y');
     Apop_stopif(prep_text_reading(text_file, &infile), apop_data_free(add_this_line); apop_return_data_error(t),
             0, "trouble opening %s", text_file);
@@ -626,7 +626,7 @@ APOP_VAR_ENDHEAD
         get_field_names(1, hasrows, NULL, infile, buffer, &ptr, add_this_line, field_names, field_ends, delimiters);
         L.ct = *add_this_line->textsize;
         L.eof = !L.ct; //no data lines.
-        set = L.ct ? apop_data_alloc(0,1, L.ct - hasrows) : apop_data_alloc();
+        set = apop_data_alloc();
         int namect = L.ct ? GSL_MIN(L.ct - hasrows, *field_names->textsize) : *field_names->textsize;
         for (int j=0; j< namect; j++)
             apop_name_add(set->names, *field_names->text[j], 'c');
@@ -639,9 +639,9 @@ APOP_VAR_ENDHEAD
             L=parse_a_line(infile,buffer, &ptr,  add_this_line, field_ends, delimiters);
             continue;
         }
-        if (!set) set = apop_data_alloc(0, 1, L.ct-hasrows); //for .has_col_names=='n'.
+        if (!set) set = apop_data_alloc(); //for .has_col_names=='n'.
         row++;
-        int cols = set->matrix  ? set->matrix->size2 : L.ct - hasrows;
+        if (row==1) cols = L.ct - hasrows;
         if (L.ct - hasrows > cols){
             set->error = 't';
             Apop_notify(1, "row %i (not counting any row names) has %i elements, "
@@ -649,13 +649,15 @@ APOP_VAR_ENDHEAD
                  "Stopping the file read; returning what I have so far. Set has_row_names?", row, L.ct - hasrows, cols);
             break;
         }
-        gsl_matrix *longer = apop_matrix_realloc(set->matrix, row, cols);
-        if (!longer){
-            set->error = 'a';
-            Apop_notify(0, "allocation error.");
-            break;
+        if (cols){ //else there are only row names.
+            gsl_matrix *longer = apop_matrix_realloc(set->matrix, row, cols);
+            if (!longer){
+                set->error = 'a';
+                Apop_notify(0, "allocation error.");
+                break;
+            }
+            set->matrix = longer;
         }
-        set->matrix = longer;
         if (hasrows) apop_name_add(set->names, *add_this_line->text[0], 'r');
         for (int col=hasrows; col < cols + hasrows; col++){
             char *thisstr = col < L.ct ? *add_this_line->text[col] : ""; //short lines end in blanks.
-- 
2.43.0


From 8d3df0eafe4ba88fbf21f561088df616e06779d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:31 +0000
Subject: [PATCH 054/192] fix: messages about failed queries name the function
 that ran them

---
 apop_db.m4.c     | 5 +++--
 apop_db_sqlite.c | 7 ++++---
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/apop_db.m4.c b/apop_db.m4.c
index 768ce96..0bf3824 100644
--- a/apop_db.m4.c
+++ b/apop_db.m4.c
@@ -289,9 +289,10 @@ static int db_to_table(void *qinfo, int argc, char **argv, char **column){
 }
 
 //The body of apop_query_to_data, sans printing the query. Doesn't free the query.
-static apop_data *sqlite_query_to_data(char const *query){
+#define sqlite_query_to_data(query) sqlite_query_to_data_for(__func__, query)
+static apop_data *sqlite_query_to_data_for(char const *caller, char const *query){
     callback_t qinfo = {.firstcall = 1, .namecol=-1};
-    if (sqlite_run(query, db_to_table, &qinfo)) Mark_query_error(qinfo.outdata)
+    if (sqlite_run_for(caller, query, db_to_table, &qinfo)) Mark_query_error(qinfo.outdata)
     return qinfo.outdata;
 }
 
diff --git a/apop_db_sqlite.c b/apop_db_sqlite.c
index a4010a3..30465cf 100644
--- a/apop_db_sqlite.c
+++ b/apop_db_sqlite.c
@@ -160,12 +160,13 @@ static int need_db(){
 /* Run a query, opening the database first if need be. Returns zero on success; else reports
  the trouble and returns a nonzero code. SQLite's return code is what counts: some failures (such
  as running out of memory) come without an error message. */
-static int sqlite_run(char const *query, int (*callback)(void*, int, char**, char**), void *info){
+#define sqlite_run(...) sqlite_run_for(__func__, __VA_ARGS__)
+static int sqlite_run_for(char const *caller, char const *query, int (*callback)(void*, int, char**, char**), void *info){
     char *err = NULL;
-    Apop_stopif(need_db(), return SQLITE_CANTOPEN, 0, "%s: no database is open.", query);
+    Apop_stopif(need_db(), return SQLITE_CANTOPEN, 0, "%s: %s: no database is open.", caller, query);
     int status = sqlite3_exec(db, query, callback, info, &err);
     Apop_stopif(status != SQLITE_OK, sqlite3_free(err); return status,
-                0, "%s: %s", query, err ? err : sqlite3_errstr(status));
+                0, "%s: %s: %s", caller, query, err ? err : sqlite3_errstr(status));
     return 0;
 }
 
-- 
2.43.0


From 07018cdc2a84cb67e0d3f9de4e79cafaa81a5bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:33 +0000
Subject: [PATCH 055/192] fix: apop_crosstab_to_db has room for the names it
 makes up

---
 apop_conversions.m4.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/apop_conversions.m4.c b/apop_conversions.m4.c
index 618e93e..d8f8156 100644
--- a/apop_conversions.m4.c
+++ b/apop_conversions.m4.c
@@ -194,9 +194,7 @@ void apop_crosstab_to_db(apop_data *in,  char *tabname, char *row_col_name,
     apop_name *n = in->names;
     char *colname, *rowname;
     Get_vmsizes(in); //msize1, msize2
-    int maxcol= GSL_MAX(msize2, in->textsize[1]);
-    char sparerow[msize1 > 0 ? (int)log10(msize1)+1 : 0];
-    char sparecol[maxcol > 0 ? (int)log10(maxcol)+1 : 0];
+    char sparerow[20], sparecol[20]; //a letter and an integer.
 #define DbType apop_opts.db_engine=='m' ? "text" : "character"
 #define DbType2 apop_opts.db_engine=='m' ? "double" : "numeric"
 	apop_query("CREATE TABLE %s (%s %s, %s %s, %s %s)", tabname, 
-- 
2.43.0


From b7e5ff198f02dab848578523338820af610527e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:05 +0000
Subject: [PATCH 056/192] fix: ran() in queries does not shift the seeds of
 generators made later

---
 apop_db_sqlite.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/apop_db_sqlite.c b/apop_db_sqlite.c
index 30465cf..dbe605b 100644
--- a/apop_db_sqlite.c
+++ b/apop_db_sqlite.c
@@ -135,8 +135,6 @@ static void powFn(sqlite3_context *context, int argc, sqlite3_value **argv){
 }
 
 static void rngFn(sqlite3_context *context, int argc, sqlite3_value **argv){
-    Staticdef(gsl_rng *, rng, apop_rng_alloc(apop_opts.rng_seed++));
-    //sqlite3_result_double(context, gsl_rng_uniform(rng));
     sqlite3_result_double(context, gsl_rng_uniform(apop_rng_get_thread(-1)));
 }
 
-- 
2.43.0


From 08d2da93a817af1caea39bda2915a7b2e641a2c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:05 +0000
Subject: [PATCH 057/192] fix: options other threads may change are read once
 per use by the database functions

---
 apop_conversions.m4.c |  3 ++-
 apop_db.m4.c          | 17 ++++++++++-------
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/apop_conversions.m4.c b/apop_conversions.m4.c
index d8f8156..a65dff4 100644
--- a/apop_conversions.m4.c
+++ b/apop_conversions.m4.c
@@ -1012,8 +1012,9 @@ static int tab_create_sqlite(char *tabname, int has_row_names, apop_data *field_
  --If the string isn't a number, it needs quotes
  */
 char *prep_string_for_sqlite(int prepped_statements, char const *astring){
+    char const *nan_string = apop_opts.nan_string; //Other threads may change the options at any time.
     if (!astring || astring[0]=='\0' || 
-            (apop_opts.nan_string && !strcasecmp(apop_opts.nan_string, astring)))
+            (nan_string && !strcasecmp(nan_string, astring)))
         return NULL;
 
     char *out  = NULL,
diff --git a/apop_db.m4.c b/apop_db.m4.c
index 0bf3824..de0fa7e 100644
--- a/apop_db.m4.c
+++ b/apop_db.m4.c
@@ -257,10 +257,12 @@ static int db_to_table(void *qinfo, int argc, char **argv, char **column){
     Apop_stopif(!argv, return -1, apop_errorlevel, "Got NULL data from SQLite.");
     int i, ncfound = 0;
     callback_t *qi= qinfo;
+    //Other threads may change the options at any time.
+    char const *name_column = apop_opts.db_name_column, *nan_string = apop_opts.nan_string;
     if (qi->firstcall){
         qi->firstcall--;
         for(i=0; i<argc; i++)
-            if (apop_opts.db_name_column && !strcasecmp(column[i], apop_opts.db_name_column)){
+            if (name_column && !strcasecmp(column[i], name_column)){
                 qi->namecol = i;
                 ncfound = 1;
                 break;
@@ -277,7 +279,7 @@ static int db_to_table(void *qinfo, int argc, char **argv, char **column){
         if (jj != qi->namecol){
             double valor = 
                 !argv[jj] || !strcmp(argv[jj], "NULL")|| 
-                (apop_opts.nan_string && !strcasecmp(apop_opts.nan_string, argv[jj]))
+                (nan_string && !strcasecmp(nan_string, argv[jj]))
                  ? GSL_NAN : atof(argv[jj]);
             gsl_matrix_set(qi->outdata->matrix,qi->currentrow,jj-ncfound, valor);
         } else {
@@ -484,7 +486,8 @@ static char const *row_name_for_db(apop_data const *set, size_t row){
 static char const *text_for_db(apop_data const *set, size_t row, size_t col){
     if (set->textsize[0] <= row) return NULL;
     char const *s = set->text[row][col];
-    return (!strlen(s) || (apop_opts.nan_string && !strcasecmp(apop_opts.nan_string, s))) ? NULL : s;
+    char const *nan_string = apop_opts.nan_string; //Other threads may change the options at any time.
+    return (!strlen(s) || (nan_string && !strcasecmp(nan_string, s))) ? NULL : s;
 }
 
 static double element_for_db(gsl_vector const *v, size_t row){
@@ -536,9 +539,9 @@ int apop_data_to_db(const apop_data *set, const char *tabname, const char output
     int	i; 
     char *q;
     char comma = ' ';
-    int use_row = (apop_opts.db_name_column && strlen(apop_opts.db_name_column))  && set->names && set->names->rowct;
+    char const *name_column = apop_opts.db_name_column;
+    int use_row = (name_column && strlen(name_column))  && set->names && set->names->rowct;
 
-    if (!apop_opts.db_engine) get_db_type();
     Get_vmsizes(set) //vsize, wsize, msize2, maxsize
     int col_ct = use_row + set->textsize[1] + msize2 + !!set->vector + !!set->weights;
     Apop_stopif(!col_ct, return -1, 0, "Input data set has zero columns of data (no rownames, text, matrix, vector, or weights). I can't create a table like that, sorry.");
@@ -554,7 +557,7 @@ int apop_data_to_db(const apop_data *set, const char *tabname, const char output
         else {
             Asprintf(&q, "create table %s (", tabname);
             if (use_row) {
-                qxprintf(&q, "%s\n %s varchar(1000)", q, apop_opts.db_name_column);
+                qxprintf(&q, "%s\n %s varchar(1000)", q, name_column);
                 comma = ',';
             }
             if (set->vector){
@@ -592,7 +595,7 @@ int apop_data_to_db(const apop_data *set, const char *tabname, const char output
         else {
             Asprintf(&q, "create table %s (", tabname);
             if (use_row) {
-                qxprintf(&q, "%s\n %s", q, apop_opts.db_name_column);
+                qxprintf(&q, "%s\n %s", q, name_column);
                 comma = ',';
             }
             if (set->vector){
-- 
2.43.0


From 9be411a9fa5936fbc9d7643ff7a7d180cc08c230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:12 +0000
Subject: [PATCH 058/192] fix: database work of several statements is whole to
 other threads

---
 apop_conversions.m4.c |  2 ++
 apop_db.m4.c          | 68 ++++++++++++++++++++++++++++++-------------
 apop_internal.h       |  2 ++
 3 files changed, 52 insertions(+), 20 deletions(-)

diff --git a/apop_conversions.m4.c b/apop_conversions.m4.c
index a65dff4..487e662 100644
--- a/apop_conversions.m4.c
+++ b/apop_conversions.m4.c
@@ -197,6 +197,7 @@ void apop_crosstab_to_db(apop_data *in,  char *tabname, char *row_col_name,
     char sparerow[20], sparecol[20]; //a letter and an integer.
 #define DbType apop_opts.db_engine=='m' ? "text" : "character"
 #define DbType2 apop_opts.db_engine=='m' ? "double" : "numeric"
+    sqlite3 *held = apop_hold_db();
 	apop_query("CREATE TABLE %s (%s %s, %s %s, %s %s)", tabname, 
                         row_col_name, DbType, col_col_name, DbType, data_col_name, DbType2);
 	apop_query("begin");
@@ -220,6 +221,7 @@ void apop_crosstab_to_db(apop_data *in,  char *tabname, char *row_col_name,
         }
     }
 	apop_query("commit");
+    apop_release_db(held);
 }
 
 
diff --git a/apop_db.m4.c b/apop_db.m4.c
index de0fa7e..96a9ac5 100644
--- a/apop_db.m4.c
+++ b/apop_db.m4.c
@@ -32,6 +32,18 @@ apop_opts_type apop_opts	=
 #include "apop_db_mysql.c"
 #endif
 
+/* Functions that take several SQL statements hold the connection's (recursive) mutex throughout, so that
+ other threads see all of their work or none. If there is no database yet, there is nothing to hold. */
+sqlite3 *apop_hold_db(){
+    sqlite3 *held = db;
+    if (held) sqlite3_mutex_enter(sqlite3_db_mutex(held));
+    return held;
+}
+
+void apop_release_db(sqlite3 *held){
+    if (held) sqlite3_mutex_leave(sqlite3_db_mutex(held));
+}
+
 //if !apop_opts.db_engine, run this to assign a value.
 static void get_db_type(){
     if (getenv("APOP_DB_ENGINE") && (!strcasecmp(getenv("APOP_DB_ENGINE"), "mysql") || !strcasecmp(getenv("APOP_DB_ENGINE"), "mariadb")))
@@ -108,6 +120,25 @@ static int tab_exists_callback(void *in, int argc, char **argv, char **whatever)
 	return 0;
 }
 
+static int sqlite_table_exists(char const *name, char remove){
+    char *q2;
+    tab_exists_t te = { .name = name };
+    tab_exists_t tev = { .name = name };
+	if (sqlite_run("select name from sqlite_master where type='table'", tab_exists_callback, &te)
+	    || sqlite_run("select name from sqlite_master where type='view'", tab_exists_callback, &tev))
+        return -1;
+	if ((remove==1|| remove=='d') && (te.isthere||tev.isthere)){
+        if (te.isthere)
+            Asprintf(&q2, "drop table %s;", name);
+        else
+            Asprintf(&q2, "drop view %s;", name);
+		int failed = sqlite_run(q2, NULL, NULL);
+        free(q2);
+        if (failed) return -1;
+    }
+	return (te.isthere||tev.isthere);
+}
+
 /** Check for the existence of a table, and maybe delete it.
 
 Recreating a table which already exists can cause errors, so it is good practice to check for existence first.  Also, this is the stylish way to delete a table, since just calling <tt>"drop table"</tt> will give you an error if the table doesn't exist.
@@ -135,23 +166,11 @@ APOP_VAR_END_HEAD
 #else
         Apop_stopif(1, return -1, 0, "Apophenia was compiled without mysql support.");
 #endif
-    char *q2;
-    tab_exists_t te = { .name = name };
-    tab_exists_t tev = { .name = name };
 	if (db==NULL) return 0;
-	if (sqlite_run("select name from sqlite_master where type='table'", tab_exists_callback, &te)
-	    || sqlite_run("select name from sqlite_master where type='view'", tab_exists_callback, &tev))
-        return -1;
-	if ((remove==1|| remove=='d') && (te.isthere||tev.isthere)){
-        if (te.isthere)
-            Asprintf(&q2, "drop table %s;", name);
-        else
-            Asprintf(&q2, "drop view %s;", name);
-		int failed = sqlite_run(q2, NULL, NULL);
-        free(q2);
-        if (failed) return -1;
-    }
-	return (te.isthere||tev.isthere);
+    sqlite3 *held = apop_hold_db();
+    int out = sqlite_table_exists(name, remove);
+    apop_release_db(held);
+    return out;
 }
 
 /**
@@ -533,9 +552,7 @@ static int run_prepared_statements(apop_data const *set, sqlite3_stmt *p_stmt, s
 #endif
 }
 
-//users are expected to call apop_data_print.
-int apop_data_to_db(const apop_data *set, const char *tabname, const char output_append){
-    Apop_stopif(!set, return -1, 1, "you sent me a NULL data set. Database table %s will not be created.", tabname);
+static int data_to_db(const apop_data *set, const char *tabname, const char output_append){
     int	i; 
     char *q;
     char comma = ' ';
@@ -589,7 +606,6 @@ int apop_data_to_db(const apop_data *set, const char *tabname, const char output
         Apop_stopif(1, return -1, apop_errorlevel, "Apophenia was compiled without mysql support.");
 #endif
     else {
-        Apop_stopif(need_db(), return -1, 0, "No database is open.");
         if (((output_append =='a' || output_append =='A') && apop_table_exists(tabname)) )
             Asprintf(&q, " ");
         else {
@@ -649,3 +665,15 @@ int apop_data_to_db(const apop_data *set, const char *tabname, const char output
     free(q);
     return 0;
 }
+
+//users are expected to call apop_data_print.
+int apop_data_to_db(const apop_data *set, const char *tabname, const char output_append){
+    Apop_stopif(!set, return -1, 1, "you sent me a NULL data set. Database table %s will not be created.", tabname);
+    if (!apop_opts.db_engine) get_db_type();
+    if (apop_opts.db_engine != 'm')
+        Apop_stopif(need_db(), return -1, 0, "No database is open.");
+    sqlite3 *held = apop_hold_db();
+    int out = data_to_db(set, tabname, output_append);
+    apop_release_db(held);
+    return out;
+}
diff --git a/apop_internal.h b/apop_internal.h
index 6854a7b..b8b212a 100644
--- a/apop_internal.h
+++ b/apop_internal.h
@@ -39,6 +39,8 @@ void xprintf(char **q, char *format, ...);
 #include <stddef.h>
 int apop_use_sqlite_prepared_statements(size_t col_ct);
 int apop_prepare_prepared_statements(char const *tabname, size_t col_ct, sqlite3_stmt **statement);
+sqlite3 *apop_hold_db();             //apop_db.c
+void apop_release_db(sqlite3 *held); //apop_db.c
 char *prep_string_for_sqlite(int prepped_statements, char const *astring);//apop_conversions.c
 char *quote_for_sql(char const *in);//apop_conversions.c
 void apop_gsl_error(char const *reason, char const *file, int line, int gsl_errno); //apop_linear_algebra.c
-- 
2.43.0


From 458dff96c5e8a447aa1fa57dd1c7f927c757b9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:12 +0000
Subject: [PATCH 059/192] fix: apop_db_to_crosstab: one state of the table, no
 change to the name column option, reported failures

---
 apop_conversions.m4.c | 33 ++++++++++++++++-----------------
 apop_db.m4.c          | 25 ++++++++++++++++++++++++-
 apop_db_sqlite.c      |  7 ++++---
 apop_internal.h       |  2 ++
 4 files changed, 46 insertions(+), 21 deletions(-)

diff --git a/apop_conversions.m4.c b/apop_conversions.m4.c
index 487e662..e9db7ed 100644
--- a/apop_conversions.m4.c
+++ b/apop_conversions.m4.c
@@ -119,36 +119,34 @@ APOP_VAR_HEAD apop_data *apop_db_to_crosstab(char const*tabname, char const*row,
     char apop_varad_var(is_aggregate, (strchr(data, ')') && !strstr(data, "group by"))?'y':'n');
 APOP_VAR_ENDHEAD
     gsl_matrix *out=NULL;
-    int	i, j=0;
+    int i=0, j=0;
     apop_data *pre_d1=NULL, *pre_d2=NULL, *datachars=NULL;
     apop_data *outdata = apop_data_alloc();
-
-    char* p = apop_opts.db_name_column;
-    apop_opts.db_name_column = NULL;//we put this back at the end.
     char *Q;
-
     Asprintf(&Q, "select %s, %s, %s from %s %s %s %s %s", row, col, data, tabname,
                                     is_aggregate!='n' ? "group by" : "",
                                     is_aggregate!='n' ? row : "",
                                     is_aggregate!='n' ? "," : "",
                                     is_aggregate!='n' ? col : "");
-    datachars = apop_query_to_text("%s", Q);
-    Apop_stopif(!datachars, free(Q); return NULL, 2, "[%s] returned an empty table.", Q);
-    Apop_stopif(datachars->error, free(Q); goto bailout, 0, "error from [%s].", Q);
+    sqlite3 *held = apop_hold_db(); //All queries are to see the same table.
+    datachars = apop_crosstab_query("%s", Q);
+    Apop_stopif(!datachars, apop_data_free(outdata); goto bailout, 2, "[%s] returned an empty table.", Q);
+    Apop_stopif(datachars->error, outdata->error='q'; goto bailout, 0, "error from [%s].", Q);
 
     //A bit inefficient, but well-encapsulated.
     //Pull the distinct (sorted) list of headers, copy into outdata->names.
-    pre_d1 = apop_query_to_text("select distinct %s, 1 from %s order by %s", row, tabname, row);
+    pre_d1 = apop_crosstab_query("select distinct %s, 1 from %s order by %s", row, tabname, row);
     Apop_stopif(!pre_d1||pre_d1->error, outdata->error='q'; goto bailout, 0, "Error querying %s from %s.", row, tabname);
-    for (i=0; i < pre_d1->textsize[0]; i++)
-        apop_name_add(outdata->names, pre_d1->text[i][0], 'r');
+    for (size_t k=0; k < pre_d1->textsize[0]; k++)
+        apop_name_add(outdata->names, pre_d1->text[k][0], 'r');
 
-	pre_d2 = apop_query_to_text("select distinct %s from %s order by %s", col, tabname, col);
-    Apop_stopif(!pre_d2||pre_d2->error, outdata->error='q'; goto bailout, 0, "Error querying %s from %s.", row, tabname);
-    for (i=0; i < pre_d2->textsize[0]; i++)
-        apop_name_add(outdata->names, pre_d2->text[i][0], 'c');
+	pre_d2 = apop_crosstab_query("select distinct %s from %s order by %s", col, tabname, col);
+    Apop_stopif(!pre_d2||pre_d2->error, outdata->error='q'; goto bailout, 0, "Error querying %s from %s.", col, tabname);
+    for (size_t k=0; k < pre_d2->textsize[0]; k++)
+        apop_name_add(outdata->names, pre_d2->text[k][0], 'c');
 
 	out	= gsl_matrix_calloc(pre_d1->textsize[0], pre_d2->textsize[0]);
+    Apop_stopif(!out, outdata->error='a'; goto bailout, 0, "Allocation error.");
 	for (size_t k =0; k< datachars->textsize[0]; k++){
 		i = find_cat_index(outdata->names->row, datachars->text[k][0], i, pre_d1->textsize[0]);
 		j = find_cat_index(outdata->names->col, datachars->text[k][1], j, pre_d2->textsize[0]);
@@ -157,11 +155,12 @@ APOP_VAR_ENDHEAD
 		gsl_matrix_set(out, i, j, atof(datachars->text[k][2]));
 	}
     bailout:
+    apop_release_db(held);
+    free(Q);
     apop_data_free(pre_d1);
     apop_data_free(pre_d2);
     apop_data_free(datachars);
-    outdata->matrix = out;
-    apop_opts.db_name_column = p;
+    if (outdata) outdata->matrix = out;
 	return outdata;
 }
 
diff --git a/apop_db.m4.c b/apop_db.m4.c
index 96a9ac5..8e34656 100644
--- a/apop_db.m4.c
+++ b/apop_db.m4.c
@@ -266,7 +266,30 @@ apop_data * apop_query_to_text(const char * fmt, ...){
 #else
         Apop_stopif(1, apop_return_data_error('d'), 0, "Apophenia was compiled without mysql support.");
 #endif
-    } else out = apop_sqlite_query_to_text(query);
+    } else out = apop_sqlite_query_to_text(query, apop_opts.db_name_column);
+    free(query);
+    return out;
+}
+
+/* apop_db_to_crosstab's queries to text, where no column is the column of row names. That option is not for us to
+ change: other threads may be querying too. */
+apop_data *apop_crosstab_query(char const *fmt, ...){
+    char *query;
+    va_list argp;
+    va_start(argp, fmt);
+    Apop_stopif(vasprintf(&query, fmt, argp)==-1, va_end(argp); return NULL, 0, "Trouble writing to a string.");
+    va_end(argp);
+    apop_data *out;
+    if (!apop_opts.db_engine) get_db_type();
+    if (apop_opts.db_engine == 'm'){
+        char *p = apop_opts.db_name_column;
+        apop_opts.db_name_column = NULL;
+        out = apop_query_to_text("%s", query);
+        apop_opts.db_name_column = p;
+    } else {
+        Apop_notify(2, "%s", query);
+        out = apop_sqlite_query_to_text(query, NULL);
+    }
     free(query);
     return out;
 }
diff --git a/apop_db_sqlite.c b/apop_db_sqlite.c
index dbe605b..9cfc0a4 100644
--- a/apop_db_sqlite.c
+++ b/apop_db_sqlite.c
@@ -206,6 +206,7 @@ typedef struct {    //for the apop_query_to_... functions.
     int       firstcall, namecol;
     size_t    currentrow;
     apop_data *outdata;
+    char const *name_column; //db_to_chars: the column that holds row names, or NULL.
 } callback_t;
 /** \endcond */
 
@@ -218,7 +219,7 @@ static int db_to_chars(void *qinfo,int argc, char **argv, char **column){
     if (qi->firstcall){
         qi->firstcall = 0;
         for(int i=0; i<argc; i++)
-            if (apop_opts.db_name_column && !strcasecmp(column[i], apop_opts.db_name_column)){
+            if (qi->name_column && !strcasecmp(column[i], qi->name_column)){
                 qi->namecol = i;
                 break;
             }
@@ -240,8 +241,8 @@ static int db_to_chars(void *qinfo,int argc, char **argv, char **column){
     return 0;
 }
 
-apop_data * apop_sqlite_query_to_text(char *query){
-    callback_t qinfo = {.outdata=apop_data_alloc(), .namecol=-1, .firstcall=1};
+apop_data * apop_sqlite_query_to_text(char *query, char const *name_column){
+    callback_t qinfo = {.outdata=apop_data_alloc(), .namecol=-1, .firstcall=1, .name_column=name_column};
     if (sqlite_run(query, db_to_chars, &qinfo)){
         Mark_query_error(qinfo.outdata)
         return qinfo.outdata;
diff --git a/apop_internal.h b/apop_internal.h
index b8b212a..3f2c968 100644
--- a/apop_internal.h
+++ b/apop_internal.h
@@ -90,4 +90,6 @@ extern int vasprintf (char **res, const char *format, va_list args)
 #include "apop.h"
 void add_info_criteria(apop_data *d, apop_model *m, apop_model *est, double ll, int param_ct); //In apop_mle.c
 
+apop_data *apop_crosstab_query(char const *fmt, ...); //in apop_db.c
+
 apop_model *maybe_prep(apop_data *d, apop_model *m, _Bool *is_a_copy); //in apop_mcmc, for apop_update.
-- 
2.43.0


From 4519b7dcab05db014ad7d1efcce5138bd97a64ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:53 +0000
Subject: [PATCH 060/192] fix: apop_crosstab_to_db writes names and text with
 quotes, infinities and all digits

---
 apop_conversions.m4.c | 36 +++++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/apop_conversions.m4.c b/apop_conversions.m4.c
index e9db7ed..974f1e4 100644
--- a/apop_conversions.m4.c
+++ b/apop_conversions.m4.c
@@ -191,33 +191,39 @@ insert into your_table values ('r1', 'c1', 4);
 void apop_crosstab_to_db(apop_data *in,  char *tabname, char *row_col_name, 
 						char *col_col_name, char *data_col_name){
     apop_name *n = in->names;
-    char *colname, *rowname;
     Get_vmsizes(in); //msize1, msize2
     char sparerow[20], sparecol[20]; //a letter and an integer.
+    char *rowname, *colname, *value;
+#define Rowname quote_for_sql((n->rowct > i) ? n->row[i] : (sprintf(sparerow, "r%zu", i), sparerow))
+#define Colname(list, ct, prefix) quote_for_sql((ct > j) ? list[j] : (sprintf(sparecol, prefix "%zu", j), sparecol))
 #define DbType apop_opts.db_engine=='m' ? "text" : "character"
 #define DbType2 apop_opts.db_engine=='m' ? "double" : "numeric"
     sqlite3 *held = apop_hold_db();
 	apop_query("CREATE TABLE %s (%s %s, %s %s, %s %s)", tabname, 
                         row_col_name, DbType, col_col_name, DbType, data_col_name, DbType2);
 	apop_query("begin");
-    for (int i=0; i< msize1; i++){
-        rowname = (n->rowct > i) ?  n->row[i] : (sprintf(sparerow, "r%i", i), sparerow);
-        for (int j=0; j< msize2; j++){
-            colname = (n->colct > j) ? n->col[j] : (sprintf(sparecol, "c%i", j), sparecol);
+    for (size_t i=0; i< msize1; i++){
+        rowname = Rowname;
+        for (size_t j=0; j< msize2; j++){
+            colname = Colname(n->col, n->colct, "c");
             double x = gsl_matrix_get(in->matrix, i, j); 
-            if (!isnan(x)) apop_query("INSERT INTO %s VALUES ('%s', '%s', %g)", 
-                                                tabname, rowname, colname, x);
-            else apop_query("INSERT INTO %s VALUES ('%s', '%s', 0/0)", 
-                                        tabname, rowname, colname);
+            if (isnan(x))      apop_query("INSERT INTO %s VALUES (%s, %s, 0/0)", tabname, XN(rowname), XN(colname));
+            else if (isinf(x)) apop_query("INSERT INTO %s VALUES (%s, %s, %s9e999)", tabname, XN(rowname), XN(colname), x<0 ? "-" : "");
+            else               apop_query("INSERT INTO %s VALUES (%s, %s, %.17g)", tabname, XN(rowname), XN(colname), x);
+            free(colname);
         }
+        free(rowname);
     }
-    for (int i=0; i< in->textsize[0]; i++){
-        rowname = (n->rowct > i) ? n->row[i] : (sprintf(sparerow, "r%i", i), sparerow);
-        for (int j=0; j< in->textsize[1]; j++){
-            colname = (n->textct > j) ? n->text[j] : (sprintf(sparecol, "t%i", j), sparecol);
-            apop_query("INSERT INTO %s VALUES ('%s', '%s', '%s')", tabname, 
-                rowname, colname, in->text[i][j]);
+    for (size_t i=0; i< in->textsize[0]; i++){
+        rowname = Rowname;
+        for (size_t j=0; j< in->textsize[1]; j++){
+            colname = Colname(n->text, n->textct, "t");
+            value = quote_for_sql(in->text[i][j]);
+            apop_query("INSERT INTO %s VALUES (%s, %s, %s)", tabname, XN(rowname), XN(colname), XN(value));
+            free(colname);
+            free(value);
         }
+        free(rowname);
     }
 	apop_query("commit");
     apop_release_db(held);
-- 
2.43.0


From 96c7309c615ce4a4d66f8187feed68699f034f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:14 +0000
Subject: [PATCH 061/192] fix: ran() takes one seed as it always did, but not
 while another thread is taking one

---
 apop_db_sqlite.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/apop_db_sqlite.c b/apop_db_sqlite.c
index 9cfc0a4..515df62 100644
--- a/apop_db_sqlite.c
+++ b/apop_db_sqlite.c
@@ -135,6 +135,13 @@ static void powFn(sqlite3_context *context, int argc, sqlite3_value **argv){
 }
 
 static void rngFn(sqlite3_context *context, int argc, sqlite3_value **argv){
+    //The first use takes one seed. Others may be taking seeds at the same time.
+    static int seed_taken;
+    OMP_critical(rng_get_thread)
+        if (!seed_taken) {
+            apop_opts.rng_seed++;
+            seed_taken = 1;
+        }
     sqlite3_result_double(context, gsl_rng_uniform(apop_rng_get_thread(-1)));
 }
 
-- 
2.43.0


From 53fd7ec9d95c7ff8477262ce6f05d932a11dbac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:57 +0000
Subject: [PATCH 062/192] fix: apop_prep_output notices a file that does not
 open

---
 apop_output.m4.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apop_output.m4.c b/apop_output.m4.c
index e611a43..e16bc8a 100644
--- a/apop_output.m4.c
+++ b/apop_output.m4.c
@@ -59,7 +59,7 @@ int apop_prep_output(char const *output_name, FILE ** output_pipe, char *output_
     else *output_pipe = output_name
                         ? fopen(output_name, *output_append == 'a' ? "a" : "w")
                         : stdout;
-    Apop_stopif(!output_pipe && output_name, return -1, 0, "Trouble opening file %s.", output_name);
+    Apop_stopif(!*output_pipe, return -1, 0, "Trouble opening file %s.", output_name);
     return 0;
 }
 
-- 
2.43.0


From b1ed30cff25e1419755b427a2b2b8471ba3ad70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:57 +0000
Subject: [PATCH 063/192] fix: printing closes only the file it opened, writes
 every page to it, and reports failed writes

---
 apop_output.m4.c | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/apop_output.m4.c b/apop_output.m4.c
index e16bc8a..628c97a 100644
--- a/apop_output.m4.c
+++ b/apop_output.m4.c
@@ -72,6 +72,18 @@ int apop_prep_output(char const *output_name, FILE ** output_pipe, char *output_
             return, 0, "Trouble preparing to write output.");
 
 
+//True iff apop_prep_output opened a file, which is then ours to close.
+static int opened_a_file(char const *output_name, char output_type){
+    return output_name && output_type != 'p' && output_type != 'd';
+}
+
+static void finish_output(Output_declares){
+    (void) output_append;
+    int failed = ferror(output_pipe);
+    if (opened_a_file(output_name, output_type) && fclose(output_pipe)) failed = 1;
+    Apop_stopif(failed, , 0, "Trouble writing to %s; the output is incomplete.", output_name ? output_name : "the output stream");
+}
+
 /////The printing functions.
 
 static void white_pad(int ct){
@@ -189,7 +201,7 @@ static void print_core_v(const gsl_vector *data, char *separator, Output_declare
 	    }
 	    fprintf(f,"\n");
     }
-	if (output_name) fclose(f);
+    finish_output(Output_vars);
 }
 
 /** Print a vector to the screen, a file, a pipe, or the database.
@@ -331,13 +343,11 @@ APOP_VAR_ENDHEAD
         apop_data_to_db(data, output_name, output_append);
         return;
     }
-    apop_data_print_core(data, output_pipe, output_type);
-    if (data && data->more) {
-        output_append='a';
-        apop_data_print(data->more, Output_vars);
-    }
-    if (output_name)
-        fclose(output_pipe);
+    do { //all pages go to the one stream.
+        apop_data_print_core(data, output_pipe, output_type);
+        data = data ? data->more : NULL;
+    } while (data);
+    finish_output(Output_vars);
 }
 
 /** Print a \c gsl_matrix to the screen, a file, a pipe, or a database table.
@@ -353,11 +363,12 @@ APOP_VAR_HEAD void apop_matrix_print(const gsl_matrix *data, Output_declares){
 APOP_VAR_ENDHEAD
     if (output_type == 'd'){
         Apop_assert_c(data, , 1, "You sent me a NULL matrix. No database table will be created.");
-    } else if (!data){
-        fprintf(output_pipe, "NULL\n");
+        apop_data_print(&(apop_data){.matrix=(gsl_matrix*)data}, Output_vars); //cheating on the const qualifier
         return;
     }
-    apop_data_print(&(apop_data){.matrix=(gsl_matrix*)data}, Output_vars); //cheating on the const qualifier
+    if (!data) fprintf(output_pipe, "NULL\n");
+    else apop_data_print_core(&(apop_data){.matrix=(gsl_matrix*)data}, output_pipe, output_type);
+    finish_output(Output_vars);
 }
 
 //leaving this undocumented for now.
-- 
2.43.0


From 04c400431c292b4f0f4b2777eb1e262c5bd4d27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:04 +0000
Subject: [PATCH 064/192] fix: apop_vector_print to the database writes the
 table

---
 apop_output.m4.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/apop_output.m4.c b/apop_output.m4.c
index 628c97a..b8a67be 100644
--- a/apop_output.m4.c
+++ b/apop_output.m4.c
@@ -218,6 +218,11 @@ APOP_VAR_HEAD void apop_vector_print(gsl_vector *data, Output_declares){
     gsl_vector *apop_varad_var(data, NULL);
     Dispatch_output
 APOP_VAR_ENDHEAD
+    if (output_type == 'd'){
+        Apop_stopif(!data, return, 1, "You sent me a NULL vector. No database table will be created.");
+        apop_data_print(&(apop_data){.vector=data}, Output_vars);
+        return;
+    }
 	print_core_v(data, apop_opts.output_delimiter, Output_vars);
  }
 
-- 
2.43.0


From 692ed2726a9ebf18b0e46b9d9d222bacf0f5eb2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:04 +0000
Subject: [PATCH 065/192] fix: printed rows keep their fields: as many rows as
 the longest part, row names and blank text in their columns

---
 apop_output.m4.c | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/apop_output.m4.c b/apop_output.m4.c
index b8a67be..9bc10ce 100644
--- a/apop_output.m4.c
+++ b/apop_output.m4.c
@@ -259,16 +259,16 @@ static void apop_data_print_core(const apop_data *data, FILE *f, char displaytyp
     int i, j, L = 0, 
         start   = (data->vector)? -1 : 0,
         end     = (data->matrix)? data->matrix->size2 : 0,
-        rowend  = (data->matrix)? data->matrix->size1 : (data->vector) ? data->vector->size : data->text ? data->textsize[0] : -1;
+        rowend;
+    Get_vmsizes(data); //maxsize, wsize
+    rowend = GSL_MAX(maxsize, wsize);
+    if (data->names) rowend = GSL_MAX(rowend, data->names->rowct);
     if (data->names && data->names->title && strlen(data->names->title))
         fprintf(f, "\t%s\n\n", data->names->title);
     if (data->names && data->names->rowct)
         L   = get_max_strlen(data->names->row, data->names->rowct);
     if (data->names && data->names->rowct && (data->names->vector || data->names->colct || data->names->textct)){
-        if ((apop_opts.db_name_column || *apop_opts.db_name_column=='\0') || 
-                !strcmp(apop_opts.db_name_column, "row_names"))
-            fprintf(f, "%*s  ", L+2, " ");
-        else { fprintf(f, "%s", apop_opts.db_name_column); a_pipe(f, displaytype); }
+        fprintf(f, "%*s  ", L+2, " ");
     }
     if (data->vector && data->names && data->names->vector){
         fprintf(f, "%s", data->names->vector);
@@ -300,8 +300,8 @@ static void apop_data_print_core(const apop_data *data, FILE *f, char displaytyp
     if(data->names && (data->names->vector || data->names->colct || data->names->textct))
         fprintf(f, "\n");
     for(j=0; j< rowend; j++){
-        if (data->names && data->names->rowct > j)
-            fprintf(f, "%*s%s", L+2, data->names->row[j], apop_opts.output_delimiter);
+        if (data->names && data->names->rowct)
+            fprintf(f, "%*s%s", L+2, data->names->rowct > j ? data->names->row[j] : "", apop_opts.output_delimiter);
         for(i=start; i< end; i++){
             if ((i < 0 && j < data->vector->size) || (i>= 0 && j < data->matrix->size1 && i < data->matrix->size2))
                 p_fn(f,  apop_data_get(data, j, i));
@@ -312,17 +312,17 @@ static void apop_data_print_core(const apop_data *data, FILE *f, char displaytyp
             if (i < end-1)
                 fprintf(f, "%s", apop_opts.output_delimiter);
         }
-        if (data->text){
+        if (data->textsize[1]){
             if (data->vector || data->matrix)
                 a_pipe(f, displaytype);
-            if (j < data->textsize[0])
-                for(i=0; i< data->textsize[1]; i++){
-                    fprintf(f, "%s", data->text[j][i]);
-                    if (i < data->textsize[1]-1) fprintf(f, "%s", apop_opts.output_delimiter);
-                }
+            for(i=0; i< data->textsize[1]; i++){
+                if (j < data->textsize[0]) fprintf(f, "%s", data->text[j][i]);
+                if (i < data->textsize[1]-1) fprintf(f, "%s", apop_opts.output_delimiter);
+            }
         }
         if (data->weights && j < data->weights->size){
-            a_pipe(f, displaytype);
+            if (data->vector || data->matrix || data->textsize[1])
+                a_pipe(f, displaytype);
             p_fn(f, data->weights->data[j]);
         }
         fprintf(f, "\n");
-- 
2.43.0


From f8571e3a8b9bf46544daee3e8bd9187a9f9d8326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:27 +0000
Subject: [PATCH 066/192] fix: functions that return an error-marked data set
 mark it with the documented error code

---
 apop.m4.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apop.m4.h b/apop.m4.h
index ba0942a..51c1f14 100644
--- a/apop.m4.h
+++ b/apop.m4.h
@@ -631,7 +631,7 @@ Apop_stopif(x < 0,  , 1, "warning: x is %g.", x);
 
 /** \cond doxy_ignore */
 //For use in stopif, to return a blank apop_data set with an error attached.
-#define apop_return_data_error(E) {apop_data *out=apop_data_alloc(); out->error='E'; return out;}
+#define apop_return_data_error(E) {apop_data *out=apop_data_alloc(); out->error=(#E)[0]; return out;}
 
 /* The Apop_stopif macro is currently favored, but there's a long history of prior
    error-handling setups. Consider all of the Assert... macros below to be deprecated.
-- 
2.43.0


From 61551800910a8f6b95b044c57952564ee6610070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:27 +0000
Subject: [PATCH 067/192] fix: bootstrap and jackknife survive failing
 estimates and leave the data's names alone

---
 apop_bootstrap.m4.c | 41 +++++++++++++++++++++++------------------
 1 file changed, 23 insertions(+), 18 deletions(-)

diff --git a/apop_bootstrap.m4.c b/apop_bootstrap.m4.c
index cf6cff4..4d5566f 100644
--- a/apop_bootstrap.m4.c
+++ b/apop_bootstrap.m4.c
@@ -41,6 +41,7 @@ using that slightly shortened data set. Then, find the covariance matrix of the
 \param model    An \ref apop_model, that will be used internally by \ref apop_estimate.
             
 \exception out->error=='n'   \c NULL input data.
+\exception out->error=='N'   Estimation using the full data set produced no parameters.
 \return         An \c apop_data set whose matrix element is the estimated covariance matrix of the parameters.
 \see apop_bootstrap_cov
 
@@ -54,29 +55,32 @@ apop_data * apop_jackknife_cov(apop_data *in, apop_model *model){
     int i, n = GSL_MAX(msize1, GSL_MAX(vsize, in->textsize[0]));
     apop_model *overall_est = e->parameters ? e : apop_estimate(in, e);//if not estimated, do so
     gsl_vector *overall_params = apop_data_pack(overall_est->parameters);
+    Apop_stopif(!overall_params, if (e!=overall_est) apop_model_free(overall_est); apop_model_free(e); 
+            apop_return_data_error(N), 0, "Estimating the model using the full data set produced no parameters.");
     gsl_vector_scale(overall_params, n); //do it just once.
     gsl_vector *pseudoval = gsl_vector_alloc(overall_params->size);
 
     //Copy the original, minus the first row.
     apop_data *subset = apop_data_copy(Apop_rs(in, 1, n-1));
-    apop_name *tmpnames = in->names; 
-    in->names = NULL;  //save on some copying below.
+    apop_data in_view = *in, *nameless = &in_view;
+    nameless->names = NULL;  //save on some copying below.
 
     apop_data *array_of_boots = apop_data_alloc(n, overall_params->size);
 
     for(i = -1; i< n-1; i++){
         //Get a view of row i, and copy it to position i-1 in the short matrix.
-        if (i >= 0) apop_data_memcpy(Apop_r(subset, i), Apop_r(in, i));
+        if (i >= 0) apop_data_memcpy(Apop_r(subset, i), Apop_r(nameless, i));
         apop_model *est = apop_estimate(subset, e);
         gsl_vector *estp = apop_data_pack(est->parameters);
-        gsl_vector_memcpy(pseudoval, overall_params);// *n above.
-        gsl_vector_scale(estp, n-1);
-        gsl_vector_sub(pseudoval, estp);
+        if (estp){
+            gsl_vector_memcpy(pseudoval, overall_params);// *n above.
+            gsl_vector_scale(estp, n-1);
+            gsl_vector_sub(pseudoval, estp);
+        } else gsl_vector_set_all(pseudoval, GSL_NAN);
         gsl_matrix_set_row(array_of_boots->matrix, i+1, pseudoval);
         apop_model_free(est);
         gsl_vector_free(estp);
     }
-    in->names = tmpnames;
     apop_data *out = apop_data_covariance(array_of_boots);
     gsl_matrix_scale(out->matrix, 1./(n-1.));
     apop_data_free(subset);
@@ -136,42 +140,43 @@ APOP_VAR_ENDHEAD
     //prevent and infinite regression of covariance calculation.
     Apop_model_add_group(e, apop_parts_wanted); //default wants for nothing.
     size_t i, nan_draws=0;
-    apop_name *tmpnames = (data && data->names) ? data->names : NULL; //save on some copying below.
-    if (data && data->names) data->names = NULL;
+    apop_data data_view = data ? *data : (apop_data){}, *nameless = &data_view;
+    nameless->names = NULL;  //save on some copying below.
 
     int height = GSL_MAX(msize1, GSL_MAX(vsize, (data?(*data->textsize):0)));
 	for (i=0; i<iterations && nan_draws < iterations; i++){
 		for (size_t j=0; j< height; j++){       //create the data set
 			size_t randrow	= gsl_rng_uniform_int(rng, height);
-            apop_data_memcpy(Apop_r(subset, j), Apop_r(data, randrow));
+            apop_data_memcpy(Apop_r(subset, j), Apop_r(nameless, randrow));
 		}
 		//get the parameter estimates.
 		apop_model *est = apop_estimate(subset, e);
         gsl_vector *estp = apop_data_pack(est->parameters);
-        if (!gsl_isnan(apop_sum(estp))){
-            if (i==0){
+        int failed = !estp || gsl_isnan(apop_sum(estp));
+        if (failed && ignore_nans=='y'){
+            i--; 
+            nan_draws++;
+        } else if (estp){
+            if (!array_of_boots){
                 array_of_boots	      = apop_data_alloc(iterations, estp->size);
+                gsl_matrix_set_all(array_of_boots->matrix, GSL_NAN); //for earlier failures.
                 apop_name_stack(array_of_boots->names, est->parameters->names, 'c', 'v');
                 apop_name_stack(array_of_boots->names, est->parameters->names, 'c', 'c');
                 apop_name_stack(array_of_boots->names, est->parameters->names, 'c', 'r');
             }
             gsl_matrix_set_row(array_of_boots->matrix, i, estp);
-        } else if (ignore_nans=='y'){
-            i--; 
-            nan_draws++;
         }
         apop_model_free(est);
         gsl_vector_free(estp);
 	}
-    if(data) data->names = tmpnames;
     apop_data_free(subset);
     apop_model_free(e);
     int set_error=0;
-    Apop_stopif(i == 0 && nan_draws == iterations, apop_return_data_error(N),
+    Apop_stopif(!array_of_boots, apop_return_data_error(N),
                 1, "I ran into %i NaNs and no not-NaN estimations, and so stopped. "
                        , iterations);
     Apop_stopif(nan_draws == iterations,  set_error++;
-            apop_matrix_realloc(array_of_boots->matrix, i, array_of_boots->matrix->size2),
+            array_of_boots->matrix = apop_matrix_realloc(array_of_boots->matrix, i, array_of_boots->matrix->size2),
                 1, "I ran into %i NaNs, and so stopped. Returning results based "
                        "on %zu bootstrap iterations.", iterations, i);
 	summary	= apop_data_covariance(array_of_boots);
-- 
2.43.0


From d86993d5189625f6d23558a1b82fa826c3f8565a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:52 +0000
Subject: [PATCH 068/192] fix: apop_kl_divergence: unsynced PMFs diverge
 infinitely, threads don't share the caller's RNG, failed draws give NaN

---
 apop_stats.m4.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/apop_stats.m4.c b/apop_stats.m4.c
index 464c07d..791851b 100644
--- a/apop_stats.m4.c
+++ b/apop_stats.m4.c
@@ -4,6 +4,12 @@
 #include "apop_internal.h"
 #include <gsl/gsl_rng.h>
 #include <gsl/gsl_eigen.h>
+#ifdef _OPENMP
+    #include <omp.h>
+    #define omp_teamsize omp_get_num_threads()
+#else
+    #define omp_teamsize 1
+#endif
 
 #define Check_vw    \
     Apop_stopif(!v, return GSL_NAN, 0, "data vector is NULL. Returning NaN.\n");            \
@@ -753,23 +759,24 @@ APOP_VAR_ENDHEAD
             } //else:
             double qi = apop_p(Apop_r(p, i), to);
             Apop_notify(3,"%g\t%g\t%g", pi, qi, pi ? pi * log(pi/qi):0);
-            Apop_stopif(!qi, div+=GSL_NEGINF; break, 1, "The PMFs aren't synced: from-distribution has a value where "
+            Apop_stopif(!qi, , 1, "The PMFs aren't synced: from-distribution has a value where "
                                                 "to-distribution doesn't (which produces infinite divergence).");
-            div += pi * log(pi/qi);
+            div += qi ? pi * log(pi/qi) : GSL_NEGINF; //no sum of these with finite terms is finite.
         }
     } else { //the version with the RNG.
         Apop_stopif(!from->dsize, return GSL_NAN, 0, "I need to make random draws from the 'from' model, "
                                                      "but its dsize (draw size)==0. Returning NaN.");
         OMP_for_reduce(+:div,    int i=0; i < draw_ct; i++){
             double draw[from->dsize];
-            apop_draw(draw, rng, from);
+            int failed = apop_draw(draw, omp_teamsize > 1 ? NULL : rng, from); //NULL==use this thread's RNG.
+            Apop_stopif(failed, , 0, "Trouble making a draw from the 'from' model. Returning NaN.");
             gsl_matrix_view dm = gsl_matrix_view_array(draw, 1, from->dsize);
             double pi = apop_p(&(apop_data){.matrix=&(dm.matrix)}, from);
             double qi = apop_p(&(apop_data){.matrix=&(dm.matrix)}, to);
-            double val = pi ? log(pi/qi): 0; //each row already has probability p_i
+            double val = failed ? GSL_NAN : pi ? log(pi/qi): 0; //each row already has probability p_i
             Apop_notify(3,"%g\t%g\t%g", pi, qi, val);
             div += val;
-            Apop_stopif(!qi, break, 1, "From-distribution has a value where "
+            Apop_stopif(!qi, , 1, "From-distribution has a value where "
                                                 "to-distribution doesn't (which produces infinite divergence).");
         }
         div /= draw_ct; //div is an expected value of ln(pi/qi)
-- 
2.43.0


From 3e6dfdd368a5517c8f8c9a83c7253654be61c005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:52 +0000
Subject: [PATCH 069/192] fix: batches of draws in a serialized nested region
 use the thread's own RNG; documented error marks

---
 apop_asst.m4.c | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/apop_asst.m4.c b/apop_asst.m4.c
index 91b46a4..2b8771f 100644
--- a/apop_asst.m4.c
+++ b/apop_asst.m4.c
@@ -7,11 +7,17 @@ Copyright (c) 2005--2007, 2010 by Ben Klemens.  Licensed under the GPLv2; see CO
 #include <regex.h>
 #ifdef _OPENMP
     #include <omp.h>
-    #define omp_threadnum omp_get_thread_num()
-#else
-    #define omp_threadnum 0
+#endif
 
+/* In a nested parallel region that isn't itself run in parallel, omp_get_thread_num is
+   zero for everybody, so use the thread's number in the closest team of several threads.*/
+static int get_threadnum(){
+#ifdef _OPENMP
+    for (int level=omp_get_level(); level > 0; level--)
+        if (omp_get_team_size(level) > 1) return omp_get_ancestor_thread_num(level);
 #endif
+    return 0;
+}
 
 extern char *apop_nul_string;
 
@@ -349,7 +355,7 @@ This function can be used anywhere a \c gsl_rng would be used.
 
 \param thread_in The number of the RNG to retrieve, starting at zero (which is
 how OpenMP numbers its threads). If -1, I'll look up the current thread (via \c
-omp_get_thread_num) for you.
+omp_get_thread_num, or its equivalent for the enclosing team if you are in a nested region that runs in one thread) for you.
 
 See \ref threading for additional notes. In most cases, you want to use <tt>apop_rng_get_thread(-1)</tt>.
 
@@ -361,7 +367,7 @@ gsl_rng *apop_rng_get_thread_base(int thread){
     static int rng_ct = -1;
 
     if (thread==-1){
-        thread = omp_threadnum;
+        thread = get_threadnum();
     }
 
     gsl_rng *out;
@@ -407,23 +413,23 @@ Here is a two-line program to draw a different set of ten Standard Normals on ev
 */
 APOP_VAR_HEAD apop_data *apop_model_draws(apop_model *model, int count, apop_data *draws){
     apop_model * apop_varad_var(model, NULL);
-    Apop_stopif(!model, apop_return_data_error(n), 0, "Input model is NULL.");
-    Apop_stopif(!model->dsize, apop_return_data_error(n), 0, "Input model has dsize==0.");
+    Apop_stopif(!model, apop_return_data_error(m), 0, "Input model is NULL.");
+    Apop_stopif(!model->dsize, apop_return_data_error(m), 0, "Input model has dsize==0.");
     apop_data * apop_varad_var(draws, NULL);
     int apop_varad_var(count, 1000);
     if (draws) {
         Apop_stopif(!draws->matrix, draws->error='m'; return draws, 1, "Input data set's matrix is NULL.");
-        Apop_stopif((int)draws->matrix->size2 < model->dsize, draws->error='s'; draws->error='m'; return draws,
+        Apop_stopif((int)draws->matrix->size2 < model->dsize, draws->error='s'; return draws,
                 1, "Input data set's matrix column count is less than model->dsize.");
         count = draws->matrix->size1;
     } else
-        Apop_stopif(model->dsize<=0, apop_return_data_error(n), 0, "model->dsize<=0, so I don't know the size of matrix to allocate.");
+        Apop_stopif(model->dsize<=0, apop_return_data_error(m), 0, "model->dsize<=0, so I don't know the size of matrix to allocate.");
 APOP_VAR_ENDHEAD
     apop_data *out = draws ? draws : apop_data_alloc(count, model->dsize);
 
     OMP_for (int i=0; i< count; i++){
         apop_data *onerow = Apop_r(out, i);
-        Apop_stopif(apop_draw(onerow->matrix->data, apop_rng_get_thread(omp_threadnum), model),
+        Apop_stopif(apop_draw(onerow->matrix->data, apop_rng_get_thread(-1), model),
                 gsl_matrix_set_all(onerow->matrix, GSL_NAN); out->error='d',
                 0, "Trouble drawing for row %i. "
                 "I set it to all NANs and set out->error='d'.", i);
-- 
2.43.0


From 1eb5cd2c0eb0c027cb8dd987ec2b4e01744efcef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:54 +0000
Subject: [PATCH 070/192] fix: copies of PMFs share the CMF under a lock and
 only once it is built

---
 model/apop_pmf.c | 51 ++++++++++++++++++++++++++++++++++++------------
 1 file changed, 38 insertions(+), 13 deletions(-)

diff --git a/model/apop_pmf.c b/model/apop_pmf.c
index 21ac955..a7690ba 100644
--- a/model/apop_pmf.c
+++ b/model/apop_pmf.c
@@ -56,15 +56,33 @@ equally probable.
 
 #include "apop_internal.h"
 
-Apop_settings_copy(apop_pmf,
-    (*out->cmf_refct)++;
-)
+/* A CMF already built is shared among copies and counted; copies made before the CMF is
+built will build their own. The count and the CMF pointer change only in this critical region.*/
+static void cmf_share(apop_pmf_settings *out, apop_pmf_settings *in){
+    OMP_critical(pmfsetuptwo)
+    if ((out->cmf = in->cmf)) (*(out->cmf_refct = in->cmf_refct))++;
+    else {
+        out->cmf_refct = calloc(1, sizeof(int));
+        (*out->cmf_refct)++;
+    }
+}
 
-Apop_settings_free(apop_pmf,
-    if (!--*in->cmf_refct) {
+static void cmf_release(apop_pmf_settings *in){
+    int last;
+    OMP_critical(pmfsetuptwo)
+    last = !--*in->cmf_refct;
+    if (last) {
         gsl_vector_free(in->cmf);
         free(in->cmf_refct);
     }
+}
+
+Apop_settings_copy(apop_pmf,
+    cmf_share(out, in);
+)
+
+Apop_settings_free(apop_pmf,
+    cmf_release(in);
 ) 
 
 Apop_settings_init(apop_pmf,
@@ -93,19 +111,19 @@ static void setup_cmf(apop_model *m){
     //already assumed a weights vector in the data
     apop_pmf_settings *settings = Apop_settings_get_group(m, apop_pmf);
     size_t maxsize = m->data->weights->size;
-    settings->cmf = gsl_vector_alloc(maxsize);
-    Apop_stopif(!settings->cmf, m->error='a'; return,
+    gsl_vector *cdf = gsl_vector_alloc(maxsize);
+    Apop_stopif(!cdf, m->error='a'; return,
             0, "Allocation error setting up the CMF.");
-    gsl_vector *cdf = settings->cmf; //alias.
     cdf->data[0] = m->data->weights->data[0];
     for (int i=1; i< maxsize; i++)
         cdf->data[i] = m->data->weights->data[i] + cdf->data[i-1];
     //Now make sure the last entry is one.
-    Apop_stopif(cdf->data[maxsize-1]==0 || isnan(cdf->data[maxsize-1]), m->error='f'; return,
+    Apop_stopif(cdf->data[maxsize-1]==0 || isnan(cdf->data[maxsize-1]), gsl_vector_free(cdf); m->error='f'; return,
             0, "Bad density in the PMF.");
     gsl_vector_scale(cdf, 1./cdf->data[maxsize-1]);
-    Apop_stopif(!isfinite(cdf->data[maxsize-1]), m->error='f';  return,
+    Apop_stopif(!isfinite(cdf->data[maxsize-1]), gsl_vector_free(cdf); m->error='f';  return,
             0, "Bad density in the PMF.");
+    settings->cmf = cdf; //only a complete CMF is ever visible.
 }
 
 /* \adoc    RNG  Return the data in a random row of the PMF's data set. If there is a
@@ -147,7 +165,8 @@ static int draw (double *out, gsl_rng *r, apop_model *m){
         size_t size = m->data->weights->size;
         #pragma omp critical (pmfsetuptwo)
         if (!settings->cmf) setup_cmf(m);
-        Apop_stopif(m->error=='f', *out=GSL_NAN; return 1, 0, "Zero or NaN density in the PMF.");
+        Apop_stopif(!settings->cmf, *out=GSL_NAN; return 1, 0, "%s", m->error=='a'
+                        ? "Allocation error setting up the CMF." : "Zero or NaN density in the PMF.");
         double draw = gsl_rng_uniform(r);
         //do a binary search for where draw is in the CDF.
         double *cdf = settings->cmf->data; //alias.
@@ -276,10 +295,16 @@ static long double pmf_cmf(apop_data *d, apop_model *m){
     if (elmt == -1) return 0; //Can't find one observation: prob=0;
     if (!m->data->weights) return (elmt+0.0)/maxsize;
     else {
-        apop_pmf_settings *settings = Apop_settings_get_group(m, apop_pmf);
+        apop_pmf_settings *settings;
+        OMP_critical(pmfsetup)
+        {
+        settings = Apop_settings_get_group(m, apop_pmf);
         if (!settings) settings = Apop_model_add_group(m, apop_pmf);
+        }
+        OMP_critical(pmfsetuptwo)
         if (!settings->cmf) setup_cmf(m);
-        Apop_stopif(m->error=='f', return GSL_NAN, 0, "Zero or NaN density in the PMF.");
+        Apop_stopif(!settings->cmf, return GSL_NAN, 0, "%s", m->error=='a'
+                        ? "Allocation error setting up the CMF." : "Zero or NaN density in the PMF.");
         gsl_vector_view v = gsl_vector_subvector(settings->cmf, 0, elmt+1);
         return apop_sum(&v.vector);
     }
-- 
2.43.0


From c2b0f6e6d92c19c10bfb9659330cc6e2f826d51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:54 +0000
Subject: [PATCH 071/192] fix: copies of CDF settings share the stored draws
 under a lock and only once they are made

---
 apop_model.m4.c | 56 +++++++++++++++++++++++++++++++++++++------------
 1 file changed, 43 insertions(+), 13 deletions(-)

diff --git a/apop_model.m4.c b/apop_model.m4.c
index 7dce0bb..8c50abd 100644
--- a/apop_model.m4.c
+++ b/apop_model.m4.c
@@ -527,22 +527,33 @@ Here are many examples using common, mostly symmetric distributions.
 */
 double apop_cdf(apop_data *d, apop_model *m){
     if (m->cdf) return m->cdf(d, m);
-    apop_cdf_settings *cs = Apop_settings_get_group(m, apop_cdf);
+    apop_cdf_settings *cs;
+    gsl_matrix *draws;
+    OMP_critical(apop_cdf_draws)
+    {
+    cs = Apop_settings_get_group(m, apop_cdf);
     if (!cs) cs = Apop_model_add_group(m, apop_cdf);
-    long int tally = 0; 
-    
-    gsl_vector *ref = apop_data_pack(Apop_r(d, 0));
-    if (!cs->draws_made){
+    draws = cs->draws_made;
+    }
+    if (!draws){
         if (m->dsize == -1) apop_prep(d, m);
         Apop_stopif(m->dsize==0, return GSL_NAN, 0, "I need to make random draws from your model, but it has dsize==0. Returning NaN");
-        cs->draws_made = gsl_matrix_alloc(cs->draws, m->dsize);
+        gsl_matrix *new_draws = gsl_matrix_alloc(cs->draws, m->dsize);
         for (int i=0; i< cs->draws; i++)
-            apop_draw((Apop_mrv(cs->draws_made, i))->data, cs->rng, m);
+            apop_draw((Apop_mrv(new_draws, i))->data, cs->rng, m);
+        OMP_critical(apop_cdf_draws)
+        {
+        if (!cs->draws_made) cs->draws_made = new_draws;
+        draws = cs->draws_made;
+        }
+        if (draws != new_draws) gsl_matrix_free(new_draws); //another thread finished first.
     }
-    for (int i=0; i< cs->draws_made->size1; i++)
-        tally += lte(Apop_mrv(cs->draws_made, i), ref);
+    long int tally = 0; 
+    gsl_vector *ref = apop_data_pack(Apop_r(d, 0));
+    for (int i=0; i< draws->size1; i++)
+        tally += lte(Apop_mrv(draws, i), ref);
     gsl_vector_free(ref);
-    return tally/(double)cs->draws_made->size1;
+    return tally/(double)draws->size1;
 }
 
 Apop_settings_init(apop_cdf,
@@ -552,11 +563,30 @@ Apop_settings_init(apop_cdf,
     *out->draws_refcount = 1;
 )
 
-Apop_settings_free(apop_cdf,
-    if (in->draws_made && !--*in->draws_refcount)
+//Draws already made are shared among copies; copies made earlier make their own.
+static void draws_share(apop_cdf_settings *out, apop_cdf_settings *in){
+    OMP_critical(apop_cdf_draws)
+    if ((out->draws_made = in->draws_made)) ++*(out->draws_refcount = in->draws_refcount);
+    else {
+        out->draws_refcount = malloc(sizeof(int));
+        *out->draws_refcount = 1;
+    }
+}
+
+static void draws_release(apop_cdf_settings *in){
+    int last;
+    OMP_critical(apop_cdf_draws)
+    last = !--*in->draws_refcount;
+    if (last){
         gsl_matrix_free(in->draws_made);
+        free(in->draws_refcount);
+    }
+}
+
+Apop_settings_free(apop_cdf,
+    draws_release(in);
 )
 
 Apop_settings_copy(apop_cdf,
-    ++*out->draws_refcount;
+    draws_share(out, in);
 )
-- 
2.43.0


From ad98add7045fc0de1f382a81abdc33f63e379a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:32 +0000
Subject: [PATCH 072/192] fix: each copy of a mixture has its own components,
 weights and CMF, freed with it

---
 apop.m4.h                |  2 ++
 transform/apop_mixture.c | 53 +++++++++++++++++++++++++++++++---------
 2 files changed, 44 insertions(+), 11 deletions(-)

diff --git a/apop.m4.h b/apop.m4.h
index 51c1f14..dfd9cf2 100644
--- a/apop.m4.h
+++ b/apop.m4.h
@@ -1662,6 +1662,8 @@ typedef struct {
                             use an EM algorithm to find the optimal weights.
                             See the documentation for \ref apop_mixture for details. */
     gsl_vector *next_weights; /**< For internal use.*/
+    gsl_vector *own_weights; /**< For internal use: if not \c NULL, freed with the group. */
+    int own_models; /**< For internal use: are the models on the list freed with the group? */
 } apop_mixture_settings;
 
     //Models built via call to apop_model_copy_set.
diff --git a/transform/apop_mixture.c b/transform/apop_mixture.c
index 663ed6b..d871d3e 100644
--- a/transform/apop_mixture.c
+++ b/transform/apop_mixture.c
@@ -96,19 +96,49 @@ This example begins with a fixed mixture distribution, and makes assertions abou
 
 #include "apop_internal.h"
 
-Apop_settings_copy(apop_mixture,
+/* Evaluating a mixture writes to the parameters of its components and to the weights, so each
+copy of a mixture has its own. The components of the original are the ones the user sent in.*/
+static void copy_elements(apop_mixture_settings *out, apop_mixture_settings *in){
+    if (in->model_list){
+        out->model_list = malloc((in->model_count+1) * sizeof(apop_model*));
+        for (int i=0; i< in->model_count; i++)
+            out->model_list[i] = apop_model_copy(in->model_list[i]);
+        out->model_list[in->model_count] = NULL;
+        out->own_models = 1;
+    }
+    if (in->param_sizes){
+        out->param_sizes = malloc(in->model_count * sizeof(int));
+        memcpy(out->param_sizes, in->param_sizes, in->model_count * sizeof(int));
+    }
+    out->weights =
+    out->own_weights = in->weights ? apop_vector_copy(in->weights) : NULL;
+    out->next_weights = in->next_weights ? apop_vector_copy(in->next_weights) : NULL;
+    out->cmf = NULL; //built at the first draw.
+    out->cmf_refct = calloc(1, sizeof(int));
     (*out->cmf_refct)++;
-    out->next_weights = apop_vector_copy(in->next_weights);
-)
+}
 
-Apop_settings_free(apop_mixture,
-    if (!(--in->cmf_refct)) {
+static void free_elements(apop_mixture_settings *in){
+    if (in->cmf){
+        apop_data_free(in->cmf->data);
         apop_model_free(in->cmf);
-        free(in->cmf_refct);
-        free(in->model_list);
     }
+    free(in->cmf_refct);
+    if (in->own_models)
+        for (int i=0; i< in->model_count; i++)
+            apop_model_free(in->model_list[i]);
+    free(in->model_list);
     free(in->param_sizes);
+    gsl_vector_free(in->own_weights);
     gsl_vector_free(in->next_weights);
+}
+
+Apop_settings_copy(apop_mixture,
+    copy_elements(out, in);
+)
+
+Apop_settings_free(apop_mixture,
+    free_elements(in);
 ) 
 
 Apop_settings_init(apop_mixture, 
@@ -128,12 +158,13 @@ apop_model *apop_model_mixture_base(apop_model **inlist){
     inlist_copy[ctr] = NULL;
 
     apop_mixture_settings *ms =Apop_settings_add_group(out, apop_mixture, .model_list=inlist_copy,
-            .model_count=count, .param_sizes=malloc(sizeof(int)*count));
+            .model_count=count, .param_sizes=calloc(count, sizeof(int)));
     int dsize = inlist[0]->dsize;
     for (int i=1; i< count && dsize > -99; i++) if (inlist[i]->dsize != dsize) dsize = -100;
     if (dsize > -99) out->dsize = dsize;
 
-    ms->weights = gsl_vector_alloc(ms->model_count);
+    ms->weights =
+    ms->own_weights = gsl_vector_alloc(ms->model_count);
     gsl_vector_set_all(ms->weights, 1./count);
     return out;
 }
@@ -180,7 +211,7 @@ void unpack(apop_model *min){
     if (posn && (ms->find_weights && ms->find_weights!='n' && ms->find_weights!='N') && ms->next_weights)
         gsl_vector_memcpy(ms->weights, Apop_rs(min->parameters, 0, posn)->vector);
     for (apop_model **m = ms->model_list; *m; m++){
-        if (!ms->param_sizes[i]) continue; //NULL params
+        if (!ms->param_sizes[i]) {i++; continue;} //NULL params
         gsl_vector v = gsl_vector_subvector(min->parameters->vector, posn, ms->param_sizes[i]).vector;
         apop_data_unpack(&v, (*m)->parameters);
         posn+=ms->param_sizes[i++];
@@ -309,7 +340,7 @@ static long double mixture_constraint(apop_data *data, apop_model *model_in){
     if (penalty){
         int posn=0, i=0;
         for (apop_model **m = ms->model_list; *m; m++){
-            if (!ms->param_sizes[i]) continue; //NULL params
+            if (!ms->param_sizes[i]) {i++; continue;} //NULL params
             gsl_vector v = gsl_vector_subvector(model_in->parameters->vector, posn, ms->param_sizes[i]).vector;
             apop_data_pack((*m)->parameters, &v);
             posn+=ms->param_sizes[i++];
-- 
2.43.0


From fa1d96d80f94d107ed0ce7f591b8558d64a9d446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:32 +0000
Subject: [PATCH 073/192] fix: each copy of a kernel density has its own kernel
 and PMF

---
 model/apop_kerneld.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/model/apop_kerneld.c b/model/apop_kerneld.c
index 5327c32..9c32c94 100644
--- a/model/apop_kerneld.c
+++ b/model/apop_kerneld.c
@@ -64,9 +64,18 @@ Apop_settings_init(apop_kernel_density,
     if (!out->kernel->parameters) apop_prep(out->base_data, out->kernel);
 )
 
-Apop_settings_copy(apop_kernel_density,
+/* The kernel moves from point to point during evaluation, and the original may be freed
+before its copies, so each copy has its own kernel and PMF (whose data is linked, not copied).*/
+static void copy_submodels(apop_kernel_density_settings *out, apop_kernel_density_settings *in){
+    out->base_pmf = in->base_pmf ? apop_model_copy(in->base_pmf) : NULL;
+    OMP_critical(kernel_p_cdf)
+    out->kernel = in->kernel ? apop_model_copy(in->kernel) : NULL;
     out->own_pmf    =
-    out->own_kernel = 0;
+    out->own_kernel = 1;
+}
+
+Apop_settings_copy(apop_kernel_density,
+    copy_submodels(out, in);
 )
 
 Apop_settings_free(apop_kernel_density,
-- 
2.43.0


From 603994fa45bcc10d7bbf61cef549e7dc5cf52727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:23 +0000
Subject: [PATCH 074/192] fix: each copy of a loess model has its own arrays,
 and freeing one leaves the data's weights alone

---
 model/apop_loess.c | 42 +++++++++++++++++++++++++++++++++---------
 1 file changed, 33 insertions(+), 9 deletions(-)

diff --git a/model/apop_loess.c b/model/apop_loess.c
index 0358b53..be18835 100644
--- a/model/apop_loess.c
+++ b/model/apop_loess.c
@@ -3488,7 +3488,35 @@ void loess(struct loess_struct *lo) ;
 void loess_setup( double  *x, double *y, long n, long p, struct  loess_struct *lo) ;
 
 
-Apop_settings_copy(apop_loess, )
+static void *memdup(void const *in, size_t size){
+    void *out = malloc(size);
+    return out ? memcpy(out, in, size) : NULL;
+}
+
+//How many elements the k-d tree arrays hold.
+static long kd_size(long n){ return n > 200 ? n : 200; }
+
+static void loess_copy_mem(struct loess_struct *lo){
+    long n = lo->in.n, p = lo->in.p, max_kd = kd_size(n);
+    #define dupe(elmt, ct) lo->elmt = memdup(lo->elmt, (ct) * sizeof(*lo->elmt));
+    dupe(in.x, n*p)
+    dupe(in.y, n)
+    dupe(in.weights, n)
+    dupe(out.fitted_values, n)
+    dupe(out.fitted_residuals, n)
+    dupe(out.pseudovalues, n)
+    dupe(out.diagonal, n)
+    dupe(out.robust, n)
+    dupe(out.divisor, p)
+    dupe(kd_tree.parameter, 7)
+    dupe(kd_tree.a, max_kd)
+    dupe(kd_tree.xi, max_kd)
+    dupe(kd_tree.vert, p*2)
+    dupe(kd_tree.vval, (p+1)*max_kd)
+    #undef dupe
+}
+
+Apop_settings_copy(apop_loess, loess_copy_mem(&(out->lo_s));)
 Apop_settings_free(apop_loess, loess_free_mem(&(in->lo_s));)
 
 void matrix_to_FORTRAN(gsl_matrix *inmatrix, double *outFORTRAN, int start_col){
@@ -3507,7 +3535,7 @@ void matrix_to_FORTRAN(gsl_matrix *inmatrix, double *outFORTRAN, int start_col){
 Apop_settings_init(apop_loess,
     Apop_assert(in.data, "I need a .data element to allocate apop_loess_settings.");
     int n = in.data->matrix->size1;
-	int	max_kd = n > 200 ? n : 200;
+    int max_kd = kd_size(n);
     int p =  (in.data->vector)
                 ? in.data->matrix->size2
                 : in.data->matrix->size2-1;
@@ -3546,13 +3574,9 @@ Apop_settings_init(apop_loess,
     };
     Apop_varad_set(ci_level, 0.95);
     struct loess_struct *lo = &(out->lo_s);
-    if (in.data->weights)
-        lo->in.weights = in.data->weights->data;
-    else {
-        lo->in.weights = malloc(n * sizeof(double));
-        for (int i = 0; i < n; i++) 
-            lo->in.weights[i] = 1;
-    }
+    lo->in.weights = malloc(n * sizeof(double));
+    for (int i = 0; i < n; i++) 
+        lo->in.weights[i] = in.data->weights ? gsl_vector_get(in.data->weights, i) : 1;
     int startat = 0;
     if (in.data->vector) //OK, then that's the dependent var.
         memcpy(lo->in.y, in.data->vector->data, n*sizeof(double));
-- 
2.43.0


From 1680b1a64691f6cf60c6da6b7e8179f298677a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:23 +0000
Subject: [PATCH 075/192] fix: a second prediction from a weighted loess equals
 the first

---
 model/apop_loess.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/model/apop_loess.c b/model/apop_loess.c
index be18835..aa7e921 100644
--- a/model/apop_loess.c
+++ b/model/apop_loess.c
@@ -2908,8 +2908,9 @@ void predict(double  *new_x, long M, struct loess_struct *lo, struct pred_struct
         for(j = 0; j < N; j++)
             x[k + j] = x_tmp[p + j];
     }
+    double robust[N]; //the model's own is for the next prediction.
 	for(i = 0; i < N; i++)
-		lo->out.robust[i] *= lo->in.weights[i];
+		robust[i] = lo->out.robust[i] * lo->in.weights[i];
 
     pre->fit = malloc(M * sizeof(double));
 	pre->residual_scale = lo->out.s;
@@ -2917,10 +2918,10 @@ void predict(double  *new_x, long M, struct loess_struct *lo, struct pred_struct
     double L[N * M];
 	if(!strcmp(lo->control.surface, "direct")) {
         if(want_cov)
-            loess_dfitse(lo->in.y, x, x_evaluate, lo->in.weights, lo->out.robust, !strcmp(lo->model.family, "gaussian"), 
+            loess_dfitse(lo->in.y, x, x_evaluate, lo->in.weights, robust, !strcmp(lo->model.family, "gaussian"), 
                 lo->model.span, lo->model.degree, &nonparametric, order_drop_sqr, &sum_drop_sqr, D, N, &M, pre->fit, L);
         else
-            loess_dfit(lo->in.y, x, x_evaluate, lo->out.robust, lo->model.span, lo->model.degree, &nonparametric,
+            loess_dfit(lo->in.y, x, x_evaluate, robust, lo->model.span, lo->model.degree, &nonparametric,
                 order_drop_sqr, &sum_drop_sqr, D, N, &M, pre->fit);
     } else {
         loess_ifit(lo->kd_tree.parameter, lo->kd_tree.a, lo->kd_tree.xi, lo->kd_tree.vert, 
-- 
2.43.0


From 163707c1294968a0b03c970f427ef7cc00a5fe4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:43 +0000
Subject: [PATCH 076/192] fix: a copy of a model starts its own adaptive
 rejection sampling history

---
 apop_arms.c | 58 +++++++++++++++++++++++++++++++++++++----------------
 1 file changed, 41 insertions(+), 17 deletions(-)

diff --git a/apop_arms.c b/apop_arms.c
index f4e3f3a..4649c24 100644
--- a/apop_arms.c
+++ b/apop_arms.c
@@ -25,26 +25,42 @@ void display(FILE *f, arms_state *env, apop_arms_settings *);
 int initial (apop_arms_settings* params, arms_state *state);
 static int arms_draw (double *out, gsl_rng *r, apop_model *m);
 
-Apop_settings_copy(apop_arms,
-    out->state = malloc(sizeof(arms_state));
-    *out->state = *in->state;
-)
-
-Apop_settings_free(apop_arms,
+static void free_state(apop_arms_settings *in){
     if (in->state){
         free(in->state->p);
         free(in->state);
 	}
+    in->state = NULL;
+}
+
+/* The history of points belongs to one model with one set of parameters, so a copy starts
+its own history at its first draw. If the model that holds the group draws from itself,
+then so will the copy. */
+static void copy_without_history(apop_arms_settings *out, apop_arms_settings *in){
+    out->state = NULL;
+    out->xinit = malloc(sizeof(double)*in->ninit);
+    memcpy(out->xinit, in->xinit, sizeof(double)*in->ninit);
+    if (in->model && Apop_settings_get_group(in->model, apop_arms) == in) out->model = NULL;
+}
+
+Apop_settings_copy(apop_arms,
+    copy_without_history(out, in);
 )
 
+Apop_settings_free(apop_arms,
+    free_state(in);
+    free(in->xinit);
+)
+
+static int setup_state(apop_arms_settings *out);
+
 Apop_settings_init(apop_arms,
-    if ((in.xl || in.xr) && !in.xinit)
-        out->xinit = (double []) {in.xl+GSL_DBL_EPSILON, (in.xl+in.xr)/2., in.xr-GSL_DBL_EPSILON};
-    else{
-        //Apop_varad_set(xinit, ((double []) {0, 0.5, 1}));
-        Apop_varad_set(xinit, ((double []) {-1, 0, 1}));
-    }
-    Apop_varad_set(ninit, 3);
+    double default_xinit[] = {-1, 0, 1};
+    double bounded_xinit[] = {in.xl+GSL_DBL_EPSILON, (in.xl+in.xr)/2., in.xr-GSL_DBL_EPSILON};
+    double *xinit = in.xinit ? in.xinit : (in.xl || in.xr) ? bounded_xinit : default_xinit;
+    out->ninit = (in.xinit && in.ninit) ? in.ninit : 3;
+    out->xinit = malloc(sizeof(double)*out->ninit); //the list sent in may go out of scope.
+    memcpy(out->xinit, xinit, sizeof(double)*out->ninit);
     Apop_varad_set(xl, GSL_MIN(out->xinit[0]/10., out->xinit[0]*10)-.1);
     Apop_varad_set(xr, GSL_MAX(out->xinit[out->ninit-1]/10., out->xinit[out->ninit-1]*10)+.1);
     Apop_varad_set(convex, 0);
@@ -54,12 +70,16 @@ Apop_settings_init(apop_arms,
     Apop_varad_set(neval, 1000);
     Apop_assert(out->model, "the model input (e.g.: .model = parent_model) is mandatory.");
 
+    setup_state(out); //on failure, the state is NULL, and the first draw will report it.
+)
+
+static int setup_state(apop_arms_settings *out){
   // allocate the state 
     out->state = malloc(sizeof(arms_state));
-    Apop_assert(out->state, "Malloc failed. Out of memory?");
+    Apop_assert_c(out->state, 1, 0, "Malloc failed. Out of memory?");
     *out->state = (arms_state) { };
     int err = initial(out, out->state);
-    Apop_assert_c(!err, NULL, 0, "init failed, error %i. Returning NULL", err);
+    Apop_stopif(err, free_state(out); return err, 0, "init failed, error %i.", err);
 
   /* finish setting up metropolis struct (can only do this after setting up env) */
     if(out->do_metro=='y'){
@@ -71,7 +91,8 @@ Apop_settings_init(apop_arms,
         assert(isfinite(out->state->metro_xprev));
         assert(isfinite(out->state->metro_yprev));
     }
-)
+    return 0;
+}
 
 void distract_doxygen_arms(){/*Doxygen gets thrown by the settings macros. This decoy function is a workaround. */}
 
@@ -85,7 +106,7 @@ http://www.amsta.leeds.ac.uk/~wally.gilks/adaptive.rejection/web_page/Welcome.ht
 
 \li It is currently the default for the \ref apop_draw function given a univariate model, so you can just call that if you prefer.
 
-\li There are a great number of parameters, in the \c apop_arms_settings structure.  The structure also holds a history of the points tested to date. That means that the system will be more accurate as more draws are made. It also means that if the parameters change, or you use \ref apop_model_copy, you should call <tt>Apop_settings_rm_group(your_model, apop_arms)</tt> to clear the model of points that are not valid for a different situation.
+\li There are a great number of parameters, in the \c apop_arms_settings structure.  The structure also holds a history of the points tested to date. That means that the system will be more accurate as more draws are made. It also means that if the parameters change, you should call <tt>Apop_settings_rm_group(your_model, apop_arms)</tt> to clear the model of points that are not valid for a different situation. A copy made via \ref apop_model_copy starts with no such history.
   */
 int apop_arms_draw (double *out, gsl_rng *r, apop_model *m){
     int fail;
@@ -97,6 +118,9 @@ int apop_arms_draw (double *out, gsl_rng *r, apop_model *m){
 static int arms_draw (double *out, gsl_rng *r, apop_model *m){
     apop_arms_settings *params = Apop_settings_get_group(m, apop_arms);
     if (!params) params = Apop_model_add_group(m, apop_arms, .model=m);
+    if (!params->model) params->model = m; //m is a copy that hasn't yet drawn.
+    if (!params->state)
+        Apop_stopif(setup_state(params), *out = GSL_NAN; return 1, 0, "Couldn't set up the envelope to draw from.");
   POINT pwork;        /* a working point, not yet incorporated in envelope */
   int msamp=0;        /* the number of x-values currently sampled */
   arms_state *state = params->state; 
-- 
2.43.0


From 13a809039de6add097275d02eabdba7baf0fce8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:00 +0000
Subject: [PATCH 077/192] fix: an envelope that can't be set up makes the
 adaptive rejection draw fail

---
 apop_arms.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/apop_arms.c b/apop_arms.c
index 4649c24..c5185c9 100644
--- a/apop_arms.c
+++ b/apop_arms.c
@@ -169,7 +169,7 @@ int initial (apop_arms_settings* params,  arms_state *env){
   /* set up space for envelope POINTs */
   env->npoint = params->npoint;
   env->p = malloc(params->npoint*sizeof(POINT));
-  Apop_assert(env->p, "malloc of env->p failed. Out of space?");
+  Apop_assert_c(env->p, 1006, 0, "malloc of env->p failed. Out of space?");
 
   /* set up envelope POINTs */
   q = env->p;
@@ -183,8 +183,8 @@ int initial (apop_arms_settings* params,  arms_state *env){
         /* point on log density */
         q->x = params->xinit[k++];
         q->y = perfunc(params,q->x);
-        Apop_assert(isfinite(q->x), "the initial param is %g", q->x);
-        Apop_assert(isfinite(q->y), "f(an initial parameter)= %g", q->y);
+        Apop_assert_c(isfinite(q->x), 1005, 0, "the initial param is %g", q->x);
+        Apop_assert_c(isfinite(q->y), 1005, 0, "f(an initial parameter)= %g", q->y);
         q->f = 1;
     } else // intersection point
         q->f = 0;
-- 
2.43.0


From 7b0b083b70b07d5ecf47279ecafa82bf2c5fe7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:00 +0000
Subject: [PATCH 078/192] fix: copies of constrained and instrumented models
 own what they copied

---
 apop.m4.h                   | 1 +
 model/apop_ols.c            | 2 ++
 transform/apop_dconstrain.c | 7 ++++---
 3 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/apop.m4.h b/apop.m4.h
index dfd9cf2..325cd63 100644
--- a/apop.m4.h
+++ b/apop.m4.h
@@ -1246,6 +1246,7 @@ typedef struct {
     char want_cov; /**< Deprecated. Please use \ref apop_parts_wanted_settings. */
     char want_expected_value; /**< Deprecated. Please use \ref apop_parts_wanted_settings. */
     apop_model *input_distribution; /**< The distribution of \f$P(Y|X)\f$ is specified by the model holding this struct, but the distribution of \f$X\f$ needs to be specified as well for any calculation of \f$P(Y)\f$. See the notes in the RNG section of the \ref apop_ols documentation. */
+    int own_instruments; /**< For internal use. */
 } apop_lm_settings;
 
 /** The default is for the estimation routine to give some auxiliary information,
diff --git a/model/apop_ols.c b/model/apop_ols.c
index 1d032b2..7424dad 100644
--- a/model/apop_ols.c
+++ b/model/apop_ols.c
@@ -53,12 +53,14 @@ void ols_print(apop_model *m, FILE *ap);
 
 Apop_settings_copy(apop_lm,
     out->instruments = apop_data_copy(in->instruments);
+    out->own_instruments = 1;
     if (in->input_distribution)
         out->input_distribution = apop_model_copy(in->input_distribution);
 )
 
 Apop_settings_free(apop_lm,
     apop_model_free(in->input_distribution);
+    if (in->own_instruments) apop_data_free(in->instruments);
 ) 
 
 Apop_settings_init(apop_lm,
diff --git a/transform/apop_dconstrain.c b/transform/apop_dconstrain.c
index ff3b9e5..c918922 100644
--- a/transform/apop_dconstrain.c
+++ b/transform/apop_dconstrain.c
@@ -59,10 +59,11 @@ Apop_settings_init(apop_dconstrain,
     if (!in.scaling) out->scaling = get_scaling;
 )
 
-Apop_settings_copy(apop_dconstrain, in->refct++;)
-Apop_settings_free(apop_dconstrain, in->refct--;
-        if(!in->refct) gsl_vector_free(in->last_params);
+//Each copy compares to its own record of the parameters for which it found its scale.
+Apop_settings_copy(apop_dconstrain,
+        if (in->last_params) out->last_params = apop_vector_copy(in->last_params);
 )
+Apop_settings_free(apop_dconstrain, gsl_vector_free(in->last_params);)
 
 static void dc_prep(apop_data *d, apop_model *m){
     apop_dconstrain_settings *cs = Apop_settings_get_group(m, apop_dconstrain); 
-- 
2.43.0


From 060fa0223a45983ef4950d4d58223cfe0600206a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:24 +0000
Subject: [PATCH 079/192] fix: each copy of a Metropolis-Hastings model steps
 along its own chain

---
 apop.m4.h       |   2 +
 apop_mcmc.m4.c  | 117 +++++++++++++++++++++++++++++++++++++++---------
 apop_model.m4.c |  20 ++++++++-
 3 files changed, 117 insertions(+), 22 deletions(-)

diff --git a/apop.m4.h b/apop.m4.h
index 325cd63..f9d75ff 100644
--- a/apop.m4.h
+++ b/apop.m4.h
@@ -1400,6 +1400,8 @@ typedef struct apop_mcmc_settings {
                                 parameter.<br> */
     size_t *block_starts; /**< For internal use */
     int block_count, proposal_is_cp; /**< For internal use. */
+    apop_data *chain; /**< For internal use: the data set to which further steps are added. */
+    int is_run, own_base, my_chain; /**< For internal use. */
 
     char start_at; /**< If \c '1' (the default), start with a first proposal of all
         1s. Even when this is a far-from-useful starting point, MCMC typically does a good
diff --git a/apop_mcmc.m4.c b/apop_mcmc.m4.c
index 54b461a..2f28874 100644
--- a/apop_mcmc.m4.c
+++ b/apop_mcmc.m4.c
@@ -44,8 +44,13 @@ Apop_settings_init(apop_mcmc,
    //all else defaults to zero/NULL
 )
 
-Apop_settings_copy(apop_mcmc, 
-    if (in->block_count){
+/* The state of a chain is in the proposals, the last log likelihood, and the parameters of
+the base model. Each copy has its own, so each steps along its own chain from here.
+
+When the base model is the model that holds this group (or anything else this group doesn't
+own), base_model is NULL in the copy, and the model holding the copy is its own base.*/
+static void copy_chain_state(apop_mcmc_settings *out, apop_mcmc_settings *in){
+    if (in->block_count && in->proposals){
         out->proposals = calloc(in->block_count, sizeof(apop_mcmc_proposal_s));
         for (int i=0; i< in->block_count; i++){
             out->proposals[i] = in->proposals[i];
@@ -53,14 +58,30 @@ Apop_settings_copy(apop_mcmc,
         }
         out->proposal_is_cp=1;
     }
+    if (in->block_starts){
+        out->block_starts = calloc(in->block_count+1, sizeof(size_t));
+        memcpy(out->block_starts, in->block_starts, sizeof(size_t)*(in->block_count+1));
+    }
+    out->base_model = in->own_base ? apop_model_copy(in->base_model) : NULL;
+    out->my_chain = 0;
+}
+
+static void free_chain_state(apop_mcmc_settings *in){
+    if (in->proposal_is_cp) {
+        for (int i=0; i< in->block_count; i++)
+            apop_model_free(in->proposals[i].proposal);
+        free(in->proposals);
+    }
+    free(in->block_starts);
+    if (in->own_base) apop_model_free(in->base_model);
+}
+
+Apop_settings_copy(apop_mcmc, 
+    copy_chain_state(out, in);
 )
 
 Apop_settings_free(apop_mcmc, 
-        if (in->proposal_is_cp) {
-            for (int i=0; i< in->block_count; i++)
-                apop_model_free(in->proposals[i].proposal);
-        free(in->proposals);
-        }
+    free_chain_state(in);
 )
 
 static void setup_normal_proposals(apop_mcmc_proposal_s *s, int tsize, apop_mcmc_settings *settings){
@@ -138,6 +159,44 @@ static void one_step(apop_data *d, gsl_vector *draw, apop_model *m, apop_mcmc_se
 }
 
 
+static apop_model *run_metropolis(apop_data *d, gsl_rng *rng, apop_model *m);
+
+static int has_run(apop_model *m){
+    int out;
+    OMP_critical (metro_state)
+    {
+    apop_mcmc_settings *s = apop_settings_get_group(m, apop_mcmc);
+    out = s && s->is_run;
+    }
+    return out;
+}
+
+/* The chain is recorded in the data of the PMF, which is linked to, not copied, when a model is
+copied. So, before it takes a step of its own, a copy gets its own record of the chain to
+this point, which is not freed with the model, just as the original's is not. If the model's
+data is not the chain, the steps are not recorded.*/
+static void start_own_chain(apop_mcmc_settings *s, apop_model *model){
+    if (s->chain && model->data == s->chain){
+        s->chain = model->data = apop_data_copy(s->chain);
+        s->pmf = model;
+    } else s->chain = NULL;
+    s->my_chain = 1;
+}
+
+//Add a blank row to the record of the chain, and return its index.
+static int add_row(apop_data *chain, apop_model *model){
+    size_t rows = chain->matrix->size1;
+    chain->matrix = apop_matrix_realloc(chain->matrix, rows+1, chain->matrix->size2);
+    if (chain->weights){
+        chain->weights = apop_vector_realloc(chain->weights, rows+1);
+        gsl_vector_set(chain->weights, rows, 1);
+    }
+    apop_pmf_settings *ps = apop_settings_get_group(model, apop_pmf);
+    if (ps && model->data == chain) //the CMF, if any, is out of date.
+        Apop_model_add_group(model, apop_pmf, .draw_index = ps->draw_index, .total_weight = ps->total_weight+1);
+    return rows;
+}
+
 /** The draw method for models estimated via \ref apop_model_metropolis.
 
 That method produces an \ref apop_pmf, typically with a few thousand draws from the
@@ -165,25 +224,23 @@ returns after stepping through all chunks.
 \ingroup all_public
 */
 int apop_model_metropolis_draw(double *out, gsl_rng* rng, apop_model *model){
+    if (!has_run(model))
+        OMP_critical (metropolis) //others wait until the chain is ready.
+        if (!has_run(model)) run_metropolis(model->data, rng, model);
     apop_mcmc_settings *s = apop_settings_get_group(model, apop_mcmc);
-    if (!s || !s->pmf) {
-        apop_model_metropolis(model->data, rng, model);
-        s = apop_settings_get_group(model, apop_mcmc);
-    }
     int constraint_fails = 0;
 OMP_critical (metro_draw)
 {
-    apop_model *m = s->base_model;
+    apop_model *m = s->base_model ? s->base_model : model;
     gsl_vector_view vv = gsl_vector_view_array(out, s->block_starts[s->block_count]);
     apop_data_pack(m->parameters, &(vv.vector));
-    apop_data *earlier_draws = s->pmf->data;
+    if (!s->my_chain) start_own_chain(s, model);
 
     int block = 0, done = 0;
     while (!done){
         s->proposal_count++;
-        earlier_draws->matrix = apop_matrix_realloc(earlier_draws->matrix, earlier_draws->matrix->size1+1, earlier_draws->matrix->size2);
-        one_step(s->base_model->data, &(vv.vector), m, s, rng, &constraint_fails, 
-                            earlier_draws, block, earlier_draws->matrix->size1-1);
+        one_step(m->data, &(vv.vector), m, s, rng, &constraint_fails, 
+                            s->chain, block, s->chain ? add_row(s->chain, model) : -1);
         block = (block+1) % s->block_count;
         done = !block; //have looped back to the start.
         s->proposals[block].adapt_fn(s->proposals+block, s);
@@ -286,10 +343,18 @@ APOP_VAR_HEAD apop_model *apop_model_metropolis(apop_data *d, gsl_rng *rng, apop
 APOP_VAR_END_HEAD
     apop_model *outp;
     OMP_critical(metropolis)
+    outp = run_metropolis(d, rng, m);
+    return outp;
+}
+
+static apop_model *run_metropolis(apop_data *d, gsl_rng *rng, apop_model *m){
+    apop_mcmc_settings *s;
+    OMP_critical (metro_state)
     {
-    apop_mcmc_settings *s = apop_settings_get_group(m, apop_mcmc);
+    s = apop_settings_get_group(m, apop_mcmc);
     if (!s)
         s = Apop_model_add_group(m, apop_mcmc);
+    }
     apop_prep(d, m); //typically a no-op
     s->last_ll = GSL_NEGINF;
     gsl_vector * drawv = apop_data_pack(m->parameters);
@@ -328,13 +393,25 @@ APOP_VAR_END_HEAD
 
     out->weights = gsl_vector_alloc(s->periods*(1-s->burnin));
     gsl_vector_set_all(out->weights, 1);
-    outp = apop_estimate(out, apop_pmf);
+    apop_model *outp = apop_estimate(out, apop_pmf);
+    if (s->own_base) apop_model_free(s->base_model);
+    s->own_base = 0;
     s->pmf = outp;
     s->base_model = m;
+    s->chain = out;
+    s->my_chain = 1;
     outp->draw = apop_model_metropolis_draw;
-    apop_settings_copy_group(outp, m, "apop_mcmc");
 
+    //The output goes on from here using its own copy of the model.
+    apop_settings_copy_group(outp, m, "apop_mcmc");
+    apop_mcmc_settings *out_s = apop_settings_get_group(outp, apop_mcmc);
+    out_s->base_model = apop_model_copy(m);
+    Apop_settings_rm_group(out_s->base_model, apop_mcmc);
+    out_s->base_model->data = d;
+    out_s->own_base = out_s->my_chain = out_s->is_run = 1;
+
+    OMP_critical (metro_state)
+    s->is_run = 1;
     gsl_vector_free(drawv);
-    }
     return outp;
 }
diff --git a/apop_model.m4.c b/apop_model.m4.c
index 8c50abd..4778932 100644
--- a/apop_model.m4.c
+++ b/apop_model.m4.c
@@ -398,6 +398,16 @@ apop_model *apop_parameter_model(apop_data *d, apop_model *m){
 extern apop_model *apop_swap_model; //apop_missing_data.c
 int apop_model_metropolis_draw(double *out, gsl_rng* rng, apop_model *params);//apop_update.c
 
+/* For models with no draw method of their own: the settings group's base model has the data
+and parameters of this model reversed. Copies of this model start with a base model still linked
+to the original.*/
+static int draw_via_swap(double *out, gsl_rng *r, apop_model *m){
+    apop_mcmc_settings *s = Apop_settings_get_group(m, apop_mcmc);
+    s->base_model->more = m;
+    s->base_model->data = m->parameters;
+    return apop_model_metropolis_draw(out, r, m);
+}
+
 /** Draw from a model. 
 
 \param out An already-allocated array of <tt>double</tt>s to be filled by the draw method. It must have size <tt>m->dsize</tt>.
@@ -428,9 +438,15 @@ int apop_draw(double *out, gsl_rng *r, apop_model *m){
         swapped->msize2 = m->dsize;
         swapped->data = m->parameters;
         Apop_settings_add_group(swapped, apop_mcmc, .burnin=0.999, .periods=1000);
-        apop_model *est = apop_model_metropolis(m->parameters, r, swapped); //leak.
+        apop_model *est = apop_model_metropolis(m->parameters, r, swapped);
         apop_settings_copy_group(m, est, "apop_mcmc");
-        m->draw = apop_model_metropolis_draw;
+        apop_mcmc_settings *s = Apop_settings_get_group(m, apop_mcmc);
+        s->chain = NULL; //no record of these steps is kept.
+        s->pmf = NULL;
+        apop_data_free(est->data);
+        apop_model_free(est);
+        apop_model_free(swapped);
+        m->draw = draw_via_swap; //only now may other threads draw.
     }
     return apop_draw(out, r, m);
 }
-- 
2.43.0


From 2c0de17eacdb9c53d1585c53c04aee688087e574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:45 +0000
Subject: [PATCH 080/192] fix: Metropolis-Hastings chains have a row for each
 period, redraw failed proposals, and report constraint failures

---
 apop_mcmc.m4.c | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/apop_mcmc.m4.c b/apop_mcmc.m4.c
index 2f28874..64b7036 100644
--- a/apop_mcmc.m4.c
+++ b/apop_mcmc.m4.c
@@ -125,7 +125,8 @@ static void set_block_count_and_block_starts(apop_data *in,
 static void one_step(apop_data *d, gsl_vector *draw, apop_model *m, apop_mcmc_settings *s, gsl_rng *rng, int *constraint_fails, apop_data *out, size_t block, int out_row){
     gsl_vector *clean_copy = apop_vector_copy(draw);
     newdraw:
-    apop_draw(draw->data + s->block_starts[block], rng, s->proposals[block].proposal);
+    Apop_stopif(apop_draw(draw->data + s->block_starts[block], rng, s->proposals[block].proposal),
+            goto newdraw, 1, "Trouble drawing from a proposal. Throwing the draw out and trying again.");
     apop_data_unpack(draw, m->parameters);
     if (m->constraint && m->constraint(d, m)){
         (*constraint_fails)++;
@@ -139,7 +140,7 @@ static void one_step(apop_data *d, gsl_vector *draw, apop_model *m, apop_mcmc_se
     Apop_stopif(gsl_isnan(ll) || !isfinite(ll), goto newdraw, 
             1, "Trouble evaluating the m function at vector beginning with %g. "
             "Throwing it out and trying again.\n"
-            , m->parameters->vector->data[0]);
+            , draw->data[0]);
 
     double ratio = ll - s->last_ll;
     if (ratio >= 0 || log(gsl_rng_uniform(rng)) < ratio){//success
@@ -155,6 +156,7 @@ static void one_step(apop_data *d, gsl_vector *draw, apop_model *m, apop_mcmc_se
         gsl_vector_memcpy(draw, clean_copy);
         apop_data_unpack(draw, m->parameters); //keep the last success in m->parameters.
     }
+    gsl_vector_free(clean_copy);
     if (out_row>=0) gsl_vector_memcpy(Apop_rv(out, out_row), draw);
 }
 
@@ -252,11 +254,13 @@ OMP_critical (metro_draw)
 }
 
 
+//How many periods are discarded; one row is reported for each of the others.
+static long burnin_periods(apop_mcmc_settings *s){ return s->periods * s->burnin; }
+
 void main_mcmc_loop(apop_data *d, apop_model *m, apop_data *out, gsl_vector *draw,
                         apop_mcmc_settings *s, gsl_rng *rng, int *constraint_fails){
-		double integerpart_periods_burnin = GSL_NAN; modf((double)(s->periods)*s->burnin,&integerpart_periods_burnin);
-    s->accept_count = 0;
-    int out_row = -lround(integerpart_periods_burnin);
+    s->accept_count = s->reject_count = 0;
+    int out_row = -burnin_periods(s);
     int block = 0;
     for (s->proposal_count=1; s->proposal_count< s->periods+1; s->proposal_count++, out_row++){
         one_step(d, draw, m, s, rng, constraint_fails, out, block, out_row);
@@ -363,9 +367,7 @@ static apop_model *run_metropolis(apop_data *d, gsl_rng *rng, apop_model *m){
                 1, "Burn-in should be a fraction of the number of periods, "
                    "not a whole number of periods. Rescaling to burnin=%g."
                    , s->burnin/double_periods);
-		double integerpart_periods_cburnin = GSL_NAN; modf(double_periods*(1.0-s->burnin),&integerpart_periods_cburnin);
-		const size_t data_size1 = llround(integerpart_periods_cburnin);
-    apop_data *out = apop_data_alloc(data_size1, drawv->size);
+    apop_data *out = apop_data_alloc(s->periods - burnin_periods(s), drawv->size);
 
     if (!s->proposals){
         set_block_count_and_block_starts(m->parameters, s, drawv->size);
@@ -391,9 +393,10 @@ static apop_model *run_metropolis(apop_data *d, gsl_rng *rng, apop_model *m){
     Apop_notify(2, "M-H sampling accept percent = %3.3f%%", 100*(0.0+s->accept_count)/s->periods);
     Apop_stopif(constraint_fails, out->error='c', 2, "%i proposals failed to meet your model's parameter constraints", constraint_fails);
 
-    out->weights = gsl_vector_alloc(s->periods*(1-s->burnin));
+    out->weights = gsl_vector_alloc(out->matrix->size1);
     gsl_vector_set_all(out->weights, 1);
     apop_model *outp = apop_estimate(out, apop_pmf);
+    if (constraint_fails) outp->error='c';
     if (s->own_base) apop_model_free(s->base_model);
     s->own_base = 0;
     s->pmf = outp;
-- 
2.43.0


From c5cfaee99e5da281aeeeb4dc856a41a11aca9ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:45 +0000
Subject: [PATCH 081/192] fix: Metropolis-Hastings runs with the user's own
 proposals

---
 apop_mcmc.m4.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/apop_mcmc.m4.c b/apop_mcmc.m4.c
index 64b7036..f315f04 100644
--- a/apop_mcmc.m4.c
+++ b/apop_mcmc.m4.c
@@ -10,13 +10,16 @@
 
 static void step_to_vector(double const *d, apop_mcmc_proposal_s *ps, apop_mcmc_settings *ms){
     apop_model *m = ps->proposal;
-    memcpy(m->parameters->vector->data, d, sizeof(double)*m->parameters->vector->size);
+    gsl_vector *v = m->parameters->vector;
+    if (m->dsize == 1) gsl_vector_set(v, 0, *d); //a scalar draw moves only the 0th parameter.
+    else memcpy(v->data, d, sizeof(double)*v->size);
 
     ps->adapt_fn(ps, ms);
 }
 
 int sigma_adapt(apop_mcmc_proposal_s *ps, apop_mcmc_settings *ms){
     apop_model *m = ps->proposal;
+    if (!m->parameters->matrix) return 0; //no covariance to adapt.
     //accept rate. Add 1% * target to numerator; 1% to denominator, to slow early jumps
     double ar = (ps->accept_count + .01*ms->periods *ms->target_accept_rate)
                /(ps->accept_count + ps->reject_count + .01*ms->periods);
@@ -369,8 +372,9 @@ static apop_model *run_metropolis(apop_data *d, gsl_rng *rng, apop_model *m){
                    , s->burnin/double_periods);
     apop_data *out = apop_data_alloc(s->periods - burnin_periods(s), drawv->size);
 
-    if (!s->proposals){
+    if (!s->block_starts)
         set_block_count_and_block_starts(m->parameters, s, drawv->size);
+    if (!s->proposals){
         s->proposals = calloc(s->block_count, sizeof(apop_mcmc_proposal_s));
         s->proposal_is_cp = 1;
         for (int i=0; i< s->block_count; i++){
@@ -384,6 +388,11 @@ static apop_model *run_metropolis(apop_data *d, gsl_rng *rng, apop_model *m){
         }
     }
 
+    for (int i=0; i< s->block_count; i++){
+        if (!s->proposals[i].step_fn)  s->proposals[i].step_fn  = s->base_step_fn;
+        if (!s->proposals[i].adapt_fn) s->proposals[i].adapt_fn = s->base_adapt_fn;
+    }
+
     //if s->start_at =='p', we already have m->parameters in drawv.
     if (s->start_at == '1') gsl_vector_set_all(drawv, 1);
     int constraint_fails = 0;
-- 
2.43.0


From 1790be906c0c5c56db9ac218cf11764a48c59ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:45 +0000
Subject: [PATCH 082/192] fix: updating with a likelihood that has no
 constraint

---
 apop_update.m4.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apop_update.m4.c b/apop_update.m4.c
index 28ee46c..bbfd067 100644
--- a/apop_update.m4.c
+++ b/apop_update.m4.c
@@ -33,7 +33,7 @@ static long double product_constraint(apop_data *data, apop_model *m){
     gsl_vector *v = apop_data_pack(m->parameters);
     apop_data_unpack(v, pl[1]->parameters);
     gsl_vector_free(v);
-    return pl[1]->constraint(data, pl[1]);
+    return pl[1]->constraint ? pl[1]->constraint(data, pl[1]) : 0;
 }
 
 apop_model *product = &(apop_model){"product of two models", 
-- 
2.43.0


From f09fabd3b973940520240e4a45a432af66eea613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:19 +0000
Subject: [PATCH 083/192] fix: names own their title, copies of untitled sets
 have none, and likelihoods free their working space

---
 apop_data.m4.c           | 34 +++++++++++++++++++++++-----------
 apop_model.m4.c          |  3 +--
 apop_name.m4.c           |  3 ++-
 model/apop_ols.c         |  3 +++
 transform/apop_mixture.c |  1 +
 5 files changed, 30 insertions(+), 14 deletions(-)

diff --git a/apop_data.m4.c b/apop_data.m4.c
index 04e5beb..141c518 100644
--- a/apop_data.m4.c
+++ b/apop_data.m4.c
@@ -167,6 +167,17 @@ char apop_data_free_base(apop_data *freeme){
     return 0;
 }
 
+static int same_string(char const *l, char const *r){ return l==r || (l && r && !strcmp(l, r)); }
+
+/* Views share their names with the set they view, so where the names already match leave them be,
+and never free a title or vector name to which another view may point. */
+static void replace_string(char **target, char const *source){
+    char *old = *target;
+    if (same_string(old, source)) return;
+    Asprintf(target, "%s", source);
+    free(old);
+}
+
 /** Copy one \ref apop_data structure to another.
 
 This function does not allocate the output structure or the vector, matrix, text,
@@ -228,17 +239,18 @@ void apop_data_memcpy(apop_data *out, const apop_data *in){
     }
     if (in->names){
         if (!out->names) out->names = apop_name_alloc();
-        Asprintf(&out->names->title, "%s", in->names->title);
-        if (out->names->vector && in->names->vector) {Asprintf(&out->names->vector, "%s", in->names->vector);}
-        for (int i=0; i< in->names->rowct; i++)
-            if (i< out->names->rowct) {Asprintf(out->names->row+i, "%s", in->names->row[i]);}
-            else  apop_name_add(out->names, in->names->row[i], 'r');
-        for (int i=0; i< in->names->colct; i++)
-            if (i< out->names->colct) {Asprintf(out->names->col+i, "%s", in->names->col[i]);}
-            else  apop_name_add(out->names, in->names->col[i], 'c');
-        for (int i=0; i< in->names->textct; i++)
-            if (i< out->names->textct) {Asprintf(out->names->text+i, "%s", in->names->text[i]);}
-            else  apop_name_add(out->names, in->names->text[i], 't');
+        if (in->names->title && !same_string(out->names->title, in->names->title)) {Asprintf(&out->names->title, "%s", in->names->title);}
+        if (out->names->vector && in->names->vector && !same_string(out->names->vector, in->names->vector)) {Asprintf(&out->names->vector, "%s", in->names->vector);}
+        #define Replace_names(list, type)                                        \
+            for (int i=0; i< in->names->list##ct; i++)                           \
+                if (i< out->names->list##ct) {                                   \
+                    replace_string(out->names->list+i, in->names->list[i]);      \
+                    out->names->list##hash[i] = in->names->list##hash[i];        \
+                } else  apop_name_add(out->names, in->names->list[i], type);
+        Replace_names(row, 'r')
+        Replace_names(col, 'c')
+        Replace_names(text, 't')
+        #undef Replace_names
     }
     out->textsize[0] = in->textsize[0]; 
     out->textsize[1] = in->textsize[1]; 
diff --git a/apop_model.m4.c b/apop_model.m4.c
index 4778932..6c7b5b0 100644
--- a/apop_model.m4.c
+++ b/apop_model.m4.c
@@ -32,8 +32,7 @@ apop_model * apop_model_clear(apop_data * data, apop_model *model){
     if (!model->parameters && (vsize || msize1*msize2)) 
         model->parameters = apop_data_alloc(vsize, msize1, msize2);
     if (!model->info) model->info = apop_data_alloc();
-    if (model->info->names->title && !strlen(model->info->names->title))
-        free(model->info->names->title);
+    free(model->info->names->title);
     Asprintf(&model->info->names->title, "<Info>");
     if (!model->data) model->data = data;
 	return model;
diff --git a/apop_name.m4.c b/apop_name.m4.c
index a78a0d6..e24b650 100644
--- a/apop_name.m4.c
+++ b/apop_name.m4.c
@@ -130,6 +130,7 @@ void  apop_name_free(apop_name * free_me){
 	for (size_t i=0; i < free_me->colct; i++)  free(free_me->col[i]);
 	for (size_t i=0; i < free_me->textct; i++) free(free_me->text[i]);
 	for (size_t i=0; i < free_me->rowct; i++)  free(free_me->row[i]);
+    free(free_me->title);
     if (free_me->vector) free(free_me->vector);
 	free(free_me->col);  free(free_me->colhash);
 	free(free_me->text); free(free_me->texthash);
@@ -193,7 +194,7 @@ apop_name * apop_name_copy(apop_name *in){
     apop_name_stack(out, in, 'c');
     apop_name_stack(out, in, 'r');
     apop_name_stack(out, in, 't');
-    Asprintf(&out->title, "%s", in->title);
+    if (in->title) Asprintf(&out->title, "%s", in->title);
     return out;
 }
 
diff --git a/model/apop_ols.c b/model/apop_ols.c
index 7424dad..49be4dc 100644
--- a/model/apop_ols.c
+++ b/model/apop_ols.c
@@ -170,6 +170,7 @@ static long double ols_log_likelihood (apop_data *d, apop_model *p){
         weight = d->weights ? gsl_vector_get(d->weights, i) : 1; 
         ll += logl(gsl_ran_gaussian_pdf(gsl_vector_get(errors, i), sigma)* weight * x_prob);
     }
+    gsl_vector_free(errors);
     return ll;
 }
 
@@ -203,6 +204,8 @@ static void ols_score(apop_data *d, gsl_vector *gradient, apop_model *p){
             *gsl_vector_ptr(gradient, j) += weight * apop_data_get(d, i, j) * gsl_vector_get(normscore, 0);
 	} 
     gsl_vector_free(errors);
+    gsl_vector_free(normscore);
+    apop_data_free(subdata);
     apop_model_free(norm);
 }
 
diff --git a/transform/apop_mixture.c b/transform/apop_mixture.c
index d871d3e..d87d0a9 100644
--- a/transform/apop_mixture.c
+++ b/transform/apop_mixture.c
@@ -303,6 +303,7 @@ But I have logs, and want to stay in log-format for as long as possible, to prev
         Apop_col_v(lls, i, onecol);
         gsl_vector_set(ms->next_weights, i, apop_sum(onecol)/lls->matrix->size1);
     }
+    apop_data_free(lls);
     return total_ll;
 }
 
-- 
2.43.0


From b522d5970f6da5cad254fbc31979e301c2f6f66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:59 +0000
Subject: [PATCH 084/192] fix: regenerate apop.h before building the
 subdirectories that include it

---
 install/Makefile.am | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/install/Makefile.am b/install/Makefile.am
index 6bd7fc5..3f4590c 100644
--- a/install/Makefile.am
+++ b/install/Makefile.am
@@ -19,6 +19,8 @@ LIBAPOPHENIA_LT_VERSION = 2:0:0
 
 SUBDIRS = transform model . cmd eg tests docs
 
+## The subdirectories need an up-to-date apop.h before the top directory is built.
+BUILT_SOURCES = apop.h
 
 include_HEADERS = apop.h
 
-- 
2.43.0


From a797253b08719318dacc4ea3eb473f98e7396caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:06 +0000
Subject: [PATCH 085/192] fix: Metropolis-Hastings blocks skip info pages, and
 a chain's settings are looked up under the lock

---
 apop_mcmc.m4.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/apop_mcmc.m4.c b/apop_mcmc.m4.c
index f315f04..c0fa8e3 100644
--- a/apop_mcmc.m4.c
+++ b/apop_mcmc.m4.c
@@ -97,6 +97,13 @@ static void setup_normal_proposals(apop_mcmc_proposal_s *s, int tsize, apop_mcmc
     s->adapt_fn = settings->base_adapt_fn;
 }
 
+//As with apop_data_pack, info pages, like <Covariance>, hold no parameters.
+static apop_data *next_parameter_page(apop_data *d){
+    do d = d->more;
+    while (d && apop_regex(d->names->title, "^<.*>$"));
+    return d;
+}
+
 static void set_block_count_and_block_starts(apop_data *in, 
                                   apop_mcmc_settings *s, size_t total_len){
     if (s->gibbs_chunks =='a') {
@@ -105,12 +112,12 @@ static void set_block_count_and_block_starts(apop_data *in,
         s->block_starts[1] = total_len;
     } else if (s->gibbs_chunks =='b') {
         s->block_count = 0;
-        for (apop_data *d = in; d; d=d->more)
+        for (apop_data *d = in; d; d=next_parameter_page(d))
             s->block_count += !!d->vector + !!d->matrix + !!d->weights;
 
         s->block_starts = calloc(s->block_count+1, sizeof(size_t));
         int this=1, ctr=0;
-        for (apop_data *d = in; d; d=d->more){
+        for (apop_data *d = in; d; d=next_parameter_page(d)){
             #define markit(test, value) if (test)  \
                 s->block_starts[this++] = ctr += value; 
 
@@ -198,6 +205,7 @@ static int add_row(apop_data *chain, apop_model *model){
     }
     apop_pmf_settings *ps = apop_settings_get_group(model, apop_pmf);
     if (ps && model->data == chain) //the CMF, if any, is out of date.
+        OMP_critical (metro_state) //other threads may be looking for the mcmc group.
         Apop_model_add_group(model, apop_pmf, .draw_index = ps->draw_index, .total_weight = ps->total_weight+1);
     return rows;
 }
@@ -232,10 +240,10 @@ int apop_model_metropolis_draw(double *out, gsl_rng* rng, apop_model *model){
     if (!has_run(model))
         OMP_critical (metropolis) //others wait until the chain is ready.
         if (!has_run(model)) run_metropolis(model->data, rng, model);
-    apop_mcmc_settings *s = apop_settings_get_group(model, apop_mcmc);
     int constraint_fails = 0;
 OMP_critical (metro_draw)
 {
+    apop_mcmc_settings *s = apop_settings_get_group(model, apop_mcmc);
     apop_model *m = s->base_model ? s->base_model : model;
     gsl_vector_view vv = gsl_vector_view_array(out, s->block_starts[s->block_count]);
     apop_data_pack(m->parameters, &(vv.vector));
-- 
2.43.0


From d781a338db4dc337274ab5ef882ac1aa11afd8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:19 +0000
Subject: [PATCH 086/192] fix: updating by draws from the prior redraws those
 that failed

---
 apop_update.m4.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/apop_update.m4.c b/apop_update.m4.c
index bbfd067..8054418 100644
--- a/apop_update.m4.c
+++ b/apop_update.m4.c
@@ -241,7 +241,8 @@ APOP_VAR_END_HEAD
 
     for (int i=0; i< s->periods; i++){
         newdraw:
-        apop_draw(draw->data, rng, prior);
+        Apop_stopif(apop_draw(draw->data, rng, prior), goto newdraw,
+                1, "Trouble drawing from the prior. Throwing the draw out and trying again.");
         apop_data_unpack(draw, likelihood->parameters);
         long double p = apop_p(data, likelihood);
 
-- 
2.43.0


From 57c49d78a628103e117c675314a0a59b4e5fd8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:25 +0000
Subject: [PATCH 087/192] fix: raking that reaches the iteration limit is
 marked as unconverged

---
 apop_rake.m4.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apop_rake.m4.c b/apop_rake.m4.c
index aa00c42..2e0e291 100644
--- a/apop_rake.m4.c
+++ b/apop_rake.m4.c
@@ -322,7 +322,7 @@ static void c_loglin(const apop_data *config, const apop_data *indata,
     }
     cleanup(index, rakeinfos,contrast_ct);
     gsl_vector_free(previous);
-    Apop_stopif(k == maxit, fit->error='c', 0, "Maximum number of iterations reached.");
+    Apop_stopif(k > maxit, fit->error='c', 0, "Maximum number of iterations reached.");
 }
 
 char *pipe_parse = "[ \n\t]*([^| \n\t]+)[ \n\t]*([|]|$)";
-- 
2.43.0


From faf2cfe8948e5b99ad3e23bcb9f0c5ca98df8e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:25 +0000
Subject: [PATCH 088/192] fix: raking names its scratch table after the OpenMP
 thread

---
 apop_rake.m4.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apop_rake.m4.c b/apop_rake.m4.c
index 2e0e291..a828148 100644
--- a/apop_rake.m4.c
+++ b/apop_rake.m4.c
@@ -546,7 +546,7 @@ APOP_VAR_HEAD apop_data * apop_rake(char const *margin_table, char * const*var_l
     if (init_count_col && !init_table) init_table = margin_table;
     double apop_varad_var(nudge, 0);
 APOP_VAR_ENDHEAD
-    #ifdef OpenMP
+    #ifdef _OPENMP
         int run_number = omp_get_thread_num();
     #else
         int run_number = 0;
-- 
2.43.0


From 83636ffa5659a1b77dbc41a3c2adfaac8452b3ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:25 +0000
Subject: [PATCH 089/192] fix: raking lists the variables of a wide table
 without overrunning the text grid

---
 apop_rake.m4.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/apop_rake.m4.c b/apop_rake.m4.c
index a828148..ec18d4b 100644
--- a/apop_rake.m4.c
+++ b/apop_rake.m4.c
@@ -344,12 +344,16 @@ apop_data *get_var_list(char const *margin_table, char const *count_col, char co
                     0, "I need a list of the full set of variable "
                        "names sent as .varlist= (char *[]){\"var1\", \"var2\",...}");
         //use SQLite's table_info, then shift the second col to the first.
-        all_vars_d = apop_query_to_text("PRAGMA table_info(%s)", margin_table);
+        apop_data *info = apop_query_to_text("PRAGMA table_info(%s)", margin_table);
+        Apop_stopif(!info || info->error, apop_data_free(info); apop_return_data_error(y),
+                    0, "Trouble getting/parsing the list of variables.");
+        all_vars_d = apop_text_alloc(NULL, 1, info->textsize[0]);
         int ctr=0;
-        for (int i=0; i< all_vars_d->textsize[0]; i++)
-            if (all_vars_d->text[i][1] && (count_col ? strcmp(all_vars_d->text[i][1], count_col) : 1)
-                 && (init_count_col ? strcmp(all_vars_d->text[i][1], init_count_col): 1))
-                    apop_text_set(all_vars_d, 0, ctr++, "%s", all_vars_d->text[i][1]);
+        for (int i=0; i< info->textsize[0]; i++)
+            if (info->text[i][1] && (count_col ? strcmp(info->text[i][1], count_col) : 1)
+                 && (init_count_col ? strcmp(info->text[i][1], init_count_col): 1))
+                    apop_text_set(all_vars_d, 0, ctr++, "%s", info->text[i][1]);
+        apop_data_free(info);
         apop_text_alloc(all_vars_d, 1, ctr);
         *var_ct = ctr;
     } else {
-- 
2.43.0


From 46c8ba9966c0222eac2ebbfbebd59e16cf72d20c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:49 +0000
Subject: [PATCH 090/192] fix: raking reports a contrast on an unknown variable

---
 apop_rake.m4.c | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/apop_rake.m4.c b/apop_rake.m4.c
index ec18d4b..8795a6f 100644
--- a/apop_rake.m4.c
+++ b/apop_rake.m4.c
@@ -330,8 +330,9 @@ char *pipe_parse = "[ \n\t]*([^| \n\t]+)[ \n\t]*([|]|$)";
 apop_data **generate_list_of_contrasts(char *const *contras_in, int contrast_ct){
   apop_data** out = malloc(sizeof(apop_data*)* contrast_ct);
 	for (int i=0; i< contrast_ct; i++) {
+        out[i] = NULL;
         apop_regex(contras_in[i], pipe_parse, out+i);
-        apop_text_alloc(out[i], *out[i]->textsize, 1);
+        if (out[i]) apop_text_alloc(out[i], *out[i]->textsize, 1);
     }
 	return out;
 }
@@ -364,14 +365,6 @@ apop_data *get_var_list(char const *margin_table, char const *count_col, char co
     return all_vars_d;
 }
 
-static int get_var_index(char *const *all_vars, int len, char *findme){
-	for (int i=0; i< len; i++)
-		if (all_vars[i] && !strcmp(all_vars[i], findme))
-			return i;
-	Apop_notify(0, "I couldn't find %s in the full list of variables. Returning -1.", findme);
-    return -1;
-}
-
 void nan_to_zero(double *in){ if (gsl_isnan(*in)) *in=0;}
 
 double nudge_zeros(apop_data *in, void *nudge){
@@ -387,6 +380,16 @@ int find_in_allvars(char const *in, apop_data const *allvars){
                                  "your list of all variables.", in);
 }
 
+//Every contrast has to have something in it, and has to be in terms of the list of variables.
+static int check_contrasts(apop_data *const *contras, int contrast_ct, apop_data const *allvars){
+    for (int i=0; i< contrast_ct; i++){
+        Apop_stopif(!contras[i] || contras[i]->error || !*contras[i]->textsize, return -1, 0, "Contrast %i is empty.", i);
+        for (int j=0; j< *contras[i]->textsize; j++)
+            if (find_in_allvars(*contras[i]->text[j], allvars)==-1) return -1;
+    }
+    return 0;
+}
+
 /* If you are fully synthesizing or nudging zero cells, then calculate the set of 
    cells that could be nonzero (given the margin information). 
    * If using only an init_table, then that's your list of nonzero cells right there.
@@ -408,11 +411,8 @@ static int setup_nonzero_contrast(char const *margin_table,
         xprintf(&q, "%s%s (select distinct %s  from %s) \n", 
                   q, i>0 ? "natural join" : "", 
                   apop_text_paste(contras[i], .between=","),  margin_table);
-        for (int j=0; j<*contras[i]->textsize; j++){
-            int val=find_in_allvars(*contras[i]->text[j], allvars);
-            Apop_stopif(val==-1, return -1, 0, "Error setting up contrasts");
-            used[val]=true; 
-        }
+        for (int j=0; j<*contras[i]->textsize; j++)
+            used[find_in_allvars(*contras[i]->text[j], allvars)]=true;
     } 
     //make sure all variables are joined in. 
     for (int i=0; i < allvars->textsize[1]; i++)
@@ -562,6 +562,9 @@ APOP_VAR_ENDHEAD
     int tt = all_vars_d->textsize[0]; all_vars_d->textsize[0] = 1; //mask all but the first row
     char *list_of_fields = apop_text_paste(all_vars_d, .between=", ");
 
+    Apop_stopif(check_contrasts(contras, contrast_ct, all_vars_d), apop_return_data_error(i),
+            0, "Error setting up contrasts.");
+
     if (nudge || !init_table){
         char *tab;
         Asprintf(&tab, "apop_zerocontrasts_%i", run_number);
@@ -627,7 +630,7 @@ APOP_VAR_ENDHEAD
     contrast_grid = apop_data_calloc(var_ct, contrast_ct);
 	for (int i=0; i< contrast_ct; i++)
 		for (int j=0; j< contras[i]->textsize[0]; j++)
-			apop_data_set(contrast_grid, get_var_index(*all_vars_d->text, all_vars_d->textsize[1], contras[i]->text[j][0]), i, 1);
+			apop_data_set(contrast_grid, find_in_allvars(contras[i]->text[j][0], all_vars_d), i, 1);
 	
     if (!init_table || nudge)
         for (int i=0; i< contrast_ct; i++) apop_data_free(contras[i]);
-- 
2.43.0


From 12651e678bd3f44794b64ffa1a813fc741d3377c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:09 +0000
Subject: [PATCH 091/192] fix: raking cleans up its scratch table on errors,
 and reports a blank starting table

---
 apop_rake.m4.c | 178 ++++++++++++++++++++++++++-----------------------
 1 file changed, 94 insertions(+), 84 deletions(-)

diff --git a/apop_rake.m4.c b/apop_rake.m4.c
index 8795a6f..d5c8b46 100644
--- a/apop_rake.m4.c
+++ b/apop_rake.m4.c
@@ -406,11 +406,12 @@ static int setup_nonzero_contrast(char const *margin_table,
     bool used[allvars->textsize[1]];
     memset(used, 0, sizeof(bool)*allvars->textsize[1]);
 	Asprintf(&q, "create table apop_zerocontrasts_%i as select %s, %g from\n", 
-            run_number, apop_text_paste(allvars, .between=","), nudge);
+            run_number, list_of_fields, nudge);
     for (int i=0; i < contrast_ct; i++){
+        char *contrast_fields = apop_text_paste(contras[i], .between=",");
         xprintf(&q, "%s%s (select distinct %s  from %s) \n", 
-                  q, i>0 ? "natural join" : "", 
-                  apop_text_paste(contras[i], .between=","),  margin_table);
+                  q, i>0 ? "natural join" : "", contrast_fields,  margin_table);
+        free(contrast_fields);
         for (int j=0; j<*contras[i]->textsize; j++)
             used[find_in_allvars(*contras[i]->text[j], allvars)]=true;
     } 
@@ -424,11 +425,77 @@ static int setup_nonzero_contrast(char const *margin_table,
         //Keep out margins with values for now; join them in below.
         xprintf(&q, "%s except\nselect %s, %g from %s", q, list_of_fields, nudge, margin_table);
     }
-	Apop_stopif(apop_query("%s", q), return 1, 0, "query failed.");
+	Apop_stopif(apop_query("%s", q), free(q); return 1, 0, "query failed.");
     free(q);
     return 0;
 }
 
+/* Query the margins and the starting table, and rake the one to the other. The scratch
+table, if it is needed, has already been set up. */
+static apop_data *query_and_rake(char const *margin_table, apop_data const *all_vars, apop_data *const *contras,
+        int contrast_ct, char const *list_of_fields, char const *structural_zeros, int max_iterations, double tolerance,
+        char const *count_col, char const *init_table, char const *init_count_col, double nudge, int run_number){
+    int var_ct = all_vars->textsize[1];
+    apop_data *d=NULL, *fit=NULL, *contrast_grid=NULL;
+    char *initt=NULL, *init_q=NULL, *marginq=NULL, *countstr, *cc, *format=strdup("w");
+    for (int i =0 ; i< var_ct; i++)
+        xprintf(&format, "m%s", format);
+
+    if (init_table){
+        //handle structural zeros via subquery
+        //note that margin data may have invalid rows.
+        if (structural_zeros) 
+             Asprintf(&initt, "(select * from %s where not (%s))", init_table, structural_zeros);
+        else Asprintf(&initt, "%s", init_table);
+        if (init_count_col) Asprintf(&countstr, "sum(%s) as %s", init_count_col, init_count_col);
+        else                countstr = strdup("count(*)");
+        Asprintf(&init_q, "select %s, %s from %s group by %s", 
+                           list_of_fields, countstr, initt, list_of_fields);
+        free(countstr);
+        free(initt);
+    }
+
+    if (count_col) Asprintf(&cc, "sum(%s)", count_col);
+    else           cc = strdup("count(*)");
+    Asprintf(&marginq, "select %s, %s  from %s\ngroup by %s", 
+                       list_of_fields, cc, margin_table, list_of_fields);
+    free(cc);
+
+    d = apop_query_to_mixed_data(format, "%s", marginq);
+    Apop_stopif(!d || d->error, goto broken,
+            0, "This query:\n%s\ngenerated a blank or broken table.", marginq);
+
+    if (init_table)
+        fit = (nudge) 
+               ? apop_query_to_mixed_data(format, "%s\nunion\nselect * from apop_zerocontrasts_%i ", init_q, run_number)
+               : apop_query_to_mixed_data(format, "%s", init_q);
+    else
+        fit = apop_query_to_mixed_data(format, "select * from apop_zerocontrasts_%i ", run_number);
+    Apop_stopif(!fit, goto broken, 0, "Query for the starting table returned a blank table.");
+    Apop_stopif(fit->error, goto broken, 0, "Query error.");
+    if (!init_table) gsl_vector_set_all(fit->weights, nudge ? nudge : 1);
+
+    apop_vector_apply(fit->weights, nan_to_zero);
+    if (nudge) apop_map(fit, .fn_rp=nudge_zeros, .param=&nudge, .inplace='v');
+
+    contrast_grid = apop_data_calloc(var_ct, contrast_ct);
+	for (int i=0; i< contrast_ct; i++)
+		for (int j=0; j< contras[i]->textsize[0]; j++)
+			apop_data_set(contrast_grid, find_in_allvars(contras[i]->text[j][0], all_vars), i, 1);
+
+    c_loglin(contrast_grid, d, fit, tolerance, max_iterations);
+	apop_data_free(contrast_grid);
+    apop_data_free(d);
+    free(init_q); free(marginq); free(format);
+	return fit;
+
+broken:
+    apop_data_free(d);
+    apop_data_free(fit);
+    free(init_q); free(marginq); free(format);
+    apop_return_data_error(q);
+}
+
 /** Fit a log-linear model via iterative proportional fitting, aka raking.
 
 Raking has many uses. The <a href="http://modelingwithdata.org/arch/00000138.htm">Modeling with Data blog</a> presents a series of discussions 
@@ -556,91 +623,34 @@ APOP_VAR_ENDHEAD
         int run_number = 0;
     #endif
 
-	apop_data **contras = generate_list_of_contrasts(contrasts, contrast_ct);
     apop_data *all_vars_d = get_var_list(margin_table, count_col, init_count_col, var_list, &var_ct);
     Apop_stopif(all_vars_d->error, return all_vars_d, 0, "Trouble setting up the list of variables.");
-    int tt = all_vars_d->textsize[0]; all_vars_d->textsize[0] = 1; //mask all but the first row
+	apop_data **contras = generate_list_of_contrasts(contrasts, contrast_ct);
     char *list_of_fields = apop_text_paste(all_vars_d, .between=", ");
-
-    Apop_stopif(check_contrasts(contras, contrast_ct, all_vars_d), apop_return_data_error(i),
-            0, "Error setting up contrasts.");
-
-    if (nudge || !init_table){
-        char *tab;
-        Asprintf(&tab, "apop_zerocontrasts_%i", run_number);
-        apop_table_exists(tab, 'd');
-        free(tab);
-        Apop_stopif(setup_nonzero_contrast(margin_table, all_vars_d,  
-                        run_number, list_of_fields, contras, contrast_ct, (nudge ? nudge : 1), structural_zeros, init_table),
-                 apop_return_data_error(q),
-                 0, "Couldn't calculate the set of nonzero cells.");
-    }
-
-    char *initt=NULL; //handle structural zeros via subquery
-    //note that margin data may have invalid rows.
-    if (init_table){
-        if (structural_zeros) 
-             Asprintf(&initt, "(select * from %s where not (%s))", init_table, structural_zeros);
-        else Asprintf(&initt, "%s", init_table);
-    }
-    char *init_q, *pre_init_q = NULL;
-    if (init_table){
-        char *countstr;
-        if (init_count_col) Asprintf(&countstr, "sum(%s) as %s", init_count_col, init_count_col);
-        else                Asprintf(&countstr, "count(%s)", **all_vars_d->text);
-        Asprintf(&init_q, "select %s, %s from %s group by %s", 
-                           list_of_fields, countstr, initt, list_of_fields);
-        free(countstr);
-    }
-
-    char *marginq, *cc; 
-    if (count_col) Asprintf(&cc, "sum(%s)", count_col);
-    else           cc = strdup("count(*)");
-    Asprintf(&marginq, "select %s, %s  from %s\ngroup by %s", 
-                       list_of_fields, cc, margin_table, list_of_fields);
-    free(cc); free(initt);
-
-    char *format=strdup("w");
-    for (int i =0 ; i< var_ct; i++)
-        xprintf(&format, "m%s", format);
-    apop_data *d, *contrast_grid;
-    d = apop_query_to_mixed_data(format, "%s", marginq);
-    Apop_stopif(!d || d->error, apop_return_data_error(q),
-            0, "This query:\n%s\ngenerated a blank or broken table.", marginq);
-    free(marginq);
-
-    if (pre_init_q) Apop_stopif(apop_query("%s", pre_init_q), apop_return_data_error(q),
-            0, "This query:\n%s\ngenerated a blank or broken table.", pre_init_q);
-
-    apop_data *fit;
-    if (init_table) {
-        fit = (nudge) 
-               ? apop_query_to_mixed_data(format, "%s\nunion\nselect * from apop_zerocontrasts_%i ", init_q, run_number)
-               : apop_query_to_mixed_data(format, "%s", init_q);
-        Apop_stopif(!fit, apop_return_data_error(q), 0, "Query returned a blank table.");
-        Apop_stopif(fit->error, apop_return_data_error(q), 0, "Query error.");
-    } else {
-        fit = apop_query_to_mixed_data(format, "select * from apop_zerocontrasts_%i ", run_number);
-        gsl_vector_set_all(fit->weights, nudge ? nudge : 1);
+    bool use_scratch_table = nudge || !init_table;
+    apop_data *out = NULL;
+
+    if (check_contrasts(contras, contrast_ct, all_vars_d)){
+        out = apop_data_alloc();
+        out->error = 'i';
+    } else if (use_scratch_table){
+        apop_query("drop table if exists apop_zerocontrasts_%i", run_number);
+        if (setup_nonzero_contrast(margin_table, all_vars_d,  
+                        run_number, list_of_fields, contras, contrast_ct, (nudge ? nudge : 1), structural_zeros, init_table)){
+            out = apop_data_alloc();
+            out->error = 'q';
+        }
     }
-    free(format);
-    apop_vector_apply(fit->weights, nan_to_zero);
-    if (nudge) apop_map(fit, .fn_rp=nudge_zeros, .param=&nudge);
+    Apop_stopif(out && out->error=='i', , 0, "Error setting up contrasts.");
+    Apop_stopif(out && out->error=='q', , 0, "Couldn't calculate the set of nonzero cells.");
 
-    contrast_grid = apop_data_calloc(var_ct, contrast_ct);
-	for (int i=0; i< contrast_ct; i++)
-		for (int j=0; j< contras[i]->textsize[0]; j++)
-			apop_data_set(contrast_grid, find_in_allvars(contras[i]->text[j][0], all_vars_d), i, 1);
-	
-    if (!init_table || nudge)
-        for (int i=0; i< contrast_ct; i++) apop_data_free(contras[i]);
+    if (!out) out = query_and_rake(margin_table, all_vars_d, contras, contrast_ct, list_of_fields, structural_zeros,
+                            max_iterations, tolerance, count_col, init_table, init_count_col, nudge, run_number);
 
-    c_loglin(contrast_grid, d, fit, tolerance, max_iterations);
-    apop_data_free(d);
-    
-    all_vars_d->textsize[0] = tt;
+    if (use_scratch_table) apop_query("drop table if exists apop_zerocontrasts_%i", run_number);
+    for (int i=0; i< contrast_ct; i++) apop_data_free(contras[i]);
+    free(contras);
+    free(list_of_fields);
     apop_data_free(all_vars_d);
-    if (!init_table || nudge) apop_query("drop table apop_zerocontrasts_%i", run_number);
-	apop_data_free(contrast_grid);
-	return fit;
+	return out;
 }
-- 
2.43.0


From f11ebf8e3af619bbe714a26bb50904660a4a7373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:09 +0000
Subject: [PATCH 092/192] fix: nudging leaves the cells of a separate starting
 table alone

---
 apop_rake.m4.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/apop_rake.m4.c b/apop_rake.m4.c
index d5c8b46..991fc49 100644
--- a/apop_rake.m4.c
+++ b/apop_rake.m4.c
@@ -401,11 +401,11 @@ static int check_contrasts(apop_data *const *contras, int contrast_ct, apop_data
 static int setup_nonzero_contrast(char const *margin_table, 
               apop_data const * allvars, int run_number,
               char const *list_of_fields, apop_data *const* contras, int contrast_ct,
-              double nudge, char const * structural_zeros, bool have_init_table){
+              double nudge, char const * structural_zeros, char const *init_table){
     char *q;
     bool used[allvars->textsize[1]];
     memset(used, 0, sizeof(bool)*allvars->textsize[1]);
-	Asprintf(&q, "create table apop_zerocontrasts_%i as select %s, %g from\n", 
+	Asprintf(&q, "create table apop_zerocontrasts_%i as select %s, %.17g from\n", 
             run_number, list_of_fields, nudge);
     for (int i=0; i < contrast_ct; i++){
         char *contrast_fields = apop_text_paste(contras[i], .between=",");
@@ -421,9 +421,9 @@ static int setup_nonzero_contrast(char const *margin_table,
                   q, (!contrast_ct && i==0) ? "" : "natural join",
                   allvars->text[0][i],  margin_table);
     if (structural_zeros) xprintf(&q, "%s where not (%s)\n", q, structural_zeros);
-    if (have_init_table){
-        //Keep out margins with values for now; join them in below.
-        xprintf(&q, "%s except\nselect %s, %g from %s", q, list_of_fields, nudge, margin_table);
+    if (init_table){
+        //Keep out the cells of the starting table for now; join them in below.
+        xprintf(&q, "%s except\nselect %s, %.17g from %s", q, list_of_fields, nudge, init_table);
     }
 	Apop_stopif(apop_query("%s", q), free(q); return 1, 0, "query failed.");
     free(q);
-- 
2.43.0


From 1c64faf483a4c0e7bb2dc793a237ce18cbd07a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:31 +0000
Subject: [PATCH 093/192] fix: raking a starting table with missing values
 stays within the index

---
 apop_rake.m4.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apop_rake.m4.c b/apop_rake.m4.c
index 991fc49..dcbf7be 100644
--- a/apop_rake.m4.c
+++ b/apop_rake.m4.c
@@ -47,7 +47,7 @@ typedef void(*index_apply_f)(mnode_t * const * const, int, void*);
 /** \endcond */
 
 static int find_val(double findme, mnode_t *nodecol){
-    for (int i=0; nodecol[i].val <= findme || gsl_isnan(findme); i++)
+    for (int i=0; !isinf(nodecol[i].val); i++)
         if (nodecol[i].val == findme || (gsl_isnan(findme) && gsl_isnan(nodecol[i].val)))
            return i;
     return -1;
-- 
2.43.0


From a268a773ecb968bf4669ff6ba29b55ab050cc760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:41 +0000
Subject: [PATCH 094/192] fix: raking from a table of zeros is marked as an
 error

---
 apop_rake.m4.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/apop_rake.m4.c b/apop_rake.m4.c
index dcbf7be..bc302a5 100644
--- a/apop_rake.m4.c
+++ b/apop_rake.m4.c
@@ -294,6 +294,7 @@ static void c_loglin(const apop_data *config, const apop_data *indata,
     //fit->weights is either all 1 (for synthetic data) or the initial counts from the db.
     double x = apop_sum(indata->weights);
     double y = apop_sum(fit->weights);
+    Apop_stopif(!y, index_free(index); fit->error='i'; return, 0, "Every cell of the starting table is zero.");
     gsl_vector_scale(fit->weights, x/y);
 
 	int contrast_ct =config && config->matrix ? config->matrix->size2 : 0;
-- 
2.43.0


From d4e2156d76f1968e329928568431fea09d2a5e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:31 +0000
Subject: [PATCH 095/192] fix: zeroed data sets report allocation errors as
 documented

---
 apop.m4.h      |  2 +-
 apop_data.m4.c | 12 +++++++++---
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/apop.m4.h b/apop.m4.h
index f9d75ff..dc2f7ab 100644
--- a/apop.m4.h
+++ b/apop.m4.h
@@ -631,7 +631,7 @@ Apop_stopif(x < 0,  , 1, "warning: x is %g.", x);
 
 /** \cond doxy_ignore */
 //For use in stopif, to return a blank apop_data set with an error attached.
-#define apop_return_data_error(E) {apop_data *out=apop_data_alloc(); out->error=(#E)[0]; return out;}
+#define apop_return_data_error(E) {apop_data *out=apop_data_alloc(); if (out) out->error=(#E)[0]; return out;}
 
 /* The Apop_stopif macro is currently favored, but there's a long history of prior
    error-handling setups. Consider all of the Assert... macros below to be deprecated.
diff --git a/apop_data.m4.c b/apop_data.m4.c
index 141c518..4371524 100644
--- a/apop_data.m4.c
+++ b/apop_data.m4.c
@@ -89,17 +89,23 @@ APOP_VAR_ENDHEAD
     }
     else vsize = size1;
     apop_data *setme = malloc(sizeof(apop_data));
-    Apop_stopif(!setme, apop_return_data_error('a'), 0, "malloc failed. Probably out of memory.");
+    Apop_stopif(!setme, return NULL, 0, "malloc failed. Probably out of memory.");
     *setme = (apop_data) { }; //init to zero/NULL.
+    Set_gsl_handler
     if (msize2 >0 && msize1 > 0){
         setme->matrix = gsl_matrix_calloc(msize1,msize2);
-        Apop_stopif(!setme->matrix, apop_return_data_error('a'), 0, "malloc failed on a %zu x %i matrix. Probably out of memory.", msize1, msize2);
+        Apop_stopif(!setme->matrix, setme->error='a'; Unset_gsl_handler return setme,
+                0, "malloc failed on a %zu x %i matrix. Probably out of memory.", msize1, msize2);
     }
     if (vsize){
         setme->vector = gsl_vector_calloc(vsize);
-        Apop_stopif(!setme->vector, apop_return_data_error('a'), 0, "malloc failed on a vector of size %zu. Probably out of memory.", vsize);
+        Apop_stopif(!setme->vector, setme->error='a'; Unset_gsl_handler return setme,
+                0, "malloc failed on a vector of size %zu. Probably out of memory.", vsize);
     }
+    Unset_gsl_handler
     setme->names = apop_name_alloc();
+    Apop_stopif(!setme->names, setme->error='a'; return setme,
+                0, "couldn't allocate names. Probably out of memory.");
     return setme;
 }
 
-- 
2.43.0


From 1e9e121fe8360cdaab85706682ea23217d1a22f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:31 +0000
Subject: [PATCH 096/192] fix: a name that can't be allocated leaves the list
 of names as it was

---
 apop_name.m4.c | 58 +++++++++++++++++++++-----------------------------
 1 file changed, 24 insertions(+), 34 deletions(-)

diff --git a/apop_name.m4.c b/apop_name.m4.c
index e24b650..e82df2c 100644
--- a/apop_name.m4.c
+++ b/apop_name.m4.c
@@ -35,6 +35,20 @@ static unsigned long apop_name_hash(char const *str){
     return hash;
 }
 
+//All or nothing: if there isn't room for the name, the list is as it was.
+static int add_to_list(char ***list, unsigned long **hashes, int *ct, char const *add_me){
+    char *copy = strdup(add_me);
+    char **newlist = realloc(*list, sizeof(char*) * (*ct+1));
+    if (newlist) *list = newlist;
+    unsigned long *newhashes = realloc(*hashes, sizeof(unsigned long) * (*ct+1));
+    if (newhashes) *hashes = newhashes;
+    Apop_stopif(!copy || !newlist || !newhashes, free(copy); return -1,
+                        0, "Couldn't allocate space for a name. Out of memory?");
+    (*list)[*ct] = copy;
+    (*hashes)[*ct] = apop_name_hash(add_me);
+    return ++(*ct);
+}
+
 /** Adds a name to the \ref apop_name structure. Puts it at the end of the given list.
 
 \param n 	An existing, allocated \ref apop_name structure.
@@ -49,45 +63,21 @@ static unsigned long apop_name_hash(char const *str){
 int apop_name_add(apop_name * n, char const *add_me, char type){
     if (!add_me)
         return -1;
-	if (type == 'h'){
-        free(n->title);
-        Asprintf(&n->title, "%s", add_me);
+	if (type == 'h' || type == 'v'){
+        char **target = (type == 'h') ? &n->title : &n->vector;
+        char *copy = strdup(add_me);
+        Apop_stopif(!copy, return -1, 0, "Couldn't allocate space for a name. Out of memory?");
+        free(*target);
+        *target = copy;
         return 1;
 	} 
-	if (type == 'v'){
-		n->vector	= realloc(n->vector,  strlen(add_me) + 1);
-		strcpy(n->vector, add_me);
-		return 1;
-	} 
-	if (type == 'r'){
-		n->rowct++;
-		n->row	= realloc(n->row, sizeof(char*) * n->rowct);
-		n->row[n->rowct -1]	= malloc(strlen(add_me) + 1);
-		strcpy(n->row[n->rowct -1], add_me);
-		n->rowhash = realloc(n->rowhash, n->rowct * sizeof(unsigned long));
-        n->rowhash[n->rowct-1] = apop_name_hash(add_me);
-		return n->rowct;
-	} 
-	if (type == 't'){
-		n->textct++;
-		n->text	= realloc(n->text, sizeof(char*) * n->textct);
-		n->text[n->textct -1]	= malloc(strlen(add_me) + 1);
-		strcpy(n->text[n->textct -1], add_me);
-		n->texthash = realloc(n->texthash, n->textct * sizeof(unsigned long));
-        n->texthash[n->textct-1] = apop_name_hash(add_me);
-		return n->textct;
-	}
+	if (type == 'r') return add_to_list(&n->row, &n->rowhash, &n->rowct, add_me);
+	if (type == 't') return add_to_list(&n->text, &n->texthash, &n->textct, add_me);
 	//else assume (type == 'c')
-        Apop_stopif(type != 'c', /*keep going.*/, 
+    Apop_stopif(type != 'c', /*keep going.*/, 
             2,"You gave me >%c<, I'm assuming you meant c; "
                              " copying column names.", type);
-		n->colct++;
-		n->col = realloc(n->col, sizeof(char*) * n->colct);
-		n->col[n->colct -1]	= malloc(strlen(add_me) + 1);
-		strcpy(n->col[n->colct -1], add_me);
-		n->colhash = realloc(n->colhash, n->colct * sizeof(unsigned long));
-        n->colhash[n->colct-1] = apop_name_hash(add_me);
-		return n->colct;
+    return add_to_list(&n->col, &n->colhash, &n->colct, add_me);
 }
 
 /** Prints the given list of names to stdout. Useful for debugging.
-- 
2.43.0


From 10bb97a5da0ec3ec199ee7ea816a9e988226cb5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:31 +0000
Subject: [PATCH 097/192] fix: resizing the text grid keeps it whole when
 memory runs out

---
 apop_data.m4.c | 113 +++++++++++++++++++++++++------------------------
 1 file changed, 57 insertions(+), 56 deletions(-)

diff --git a/apop_data.m4.c b/apop_data.m4.c
index 4371524..3629afc 100644
--- a/apop_data.m4.c
+++ b/apop_data.m4.c
@@ -999,15 +999,19 @@ int apop_text_set(apop_data *in, const size_t row, const size_t col, const char
     Apop_stopif((in->textsize[0] < (int)row+1) || (in->textsize[1] < (int)col+1), return -1, 0, "You asked me to put the text "
                             " '%s' at position (%zu, %zu), but the text array has size (%zu, %zu)\n", 
                                fmt,             row, col,                  in->textsize[0], in->textsize[1]);
-    if (in->text[row][col] != apop_nul_string) free(in->text[row][col]);
-    if (!fmt){
-        Asprintf(&(in->text[row][col]), "%s", apop_opts.nan_string);
-        return 0;
+    char *newtext;
+    int len;
+    if (!fmt)
+        len = asprintf(&newtext, "%s", apop_opts.nan_string);
+    else {
+        va_list argp;
+        va_start(argp, fmt);
+        len = vasprintf(&newtext, fmt, argp);
+        va_end(argp);
     }
-    va_list argp;
-	va_start(argp, fmt);
-    Apop_stopif(vasprintf(&(in->text[row][col]), fmt, argp)==-1, , 0, "Trouble writing to a string.");
-	va_end(argp);
+    Apop_stopif(len==-1, return -1, 0, "Trouble writing to a string.");
+    apop_text_blank(in, row, col);
+    in->text[row][col] = newtext;
     return 0;
 }
 
@@ -1026,58 +1030,55 @@ apop_data * apop_text_alloc(apop_data *in, const size_t row, const size_t col){
     Apop_stopif((!row && col) || (!col && row), return in, 1, "Not allocating a %zu x %zu text grid. "
                                             "Returning the input apop_data set.", row, col);
     if (!in) in  = apop_data_alloc();
-    if (!in->text){
-        if (row){
-            in->text = malloc(sizeof(char**) * row);
-            Apop_stopif(!in->text, in->error='a'; return in, 
-                    0, "malloc failed setting up %zu rows. Probably out of memory.", row);
+    Apop_stopif(!in, return NULL, 0, "couldn't allocate a data set. Probably out of memory.");
+    size_t rows_now = in->text ? in->textsize[0] : 0;
+    size_t cols_now = in->text ? in->textsize[1] : 0;
+    size_t rows_kept = GSL_MIN(rows_now, row);
+
+    //Get all the space needed before changing the size, so if there isn't enough, the grid is as it was.
+    if (cols_now < col)
+        for (size_t i=0; i < rows_kept; i++){
+            char **newrow = realloc(in->text[i], sizeof(char*)*col);
+            Apop_stopif(!newrow, in->error='a'; return in, 0, "realloc failed extending row "
+                            "%zu to %zu columns. Probably out of memory.", i, col);
+            in->text[i] = newrow;
+            for (size_t j=cols_now; j < col; j++)
+                newrow[j] = apop_nul_string;
         }
-        if (row && col)
-            for (size_t i=0; i< row; i++){
-                in->text[i] = malloc(sizeof(char*) * col);
-                Apop_stopif(!in->text[i], in->error='a'; return in, 
+    if (rows_now < row){
+        char ***newtext = realloc(in->text, sizeof(char**)*row);
+        Apop_stopif(!newtext, in->error='a'; return in,
+                        0, "realloc failed setting up %zu rows. Probably out of memory.", row);
+        in->text = newtext;
+        for (size_t i=rows_now; i < row; i++){
+            in->text[i] = malloc(sizeof(char*) * col);
+            Apop_stopif(!in->text[i], while (i-- > rows_now) free(in->text[i]);
+                        in->error='a'; return in,
                         0, "malloc failed setting up row %zu (with %zu columns). Probably out of memory.", i, col);
-                for (size_t j=0; j< col; j++)
-                    in->text[i][j] = apop_nul_string;
-            }
-    } else { //realloc
-        size_t rows_now = in->textsize[0];
-        size_t cols_now = in->textsize[1];
-        if (rows_now > row){
-            for (int i=row; i < rows_now; i++){
-                for (int j=0; j < cols_now; j++)
-                    if (in->text[i][j] != apop_nul_string) 
-                        free(in->text[i][j]);
-                free(in->text[i]);
-            }
-            in->text = realloc(in->text, sizeof(char**)*row);
-            Apop_stopif(row && !in->text, in->error='a'; return in,
-                            0, "realloc failed shrinking down to %zu rows from %zu rows. "
-                            "There may be actual bugs eating your computer.", row, rows_now);
+            for (size_t j=0; j < col; j++)
+                in->text[i][j] = apop_nul_string;
         }
-        if (rows_now < row){
-            in->text = realloc(in->text, sizeof(char**)*row);
-            Apop_stopif(!in->text, in->error='a'; return in,
-                            0, "realloc failed setting up %zu rows. Probably out of memory.", row);
-            for (size_t i=rows_now; i < row; i++){
-                in->text[i] = malloc(sizeof(char*) * col);
-                Apop_stopif(!in->text[i], in->error='a'; return in, 
-                        0, "malloc failed setting up row %zu (with %zu columns). Probably out of memory.", i, col);
-                for (int j=0; j < cols_now; j++)
-                    in->text[i][j] = apop_nul_string;
-            }
+    }
+
+    //Shrink. Should a realloc fail, the larger block will do.
+    for (size_t i=row; i < rows_now; i++){
+        for (size_t j=0; j < cols_now; j++)
+            apop_text_blank(in, i, j);
+        free(in->text[i]);
+    }
+    if (cols_now > col)
+        for (size_t i=0; i < rows_kept; i++){
+            for (size_t j=col; j < cols_now; j++)
+                apop_text_blank(in, i, j);
+            char **newrow = realloc(in->text[i], sizeof(char*)*col);
+            if (newrow) in->text[i] = newrow;
         }
-        if (cols_now > col)
-            for (int i=0; i < row; i++)
-                for (int j=col; j < cols_now; j++)
-                    if (in->text[i][j]!=apop_nul_string) 
-                        free(in->text[i][j]);
-        if (cols_now != col)
-            for (int i=0; i < row; i++){
-                in->text[i] = realloc(in->text[i], sizeof(char*)*col);
-                for (int j=cols_now; j < col; j++) //happens iff cols_now < col
-                    in->text[i][j] = apop_nul_string;
-            }
+    if (!row){
+        free(in->text);
+        in->text = NULL;
+    } else if (rows_now > row){
+        char ***newtext = realloc(in->text, sizeof(char**)*row);
+        if (newtext) in->text = newtext;
     }
     in->textsize[0] = row;
     in->textsize[1] = col;
-- 
2.43.0


From a08b2a59326415e1e9133a9d34fbacdd1c28bd43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:31 +0000
Subject: [PATCH 098/192] fix: copying a data set reports allocation errors
 from any part

---
 apop_data.m4.c           | 47 +++++++++++++++++++++++++++-------------
 apop_internal.h          |  3 +++
 apop_linear_algebra.m4.c | 15 +++++++++++++
 3 files changed, 50 insertions(+), 15 deletions(-)

diff --git a/apop_data.m4.c b/apop_data.m4.c
index 3629afc..056a54f 100644
--- a/apop_data.m4.c
+++ b/apop_data.m4.c
@@ -177,11 +177,13 @@ static int same_string(char const *l, char const *r){ return l==r || (l && r &&
 
 /* Views share their names with the set they view, so where the names already match leave them be,
 and never free a title or vector name to which another view may point. */
-static void replace_string(char **target, char const *source){
-    char *old = *target;
-    if (same_string(old, source)) return;
-    Asprintf(target, "%s", source);
-    free(old);
+static int replace_string(char **target, char const *source){
+    if (same_string(*target, source)) return 0;
+    char *copy = strdup(source);
+    if (!copy) return -1;
+    free(*target);
+    *target = copy;
+    return 0;
 }
 
 /** Copy one \ref apop_data structure to another.
@@ -245,18 +247,31 @@ void apop_data_memcpy(apop_data *out, const apop_data *in){
     }
     if (in->names){
         if (!out->names) out->names = apop_name_alloc();
-        if (in->names->title && !same_string(out->names->title, in->names->title)) {Asprintf(&out->names->title, "%s", in->names->title);}
-        if (out->names->vector && in->names->vector && !same_string(out->names->vector, in->names->vector)) {Asprintf(&out->names->vector, "%s", in->names->vector);}
+        Apop_stopif(!out->names, out->error='a'; return, 0, "couldn't allocate names. Probably out of memory.");
+        char *copy; //never free a title or vector name to which another view may point.
+        if (in->names->title && !same_string(out->names->title, in->names->title)) {
+            copy = strdup(in->names->title);
+            if (copy) out->names->title = copy;
+            else      out->error = 'a';
+        }
+        if (out->names->vector && in->names->vector && !same_string(out->names->vector, in->names->vector)) {
+            copy = strdup(in->names->vector);
+            if (copy) out->names->vector = copy;
+            else      out->error = 'a';
+        }
         #define Replace_names(list, type)                                        \
             for (int i=0; i< in->names->list##ct; i++)                           \
                 if (i< out->names->list##ct) {                                   \
-                    replace_string(out->names->list+i, in->names->list[i]);      \
-                    out->names->list##hash[i] = in->names->list##hash[i];        \
-                } else  apop_name_add(out->names, in->names->list[i], type);
+                    if (replace_string(out->names->list+i, in->names->list[i]))  \
+                        out->error = 'a';                                        \
+                    else out->names->list##hash[i] = in->names->list##hash[i];   \
+                } else if (apop_name_add(out->names, in->names->list[i], type) == -1) \
+                    out->error = 'a';
         Replace_names(row, 'r')
         Replace_names(col, 'c')
         Replace_names(text, 't')
         #undef Replace_names
+        Apop_stopif(out->error=='a', return, 0, "couldn't copy the names. Probably out of memory.");
     }
     out->textsize[0] = in->textsize[0]; 
     out->textsize[1] = in->textsize[1]; 
@@ -271,7 +286,8 @@ void apop_data_memcpy(apop_data *out, const apop_data *in){
             for(size_t j=0; j < in->textsize[1]; j ++)
                 if (in->text[i][j] == apop_nul_string)
                      apop_text_blank(out, i, j);
-                else apop_text_set(out, i, j, "%s", in->text[i][j]);
+                else Apop_stopif(apop_text_set(out, i, j, "%s", in->text[i][j]), out->error='a'; return,
+                        0, "couldn't copy text element (%zu, %zu). Probably out of memory.", i, j);
     }
     if (in->more && out->more) apop_data_memcpy(out->more, in->more);
 }
@@ -298,7 +314,7 @@ is <tt>>=1</tt>.
 apop_data *apop_data_copy(const apop_data *in){
     if (!in) return NULL;
     apop_data *out = apop_data_alloc();
-    Apop_stopif(out->error, return out, 0, "Allocation error.");
+    Apop_stopif(!out || out->error, return out, 0, "Allocation error.");
     if (in->error){
         Apop_notify(1, "the data set to be copied has an error flag of %c. Copying it.", in->error);
         out->error = in->error;
@@ -308,20 +324,21 @@ apop_data *apop_data_copy(const apop_data *in){
                 0, "the ->more element of this data set equals the "
                                         "data set itself. This is not healthy. Made a partial copy and set out.error='c'.");
         out->more = apop_data_copy(in->more);
+        Apop_stopif(!out->more, out->error='a'; return out, 0, "Allocation error on the ->more element.");
         Apop_stopif(out->more->error, out->error=out->more->error; return out,
                 0, "propagating an error in the ->more element to the parent apop_data set. Only a partial copy made.");
     }
     if (in->vector){
-        out->vector = gsl_vector_alloc(in->vector->size);
+        out->vector = apop_vector_alloc_or_null(in->vector->size);
         Apop_stopif(!out->vector, out->error='a'; return out, 0, "Allocation error on vector of size %zu.", in->vector->size);
     }
     if (in->matrix){  
-        out->matrix = gsl_matrix_alloc(in->matrix->size1, in->matrix->size2);
+        out->matrix = apop_matrix_alloc_or_null(in->matrix->size1, in->matrix->size2);
         Apop_stopif(!out->matrix, out->error='a'; return out, 0, "Allocation error on matrix "
                     "of size %zu X %zu.", in->matrix->size1, in->matrix->size2);
     }
     if (in->weights){
-        out->weights = gsl_vector_alloc(in->weights->size);
+        out->weights = apop_vector_alloc_or_null(in->weights->size);
         Apop_stopif(!out->weights, out->error='a'; return out, 0, "Allocation error on weights vector of size %zu.", in->weights->size);
     }
     if (in->textsize[0] && in->textsize[1]){
diff --git a/apop_internal.h b/apop_internal.h
index 3f2c968..659a80f 100644
--- a/apop_internal.h
+++ b/apop_internal.h
@@ -92,4 +92,7 @@ void add_info_criteria(apop_data *d, apop_model *m, apop_model *est, double ll,
 
 apop_data *apop_crosstab_query(char const *fmt, ...); //in apop_db.c
 
+gsl_vector *apop_vector_alloc_or_null(size_t size);   //apop_linear_algebra.c
+gsl_matrix *apop_matrix_alloc_or_null(size_t size1, size_t size2);
+
 apop_model *maybe_prep(apop_data *d, apop_model *m, _Bool *is_a_copy); //in apop_mcmc, for apop_update.
diff --git a/apop_linear_algebra.m4.c b/apop_linear_algebra.m4.c
index 15fc549..78d181a 100644
--- a/apop_linear_algebra.m4.c
+++ b/apop_linear_algebra.m4.c
@@ -30,6 +30,21 @@ void apop_unset_gsl_handler(){
     if (!--handler_users) gsl_set_error_handler(prior_handler);
 }
 
+/* The GSL's default handler aborts when there is no memory; these return NULL for the caller to report. */
+gsl_vector *apop_vector_alloc_or_null(size_t size){
+    Set_gsl_handler
+    gsl_vector *out = gsl_vector_alloc(size);
+    Unset_gsl_handler
+    return out;
+}
+
+gsl_matrix *apop_matrix_alloc_or_null(size_t size1, size_t size2){
+    Set_gsl_handler
+    gsl_matrix *out = gsl_matrix_alloc(size1, size2);
+    Unset_gsl_handler
+    return out;
+}
+
 /**
 Calculate the determinant of a matrix, its inverse, or both, via LU decomposition. The \c in matrix is not destroyed in the process.
 
-- 
2.43.0


From 8a0576afdd2a7fa70499b69f125e5e1ef56ccf21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:31 +0000
Subject: [PATCH 099/192] fix: copying text onto a smaller grid is refused
 before the grid's size is overwritten

---
 apop_data.m4.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/apop_data.m4.c b/apop_data.m4.c
index 056a54f..cfcd158 100644
--- a/apop_data.m4.c
+++ b/apop_data.m4.c
@@ -273,8 +273,6 @@ void apop_data_memcpy(apop_data *out, const apop_data *in){
         #undef Replace_names
         Apop_stopif(out->error=='a', return, 0, "couldn't copy the names. Probably out of memory.");
     }
-    out->textsize[0] = in->textsize[0]; 
-    out->textsize[1] = in->textsize[1]; 
     if (in->textsize[0] && in->textsize[1]){
         Apop_stopif(out->textsize[0] < in->textsize[0] || out->textsize[1] < in->textsize[1],
                     out->error='d'; return,
-- 
2.43.0


From 1b4792407c8b07e1f2b301d94617eaa9edd4afb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:31 +0000
Subject: [PATCH 100/192] fix: vector and matrix copies, stacks, and resizes
 survive a failed allocation

---
 apop_conversions.m4.c    |  4 ++--
 apop_data.m4.c           | 45 ++++++++++++++++++----------------
 apop_linear_algebra.m4.c | 52 ++++++++++++++++++----------------------
 3 files changed, 49 insertions(+), 52 deletions(-)

diff --git a/apop_conversions.m4.c b/apop_conversions.m4.c
index 974f1e4..4527e54 100644
--- a/apop_conversions.m4.c
+++ b/apop_conversions.m4.c
@@ -314,7 +314,7 @@ gsl_vector *a_copy = apop_vector_copy(original);
 */
 gsl_vector *apop_vector_copy(const gsl_vector *in){
     if (!in) return NULL;
-    gsl_vector *out = gsl_vector_alloc(in->size);
+    gsl_vector *out = apop_vector_alloc_or_null(in->size);
     Apop_stopif(!out, return NULL, 0, "failed to allocate a gsl_vector of size %zu. Out of memory?", in->size);
     gsl_vector_memcpy(out, in);
     return out;
@@ -332,7 +332,7 @@ gsl_matrix *a_copy = apop_matrix_copy(original);
 */
 gsl_matrix *apop_matrix_copy(const gsl_matrix *in){
     if (!in) return NULL;
-    gsl_matrix *out = gsl_matrix_alloc(in->size1, in->size2);
+    gsl_matrix *out = apop_matrix_alloc_or_null(in->size1, in->size2);
     Apop_stopif(!out, return NULL, 0, "failed to allocate a gsl_matrix of size %zu x %zu. Out of memory?", in->size1, in->size2);
     gsl_matrix_memcpy(out, in);
     return out;
diff --git a/apop_data.m4.c b/apop_data.m4.c
index cfcd158..61cb268 100644
--- a/apop_data.m4.c
+++ b/apop_data.m4.c
@@ -1229,31 +1229,31 @@ so return \c NULL and print a warning if asked to resize a view of a matrix.
  */
 gsl_matrix * apop_matrix_realloc(gsl_matrix *m, size_t newheight, size_t newwidth){
     if (!m)
-        return (newheight && newwidth) ?  gsl_matrix_alloc(newheight, newwidth) : NULL;
-    size_t i, oldoffset=0, newoffset=0, realloced = 0;
+        return (newheight && newwidth) ? apop_matrix_alloc_or_null(newheight, newwidth) : NULL;
     Apop_stopif(m->block->data!=m->data || !m->owner || m->tda != m->size2,
             return NULL, 0, "I can't resize submatrices or other subviews.");
-    m->block->size = newheight * newwidth;
-    if (m->size2 > newwidth)
-        for (i=1; i< GSL_MIN(m->size1, newheight); i++){
-            oldoffset +=m->size2;
-            newoffset +=newwidth;
-            memmove(m->data+newoffset, m->data+oldoffset, sizeof(double)*newwidth);
-        } 
-    else if (m->size2 < newwidth){
-        m->block->data = m->data = realloc(m->data, sizeof(double) * m->block->size);
-        realloced = 1;
-        int height = GSL_MIN(m->size1, newheight);
-        for (i= height-1; i > 0; i--){
-            newoffset +=newwidth;
-            memmove(m->data+(height * newwidth) - newoffset, m->data+i*m->size2, sizeof(double)*m->size2);
-        }
+    size_t height = GSL_MIN(m->size1, newheight);
+    size_t newsize = newheight * newwidth;
+    int growing = newsize > m->block->size;
+    if (growing){ //get the space first, so if there isn't any the matrix is as it was.
+        double *newdata = realloc(m->data, sizeof(double) * newsize);
+        Apop_stopif(!newdata, return NULL, 0, "failed to resize a gsl_matrix to %zu x %zu. Out of memory?", newheight, newwidth);
+        m->block->data = m->data = newdata;
     }
+    if (m->size2 > newwidth)
+        for (size_t i=1; i< height; i++)
+            memmove(m->data+i*newwidth, m->data+i*m->size2, sizeof(double)*newwidth);
+    else if (m->size2 < newwidth && height)
+        for (size_t i=height-1; i > 0; i--)
+            memmove(m->data+i*newwidth, m->data+i*m->size2, sizeof(double)*m->size2);
     m->size1 = newheight;
     m->tda   =
     m->size2 = newwidth;
-    if (!realloced)
-        m->block->data = m->data = realloc(m->data, sizeof(double) * m->block->size);
+    if (!growing && newsize < m->block->size){
+        double *newdata = realloc(m->data, sizeof(double) * newsize);
+        if (newdata || !newsize) m->block->data = m->data = newdata; //else the larger block will do.
+    }
+    m->block->size = newsize;
     return m;
 }
 
@@ -1278,13 +1278,16 @@ return \c NULL and print an error if asked to resize a view.
 \return v, now resized
  */
 gsl_vector * apop_vector_realloc(gsl_vector *v, size_t newheight){
-    if (!v) return newheight ? gsl_vector_alloc(newheight) : NULL;
+    if (!v) return newheight ? apop_vector_alloc_or_null(newheight) : NULL;
     Apop_stopif(v->block->data!=v->data || !v->owner || v->stride != 1,
                     return NULL, 0, "I can't resize subvectors or other views.");
+    double *newdata = realloc(v->data, sizeof(double) * newheight);
+    if (!newdata && newheight && newheight <= v->size) newdata = v->data; //the larger block will do.
+    Apop_stopif(!newdata && newheight, return NULL, 0, "failed to resize a gsl_vector to %zu elements. Out of memory?", newheight);
     v->block->size = newheight;
     v->size = newheight;
     v->block->data = 
-    v->data        = realloc(v->data, sizeof(double) * v->block->size);
+    v->data        = newdata;
     return v;
 }
 
diff --git a/apop_linear_algebra.m4.c b/apop_linear_algebra.m4.c
index 78d181a..d03fe55 100644
--- a/apop_linear_algebra.m4.c
+++ b/apop_linear_algebra.m4.c
@@ -218,24 +218,20 @@ APOP_VAR_HEAD gsl_vector *apop_vector_stack(gsl_vector *v1, gsl_vector const * v
 APOP_VAR_ENDHEAD
     gsl_vector *out;
     gsl_vector t;
-    if (!v1  && v2){
-        out = gsl_vector_alloc(v2->size);
-        gsl_vector_memcpy(out, v2);
-        return out;
-    } else if (!v2  && v1){
-        if (inplace == 'y')
-            return v1;
-        out = gsl_vector_alloc(v1->size);
-        gsl_vector_memcpy(out, v1);
-        return out;
-    } else if (!v1 && !v2)
+    if (!v1  && v2)
+        return apop_vector_copy(v2);
+    else if (!v2  && v1)
+        return (inplace == 'y') ? v1 : apop_vector_copy(v1);
+    else if (!v1 && !v2)
         return NULL;
     //else:
     size_t v1size = v1->size; //save in case of reallocing.
-    if (inplace == 'y' )
+    if (inplace == 'y' ){
         out = apop_vector_realloc(v1, v1->size+v2->size);
-    else {
-        out = gsl_vector_alloc(v1->size + v2->size);
+        Apop_stopif(!out, return NULL, 0, "failed to extend a gsl_vector of size %zu.", v1size);
+    } else {
+        out = apop_vector_alloc_or_null(v1->size + v2->size);
+        Apop_stopif(!out, return NULL, 0, "failed to allocate a gsl_vector of size %zu. Out of memory?", v1->size+v2->size);
         t   = gsl_vector_subvector(out, 0, v1size).vector;
         gsl_vector_memcpy(&t, v1);
     }
@@ -275,17 +271,11 @@ APOP_VAR_HEAD gsl_matrix *apop_matrix_stack(gsl_matrix *m1, gsl_matrix const * m
 APOP_VAR_ENDHEAD
     gsl_matrix      *out;
     gsl_vector_view tmp_vector;
-    if (!m1 && m2){
-        out = gsl_matrix_alloc(m2->size1, m2->size2);
-        gsl_matrix_memcpy(out, m2);
-        return out;
-    } else if (!m2 && m1) {
-        if (inplace =='y')
-            return m1;
-        out = gsl_matrix_alloc(m1->size1, m1->size2);
-        gsl_matrix_memcpy(out, m1);
-        return out;
-    } else if (!m2  && !m1) 
+    if (!m1 && m2)
+        return apop_matrix_copy(m2);
+    else if (!m2 && m1)
+        return (inplace =='y') ? m1 : apop_matrix_copy(m1);
+    else if (!m2  && !m1) 
         return NULL;
 
     if (posn == 'r'){
@@ -293,8 +283,10 @@ APOP_VAR_ENDHEAD
         int m1size = m1->size1;
         if (inplace =='y')
             out = apop_matrix_realloc(m1, m1->size1 + m2->size1, m1->size2);
-        else {
-            out     = gsl_matrix_alloc(m1->size1 + m2->size1, m1->size2);
+        else
+            out = apop_matrix_alloc_or_null(m1->size1 + m2->size1, m1->size2);
+        Apop_stopif(!out, return NULL, 0, "failed to allocate a gsl_matrix of size %zu x %zu. Out of memory?", m1->size1+m2->size1, m1->size2);
+        if (inplace !='y'){
             for (int i=0; i< m1size; i++){
                     tmp_vector  = gsl_matrix_row(m1, i);
                     gsl_matrix_set_row(out, i, &(tmp_vector.vector));
@@ -312,8 +304,10 @@ APOP_VAR_ENDHEAD
         int m1size = m1->size2;
         if (inplace =='y')
             out = apop_matrix_realloc(m1, m1->size1, m1->size2 + m2->size2);
-        else {
-            out     = gsl_matrix_alloc(m1->size1, m1->size2 + m2->size2);
+        else
+            out = apop_matrix_alloc_or_null(m1->size1, m1->size2 + m2->size2);
+        Apop_stopif(!out, return NULL, 0, "failed to allocate a gsl_matrix of size %zu x %zu. Out of memory?", m1->size1, m1->size2+m2->size2);
+        if (inplace !='y'){
             for (int i=0; i< m1size; i++)
                 gsl_matrix_set_col(out, i, Apop_mcv(m1, i));
         }
-- 
2.43.0


From bcac795d64b500ce4e0856fb954986b7275bec17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:31 +0000
Subject: [PATCH 101/192] fix: stacking reports what couldn't be stacked and
 leaves the input's pages attached

---
 apop_data.m4.c | 80 ++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 58 insertions(+), 22 deletions(-)

diff --git a/apop_data.m4.c b/apop_data.m4.c
index 61cb268..e7a8ae9 100644
--- a/apop_data.m4.c
+++ b/apop_data.m4.c
@@ -347,6 +347,41 @@ apop_data *apop_data_copy(const apop_data *in){
     return out;
 }
 
+static void stack_names(apop_data *out, apop_data const *add, char type){
+    apop_name *n = add->names;
+    if (!n) return;
+    int ct = type=='r' ? n->rowct : type=='c' ? n->colct : n->textct;
+    for (int i=0; i < ct; i++){
+        char **list = type=='r' ? n->row : type=='c' ? n->col : n->text; //moves if stacking onto self.
+        Apop_stopif(apop_name_add(out->names, list[i], type)==-1, out->error='a'; return, 0, "Allocation error.");
+    }
+}
+
+//If the stack can't be done, leave the base as it was and mark the data set.
+static int stack_matrix(apop_data *out, gsl_matrix const *add, char posn){
+    if (!add) return 0;
+    gsl_matrix *base = out->matrix;
+    gsl_matrix *stacked = apop_matrix_stack(base, add, posn, .inplace='y');
+    if (!stacked){
+        int fits = !base || (base->owner && (posn=='r' ? base->size2==add->size2 : base->size1==add->size1));
+        out->error = fits ? 'a' : 'd';
+        return -1;
+    }
+    out->matrix = stacked;
+    return 0;
+}
+
+static int stack_vector(apop_data *out, gsl_vector **base, gsl_vector const *add){
+    if (!add) return 0;
+    gsl_vector *stacked = apop_vector_stack(*base, add, .inplace='y');
+    if (!stacked){
+        out->error = !*base || (*base)->owner ? 'a' : 'd';
+        return -1;
+    }
+    *base = stacked;
+    return 0;
+}
+
 /** Put the first data set either on top of or to the left of the second data set.
 
 For the opposite operation, see \ref apop_data_split.
@@ -394,35 +429,34 @@ APOP_VAR_ENDHEAD
     if (inplace)
         out = m1;
     else {
-        apop_data *m = m1->more; //not following the more pointer.
-        m1->more =NULL;
-        out = apop_data_copy(m1);
-        Apop_stopif(out->error, return out, 0, "initial copy failed; leaving.");
-        m1->more = m;
+        apop_data first_page = *m1; //not following the more pointer.
+        first_page.more = NULL;
+        out = apop_data_copy(&first_page);
+        Apop_stopif(!out || out->error, return out, 0, "initial copy failed; leaving.");
     }
     Get_vmsizes(m1); //original sizes of vsize, msize1, msize2.
     if (m2->names && !out->names) out->names = apop_name_alloc();
-    
+    Apop_stopif(m2->names && !out->names, out->error='a'; return out, 0, "Allocation error.");
     if (posn == 'c'){
         if (m2->vector && out->vector){
             gsl_matrix_view mview = gsl_matrix_view_vector(m2->vector, m2->vector->size, 1);
-            out->matrix = apop_matrix_stack(out->matrix, &mview.matrix, posn, .inplace='y');
-            apop_name_stack(out->names, m2->names, 'c', 'v');
-            if (m2->names && !m2->names->vector && m2->names->colct) apop_name_add(out->names, "v", 'c');
+            if (stack_matrix(out, &mview.matrix, posn)) return out;
+            if (m2->names && m2->names->vector && apop_name_add(out->names, m2->names->vector, 'v')==-1) out->error='a';
+            if (m2->names && !m2->names->vector && m2->names->colct
+                    && apop_name_add(out->names, "v", 'c')==-1) out->error='a';
         }
         if (m2->vector && !out->vector) {
             out->vector= apop_vector_copy(m2->vector);
-            if (m2->names->vector) apop_name_add(out->names, m2->names->vector, 'v');
+            Apop_stopif(!out->vector, out->error='a'; return out, 0, "Allocation error.");
+            if (m2->names && m2->names->vector && apop_name_add(out->names, m2->names->vector, 'v')==-1) out->error='a';
         }
     }
 
-    out->matrix = apop_matrix_stack(out->matrix, m2->matrix, posn, .inplace='y');
-
+    if (stack_matrix(out, m2->matrix, posn)) return out;
 
-    if (posn == 'r'){
-        out->vector  = apop_vector_stack(out->vector, m2->vector, .inplace='y');
-        out->weights = apop_vector_stack(out->weights, m2->weights, .inplace='y');
-    } 
+    if (posn == 'r' && (stack_vector(out, &out->vector, m2->vector) 
+                          || stack_vector(out, &out->weights, m2->weights)))
+        return out;
 
     if (m2->text){ //we've already copied m1->text, if any, so if m2->text is NULL, we're done.
         if (posn=='r'){
@@ -437,7 +471,8 @@ APOP_VAR_ENDHEAD
                 for(int j=0; j< m2->textsize[1]; j++)
                     if (m2->text[i][j] == apop_nul_string)
                          apop_text_blank(out, i+basetextsize, j);
-                    else apop_text_set(out, i+basetextsize, j, "%s", m2->text[i][j]);
+                    else Apop_stopif(apop_text_set(out, i+basetextsize, j, "%s", m2->text[i][j]),
+                                        out->error='a'; return out, 0, "Allocation error.");
         } else {
             Apop_stopif(out->text && m2->textsize[0]!=out->textsize[0], 
                     out->error='d'; return out, 0,
@@ -450,16 +485,17 @@ APOP_VAR_ENDHEAD
                 for(int j=0; j< m2->textsize[1]; j++)
                     if (m2->text[i][j] == apop_nul_string)
                          apop_text_blank(out, i, j+basetextsize);
-                    else apop_text_set(out, i, j+basetextsize, "%s", m2->text[i][j]);
-            apop_name_stack(out->names, m2->names, 't');
+                    else Apop_stopif(apop_text_set(out, i, j+basetextsize, "%s", m2->text[i][j]),
+                                        out->error='a'; return out, 0, "Allocation error.");
+            stack_names(out, m2, 't');
         }
     }
     if ((posn=='r' && m2->names && m2->names->rowct) || (posn=='c' && m2->names && m2->names->colct)){
-        int min = posn =='r' ? m1->names->rowct : m1->names->colct;
+        int min = !m1->names ? 0 : posn =='r' ? m1->names->rowct : m1->names->colct;
         int max = posn =='r' ? GSL_MAX(vsize, msize1) : msize2;
         for (int k = min; k < max; k++)          //pad so the name stacking is aligned (if needed)
-            apop_name_add(out->names, "", posn); 
-        apop_name_stack(out->names, m2->names, posn);
+            if (apop_name_add(out->names, "", posn)==-1) out->error = 'a';
+        stack_names(out, m2, posn);
     }
     return out;
 }
-- 
2.43.0


From ee2c11c3d1fbedd7b5971fccd1e972a2df35c0ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:31 +0000
Subject: [PATCH 102/192] fix: copying a model reports settings that couldn't
 be copied

---
 apop.m4.h       | 2 ++
 apop_model.m4.c | 3 ++-
 apop_settings.c | 6 +++++-
 3 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/apop.m4.h b/apop.m4.h
index dc2f7ab..b0b81b8 100644
--- a/apop.m4.h
+++ b/apop.m4.h
@@ -1155,6 +1155,7 @@ See \ref settingswriting for details and an example.
 #define Apop_settings_init(name, ...)   \
     name##_settings *name##_settings_init(name##_settings in) {       \
         name##_settings *out = malloc(sizeof(name##_settings));     \
+        if (!out) return NULL; \
         *out = in; \
         __VA_ARGS__;            \
         return out; \
@@ -1170,6 +1171,7 @@ See \ref settingswriting for details and an example.
 #define Apop_settings_copy(name, ...) \
     void * name##_settings_copy(name##_settings *in) {\
         name##_settings *out = malloc(sizeof(name##_settings)); \
+        if (!out) return NULL; \
         *out = *in; \
         __VA_ARGS__;    \
         return out;     \
diff --git a/apop_model.m4.c b/apop_model.m4.c
index 6c7b5b0..1e350b3 100644
--- a/apop_model.m4.c
+++ b/apop_model.m4.c
@@ -156,13 +156,14 @@ apop_model * apop_model_copy(apop_model *in){
     apop_model * out = malloc(sizeof(apop_model));
     Apop_stopif(!out, return NULL, 0, "Serious allocation error; returning NULL.");
     memcpy(out, in, sizeof(apop_model));
+    out->settings = NULL; //until copied, don't share what the copy would free
+    out->parameters = out->info = NULL;
     if (in->more_size){
         out->more  = malloc(in->more_size);
         Apop_stopif(!out->more, out->error='a'; return out, 0, "Allocation error setting up the ->more pointer.");
         memcpy(out->more, in->more, in->more_size);
     }
     int i=0; 
-    out->settings = NULL;
     if (in->settings)
         do 
             apop_settings_copy_group(out, in, in->settings[i].name);
diff --git a/apop_settings.c b/apop_settings.c
index a671d89..c2506f8 100644
--- a/apop_settings.c
+++ b/apop_settings.c
@@ -46,7 +46,11 @@ void *apop_settings_group_alloc(apop_model *model, char *type, void *free_fn, vo
     if(apop_settings_get_grp(model, type, 'c'))  
         apop_settings_remove_group(model, type); 
     int ct = get_settings_ct(model);
-    model->settings = realloc(model->settings, sizeof(apop_settings_type)*(ct+2));   
+    apop_settings_type *newlist = realloc(model->settings, sizeof(apop_settings_type)*(ct+2));
+    Apop_stopif(!the_group || !newlist, if (newlist) {model->settings = newlist; newlist[ct] = (apop_settings_type) { };}
+                if (the_group && free_fn && copy_fn) ((void (*)(void*))free_fn)(the_group); model->error='s'; return NULL,
+                0, "Couldn't allocate the %s settings group. Out of memory?", type);
+    model->settings = newlist;
     model->settings[ct] = (apop_settings_type) {
                             .setting_group = the_group,
                             .name_hash = apop_settings_hash(type),
-- 
2.43.0


From 94da87bc95fdf18aab03b3b280751189624add09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:26 +0000
Subject: [PATCH 103/192] fix: copying names returns NULL if they can't all be
 copied

---
 apop_name.m4.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/apop_name.m4.c b/apop_name.m4.c
index e82df2c..c7b6b22 100644
--- a/apop_name.m4.c
+++ b/apop_name.m4.c
@@ -176,15 +176,19 @@ apop_name_free(wrapped->names); //wrapped itself is auto-allocated; do not free.
 \endcode
  
 \param in The input names
-\return   A \ref apop_name struct with copies of all input names.
+\return   A \ref apop_name struct with copies of all input names. If there isn't enough memory for all of them, return \c NULL.
 */
 apop_name * apop_name_copy(apop_name *in){
     apop_name *out = apop_name_alloc();
+    if (!out || !in) return out;
     apop_name_stack(out, in, 'v');
     apop_name_stack(out, in, 'c');
     apop_name_stack(out, in, 'r');
     apop_name_stack(out, in, 't');
-    if (in->title) Asprintf(&out->title, "%s", in->title);
+    if (in->title) apop_name_add(out, in->title, 'h');
+    Apop_stopif(out->colct != in->colct || out->rowct != in->rowct || out->textct != in->textct
+                    || (in->vector && !out->vector) || (in->title && !out->title),
+                apop_name_free(out); return NULL, 0, "couldn't copy the names. Probably out of memory.");
     return out;
 }
 
-- 
2.43.0


From a465c431e69e96efb39503a993ee364854e4a40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:26 +0000
Subject: [PATCH 104/192] fix: copies between arrays, vectors, matrices and
 data sets return NULL if there is no memory

---
 apop_conversions.m4.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/apop_conversions.m4.c b/apop_conversions.m4.c
index 4527e54..f3e1c8e 100644
--- a/apop_conversions.m4.c
+++ b/apop_conversions.m4.c
@@ -40,7 +40,8 @@ APOP_VAR_HEAD gsl_vector * apop_array_to_vector(double *in, int size){
     Apop_assert_c(in, NULL, 1, "You sent me NULL data; returning NULL.");
     int apop_varad_var(size, sizeof(in)/sizeof(in[0]));
 APOP_VAR_ENDHEAD
-    gsl_vector *out = gsl_vector_alloc(size);
+    gsl_vector *out = apop_vector_alloc_or_null(size);
+    Apop_stopif(!out, return NULL, 0, "failed to allocate a gsl_vector of size %i. Out of memory?", size);
     gsl_vector_view	v = gsl_vector_view_array((double*)in, size);
 	gsl_vector_memcpy(out,&(v.vector));
     return out;
@@ -65,9 +66,9 @@ APOP_VAR_HEAD gsl_matrix * apop_vector_to_matrix(const gsl_vector *in, char row_
     char apop_varad_var(row_col, 'c');
 APOP_VAR_ENDHEAD
     bool isrow = (row_col == 'r' || row_col == 'R');
-    gsl_matrix *out = isrow ? gsl_matrix_alloc(1, in->size)
-                            : gsl_matrix_alloc(in->size, 1);
-    Apop_assert(out, "gsl_matrix_alloc failed; probably out of memory.");
+    gsl_matrix *out = isrow ? apop_matrix_alloc_or_null(1, in->size)
+                            : apop_matrix_alloc_or_null(in->size, 1);
+    Apop_stopif(!out, return NULL, 0, "gsl_matrix_alloc failed; probably out of memory.");
     (isrow ? gsl_matrix_set_row
            : gsl_matrix_set_col)(out, 0, in);
     return out;
@@ -789,7 +790,8 @@ APOP_VAR_ENDHEAD
     size_t total_size = sizecount(in, (more_pages == 'y' || more_pages == 'Y'), (use_info_pages =='y' || use_info_pages =='Y'));
     if (!total_size) return NULL;
     int offset = 0;
-    if (!out) out = gsl_vector_alloc(total_size);
+    if (!out) out = apop_vector_alloc_or_null(total_size);
+    Apop_stopif(!out, return NULL, 0, "failed to allocate a gsl_vector of size %zu. Out of memory?", total_size);
     gsl_vector vout, vin;
     if (in->vector){
         vout     = gsl_vector_subvector((gsl_vector *)out, 0, in->vector->size).vector;
-- 
2.43.0


From a8244d1c93577cbf48210b2ea5ad57362046b71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:11 +0000
Subject: [PATCH 105/192] fix: transposing in place keeps name hashes with
 their names; transposing reports allocation errors

---
 apop_data.m4.c | 116 +++++++++++++++++++++++--------------------------
 1 file changed, 55 insertions(+), 61 deletions(-)

diff --git a/apop_data.m4.c b/apop_data.m4.c
index e7a8ae9..8b4b131 100644
--- a/apop_data.m4.c
+++ b/apop_data.m4.c
@@ -1155,6 +1155,7 @@ appropriately transposed matrix and/or text. The vector and weights elements wil
 also be \c NULL.<br> if <tt>inplace=='y'</tt>, a pointer to the original data set,
 with matrix and (if <tt>transpose_text='y'</tt>, text) transposed and vector and weights
 left in place untouched.
+\exception out->error=='a'  Allocation error.
 
 \li Row names are written to column names of the output matrix, text, or both (whichever is not empty in the input).
 \li If only the matrix or only the text have names, then the one set of names is written to the row names of the output.
@@ -1170,81 +1171,74 @@ APOP_VAR_HEAD apop_data * apop_data_transpose(apop_data *in, char transpose_text
 APOP_VAR_ENDHEAD
     Apop_stopif(!in->matrix && !*in->textsize, return apop_data_alloc(), 
             1, "input data set has neither matrix nor text elements; returning an empty data set.");
-    apop_data *out = (inplace=='y') ? in
-                                    : apop_data_alloc(0, in->matrix ? in->matrix->size2 : 0
-                                                       , in->matrix ? in->matrix->size1 : 0);
+    size_t rows = in->textsize[0], cols = in->textsize[1], side = GSL_MAX(rows, cols);
+    int with_text = transpose_text=='y' && rows && cols;
+    int use_text_names = with_text && in->names && in->names->textct && !in->names->colct;
+    apop_data *out;
     if (inplace=='y'){
-        if (in->matrix) {
-            if (in->matrix->size1 == in->matrix->size2)
-                gsl_matrix_transpose(in->matrix);
-            else {
-                gsl_matrix *outm = gsl_matrix_alloc(in->matrix->size2, in->matrix->size1);
-                gsl_matrix_transpose_memcpy(outm, in->matrix);
-                gsl_matrix_free(in->matrix);
-                in->matrix = outm;
-            }
+        out = in;
+        //Get all the space needed first, so if there isn't enough, the data set is as it was.
+        gsl_matrix *outm = NULL;
+        if (in->matrix && in->matrix->size1 != in->matrix->size2){
+            outm = apop_matrix_alloc_or_null(in->matrix->size2, in->matrix->size1);
+            Apop_stopif(!outm, in->error='a'; return in, 0, "couldn't allocate a transposed matrix. Probably out of memory.");
+        }
+        if (with_text){
+            apop_text_alloc(in, side, side);
+            Apop_stopif(in->textsize[0] != side || in->textsize[1] != side, gsl_matrix_free(outm); return in,
+                        0, "couldn't extend the text grid. Probably out of memory.");
+            for (size_t i=0; i < side; i++)
+                for (size_t j=i+1; j < side; j++){
+                    char *tmp = in->text[i][j];
+                    in->text[i][j] = in->text[j][i];
+                    in->text[j][i] = tmp;
+                }
+            apop_text_alloc(in, cols, rows);
         }
+        if (outm){
+            gsl_matrix_transpose_memcpy(outm, in->matrix);
+            gsl_matrix_free(in->matrix);
+            in->matrix = outm;
+        } else if (in->matrix) gsl_matrix_transpose(in->matrix);
         if (out->names){
             char **tmp = out->names->col;
             out->names->col = out->names->row;
             out->names->row = tmp;
+            unsigned long *tmphash = out->names->colhash;
+            out->names->colhash = out->names->rowhash;
+            out->names->rowhash = tmphash;
             int tmpct = out->names->colct;
             out->names->colct = out->names->rowct;
             out->names->rowct = tmpct;
         }
-    } else if (inplace!='y' && in->matrix){
-        if (in->matrix) gsl_matrix_transpose_memcpy(out->matrix, in->matrix);
-        apop_name_stack(out->names, in->names, 'r', 'c');
-        apop_name_stack(out->names, in->names, 'c', 'r');
-    }
-    if (transpose_text!='y' || in->textsize[0] == 0 || in->textsize[1] == 0) return out;
-    if (inplace=='y'){
-        size_t orows = in->textsize[0];
-        size_t ocols = in->textsize[1];
-        if (orows > ocols){ //extend the first ocols rows to their now-longer length
-            for (size_t i=0; i< ocols; i++){
-                in->text[i] = realloc(in->text[i], sizeof(char*)*orows);
-                Apop_stopif(!in->text[i], in->error='a'; return in, 
-                        0, "malloc failed setting up row %zu (with %zu columns). Probably out of memory.", i, orows);
-                for (int j=ocols; j < orows; j++)
-                    in->text[i][j] = in->text[j][i] == apop_nul_string
-                                        ? apop_nul_string
-                                        : strdup(in->text[j][i]);
+    } else {
+        out = apop_data_alloc(0, in->matrix ? in->matrix->size2 : 0
+                               , in->matrix ? in->matrix->size1 : 0);
+        Apop_stopif(!out || out->error, return out, 0, "Allocation error.");
+        if (in->matrix){
+            gsl_matrix_transpose_memcpy(out->matrix, in->matrix);
+            if (in->names){
+                apop_name_stack(out->names, in->names, 'r', 'c');
+                apop_name_stack(out->names, in->names, 'c', 'r');
+                Apop_stopif(out->names->rowct != in->names->colct || out->names->colct != in->names->rowct,
+                        out->error='a'; return out, 0, "couldn't copy the names. Probably out of memory.");
             }
         }
-        if (ocols > orows){ //add rows.
-            in->text = realloc(in->text, sizeof(char**)*ocols);
-            Apop_stopif(!in->text, in->error='a'; return in,
-                            0, "realloc failed setting up %zu rows. Probably out of memory.", ocols);
-            for (size_t i=orows; i < ocols; i++){
-                in->text[i] = malloc(sizeof(char*) * orows);
-                Apop_stopif(!in->text[i], in->error='a'; return in, 
-                        0, "malloc failed setting up row %zu (with %zu columns). Probably out of memory.", i, orows);
-                for (int j=0; j < orows; j++)
-                    in->text[i][j] = in->text[j][i] == apop_nul_string
-                                        ? apop_nul_string
-                                        : strdup(in->text[j][i]);
-            }
+        if (with_text){
+            apop_text_alloc(out, cols, rows);
+            Apop_stopif(out->error, return out, 0, "Allocation error.");
+            for (size_t r=0; r< rows; r++)
+                for (size_t c=0; c< cols; c++)
+                    if (in->text[r][c] == apop_nul_string)
+                         apop_text_blank(out, c, r);
+                    else Apop_stopif(apop_text_set(out, c, r, "%s", in->text[r][c]), out->error='a'; return out,
+                            0, "couldn't copy text element (%zu, %zu). Probably out of memory.", r, c);
         }
-        size_t squaresize = GSL_MIN(orows, ocols);
-        for (int i=0; i< squaresize; i++) //now do the no-need-to-extend square
-            for (int j=i+1; j< squaresize; j++){
-                char *tmp = in->text[i][j];
-                in->text[i][j] = in->text[j][i];
-                in->text[j][i] = tmp;
-            }
-        in->textsize[0] = ocols;
-        in->textsize[1] = orows;
-    } else {
-        apop_text_alloc(out, in->textsize[1], in->textsize[0]);
-        for (int r=0; r< in->textsize[0]; r++)
-            for (int c=0; c< in->textsize[1]; c++)
-                if (in->text[r][c] == apop_nul_string)
-                     apop_text_blank(out, c, r);
-                else apop_text_set(out, c, r, "%s", in->text[r][c]);
     }
-    if (in->names && in->names->textct && !in->names->colct)
-        apop_name_stack(out->names, in->names, 't', 'r');
+    if (use_text_names)
+        for (int i=0; i< in->names->textct; i++)
+            Apop_stopif(apop_name_add(out->names, in->names->text[i], 'r') == -1, out->error='a'; return out,
+                            0, "couldn't copy the names. Probably out of memory.");
     return out;
 }
 
-- 
2.43.0


From 54e29c9f22b6a3fc980cd19fb901e2a0323dc08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:11 +0000
Subject: [PATCH 106/192] fix: removing a page frees its contents and skips
 untitled pages

---
 apop_data.m4.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/apop_data.m4.c b/apop_data.m4.c
index 8b4b131..856e905 100644
--- a/apop_data.m4.c
+++ b/apop_data.m4.c
@@ -1412,7 +1412,8 @@ APOP_VAR_HEAD apop_data* apop_data_rm_page(apop_data * data, const char *title,
     Apop_stopif(!data, return NULL, (free_p=='y'? 2: 1), "You are removing a "
                                "page from a NULL a data set. Doing nothing.");
 APOP_VAR_ENDHEAD
-    while (data->more && strcasecmp(data->more->names->title, title))
+    while (data->more && (!data->more->names || !data->more->names->title
+                            || strcasecmp(data->more->names->title, title)))
         data = data->more;
     Apop_stopif(!data->more, return NULL, (free_p=='y'?2:1), "You asked me to "
                 "remove '%s' but I couldn't find a page matching that.", title);
@@ -1421,7 +1422,7 @@ APOP_VAR_ENDHEAD
         data->more = data->more->more;
         tmp->more = NULL;
         if (free_p=='y'){
-            free(tmp);
+            apop_data_free_base(tmp);
             return NULL;
         } //else:
         return tmp;
-- 
2.43.0


From 8ec4f0cd02102d1febb7131c75fdd2169776d50f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:54 +0000
Subject: [PATCH 107/192] fix: copying a data set copies the name of its vector

---
 apop_data.m4.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apop_data.m4.c b/apop_data.m4.c
index 856e905..a50a945 100644
--- a/apop_data.m4.c
+++ b/apop_data.m4.c
@@ -254,7 +254,7 @@ void apop_data_memcpy(apop_data *out, const apop_data *in){
             if (copy) out->names->title = copy;
             else      out->error = 'a';
         }
-        if (out->names->vector && in->names->vector && !same_string(out->names->vector, in->names->vector)) {
+        if (in->names->vector && !same_string(out->names->vector, in->names->vector)) {
             copy = strdup(in->names->vector);
             if (copy) out->names->vector = copy;
             else      out->error = 'a';
-- 
2.43.0


From 86f8044a864f9e40db46aa1040e6ec00a38fdec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:56 +0000
Subject: [PATCH 108/192] fix: removing columns leaves the data set as it was
 if there is no memory, and keeps name hashes with their names

---
 apop_data.m4.c | 34 ++++++++++++++++------------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/apop_data.m4.c b/apop_data.m4.c
index a50a945..801ea05 100644
--- a/apop_data.m4.c
+++ b/apop_data.m4.c
@@ -691,20 +691,13 @@ allocation:
 \see \ref apop_data_prune_columns
 */
 static void apop_name_rm_columns(apop_name *n, int *drop){
-    apop_name *newname = apop_name_alloc();
-    size_t initial_colct = n->colct;
-    for (size_t i=0; i< initial_colct; i++){
-        if (drop[i]==0) apop_name_add(newname, n->col[i],'c');
-        else            n->colct--;
-        free(n->col[i]);
-    }
-    free(n->col);
-    n->col = newname->col;
-
-    //we need to free the newname struct, but leave the column intact.
-    newname->col = NULL;
-    newname->colct  = 0;
-    apop_name_free(newname);
+    int kept = 0;
+    for (int i=0; i< n->colct; i++)
+        if (drop[i]==0) {
+            if (n->colhash) n->colhash[kept] = n->colhash[i];
+            n->col[kept++] = n->col[i];
+        } else free(n->col[i]);
+    n->colct = kept;
 }
 
 
@@ -716,7 +709,8 @@ static gsl_matrix *apop_matrix_rm_columns(gsl_matrix *in, int *drop){
             ct++;
     if (ct == in->size2) return apop_matrix_copy(in);
     if (ct == 0)         return NULL;
-    gsl_matrix *out = gsl_matrix_alloc(in->size1, ct);
+    gsl_matrix *out = apop_matrix_alloc_or_null(in->size1, ct);
+    Apop_stopif(!out, return NULL, 0, "failed to allocate a gsl_matrix of size %zu x %i. Out of memory?", in->size1, ct);
     for (size_t i=0; i < in->size2; i++){
         if (drop[i]==0){
             gsl_vector *v = Apop_cv(&(apop_data){.matrix=in}, i);
@@ -738,12 +732,16 @@ up more than half of your memory, this may not work.
 output. A reminder: <tt>calloc(in->size2 , sizeof(int))</tt> will fill your array with zeros on allocation, and 
 <tt>memset(use, 1, in->size2 * sizeof(int))</tt> will
 quickly fill an array of ints with nonzero values.
+\exception d->error=='a'  Allocation error. No columns are removed.
 \ref apop_data_rm_rows
 */
 void apop_data_rm_columns(apop_data *d, int *drop){
-    gsl_matrix *freeme = d->matrix;
-    d->matrix = apop_matrix_rm_columns(d->matrix, drop);
-    gsl_matrix_free(freeme); 
+    int keep = 0;
+    for (size_t i=0; i < d->matrix->size2; i++) keep += !drop[i];
+    gsl_matrix *pruned = apop_matrix_rm_columns(d->matrix, drop);
+    Apop_stopif(keep && !pruned, d->error='a'; return, 0, "No space for the remaining columns; not removing any.");
+    gsl_matrix_free(d->matrix); 
+    d->matrix = pruned;
     apop_name_rm_columns(d->names, drop);
 }
 
-- 
2.43.0


From 73a5f5d55e53455aab09d925ccf23e868fb9974a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:56 +0000
Subject: [PATCH 109/192] fix: removing rows reports a row that couldn't be
 moved

---
 apop_data.m4.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/apop_data.m4.c b/apop_data.m4.c
index 801ea05..4dbc86f 100644
--- a/apop_data.m4.c
+++ b/apop_data.m4.c
@@ -1480,7 +1480,11 @@ APOP_VAR_ENDHEAD
             drop_row = do_drop(Apop_r(in, i), drop_parameter);
         }
         if (!drop_row){
-            if (outlength != i) apop_data_memcpy(Apop_r(in, outlength), Apop_r(in, i));
+            if (outlength != i){
+                apop_data *to = Apop_r(in, outlength);
+                apop_data_memcpy(to, Apop_r(in, i));
+                Apop_stopif(to->error, in->error = to->error; return in, 0, "Trouble moving row %i to row %i.", i, outlength);
+            }
             outlength++;
         }
     }
-- 
2.43.0


From de0ec8caf39a81aeba37cc003f993ca3115da71c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:56 +0000
Subject: [PATCH 110/192] fix: adding named elements reports allocation errors

---
 apop_data.m4.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/apop_data.m4.c b/apop_data.m4.c
index 4dbc86f..f770267 100644
--- a/apop_data.m4.c
+++ b/apop_data.m4.c
@@ -978,6 +978,7 @@ there are two names in the data set, then I will put the new name in
 the third name slot and the data in the third slot in the vector. If
 you use this function from start to finish in building your list, then you'll be fine.
 \li If the vector is too short (or \c NULL), I will call \ref apop_vector_realloc internally to make space.
+\li If there isn't enough memory, I don't add the element, and set <tt>d->error='a'</tt>.
 \li This fits well with the defaults for \ref apop_data_get. An example:
 
 \code
@@ -995,18 +996,23 @@ height = Lookup(list, height);
 void apop_data_add_named_elmt(apop_data *d, char *name, double val){
     Apop_stopif(!d, return, 0, "You sent me a NULL apop_data set. "
                                "Maybe allocate with apop_data_alloc() to start.");
-    apop_name_add(d->names, name, 'r');
-    if (!d->vector) d->vector = gsl_vector_alloc(1);
-    if (d->vector->size < d->names->rowct)
-        apop_vector_realloc(d->vector, d->names->rowct);
+    Apop_stopif(apop_name_add(d->names, name, 'r') == -1, d->error='a'; return,
+                               0, "Couldn't add the name %s.", name);
+    if (!d->vector || d->vector->size < d->names->rowct){
+        gsl_vector *v = apop_vector_realloc(d->vector, d->names->rowct);
+        Apop_stopif(!v, free(d->names->row[--d->names->rowct]); d->error='a'; return,
+                               0, "Couldn't extend the list. Probably out of memory.");
+        d->vector = v;
+    }
     gsl_vector_set(d->vector, d->names->rowct-1, val);
 }
 
 //See apop_data_add_names in types.h.
 void apop_data_add_names_base(apop_data *d, const char type, char const ** names){
     if (!d->names) d->names = apop_name_alloc();
+    Apop_stopif(!d->names, d->error='a'; return, 0, "couldn't allocate names. Probably out of memory.");
     for(char const** name = names; *name !=NULL; name++)
-        apop_name_add(d->names, *name, type);
+        Apop_stopif(apop_name_add(d->names, *name, type) == -1, d->error='a'; return, 0, "Couldn't add the name %s.", *name);
 }
 
 
-- 
2.43.0


From ded792448595eb5a8689a69aee428cf3ca38dbc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:09 +0000
Subject: [PATCH 111/192] fix: pruning columns drops the columns without names

---
 apop_data.m4.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/apop_data.m4.c b/apop_data.m4.c
index f770267..3bb097e 100644
--- a/apop_data.m4.c
+++ b/apop_data.m4.c
@@ -786,7 +786,8 @@ apop_data* apop_data_prune_columns_base(apop_data *d, char **colnames){
     find each element of the list, using that "" as a stopper, and then call apop_data_rm_columns.*/
     Apop_stopif(!d, return NULL, 1, "You're asking me to prune a NULL data set; returning.");
     Apop_stopif(!d->matrix, return d, 1, "You're asking me to prune a data set with NULL matrix; returning.");
-    int rm_list[d->names->colct];
+    int list_len = GSL_MAX(d->names->colct, d->matrix->size2);
+    int rm_list[list_len];
     int keep_count = 0;
     char **name_step = colnames;
     //to throw errors for typos (and slight efficiency gains), I need an array of whether
@@ -806,6 +807,7 @@ apop_data* apop_data_prune_columns_base(apop_data *d, char **colnames){
             }
         rm_list[i] = !keep;
     }
+    for (int i=d->names->colct; i< list_len; i++) rm_list[i] = 1; //no name, so not on the list.
     apop_data_rm_columns(d, rm_list);
     for (int j=0; j<keep_count; j++)
         Apop_stopif(!used_field[j], , 1, "You asked me to keep column \"%s\" but I couldn't find a match for it. Typo?", colnames[j]);
-- 
2.43.0


From 5e56761ab9d2982c92244283133e660e01f57616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:07 +0000
Subject: [PATCH 112/192] fix: packing a data set doesn't lose pages if there
 is no memory for a regular expression

---
 apop_conversions.m4.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/apop_conversions.m4.c b/apop_conversions.m4.c
index f3e1c8e..211abbb 100644
--- a/apop_conversions.m4.c
+++ b/apop_conversions.m4.c
@@ -687,6 +687,13 @@ APOP_VAR_ENDHEAD
 	return set;
 }
 
+//Titles of informational pages are in <angle brackets>. No regex here, because compiling one needs memory.
+static bool is_info_page(apop_data const *d){
+    char const *title = d->names ? d->names->title : NULL;
+    size_t len = title ? strlen(title) : 0;
+    return len >= 2 && title[0]=='<' && title[len-1]=='>';
+}
+
 /** This is the complement to \ref apop_data_pack, qv. It writes the \c gsl_vector
     produced by that function back to the \ref apop_data set you provide. It overwrites
     the data in the vector and matrix elements and, if present, the \c weights (and
@@ -732,7 +739,7 @@ APOP_VAR_ENDHEAD
         vin = gsl_vector_subvector((gsl_vector *)in, offset, in->size - offset).vector;
         d = d->more;
         if (use_info_pages=='n')
-            while (d && apop_regex(d->names->title, "^<.*>$"))
+            while (d && is_info_page(d))
                 d = d->more;
         Apop_stopif(!d, return, 0, "The data set (without info pages, because you didn't ask"
                 " me to use them) is too short for the input vector.");
@@ -742,7 +749,7 @@ APOP_VAR_ENDHEAD
 
 static size_t sizecount(const apop_data *in, bool all_pp, bool use_info_pp){ 
     if (!in) return 0;
-    if (!use_info_pp && in->names && apop_regex(in->names->title, "^<.*>$"))
+    if (!use_info_pp && is_info_page(in))
         return (all_pp ? sizecount(in->more, all_pp, use_info_pp) : 0);
     return (in->vector ? in->vector->size : 0)
              + (in->matrix ? in->matrix->size1 * in->matrix->size2 : 0)
@@ -811,7 +818,7 @@ APOP_VAR_ENDHEAD
         offset  += in->weights->size;
     }
     if ((more_pages == 'y' ||more_pages =='Y') && in->more){
-        while (use_info_pages=='n' && in->more && apop_regex(in->more->names->title, "^<.*>$"))
+        while (use_info_pages=='n' && in->more && is_info_page(in->more))
             in = in->more;
         if (in->more){
             vout = gsl_vector_subvector((gsl_vector *)out, offset, out->size - offset).vector;
-- 
2.43.0


From 76849f0464173215176936c965538f81271ce8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:21 +0000
Subject: [PATCH 113/192] fix: packing a data set whose last pages have only
 text

---
 apop_conversions.m4.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apop_conversions.m4.c b/apop_conversions.m4.c
index 211abbb..1c72da7 100644
--- a/apop_conversions.m4.c
+++ b/apop_conversions.m4.c
@@ -820,7 +820,7 @@ APOP_VAR_ENDHEAD
     if ((more_pages == 'y' ||more_pages =='Y') && in->more){
         while (use_info_pages=='n' && in->more && is_info_page(in->more))
             in = in->more;
-        if (in->more){
+        if (in->more && offset < out->size){ //else the remaining pages have no numbers.
             vout = gsl_vector_subvector((gsl_vector *)out, offset, out->size - offset).vector;
             apop_data_pack(in->more, &vout, more_pages, use_info_pages);
         }
-- 
2.43.0


From cbd3415dc2053ffa087650e9d095e8a9c65eccad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:52 +0000
Subject: [PATCH 114/192] fix: an error copying a later page marks the data set

---
 apop_data.m4.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/apop_data.m4.c b/apop_data.m4.c
index 3bb097e..f2d3e24 100644
--- a/apop_data.m4.c
+++ b/apop_data.m4.c
@@ -287,7 +287,11 @@ void apop_data_memcpy(apop_data *out, const apop_data *in){
                 else Apop_stopif(apop_text_set(out, i, j, "%s", in->text[i][j]), out->error='a'; return,
                         0, "couldn't copy text element (%zu, %zu). Probably out of memory.", i, j);
     }
-    if (in->more && out->more) apop_data_memcpy(out->more, in->more);
+    if (in->more && out->more){
+        char had = out->more->error;
+        apop_data_memcpy(out->more, in->more);
+        if (out->more->error != had) out->error = out->more->error;
+    }
 }
 
 /** Copy one \ref apop_data structure to another. That is, all data is duplicated.
-- 
2.43.0


From 73daeefc5d07996d2e31afee96388e9e7138279c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:56 +0000
Subject: [PATCH 115/192] fix: a loess prediction without confidence intervals
 has no page of uninitialised numbers

---
 model/apop_loess.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/model/apop_loess.c b/model/apop_loess.c
index aa7e921..9b6b6cc 100644
--- a/model/apop_loess.c
+++ b/model/apop_loess.c
@@ -3606,12 +3606,12 @@ apop_data * loess_predict (apop_data *in, apop_model *m){
     gsl_vector* firstcol = Apop_cv(in, 0);
     gsl_vector_view v = gsl_vector_view_array(pred.fit, firstcol->size);
     gsl_vector_memcpy(firstcol, &(v.vector));
-    apop_data *ci =  apop_data_add_page(in, apop_data_alloc(in->matrix->size1, 3), "<Confidence>");
-    apop_name_add(ci->names, "standard error", 'c');
-    apop_name_add(ci->names, "lower CI", 'c');
-    apop_name_add(ci->names, "upper CI", 'c');
-
     if (want_cov){
+        apop_data *ci =  apop_data_add_page(in, apop_data_alloc(in->matrix->size1, 3), "<Confidence>");
+        apop_name_add(ci->names, "standard error", 'c');
+        apop_name_add(ci->names, "lower CI", 'c');
+        apop_name_add(ci->names, "upper CI", 'c');
+
         //Find confidence intervals. Used to be in loess's pointwise().
         double coverage = Apop_settings_get(m, apop_loess, ci_level);
         double t_dist = qt(1 - (1 - coverage)/2, pred.df);
-- 
2.43.0


From 1308a31e078bf0638dd0dfd51b9a2cd91d6ac231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:56 +0000
Subject: [PATCH 116/192] fix: sorting by no column at all leaves the data as
 it is

---
 apop_sort.m4.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/apop_sort.m4.c b/apop_sort.m4.c
index 4486e23..b040907 100644
--- a/apop_sort.m4.c
+++ b/apop_sort.m4.c
@@ -160,6 +160,8 @@ APOP_VAR_ENDHEAD
         col_order = so;
     }
 
+    if (*col_order == -100) return out; //no columns to sort by
+
     bool is_text = ((int)*col_order != *col_order);
     bool is_name = (*col_order == 0.2);
 
-- 
2.43.0


From 2d764595be83e1a3caf7c51d41a0ac547ac20d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:40 +0000
Subject: [PATCH 117/192] fix: multinomial likelihoods and printing leave the
 model's parameters alone

---
 model/apop_multinomial.c | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/model/apop_multinomial.c b/model/apop_multinomial.c
index 800d7ce..8dc85b1 100644
--- a/model/apop_multinomial.c
+++ b/model/apop_multinomial.c
@@ -88,9 +88,16 @@ static double binomial_ll(gsl_vector *hits, void *paramv){
     return log(gsl_ran_binomial_pdf(hits->data[1], ((gsl_vector*)paramv)->data[1], ((gsl_vector*)paramv)->data[0]));
 }
 
-static double multinomial_ll(gsl_vector *v, void *params){
-    double *pv = ((apop_model*)params)->parameters->vector->data;
-    size_t size = ((apop_model*)params)->parameters->vector->size;
+//A full list of probabilities, with p_0 instead of n. Other threads may be using the parameters themselves.
+static gsl_vector *p_vector(gsl_vector const *params){
+    gsl_vector *out = apop_vector_copy(params);
+    if (out) gsl_vector_set(out, 0, 1 - (apop_sum(params)-gsl_vector_get(params, 0)));
+    return out;
+}
+
+static double multinomial_ll(gsl_vector *v, void *p){
+    double *pv = ((gsl_vector*)p)->data;
+    size_t size = ((gsl_vector*)p)->size;
     unsigned int hv[v->size]; //The GSL wants our hit count in an int*.
     for (size_t i=0; i < v->size; i ++)
         hv[i] = gsl_vector_get(v, i);
@@ -107,9 +114,10 @@ static long double multinomial_log_likelihood(apop_data *d, apop_model *params){
         "element 1 of the parameter vector is >1."); //mostly makes sense for the binomial.
     if (n==2) return apop_map_sum(d, .fn_vp=binomial_ll, .param=params->parameters->vector);
 
-    pv[0] = 1 - (apop_sum(params->parameters->vector)-n);//making the params a p-vector. Put n back at the end.
-    double out = apop_map_sum(d, .fn_vp=multinomial_ll, .param=params);
-    pv[0]=n;
+    gsl_vector *p = p_vector(params->parameters->vector);
+    Apop_stopif(!p, return GSL_NAN, 0, "Couldn't allocate the list of probabilities.");
+    double out = apop_map_sum(d, .fn_vp=multinomial_ll, .param=p);
+    gsl_vector_free(p);
     return out;
 }
 
@@ -154,12 +162,11 @@ static int multinomial_rng(double *out, gsl_rng *r, apop_model* est){
 }
 
 static void multinomial_show(apop_model *est, FILE *out){
-    double * p = est->parameters->vector->data;
-    int N=p[0];
-    p[0] = 1 - (apop_sum(est->parameters->vector)-N);
+    gsl_vector *p = p_vector(est->parameters->vector);
+    int N = gsl_vector_get(est->parameters->vector, 0);
     fprintf(out, "%s, with %i draws.\nBin odds:\n", est->name, N);
-    apop_vector_print(est->parameters->vector, .output_pipe=out);
-    p[0]=N;
+    apop_vector_print(p, .output_pipe=out);
+    gsl_vector_free(p);
 }
 
 double avs(gsl_vector *v){return (double) apop_vector_sum(v);}
-- 
2.43.0


From bae8a312efb42df9143cbefb30293d1c2ca9efb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:40 +0000
Subject: [PATCH 118/192] fix: mixtures of models that have no constraint

---
 transform/apop_mixture.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transform/apop_mixture.c b/transform/apop_mixture.c
index d87d0a9..2bfda3f 100644
--- a/transform/apop_mixture.c
+++ b/transform/apop_mixture.c
@@ -337,7 +337,7 @@ static long double mixture_constraint(apop_data *data, apop_model *model_in){
     unpack(model_in);
     //check all component models.
     for (apop_model **m = ms->model_list; *m; m++)
-        penalty += (*m)->constraint(data, *m);
+        if ((*m)->constraint) penalty += (*m)->constraint(data, *m);
     if (penalty){
         int posn=0, i=0;
         for (apop_model **m = ms->model_list; *m; m++){
-- 
2.43.0


From 3662716ae4dc1256c44b3f9637455ba38549bbaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:11 +0000
Subject: [PATCH 119/192] fix: a weighted PMF that was not estimated finds its
 total weight itself

---
 apop_stats.m4.c  | 4 +++-
 model/apop_pmf.c | 5 ++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/apop_stats.m4.c b/apop_stats.m4.c
index 791851b..c11a158 100644
--- a/apop_stats.m4.c
+++ b/apop_stats.m4.c
@@ -751,8 +751,10 @@ APOP_VAR_ENDHEAD
         apop_data *p = from->data;
         apop_pmf_settings *settings = Apop_settings_get_group(from, apop_pmf);
         Get_vmsizes(p); //maxsize
+        long double total_weight = settings ? settings->total_weight : 0;
+        if (p->weights && !total_weight) total_weight = apop_sum(p->weights); //a PMF that wasn't estimated.
         OMP_for_reduce (+:div,    int i=0; i < maxsize; i++){
-            double pi = p->weights ? gsl_vector_get(p->weights, i)/settings->total_weight : 1./maxsize;
+            double pi = p->weights ? gsl_vector_get(p->weights, i)/total_weight : 1./maxsize;
             if (!pi){
                 Apop_notify(3, "0\t--\t0");
                 continue;
diff --git a/model/apop_pmf.c b/model/apop_pmf.c
index a7690ba..894213b 100644
--- a/model/apop_pmf.c
+++ b/model/apop_pmf.c
@@ -261,13 +261,16 @@ static long double pmf_p(apop_data *d, apop_model *m){
         Get_vmsizes(m->data);//maxsize
         model_pmf_length = maxsize;
     }
+    //The estimate routine notes the total weight, but the model may not be the result of an estimation.
+    long double total_weight = settings ? settings->total_weight : 0;
+    if (m->data->weights && !total_weight) total_weight = apop_sum(m->data->weights);
     Get_vmsizes(d)//maxsize
     long double p = 1;
     for (int i=0; i< maxsize; i++){
         int elmt = find_in_data(m->data, Apop_r(d, i));
         if (elmt == -1) return 0; //Can't find one observation: prob=0;
         p *= m->data->weights
-                 ? m->data->weights->data[elmt] /settings->total_weight 
+                 ? m->data->weights->data[elmt] /total_weight 
                  : 1./model_pmf_length; //no weights means any known event is equiprobable
     }
     return p;
-- 
2.43.0


From b8d4427f06dcb417f31c626b5ab910208f252c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:11 +0000
Subject: [PATCH 120/192] fix: threads evaluating one data-constrained model
 use the scale of its current parameters

---
 transform/apop_dconstrain.c | 50 ++++++++++++++++++++++---------------
 1 file changed, 30 insertions(+), 20 deletions(-)

diff --git a/transform/apop_dconstrain.c b/transform/apop_dconstrain.c
index c918922..bcb9735 100644
--- a/transform/apop_dconstrain.c
+++ b/transform/apop_dconstrain.c
@@ -94,27 +94,37 @@ static double constr(apop_data *d, void *csin){
     return !cs->constraint(d, cs->base_model);
 }
 
-static bool is_stale(apop_dconstrain_settings *cs, apop_model *m){ //do I need to recalculate the scale?
+//Do I need to recalculate the scale? Call this where no other thread changes the settings.
+static bool is_stale(apop_dconstrain_settings *cs, gsl_vector *params){
+    if (!cs->scale) return true;
+    if (!cs->last_params || !params) return cs->last_params != params;
+    return cs->last_params->size != params->size || apop_vector_distance(cs->last_params, params);
+}
+
+/* Threads may evaluate the same model, so a scale and the parameters it was found with
+are always written and read together. The scaling function may take a while, or may
+itself want the likelihood of a constrained model, so it is called outside the critical region.*/
+static double current_scale(apop_dconstrain_settings *cs, apop_model *m){
+    gsl_vector *params = m->parameters ? apop_data_pack(m->parameters) : NULL;
     bool stale = false;
-    if (!cs->last_params && !m->parameters)
-        stale=false;
-    else {
-        gsl_vector *params = apop_data_pack(m->parameters);
-        if (!cs->last_params){
-            cs->last_params = apop_vector_copy(params);
-            stale = true;
-        } else if (cs->last_params->size != params->size){
-            apop_vector_realloc(cs->last_params, params->size);
-            gsl_vector_memcpy(cs->last_params, params);
-            stale = true;
-        } else if (apop_vector_distance(cs->last_params, params)){
-            gsl_vector_memcpy(cs->last_params, params);
-            stale=true;
+    double scale = 0;
+    OMP_critical(dconstrain_scale)
+    {
+        stale = is_stale(cs, params);
+        scale = cs->scale;
+    }
+    if (stale){
+        scale = cs->scaling((cs->scaling == get_scaling) ? m : cs->base_model);
+        OMP_critical(dconstrain_scale)
+        {
+            gsl_vector *old = cs->last_params;
+            cs->last_params = params;
+            cs->scale = scale;
+            params = old;
         }
-        gsl_vector_free(params);
     }
-    if (!cs->scale) stale = true; //but at this point, last_params is prepped.
-    return stale;
+    gsl_vector_free(params);
+    return scale;
 }
 
 static long double dc_ll(apop_data *indata, apop_model* m){
@@ -123,9 +133,9 @@ static long double dc_ll(apop_data *indata, apop_model* m){
     double any_outside = apop_map_sum(indata, .fn_rp=constr, .param=cs);
     if (any_outside) return -INFINITY;
 
-    if (is_stale(cs, m)) cs->scale = cs->scaling((cs->scaling == get_scaling) ? m : cs->base_model);
+    double scale = current_scale(cs, m);
     Get_vmsizes(indata); //maxsize
-    return apop_log_likelihood(indata, cs->base_model) - log(cs->scale)*maxsize;
+    return apop_log_likelihood(indata, cs->base_model) - log(scale)*maxsize;
 }
 
 apop_model *apop_dconstrain = &(apop_model){"Data-constrained model", .log_likelihood=dc_ll, .draw=dc_rng, .prep=dc_prep};
-- 
2.43.0


From b76c4d8336d7cf9ef7835b757c941c55d7a69e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:18 +0000
Subject: [PATCH 121/192] fix: parameter models and printing of OLS estimates
 leave the shared table and the pages of the estimate alone

---
 apop_internal.h  |  2 ++
 apop_model.m4.c  | 14 +++++++++-----
 model/apop_ols.c | 16 +++++++++-------
 3 files changed, 20 insertions(+), 12 deletions(-)

diff --git a/apop_internal.h b/apop_internal.h
index 659a80f..e694a03 100644
--- a/apop_internal.h
+++ b/apop_internal.h
@@ -95,4 +95,6 @@ apop_data *apop_crosstab_query(char const *fmt, ...); //in apop_db.c
 gsl_vector *apop_vector_alloc_or_null(size_t size);   //apop_linear_algebra.c
 gsl_matrix *apop_matrix_alloc_or_null(size_t size1, size_t size2);
 
+apop_model *apop_parameter_model_default(apop_data *d, apop_model *m); //apop_model.m4.c
+
 apop_model *maybe_prep(apop_data *d, apop_model *m, _Bool *is_a_copy); //in apop_mcmc, for apop_update.
diff --git a/apop_model.m4.c b/apop_model.m4.c
index 1e350b3..412b208 100644
--- a/apop_model.m4.c
+++ b/apop_model.m4.c
@@ -355,12 +355,16 @@ typedef apop_model* (*apop_parameter_model_type)(apop_data *, apop_model *);
 \endcode
 */ 
 apop_model *apop_parameter_model(apop_data *d, apop_model *m){
-    apop_pm_settings *settings = apop_settings_get_group(m, apop_pm);
-    if (!settings)
-        settings = Apop_settings_add_group(m, apop_pm, .base= m);
+    if (!apop_settings_get_group(m, apop_pm))
+        Apop_settings_add_group(m, apop_pm, .base= m);
     apop_parameter_model_type pm = apop_parameter_model_vtable_get(m);
-    if (pm) return pm(d, m);
-    else if (d){
+    return pm ? pm(d, m) : apop_parameter_model_default(d, m);
+}
+
+//For use when no special-case calculation applies; the model has an apop_pm settings group.
+apop_model *apop_parameter_model_default(apop_data *d, apop_model *m){
+    apop_pm_settings *settings = apop_settings_get_group(m, apop_pm);
+    if (d){
         Get_vmsizes(m->parameters);//vsize, msize1, msize2
         apop_model *out = apop_model_copy(apop_multivariate_normal);
         out->msize1 = out->vsize = out->msize2 = out->dsize = vsize+msize1+msize2;
diff --git a/model/apop_ols.c b/model/apop_ols.c
index 49be4dc..67ed731 100644
--- a/model/apop_ols.c
+++ b/model/apop_ols.c
@@ -381,18 +381,20 @@ apop_model *ols_param_models(apop_data *d, apop_model *m){
         return apop_model_set_parameters(apop_t_distribution, mu, sigma, df);
     }
     //else run the default
-    apop_parameter_model_vtable_drop(m);
-    apop_model *out = apop_parameter_model(d, m);
-    apop_parameter_model_vtable_add(ols_param_models, m);
-    return out;
+    return apop_parameter_model_default(d, m);
 }
 
 void ols_print(apop_model *m, FILE *ap){
     fprintf(ap, "Parameters:\n");
     apop_data_print(m->parameters, .output_pipe=(ap? ap : stdout));
-    apop_data *predict = apop_data_rm_page(m->info, "<Predicted>", .free_p='n');
-    apop_data_print(m->info, .output_pipe=(ap? ap : stdout));
-    if (predict) apop_data_add_page(m->info, predict, predict->names->title);
+    if (!m->info) apop_data_print(NULL, .output_pipe=(ap? ap : stdout));
+    for (apop_data *page = m->info; page; page = page->more){ //all pages but the predictions
+        if (page != m->info && page->names && page->names->title && !strcasecmp(page->names->title, "<Predicted>"))
+            continue;
+        apop_data this_page = *page;
+        this_page.more = NULL;
+        apop_data_print(&this_page, .output_pipe=(ap? ap : stdout));
+    }
 }
 
 apop_model *apop_ols = &(apop_model){.name="Ordinary Least Squares", .vsize = -1, .dsize=-1, .estimate=apop_estimate_OLS, 
-- 
2.43.0


From 75644cd039c1a13c8c325da12c26c14c2e62252f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:18 +0000
Subject: [PATCH 122/192] fix: a probit with several options compares outcomes
 in the thread that asks

---
 model/apop_probit.c | 32 +++++++++++++-------------------
 1 file changed, 13 insertions(+), 19 deletions(-)

diff --git a/model/apop_probit.c b/model/apop_probit.c
index 34ced3a..ed2c930 100644
--- a/model/apop_probit.c
+++ b/model/apop_probit.c
@@ -97,34 +97,28 @@ static long double biprobit_log_likelihood(apop_data *d, apop_model *p){
 	return total_prob;
 }
 
-static threadlocal double val;
-static double unordered(double in){ return in == val; }
-
 // This is just a for loop that runs a probit on each column.
 static long double multiprobit_log_likelihood(apop_data *d, apop_model *p){
     Nullcheck_mpd(d, p, GSL_NAN)
     gsl_vector *val_vector = get_category_table(d)->vector;
     if (val_vector->size==2) return biprobit_log_likelihood(d, p);
     //else, multinomial loop
-    static threadlocal apop_model *spare_probit = NULL;
-    if (!spare_probit){
-        spare_probit = apop_model_copy(apop_probit);
-        spare_probit->parameters = apop_data_alloc();
-    }
-    static threadlocal apop_data *working_data = NULL; //one per thread, as with the spare_probit.
-    if (!working_data) working_data = apop_data_alloc();
-    working_data->matrix = d->matrix;
-    gsl_vector *original_outcome = d->vector;
     double ll = 0;
-    double *vals = val_vector->data;
+    apop_data *is_this_option = apop_data_alloc(d->vector->size);
+    is_this_option->matrix = d->matrix;
+    apop_model one_probit = {.parameters = apop_data_alloc()};
     for(size_t i=0; i < p->parameters->matrix->size2; i++){
-        val = vals[i];
-        working_data->vector = apop_vector_map(original_outcome, unordered);
-        spare_probit->parameters->matrix = apop_vector_to_matrix(Apop_cv(p->parameters, 1));
-        ll  += apop_log_likelihood(working_data, spare_probit);
-        gsl_vector_free(working_data->vector); //yup. It's inefficient.
-        gsl_matrix_free(spare_probit->parameters->matrix);
+        for (size_t j=0; j < d->vector->size; j++)
+            gsl_vector_set(is_this_option->vector, j,
+                                gsl_vector_get(d->vector, j) == gsl_vector_get(val_vector, i));
+        one_probit.parameters->matrix = apop_vector_to_matrix(Apop_cv(p->parameters, 1));
+        ll  += biprobit_log_likelihood(is_this_option, &one_probit);
+        gsl_matrix_free(one_probit.parameters->matrix);
+        one_probit.parameters->matrix = NULL;
     }
+    is_this_option->matrix = NULL;
+    apop_data_free(is_this_option);
+    apop_data_free(one_probit.parameters);
 	return ll;
 }
 
-- 
2.43.0


From 9819ba832c2ac330a364fffe99b643999d9d39cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:51 +0000
Subject: [PATCH 123/192] fix: settings groups added when a model is first used
 do not move the list under other threads

---
 apop_internal.h |   2 +
 apop_model.m4.c |   8 ++--
 apop_settings.c | 107 ++++++++++++++++++++++++++++++------------------
 3 files changed, 72 insertions(+), 45 deletions(-)

diff --git a/apop_internal.h b/apop_internal.h
index e694a03..bbb9698 100644
--- a/apop_internal.h
+++ b/apop_internal.h
@@ -97,4 +97,6 @@ gsl_matrix *apop_matrix_alloc_or_null(size_t size1, size_t size2);
 
 apop_model *apop_parameter_model_default(apop_data *d, apop_model *m); //apop_model.m4.c
 
+int apop_settings_element(apop_model *model, int position, apop_settings_type *out); //apop_settings.c
+
 apop_model *maybe_prep(apop_data *d, apop_model *m, _Bool *is_a_copy); //in apop_mcmc, for apop_update.
diff --git a/apop_model.m4.c b/apop_model.m4.c
index 412b208..818b9f6 100644
--- a/apop_model.m4.c
+++ b/apop_model.m4.c
@@ -163,11 +163,9 @@ apop_model * apop_model_copy(apop_model *in){
         Apop_stopif(!out->more, out->error='a'; return out, 0, "Allocation error setting up the ->more pointer.");
         memcpy(out->more, in->more, in->more_size);
     }
-    int i=0; 
-    if (in->settings)
-        do 
-            apop_settings_copy_group(out, in, in->settings[i].name);
-        while (strlen(in->settings[i++].name));
+    apop_settings_type group;
+    for (int i=0; apop_settings_element(in, i, &group); i++)
+        apop_settings_copy_group(out, in, group.name);
     out->parameters = apop_data_copy(in->parameters);
     Apop_stopif(in->parameters && (!out->parameters || out->parameters->error), 
                     out->error='p'; return out, 0, "Error copying the model parameters.");
diff --git a/apop_settings.c b/apop_settings.c
index c2506f8..ab9929e 100644
--- a/apop_settings.c
+++ b/apop_settings.c
@@ -19,45 +19,81 @@ static unsigned long apop_settings_hash(char *str){
     return hash;
 }
 
+/* Some groups are added when a model is first used, which may happen while other threads read
+the settings of the same model. So the list is read and changed only inside of the settings_list
+critical region. Nothing is called from there that may itself need the settings of a model. */
+
 /* Remove a settings group from a model.
 
 Use \ref Apop_settings_rm_group. That macro uses this function internally.
 */
 void apop_settings_remove_group(apop_model *m, char *delme){
-    if (!m->settings) return;
-    int i = 0;
-    int ct = get_settings_ct(m);
     unsigned long delme_hash = apop_settings_hash(delme);
- 
-    while (m->settings[i].name[0] !='\0'){
-        if (m->settings[i].name_hash == delme_hash){
-            ((void (*)(void*))m->settings[i].free)(m->settings[i].setting_group);
-            for (int j=i+1; j< ct+1; j++) //don't forget the null sentinel.
-                m->settings[j-1] = m->settings[j];
-            i--;
+    apop_settings_type group;
+    int found;
+    do {
+        found = 0;
+        OMP_critical(settings_list)
+        {
+            int ct = get_settings_ct(m);
+            for (int i=0; i < ct && !found; i++)
+                if (m->settings[i].name_hash == delme_hash){
+                    found = 1;
+                    group = m->settings[i];
+                    for (int j=i+1; j< ct+1; j++) //don't forget the null sentinel.
+                        m->settings[j-1] = m->settings[j];
+                }
         }
-        i++;
-    }
+        if (found) ((void (*)(void*))group.free)(group.setting_group);
+    } while (found);
    // apop_assert_void(0, 1, 'c', "I couldn't find %s in the input model, so nothing was removed.", delme);
 }
 
+//Copy the position'th element of the list to out; return zero if there is no such element.
+int apop_settings_element(apop_model *model, int position, apop_settings_type *out){
+    int found = 0;
+    OMP_critical(settings_list)
+    if (model->settings && position < get_settings_ct(model)){
+        *out = model->settings[position];
+        found = 1;
+    }
+    return found;
+}
+
+//Copy the first element of the given type to out; return zero if there is no such element.
+static int find_group(apop_model *model, char *type, apop_settings_type *out){
+    unsigned long type_hash = apop_settings_hash(type);
+    int found = 0;
+    OMP_critical(settings_list)
+    if (model->settings)
+        for (int i=0; !found && model->settings[i].name[0] !='\0'; i++)
+            if ((found = type_hash == model->settings[i].name_hash))
+                *out = model->settings[i];
+    return found;
+}
+
 /* Don't use this function. It's what the \c Apop_model_add_group macro uses internally. Use that.  */
 void *apop_settings_group_alloc(apop_model *model, char *type, void *free_fn, void *copy_fn, void *the_group){
     if(apop_settings_get_grp(model, type, 'c'))  
         apop_settings_remove_group(model, type); 
-    int ct = get_settings_ct(model);
-    apop_settings_type *newlist = realloc(model->settings, sizeof(apop_settings_type)*(ct+2));
-    Apop_stopif(!the_group || !newlist, if (newlist) {model->settings = newlist; newlist[ct] = (apop_settings_type) { };}
-                if (the_group && free_fn && copy_fn) ((void (*)(void*))free_fn)(the_group); model->error='s'; return NULL,
+    apop_settings_type new_group = {.setting_group = the_group, .name_hash = apop_settings_hash(type),
+                                    .free= free_fn, .copy = copy_fn };
+    strncpy(new_group.name, type, 100);
+    int ok = 0;
+    OMP_critical(settings_list)
+    {
+        int ct = get_settings_ct(model);
+        apop_settings_type *newlist = realloc(model->settings, sizeof(apop_settings_type)*(ct+2));
+        if (newlist) {model->settings = newlist; newlist[ct] = (apop_settings_type) { };}
+        if (newlist && the_group){
+            newlist[ct+1] = (apop_settings_type) { };
+            newlist[ct] = new_group;
+            ok = 1;
+        }
+    }
+    Apop_stopif(!ok, if (the_group && free_fn && copy_fn) ((void (*)(void*))free_fn)(the_group); model->error='s'; return NULL,
                 0, "Couldn't allocate the %s settings group. Out of memory?", type);
-    model->settings = newlist;
-    model->settings[ct] = (apop_settings_type) {
-                            .setting_group = the_group,
-                            .name_hash = apop_settings_hash(type),
-                            .free= free_fn, .copy = copy_fn };
-    strncpy(model->settings[ct].name, type, 100);
-    model->settings[ct+1] = (apop_settings_type) { };
-    return model->settings[ct].setting_group;
+    return the_group;
 }
 
 //need this for the apop_settings_model_group_alloc macro.
@@ -70,12 +106,8 @@ apop_model *apop_settings_group_alloc_wm(apop_model *model, char *type, void *fr
 void * apop_settings_get_grp(apop_model *m, char *type, char fail){
     //Used only for finding the non-blank groups.
     Apop_stopif(!m, return NULL, 0, "you gave me a NULL model as input.");
-    if (!m->settings) return NULL;
-    int i;
-    unsigned long type_hash = apop_settings_hash(type);
-    for (i=0; m->settings[i].name[0] !='\0'; i++)
-       if (type_hash == m->settings[i].name_hash)
-           return m->settings[i].setting_group;
+    apop_settings_type group;
+    if (find_group(m, type, &group)) return group.setting_group;
     Apop_assert(fail != 'f', "I couldn't find the settings group %s in the given model.", type);
     return NULL; //else, just return NULL and let the caller sort it out.
 }
@@ -95,15 +127,10 @@ void apop_settings_copy_group(apop_model *outm, apop_model *inm, char *copyme){
     if (!copyme || !strlen(copyme)) return; //apop_settings_group_alloc takes care of the blank sentinel.
     Apop_stopif(!inm, if (outm) outm->error = 's'; return, 0, "you asked me to copy the settings of a NULL model.");
     Apop_stopif(!inm->settings, return, 0, "The input model (i.e., the second argument to this function) has no settings.");
-    void *g =  apop_settings_get_grp(inm, copyme, 'c');
+    apop_settings_type group = { };
+    if (!find_group(inm, copyme, &group)) group.setting_group = NULL;
+    void *g = group.setting_group;
     Apop_stopif(!g, outm->error='s'; return, 0, "Couldn't find the group you wanted me to copy. Not copying anything; setting outmodel->error='s'.");
-    int i;
-    unsigned long type_hash = apop_settings_hash(copyme);
-    for (i=0; inm->settings[i].name[0] !='\0'; i++)//retrieve the index.
-       if (type_hash == inm->settings[i].name_hash)
-           break;
-    void *gnew = (inm->settings[i].copy) 
-                    ? ((void *(*)(void*))inm->settings[i].copy)(g)
-                    : g;
-    apop_settings_group_alloc(outm, copyme, inm->settings[i].free, inm->settings[i].copy, gnew);
+    void *gnew = group.copy ? ((void *(*)(void*))group.copy)(g) : g;
+    apop_settings_group_alloc(outm, copyme, group.free, group.copy, gnew);
 }
-- 
2.43.0


From e58c0837cb99f89ca03bf942cac44c7adcab6f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:26 +0000
Subject: [PATCH 124/192] fix: a view of columns does not count text names it
 does not have

---
 apop.m4.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apop.m4.h b/apop.m4.h
index b0b81b8..216f6d5 100644
--- a/apop.m4.h
+++ b/apop.m4.h
@@ -910,7 +910,7 @@ The view is automatically allocated, and disappears as soon as the program leave
                     .rowct = (d)->names->rowct,                                      \
                     .colct = (d)->names->col ? (GSL_MIN(len, GSL_MAX((d)->names->colct - colnum, 0)))      \
                                               : 0,                                   \
-                    .textct = (d)->names->textct } : NULL \
+                    .textct = 0 } : NULL \
             })
 
 /** \def Apop_r(d, row)
-- 
2.43.0


From a7cb7b067279cff2fd6c43117d876584fc2340c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:08 +0000
Subject: [PATCH 125/192] fix: apop_query_to_mixed_data marks its output when
 there is no MySQL support

---
 apop_db.m4.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/apop_db.m4.c b/apop_db.m4.c
index 8e34656..12ba074 100644
--- a/apop_db.m4.c
+++ b/apop_db.m4.c
@@ -480,8 +480,7 @@ apop_data * apop_query_to_mixed_data(const char *typelist, const char * fmt, ...
         free(query);
         return out;}
 #else
-        {Apop_notify(0, "Apophenia was compiled without mysql support.");
-        return 0;}
+        Apop_stopif(1, free(query); apop_return_data_error(q), 0, "Apophenia was compiled without mysql support.");
 #endif
     //else
     apop_data *out = apop_sqlite_multiquery(typelist, query);
-- 
2.43.0


From a30e27ad5dafe4082b74bec125dac600a4a892dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:08 +0000
Subject: [PATCH 126/192] fix: apop_db_open heeds the choice of engine when a
 database is already open

---
 apop_db.m4.c | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/apop_db.m4.c b/apop_db.m4.c
index 12ba074..fe9e657 100644
--- a/apop_db.m4.c
+++ b/apop_db.m4.c
@@ -92,11 +92,6 @@ don't need to bother).
 */
 int apop_db_open(char const *filename){
     if (!apop_opts.db_engine) get_db_type();
-    if (!db) //check the environment.
-#ifdef HAVE_MYSQL
-       if(!mysql_db)  
-#endif
-
     if (apop_opts.db_engine == 'm')
 #ifdef HAVE_MYSQL
         return apop_mysql_db_open(filename);
-- 
2.43.0


From 999c5996fb438187eb56011359dca719dcaeeabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:44 +0000
Subject: [PATCH 127/192] fix: apop_anova reports a query that failed or had no
 rows

---
 apop_tests.m4.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/apop_tests.m4.c b/apop_tests.m4.c
index 5f99135..b47fe64 100644
--- a/apop_tests.m4.c
+++ b/apop_tests.m4.c
@@ -268,13 +268,16 @@ static apop_data* apop_anova_one_way(char *table, char *data, char *grouping){
  
     //total sum of squares:
     apop_data* tss = apop_query_to_data("select var_pop(%s), count(*) from %s", data, table);
-    Apop_stopif(!tss, apop_return_data_error('q'), 0, "Query 'select var_pop(%s), count(*) from %s' returned NULL. Does that look right to you?", data, table);
+    Apop_stopif(!tss || tss->error, apop_data_free(tss); apop_data_free(out); apop_return_data_error(q), 0,
+            "Query 'select var_pop(%s), count(*) from %s' returned NULL. Does that look right to you?", data, table);
     apop_data_set(out, 2, 0, apop_data_get(tss, 0, 0)*apop_data_get(tss, 0, 1)); //total sum of squares
     double total_df = apop_data_get(tss, 0, 1);
     apop_data_set(out, 2, 1, apop_data_get(tss, 0, 1)); //total df.
 
     //within group sum of squares:
     apop_data* wss = apop_query_to_data("select var_pop(%s), count(*) from %s group by %s", data,  table, grouping);
+    Apop_stopif(!wss || wss->error, apop_data_free(tss); apop_data_free(wss); apop_data_free(out); apop_return_data_error(q), 0,
+            "Query 'select var_pop(%s), count(*) from %s group by %s' returned NULL. Does that look right to you?", data, table, grouping);
     double group_df = wss->matrix->size1-1;
     apop_data_set(out, 0, 0, apop_data_get(wss, 0, 0)*group_df); //within sum of squares
     apop_data_set(out, 0, 1, group_df);
@@ -320,9 +323,12 @@ APOP_VAR_ENDHEAD
     Apop_stopif(first->error, return first, 0, "Error (%c) running one-way ANOVA.", first->error);
     if (!grouping2) return first;
     apop_data *second = apop_anova_one_way(table, data, grouping2);
+    Apop_stopif(second->error, apop_data_free(first); return second, 0, "Error (%c) running one-way ANOVA.", second->error);
     char *joined = NULL;
     Asprintf(&joined, "%s, %s", grouping1, grouping2);
     apop_data *interaction = apop_anova_one_way(table, data, joined);
+    Apop_stopif(interaction->error, free(joined); apop_data_free(first); apop_data_free(second); return interaction,
+            0, "Error (%c) running the ANOVA for the interaction.", interaction->error);
     apop_data *out = apop_data_calloc(5, 6);
     apop_name_stack(out->names, first->names, 'c');
     apop_data_add_names(out, 'r', first->names->row[0], second->names->row[0],
-- 
2.43.0


From c5c549b0e0182f369f212d059a90d6f7368a3121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:57 +0000
Subject: [PATCH 128/192] fix: apop_anova with a single group no longer aborts

---
 apop_tests.m4.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/apop_tests.m4.c b/apop_tests.m4.c
index b47fe64..4c0804c 100644
--- a/apop_tests.m4.c
+++ b/apop_tests.m4.c
@@ -252,6 +252,11 @@ apop_data * apop_test_anova_independence(apop_data *d){
 }
 
 
+//With a single group, or no degrees of freedom left for the residuals, there is no F distribution to look at.
+static double anova_F_cdf(double F, double df1, double df2){
+    return (df1 > 0 && df2 > 0 && !isnan(F)) ? gsl_cdf_fdist_P(F, df1, df2) : GSL_NAN;
+}
+
 static apop_data* apop_anova_one_way(char *table, char *data, char *grouping){
     //ANOVA has always just been a process of filling in a form, and
     //that's what this function does.
@@ -291,7 +296,7 @@ static apop_data* apop_anova_one_way(char *table, char *data, char *grouping){
     apop_data_set(out, 1, 2, apop_data_get(out, 1, 0)/apop_data_get(out, 1, 1));//mean SS residual
 
     apop_data_set(out, 0, 3, apop_data_get(out, 0, 2)/apop_data_get(out, 1, 2));//F ratio
-    apop_data_set(out, 0, 4, gsl_cdf_fdist_P(apop_data_get(out, 0, 3), group_df, residual_df));//pval
+    apop_data_set(out, 0, 4, anova_F_cdf(apop_data_get(out, 0, 3), group_df, residual_df));//pval
     apop_data_set(out, 0, 5, 1- apop_data_get(out, 0, 4));//confidence
 
     apop_data_free(tss);
@@ -351,15 +356,15 @@ APOP_VAR_ENDHEAD
     apop_data_set(out, 3, 2, apop_data_get(out, 3, 0)/apop_data_get(out, 3, 1));//mean SS residual
 
     apop_data_set(out, 0, 3, apop_data_get(out, 0, 2)/apop_data_get(out, 3, 2));//F ratio
-    apop_data_set(out, 0, 4, gsl_cdf_fdist_P(apop_data_get(out, 0, 3), gsl_vector_get(firstrow, 1), residual_df));//pval
+    apop_data_set(out, 0, 4, anova_F_cdf(apop_data_get(out, 0, 3), gsl_vector_get(firstrow, 1), residual_df));//pval
     apop_data_set(out, 0, 5, 1- apop_data_get(out, 0, 4));//confidence
 
     apop_data_set(out, 1, 3, apop_data_get(out, 1, 2)/apop_data_get(out, 3, 2));//F ratio
-    apop_data_set(out, 1, 4, gsl_cdf_fdist_P(apop_data_get(out, 1, 3), gsl_vector_get(secondrow, 1), residual_df));//pval
+    apop_data_set(out, 1, 4, anova_F_cdf(apop_data_get(out, 1, 3), gsl_vector_get(secondrow, 1), residual_df));//pval
     apop_data_set(out, 1, 5, 1- apop_data_get(out, 1, 4));//confidence
 
     apop_data_set(out, 2, 3, apop_data_get(out, 2, 2)/apop_data_get(out, 3, 2));//F ratio
-    apop_data_set(out, 2, 4, gsl_cdf_fdist_P(apop_data_get(out, 2, 3), gsl_vector_get(interrow, 1), residual_df));//pval
+    apop_data_set(out, 2, 4, anova_F_cdf(apop_data_get(out, 2, 3), gsl_vector_get(interrow, 1), residual_df));//pval
     apop_data_set(out, 2, 5, 1- apop_data_get(out, 2, 4));//confidence
 
     free(joined);
-- 
2.43.0


From db1790ec02682640f2d4d2ffeda20c0e344c4d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:29 +0000
Subject: [PATCH 129/192] fix: apop_anova's queries all see the same table

---
 apop_tests.m4.c | 47 +++++++++++++++++++++++++++--------------------
 1 file changed, 27 insertions(+), 20 deletions(-)

diff --git a/apop_tests.m4.c b/apop_tests.m4.c
index 4c0804c..019f0c1 100644
--- a/apop_tests.m4.c
+++ b/apop_tests.m4.c
@@ -304,26 +304,7 @@ static apop_data* apop_anova_one_way(char *table, char *data, char *grouping){
     return out;
 }
 
-/** This function produces a traditional one- or two-way ANOVA table. It
-  works from data in an SQL table, using queries of a form like <tt>select
-  data from table group by grouping1, grouping2</tt>.
-
-  \param table The table to be queried. Anything that can go in an SQL <tt>from</tt> clause is OK, so this can be a plain table name or a temp table specification like <tt>(select ... )</tt>, with parens.
-  \param data The name of the column holding the count or other such data
-  \param grouping1 The name of the first column by which to group data
-  \param grouping2 If this is \c NULL, then the function will return a one-way ANOVA. Otherwise, the name of the second column by which to group data in a two-way ANOVA.
- */
-APOP_VAR_HEAD apop_data* apop_anova(char *table, char *data, char *grouping1, char *grouping2){
-    char *apop_varad_var(table, NULL)
-    Apop_stopif(!table, return NULL, 0, "I need the name of a table in the SQL database.");
-    if (!strchr(table, <|')'|>)) //if you found ()s, then it is a temp table spec.
-        Apop_stopif(!apop_table_exists(table), return NULL, 0, "I couldn't find the table %s in the database.", table);
-    char *apop_varad_var(data, NULL)
-    Apop_stopif(!data, return NULL, 0, "I need the name of the column in the %s table with the count or other data.", table);
-    char *apop_varad_var(grouping1, NULL)
-    Apop_stopif(!data, return NULL, 0, "I need at least grouping1, a column in the %s table.", table);
-    char *apop_varad_var(grouping2, NULL)
-APOP_VAR_ENDHEAD
+static apop_data *anova_table(char *table, char *data, char *grouping1, char *grouping2){
     apop_data *first = apop_anova_one_way(table, data, grouping1);
     Apop_stopif(first->error, return first, 0, "Error (%c) running one-way ANOVA.", first->error);
     if (!grouping2) return first;
@@ -374,6 +355,32 @@ APOP_VAR_ENDHEAD
     return out;
 }
 
+/** This function produces a traditional one- or two-way ANOVA table. It
+  works from data in an SQL table, using queries of a form like <tt>select
+  data from table group by grouping1, grouping2</tt>.
+
+  \param table The table to be queried. Anything that can go in an SQL <tt>from</tt> clause is OK, so this can be a plain table name or a temp table specification like <tt>(select ... )</tt>, with parens.
+  \param data The name of the column holding the count or other such data
+  \param grouping1 The name of the first column by which to group data
+  \param grouping2 If this is \c NULL, then the function will return a one-way ANOVA. Otherwise, the name of the second column by which to group data in a two-way ANOVA.
+ */
+APOP_VAR_HEAD apop_data* apop_anova(char *table, char *data, char *grouping1, char *grouping2){
+    char *apop_varad_var(table, NULL)
+    Apop_stopif(!table, return NULL, 0, "I need the name of a table in the SQL database.");
+    if (!strchr(table, <|')'|>)) //if you found ()s, then it is a temp table spec.
+        Apop_stopif(!apop_table_exists(table), return NULL, 0, "I couldn't find the table %s in the database.", table);
+    char *apop_varad_var(data, NULL)
+    Apop_stopif(!data, return NULL, 0, "I need the name of the column in the %s table with the count or other data.", table);
+    char *apop_varad_var(grouping1, NULL)
+    Apop_stopif(!data, return NULL, 0, "I need at least grouping1, a column in the %s table.", table);
+    char *apop_varad_var(grouping2, NULL)
+APOP_VAR_ENDHEAD
+    sqlite3 *held = apop_hold_db(); //All queries are to see the same table.
+    apop_data *out = anova_table(table, data, grouping1, grouping2);
+    apop_release_db(held);
+    return out;
+}
+
 /** This is a convenience function to do the lookup of a given statistic along a given
 distribution. You give me a statistic, its (hypothesized) distribution, and whether
 to use the upper tail, lower tail, or both. I will return the odds of a Type I error
-- 
2.43.0


From 3af8ed26287e182e59d1813e09bd3e4f71d06201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:02 +0000
Subject: [PATCH 130/192] fix: apop_data_split reports a lack of memory

---
 apop_data.m4.c | 53 ++++++++++++++++++++++++++++----------------------
 1 file changed, 30 insertions(+), 23 deletions(-)

diff --git a/apop_data.m4.c b/apop_data.m4.c
index f2d3e24..4be3296 100644
--- a/apop_data.m4.c
+++ b/apop_data.m4.c
@@ -525,10 +525,13 @@ size, \c splitpoint will equal the number of rows/columns in the first matrix.
  \li The <tt>apop_data->vector</tt> is taken to be the -1st element of the matrix.  
  \li Weights will be preserved. If splitting by rows, then the top and bottom parts of the weights vector will be assigned to the top and bottom parts of the main data set. If splitting by columns, identical copies of the weights vector will be assigned to both parts.
  \li Data is copied, so you may want to call <tt>apop_data_free(in)</tt> after this.
+
+ \exception out[i]->error=='a' Allocation error: that part is incomplete. If there is not even enough memory for the array, or for one of its parts, return \c NULL.
  */
 apop_data ** apop_data_split(apop_data *in, int splitpoint, char r_or_c){
     //A long, dull series of contingencies. Bonus: a reasonable use of goto.
     apop_data   **out   = malloc(2*sizeof(apop_data *));
+    Apop_stopif(!out, return NULL, 0, "Allocation error.");
     out[0] = out[1] = NULL;
     Apop_stopif(!in, return out, 1, "input was NULL; output will be an array of two NULLs.");
     gsl_vector v1, v2, w1, w2;
@@ -542,9 +545,9 @@ apop_data ** apop_data_split(apop_data *in, int splitpoint, char r_or_c){
         namersplit = -1, namecsplit = -1;
      if (r_or_c == 'r' || r_or_c == 'R') {
         if (splitpoint <=0)
-            out[1]  = apop_data_copy(in);
+            {Apop_stopif(!(out[1] = apop_data_copy(in)), free(out); return NULL, 0, "Allocation error.");}
         else if (in->matrix && splitpoint >= in->matrix->size1)
-            out[0]  = apop_data_copy(in);
+            {Apop_stopif(!(out[0] = apop_data_copy(in)), free(out); return NULL, 0, "Allocation error.");}
         else {
             namev0  =
             namev1  = 
@@ -584,9 +587,9 @@ apop_data ** apop_data_split(apop_data *in, int splitpoint, char r_or_c){
         namer1 = 1;
 
         if (splitpoint <= -1)
-            out[1]  = apop_data_copy(in);
+            {Apop_stopif(!(out[1] = apop_data_copy(in)), free(out); return NULL, 0, "Allocation error.");}
         else if (in->matrix && splitpoint >= in->matrix->size2)
-            out[0]  = apop_data_copy(in);
+            {Apop_stopif(!(out[0] = apop_data_copy(in)), free(out); return NULL, 0, "Allocation error.");}
         else if (splitpoint == 0){
             if (in->vector){
                 v1      = gsl_vector_subvector(in->vector, 0, in->vector->size).vector;
@@ -640,41 +643,44 @@ apop_data ** apop_data_split(apop_data *in, int splitpoint, char r_or_c){
 allocation:
     out[0]  = apop_data_alloc();
     out[1]  = apop_data_alloc();
-    if (set_v1) out[0]->vector  = apop_vector_copy(&v1);
-    if (set_v2) out[1]->vector  = apop_vector_copy(&v2);
-    if (set_m1) out[0]->matrix  = apop_matrix_copy(&m1);
-    if (set_m2) out[1]->matrix  = apop_matrix_copy(&m2);
-    if (set_w1) out[0]->weights  = apop_vector_copy(&w1);
-    if (set_w2) out[1]->weights  = apop_vector_copy(&w2);
-    if (namev0 && out[0]) apop_name_stack(out[0]->names, in->names, 'v');
-    if (namev1 && out[1]) apop_name_stack(out[1]->names, in->names, 'v');
+    Apop_stopif(!out[0] || !out[1], apop_data_free(out[0]); apop_data_free(out[1]); free(out); return NULL, 0, "Allocation error.");
+    Apop_stopif(out[0]->error || out[1]->error, return out, 0, "Allocation error.");
+#define Split_part(half, part, set, copy) if ((set) && !(out[half]->part = (copy))) out[half]->error = 'a';
+    Split_part(0, vector, set_v1, apop_vector_copy(&v1))
+    Split_part(1, vector, set_v2, apop_vector_copy(&v2))
+    Split_part(0, matrix, set_m1, apop_matrix_copy(&m1))
+    Split_part(1, matrix, set_m2, apop_matrix_copy(&m2))
+    Split_part(0, weights, set_w1, apop_vector_copy(&w1))
+    Split_part(1, weights, set_w2, apop_vector_copy(&w2))
+    if (in->names && in->names->vector){
+        if (namev0 && apop_name_add(out[0]->names, in->names->vector, 'v')==-1) out[0]->error = 'a';
+        if (namev1 && apop_name_add(out[1]->names, in->names->vector, 'v')==-1) out[1]->error = 'a';
+    }
     if (namersplit >=0)
         for (int k=0; k< in->names->rowct; k++){
             int which = (k >= namersplit);
-            assert(out[which]);
-            apop_name_add(out[which]->names, in->names->row[k], 'r');
+            if (apop_name_add(out[which]->names, in->names->row[k], 'r')==-1) out[which]->error = 'a';
         }
     else {
-        if (namer0 && out[0]) apop_name_stack(out[0]->names, in->names, 'r');
-        if (namer1 && out[1]) apop_name_stack(out[1]->names, in->names, 'r');
+        if (namer0) stack_names(out[0], in, 'r');
+        if (namer1) stack_names(out[1], in, 'r');
     }
     if (namecsplit >=0)
         for (int k=0; k< in->names->colct; k++){
             int which = (k >= namecsplit);
-            assert(out[which]);
-            apop_name_add(out[which]->names, in->names->col[k], 'c');
+            if (apop_name_add(out[which]->names, in->names->col[k], 'c')==-1) out[which]->error = 'a';
         }
     else {
-        if (namec0 && out[0]) apop_name_stack(out[0]->names, in->names, 'c');
-        if (namec1 && out[1]) apop_name_stack(out[1]->names, in->names, 'c');
+        if (namec0) stack_names(out[0], in, 'c');
+        if (namec1) stack_names(out[1], in, 'c');
     }
     //finally, the text [split by rows only]
     if (r_or_c=='r' && in->textsize[0] && in->textsize[1]){
-        apop_name_stack(out[1]->names, in->names, 't');
+        stack_names(out[1], in, 't');
         apop_text_alloc(out[0], splitpoint, in->textsize[1]);
         Apop_stopif(out[0]->error, return out, 0, "Allocation error.");
         if (in->textsize[0] > splitpoint){
-            apop_name_stack(out[0]->names, in->names, 't');
+            stack_names(out[0], in, 't');
             apop_text_alloc(out[1], in->textsize[0]-splitpoint, in->textsize[1]);
             Apop_stopif(out[1]->error, return out, 0, "Allocation error.");
         }
@@ -682,9 +688,10 @@ allocation:
             for (int j=0; j< in->textsize[1]; j++){
                 int whichtext = (i >= splitpoint);
                 int row = whichtext ? i - splitpoint : i;
-                Asprintf(&(out[whichtext]->text[row][j]), "%s", in->text[i][j]);
+                if (apop_text_set(out[whichtext], row, j, "%s", in->text[i][j])) out[whichtext]->error = 'a';
             }
     }
+    Apop_stopif(out[0]->error || out[1]->error, , 0, "Allocation error.");
     return out;
 }
 
-- 
2.43.0


From 8e0756a458d59cbe18e8e3b0f1c71d42c6bee690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:38 +0000
Subject: [PATCH 131/192] fix: apop_data_sort reports a lack of memory

---
 apop_sort.m4.c | 47 +++++++++++++++++++++++++++++++++--------------
 1 file changed, 33 insertions(+), 14 deletions(-)

diff --git a/apop_sort.m4.c b/apop_sort.m4.c
index b040907..f56746c 100644
--- a/apop_sort.m4.c
+++ b/apop_sort.m4.c
@@ -60,7 +60,7 @@ static void generate_sort_order(apop_data const *data, apop_data const *sort_ord
     so[cols_to_sort_ct-1] = -100;
 }
 
-#include <gsl/gsl_sort_vector.h>
+#include <gsl/gsl_sort.h>
 
 static int find_min_unsorted(size_t *sorted, size_t height, size_t min){
     while (min<height)
@@ -80,25 +80,37 @@ static int compare_strings(const void *a, const void *b) {
         : strcasecmp(d->text[*da][offset], d->text[*db][offset]);
 }
 
-static void rearrange(apop_data *data, size_t height, size_t *perm){
+static int copy_row(apop_data *data, size_t to, apop_data *from){
+    apop_data *row = Apop_r(data, to);
+    apop_data_memcpy(row, from);
+    return !!row->error;
+}
+
+//Return 0, or -1 if out of memory (and then rows may be missing).
+static int rearrange(apop_data *data, size_t height, size_t *perm){
     size_t i, start=0;
     size_t *sorted = calloc(height, sizeof(size_t));
+    if (!sorted) return -1;
+    int failed = 0;
     while (1){
         i     =
         start = find_min_unsorted(sorted, height, start);
         if (i==-1) break;
         apop_data *first_row_storage = apop_data_copy(Apop_r(data, start));
+        failed = !first_row_storage || first_row_storage->error;
         sorted[start]++;
-        while (perm[i]!=start){
+        while (!failed && perm[i]!=start){
             //copy from perm[i] to i
-            apop_data_memcpy(Apop_r(data,i), Apop_r(data, perm[i]));
+            failed = copy_row(data, i, Apop_r(data, perm[i]));
             sorted[perm[i]]++;
             i = perm[i];
         }
-        apop_data_memcpy(Apop_r(data, i), first_row_storage);
+        if (!failed) failed = copy_row(data, i, first_row_storage);
         apop_data_free(first_row_storage);
+        if (failed) break;
     }
     free(sorted);
+    return failed ? -1 : 0;
 }
 
 /** Sort an \ref apop_data set on an arbitrary sequence of columns. 
@@ -131,6 +143,7 @@ To determine which columns are sorted at which step, I use only comparisons, not
 \param col_order For internal use only. In your call, it should be \c NULL; you can leave this off your function call entirely and the \ref designated syntax will takes care of it for you.
 
 \return A pointer to the sorted data set. If <tt>inplace=='y'</tt> (the default), then this is the same as the input set.
+\exception out->error=='a' Allocation error; the output is not sorted and may have lost rows.
 
 
 A few examples:
@@ -150,6 +163,7 @@ APOP_VAR_ENDHEAD
     if (!data) return NULL;
 
     apop_data *out = inplace=='n' ? apop_data_copy(data) : data;
+    Apop_stopif(!out || out->error=='a', return out, 0, "Allocation error.");
 
     apop_data *xx = sort_order ? sort_order : out;
     Get_vmsizes(xx); //firstcol, msize2
@@ -180,24 +194,25 @@ APOP_VAR_ENDHEAD
                     : is_name ? out->names->rowct
                               : *out->textsize;
 
-    gsl_permutation *p = gsl_permutation_alloc(height);
-    if (!is_text) gsl_sort_vector_index (p, thiscol);
+    size_t *perm = malloc(GSL_MAX(height, 1)*sizeof(size_t));
+    Apop_stopif(!perm, out->error='a'; return out, 0, "Allocation error.");
+    if (!is_text) gsl_sort_index(perm, thiscol->data, thiscol->stride, height);
     else {
-        gsl_permutation_init(p);
+        for (size_t i=0; i< height; i++) perm[i] = i;
         d = out;
         offset = is_name ? -1 : *col_order-0.5;        
-        qsort(p->data, height, sizeof(size_t), compare_strings);
+        qsort(perm, height, sizeof(size_t), compare_strings);
     }
 
-    size_t *perm = p->data;
     if (asc=='d' || asc=='D') //reverse the perm matrix.
         for (size_t j=0; j< height/2; j++){
             double t         = perm[j];
             perm[j]          = perm[height-1-j];
             perm[height-1-j] = t;
         }
-    rearrange(out, height, perm);
-    gsl_permutation_free(p);
+    int failed = rearrange(out, height, perm);
+    free(perm);
+    Apop_stopif(failed, out->error='a'; return out, 0, "Allocation error.");
     if (col_order[1] == -100) return out;
 
     /*Second pass:
@@ -211,22 +226,26 @@ APOP_VAR_ENDHEAD
             double this_val=0;
             if ((i==height || (this_val=gsl_vector_get(thiscol, i)) != last_val) 
                     && bottom != i-1){
-                apop_data_sort_base(Apop_rs(out, bottom, i-bottom), sort_order, 'a', 'y', col_order+1);
+                apop_data *block = apop_data_sort_base(Apop_rs(out, bottom, i-bottom), sort_order, 'a', 'y', col_order+1);
+                if (block->error) {out->error = block->error; break;}
             }
             if (last_val != this_val) bottom = i;
             last_val = this_val;
         }
     } else {
         char *last_val =  strdup(is_name ? out->names->row[0] : out->text[0][(int)(*col_order-0.5)]);
+        Apop_stopif(!last_val, out->error='a'; return out, 0, "Allocation error.");
         for (int i=1; i< height+1; i++){
             char *this_val = i==height ? NULL : is_name ? out->names->row[i] : out->text[i][(int)(*col_order-0.5)];
             if ((i==height || strcasecmp(this_val, last_val)) 
                     && bottom != i-1){
-                apop_data_sort_base(Apop_rs(out, bottom, i-bottom), sort_order, 'a', 'y', col_order+1);
+                apop_data *block = apop_data_sort_base(Apop_rs(out, bottom, i-bottom), sort_order, 'a', 'y', col_order+1);
+                if (block->error) {out->error = block->error; break;}
             }
             if (this_val && strcmp(last_val, this_val)) bottom = i;
             free(last_val);
             last_val = this_val ? strdup(this_val) : NULL;
+            Apop_stopif(this_val && !last_val, out->error='a'; return out, 0, "Allocation error.");
         }
         free(last_val);
     }
-- 
2.43.0


From cc29726fb6cc66ecb3d23a690fcb2d85711f73a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:50 +0000
Subject: [PATCH 132/192] fix: apop_data_listwise_delete reports a lack of
 memory

---
 apop_missing_data.m4.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/apop_missing_data.m4.c b/apop_missing_data.m4.c
index 4a77ecc..589207d 100644
--- a/apop_missing_data.m4.c
+++ b/apop_missing_data.m4.c
@@ -43,6 +43,7 @@ APOP_VAR_ENDHEAD
     int len = GSL_MAX(vsize ? vsize : msize1, d->textsize[0]); //still some size assumptions here.
     int not_empty = 0;
     int *marked = calloc(len, sizeof(int));
+    Apop_stopif(!marked, if (inplace=='y' || inplace=='Y') {d->error='a'; return d;} apop_return_data_error(a), 0, "Allocation error.");
     for (int i=0; i< (vsize ? vsize: msize1); i++)
         for (int j=firstcol; j <msize2; j++){
             if (gsl_isnan(apop_data_get(d, i, j))){
@@ -74,7 +75,8 @@ APOP_VAR_ENDHEAD
         return NULL;
     }
     apop_data *out = (inplace=='y'|| inplace=='Y') ? d : apop_data_copy(d);
-    apop_data_rm_rows(out, marked);
+    Apop_stopif(!out, free(marked); apop_return_data_error(a), 0, "Allocation error.");
+    if (!out->error) apop_data_rm_rows(out, marked);
     free(marked);
     return out;
 }
-- 
2.43.0


From bef4daf946db0f35f889456c6687edbc52662729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:50 +0000
Subject: [PATCH 133/192] fix: apop_text_unique_elements and
 apop_vector_unique_elements report a lack of memory

---
 apop_regression.m4.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/apop_regression.m4.c b/apop_regression.m4.c
index 48852a4..5ffc304 100644
--- a/apop_regression.m4.c
+++ b/apop_regression.m4.c
@@ -65,7 +65,9 @@ gsl_vector * apop_vector_unique_elements(const gsl_vector *v){
     double *elmts = NULL;
     for (size_t i=0; i< v->size; i++){
         if (prior_elmt_ctr != elmt_ctr)
-            elmts = realloc(elmts, sizeof(double)*(elmt_ctr+1));
+            {double *more = realloc(elmts, sizeof(double)*(elmt_ctr+1));
+            Apop_stopif(!more, free(elmts); return NULL, 0, "Allocation error.");
+            elmts = more;}
         prior_elmt_ctr = elmt_ctr;
         double val = gsl_vector_get(v, i);
         lsearch(&val, elmts, &elmt_ctr, sizeof(double), compare_doubles);
@@ -92,6 +94,7 @@ apop_data * apop_text_unique_elements(const apop_data *d, size_t col){
   //first element for free
   size_t prior_elmt_ctr, elmt_ctr = 1;
   char **telmts = malloc(sizeof(char**)*2);
+  Apop_stopif(!telmts, apop_return_data_error(a), 0, "Allocation error.");
   telmts[0] = d->text[0][col];
 
     for (int i=1; i< d->textsize[0]; i++){
@@ -100,14 +103,16 @@ apop_data * apop_text_unique_elements(const apop_data *d, size_t col){
         lsearch (tval, telmts, &elmt_ctr, sizeof(char*), strcmpwrap);
         if (prior_elmt_ctr  < elmt_ctr){
             qsort(telmts, elmt_ctr, sizeof(char*), strcmpwrap);
-            telmts = realloc(telmts, sizeof(char**)*(elmt_ctr+1));
+            char **more = realloc(telmts, sizeof(char**)*(elmt_ctr+1));
+            Apop_stopif(!more, free(telmts); apop_return_data_error(a), 0, "Allocation error.");
+            telmts = more;
         }
     }
 
     //pack and ship
     apop_data *out = apop_text_alloc(NULL, elmt_ctr, 1);
-    for (int j=0; j< elmt_ctr; j++)
-        apop_text_set(out, j, 0, "%s", telmts[j]);
+    for (int j=0; out && !out->error && j< elmt_ctr; j++)
+        if (apop_text_set(out, j, 0, "%s", telmts[j])) out->error = 'a';
     free(telmts);
     return out;
 }
-- 
2.43.0


From b947a3bd762fc3aa17b3a80213fa7d70a40b401e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:28 +0000
Subject: [PATCH 134/192] fix: apop_data_add_page reports a lack of memory

---
 apop_data.m4.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/apop_data.m4.c b/apop_data.m4.c
index 4be3296..4371055 100644
--- a/apop_data.m4.c
+++ b/apop_data.m4.c
@@ -1379,15 +1379,19 @@ APOP_VAR_ENDHEAD
   \param title The name of the new page.
 
   \return The new page.  I post a warning if I am appending or appending to a \c NULL data set and  <tt>apop_opts.verbose >=1 </tt>.
+  \exception newpage->error=='a' Allocation error. The new page is not added, and I return \c NULL.
 
   \li See \ref pps for further notes.
 */
 apop_data * apop_data_add_page(apop_data * dataset, apop_data *newpage, const char *title){
     Apop_stopif(!newpage, return NULL, 1, "You are adding a NULL page to a data set. Doing nothing; returning NULL.");
     if (!newpage->names) newpage->names = apop_name_alloc();
+    Apop_stopif(!newpage->names, newpage->error='a'; return NULL, 0, "Allocation error.");
     if (title && !(newpage->names->title == title)){//has title, but is not pointing to existing title
+        char *newtitle = strdup(title);
+        Apop_stopif(!newtitle, newpage->error='a'; return NULL, 0, "Allocation error.");
         free(newpage->names->title);
-        Asprintf(&newpage->names->title, "%s", title);
+        newpage->names->title = newtitle;
     }
     Apop_stopif(!dataset, return newpage, 1, "You are adding a page to a NULL data set. Returning the new page as its own data set.");
     while (dataset->more)
-- 
2.43.0


From 587f8c6f0e0898b2d895deef9dbc4a5bf71a34ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:31 +0000
Subject: [PATCH 135/192] fix: apop_rake counts a margin cell without a count
 as zero, not as done after one round

---
 apop_rake.m4.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/apop_rake.m4.c b/apop_rake.m4.c
index bc302a5..ac18509 100644
--- a/apop_rake.m4.c
+++ b/apop_rake.m4.c
@@ -476,6 +476,7 @@ static apop_data *query_and_rake(char const *margin_table, apop_data const *all_
     Apop_stopif(fit->error, goto broken, 0, "Query error.");
     if (!init_table) gsl_vector_set_all(fit->weights, nudge ? nudge : 1);
 
+    apop_vector_apply(d->weights, nan_to_zero);
     apop_vector_apply(fit->weights, nan_to_zero);
     if (nudge) apop_map(fit, .fn_rp=nudge_zeros, .param=&nudge, .inplace='v');
 
-- 
2.43.0


From 7abbfbf0b4768ca7641947c34e778824c1f72859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:19 +0000
Subject: [PATCH 136/192] fix: apop_rake reports counts that sum to infinity

---
 apop_rake.m4.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/apop_rake.m4.c b/apop_rake.m4.c
index ac18509..3cb31da 100644
--- a/apop_rake.m4.c
+++ b/apop_rake.m4.c
@@ -295,6 +295,8 @@ static void c_loglin(const apop_data *config, const apop_data *indata,
     double x = apop_sum(indata->weights);
     double y = apop_sum(fit->weights);
     Apop_stopif(!y, index_free(index); fit->error='i'; return, 0, "Every cell of the starting table is zero.");
+    Apop_stopif(!gsl_finite(x) || !gsl_finite(y), index_free(index); fit->error='i'; return, 0, 
+                    "The counts sum to infinity.");
     gsl_vector_scale(fit->weights, x/y);
 
 	int contrast_ct =config && config->matrix ? config->matrix->size2 : 0;
-- 
2.43.0


From 09ee3800eb4fb27bf9dc3b91397c097a723e39ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:09 +0000
Subject: [PATCH 137/192] fix: apop_estimate_restart starts where it is asked
 to, also with models without search settings

---
 apop_mle.m4.c | 36 +++++++++++++++++-------------------
 1 file changed, 17 insertions(+), 19 deletions(-)

diff --git a/apop_mle.m4.c b/apop_mle.m4.c
index 27fee3b..4d0d27f 100644
--- a/apop_mle.m4.c
+++ b/apop_mle.m4.c
@@ -730,26 +730,24 @@ APOP_VAR_ENDHEAD
     if (!copy) copy = apop_model_copy(e);
     apop_mle_settings* prm0 = apop_settings_get_group(e, apop_mle);
     apop_mle_settings* prm = apop_settings_get_group(copy, apop_mle);
-            //copy off the old params; modify the starting pt, method, and scale
-    if (!strcmp(starting_pt, "es"))
-        v = apop_array_to_vector(prm0->starting_pt);
-    else if (!strcmp(starting_pt, "ns")){
-        int size =sizeof(prm->starting_pt)/sizeof(double);
-        v = apop_array_to_vector(prm->starting_pt, size);
-        prm0->starting_pt	= malloc(sizeof(double)*size);
-        memcpy(prm0->starting_pt, prm->starting_pt, sizeof(double)*size);
-    }
-    else if (!strcmp(starting_pt, "np")){
-        v = apop_data_pack(copy->parameters); 
-        prm->starting_pt = malloc(sizeof(double)*v->size);
-        memcpy(prm->starting_pt, v->data, sizeof(double)*v->size);
-    }
-    else if (e->parameters){//"ep" or default.
-        v = apop_data_pack(e->parameters); 
-        prm->starting_pt = malloc(sizeof(double)*v->size);
-        memcpy(prm->starting_pt, v->data, sizeof(double)*v->size);
+    if (!prm) prm = Apop_model_add_group(copy, apop_mle);
+    //modify the starting pt. If there is none, then the search will use its default.
+    if (!strcmp(starting_pt, "es") || !strcmp(starting_pt, "ns")){
+        if (!strcmp(starting_pt, "es")) prm->starting_pt = prm0 ? prm0->starting_pt : NULL;
+        v = apop_data_pack(e->parameters);
+        if (v && prm->starting_pt) memcpy(v->data, prm->starting_pt, sizeof(double)*v->size);
+        else if (v)                gsl_vector_set_all(v, 1);
+    } else {
+        int np = !strcmp(starting_pt, "np");
+        v = apop_data_pack(np ? copy->parameters : e->parameters); //"ep" is the default.
+        Apop_stopif(np && !v, return e, 0, "The new model has no parameters to start from;"
+                                           " returning your original model without restarting.");
+        if (v){
+            prm->starting_pt = malloc(sizeof(double)*v->size);
+            memcpy(prm->starting_pt, v->data, sizeof(double)*v->size);
+        }
     }
-    Apop_stopif(!apop_vector_bounded(v, boundary), return e, 
+    Apop_stopif(!apop_vector_bounded(v, boundary), gsl_vector_free(v); return e, 
                 0, "Your model has diverged (element(s) > %g);"
                    " returning your original model without restarting.", boundary);
     gsl_vector_free(v);
-- 
2.43.0


From fa86ade8d3a95511a0a9d8ba0dc2873b5b907260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:43 +0000
Subject: [PATCH 138/192] fix: bounds of zero for adaptive rejection sampling
 are used as given

---
 apop_arms.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/apop_arms.c b/apop_arms.c
index c5185c9..8d122f5 100644
--- a/apop_arms.c
+++ b/apop_arms.c
@@ -61,8 +61,10 @@ Apop_settings_init(apop_arms,
     out->ninit = (in.xinit && in.ninit) ? in.ninit : 3;
     out->xinit = malloc(sizeof(double)*out->ninit); //the list sent in may go out of scope.
     memcpy(out->xinit, xinit, sizeof(double)*out->ninit);
-    Apop_varad_set(xl, GSL_MIN(out->xinit[0]/10., out->xinit[0]*10)-.1);
-    Apop_varad_set(xr, GSL_MAX(out->xinit[out->ninit-1]/10., out->xinit[out->ninit-1]*10)+.1);
+    if (in.xinit || !(in.xl || in.xr)){ //Else, the bounds were given, and one of them may be zero.
+        Apop_varad_set(xl, GSL_MIN(out->xinit[0]/10., out->xinit[0]*10)-.1);
+        Apop_varad_set(xr, GSL_MAX(out->xinit[out->ninit-1]/10., out->xinit[out->ninit-1]*10)+.1);
+    }
     Apop_varad_set(convex, 0);
     Apop_varad_set(npoint, 100);
     Apop_varad_set(do_metro, 'y');
-- 
2.43.0


From 955ac23a0f0ff3fbfa9ecb5eea1a18fa64842ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:41 +0000
Subject: [PATCH 139/192] fix: a density that can't be evaluated makes an
 adaptive rejection draw fail, instead of counting as one

---
 apop_arms.c | 45 +++++++++++++++++++++++++--------------------
 1 file changed, 25 insertions(+), 20 deletions(-)

diff --git a/apop_arms.c b/apop_arms.c
index 8d122f5..2c21027 100644
--- a/apop_arms.c
+++ b/apop_arms.c
@@ -90,8 +90,8 @@ static int setup_state(apop_arms_settings *out){
             apop_assert(0, 1007, 0, 's', "previous Markov chain iterate out of range")*/
         out->state->metro_xprev = out->xprev;
         out->state->metro_yprev = perfunc(out,out->xprev);
-        assert(isfinite(out->state->metro_xprev));
-        assert(isfinite(out->state->metro_yprev));
+        Apop_stopif(!isfinite(out->state->metro_yprev), free_state(out); return 1005, 0,
+                "f(%g)=%g, so the Markov chain can't start there.", out->xprev, out->state->metro_yprev);
     }
     return 0;
 }
@@ -142,8 +142,8 @@ static int arms_draw (double *out, gsl_rng *r, apop_model *m){
         *out = pwork.x;
         assert(isfinite(pwork.x));
         return 0;
-    } else 
-      Apop_stopif(i!=0, return 1,-5, "envelope error - violation without metropolis");
+    } else //if failed, the envelope may be half-updated; start another at the next draw.
+      Apop_stopif(i!=0, free_state(params); *out = GSL_NAN; return 1, -5, "Couldn't evaluate the density, or envelope violation without metropolis.");
     msamp ++;
     Apop_notify(3, " point rejected.");
   } while (msamp < 1e3);
@@ -299,6 +299,8 @@ assert(p->pl && p->pr);
 
   /* evaluate log density at point to be tested */
   ynew = perfunc(params,p->x);
+  if (ynew == -INFINITY) return 0; // zero density: reject, and leave the envelope as is
+  if (!isfinite(ynew)) return -1;
 assert(isfinite(p->x));
 assert(p->pl && p->pr);
 Apop_notify(3, "tested (%g, %g); ", p->x, ynew);
@@ -362,15 +364,31 @@ int update(arms_state *env, POINT *p, apop_arms_settings *params){
 */
 
   POINT *m,*ql,*qr,*q;
+  double x=p->x, y=p->y;
 
   if(!(p->f) || (env->cpoint > env->npoint - 2))
     /* y-value has not been evaluated or no room for further points */
     return 0; // ignore this point
 
+  /* adjust position of q within interval if too close to an endpoint */
+  ql = (!p->pl->f && p->pl->pl) ? p->pl->pl : p->pl;
+  qr = (!p->pr->f && p->pr->pr) ? p->pr->pr : p->pr;
+  if (x < (1. - XEPS) * ql->x + XEPS * qr->x){
+    /* q too close to left end of interval */
+    x = (1. - XEPS) * ql->x + XEPS * qr->x;
+    y = perfunc(params, x);
+  } else if (x > XEPS * ql->x + (1. - XEPS) * qr->x){
+    /* q too close to right end of interval */
+    x = XEPS * ql->x + (1. - XEPS) * qr->x;
+    y = perfunc(params, x);
+  }
+  if (y == -INFINITY) return 0; // ignore this point
+  if (!isfinite(y)) return 1;
+
   /* copy working POINT p to a new POINT q */
   q = env->p + env->cpoint++;
-  q->x = p->x;
-  q->y = p->y;
+  q->x = x;
+  q->y = y;
   q->f = 1;
 
   /* allocate an unused POINT for a new intersection */
@@ -397,19 +415,6 @@ int update(arms_state *env, POINT *p, apop_arms_settings *params){
   } else
     Apop_stopif(1, return 1,-5, "unexpected event"); // this should be impossible
 
-  /* now adjust position of q within interval if too close to an endpoint */
-  ql = q->pl->pl ? q->pl->pl : q->pl;
-  qr = q->pr->pr ? q->pr->pr : q->pr;
-  if (q->x < (1. - XEPS) * ql->x + XEPS * qr->x){
-    /* q too close to left end of interval */
-    q->x = (1. - XEPS) * ql->x + XEPS * qr->x;
-    q->y = perfunc(params,q->x);
-  } else if (q->x > XEPS * ql->x + (1. - XEPS) * qr->x){
-    /* q too close to right end of interval */
-    q->x = XEPS * ql->x + (1. - XEPS) * qr->x;
-    q->y = perfunc(params,q->x);
-  }
-
   /* revise intersection points */
   if(meet(q->pl,env, params) /* envelope violations without metropolis */
         || meet(q->pr,env, params) 
@@ -562,7 +567,7 @@ double perfunc(apop_arms_settings *params, double x){
     apop_data *d = apop_data_falloc((1,1), x); //local: there may be several threads drawing.
   double y = apop_log_likelihood(d, params->model);
   apop_data_free(d);
-  Apop_assert(isfinite(y), "Evaluating the log likelihood at %g returned %g.", x, y);
+  Apop_stopif(!isfinite(y), return y, 0, "Evaluating the log likelihood at %g returned %g.", x, y);
   (params->neval)++; // increment count of function evaluations
   return y;
 }
-- 
2.43.0


From f0af8b4b77ed7994df43327267bb0dc71b80c40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:41 +0000
Subject: [PATCH 140/192] fix: an adaptive rejection draw that rejects
 everything is reported as failed

---
 apop_arms.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/apop_arms.c b/apop_arms.c
index 2c21027..93021b9 100644
--- a/apop_arms.c
+++ b/apop_arms.c
@@ -148,7 +148,8 @@ static int arms_draw (double *out, gsl_rng *r, apop_model *m){
     Apop_notify(3, " point rejected.");
   } while (msamp < 1e3);
   Apop_notify(1, "I just rejected 1,000 samples. Something is wrong.");
-  return 0;
+  *out = GSL_NAN;
+  return 1;
 }
 
 int initial (apop_arms_settings* params,  arms_state *env){
-- 
2.43.0


From 2ed8e89d32fe86438571b1d70f685bb63e7f11cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:13 +0000
Subject: [PATCH 141/192] fix: the CDF of a PMF is the mass up to and including
 the given row

---
 model/apop_pmf.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/model/apop_pmf.c b/model/apop_pmf.c
index 894213b..073146a 100644
--- a/model/apop_pmf.c
+++ b/model/apop_pmf.c
@@ -296,7 +296,7 @@ static long double pmf_cmf(apop_data *d, apop_model *m){
     Get_vmsizes(m->data); //maxsize
     int elmt = find_in_data(m->data, Apop_r(d, 0));
     if (elmt == -1) return 0; //Can't find one observation: prob=0;
-    if (!m->data->weights) return (elmt+0.0)/maxsize;
+    if (!m->data->weights) return (elmt+1.0)/maxsize;
     else {
         apop_pmf_settings *settings;
         OMP_critical(pmfsetup)
@@ -308,8 +308,7 @@ static long double pmf_cmf(apop_data *d, apop_model *m){
         if (!settings->cmf) setup_cmf(m);
         Apop_stopif(!settings->cmf, return GSL_NAN, 0, "%s", m->error=='a'
                         ? "Allocation error setting up the CMF." : "Zero or NaN density in the PMF.");
-        gsl_vector_view v = gsl_vector_subvector(settings->cmf, 0, elmt+1);
-        return apop_sum(&v.vector);
+        return gsl_vector_get(settings->cmf, elmt);
     }
 }
 
-- 
2.43.0


From 579a738546ed321698ddd6f8797537dcff358f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:14 +0000
Subject: [PATCH 142/192] fix: draws from a PMF without weights include the
 last row

---
 model/apop_pmf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/model/apop_pmf.c b/model/apop_pmf.c
index 073146a..9274624 100644
--- a/model/apop_pmf.c
+++ b/model/apop_pmf.c
@@ -160,7 +160,7 @@ static int draw (double *out, gsl_rng *r, apop_model *m){
     Get_vmsizes(m->data) //maxsize
     size_t current; 
     if (!m->data->weights) //all rows are equiprobable
-        current = gsl_rng_uniform(r)* (maxsize-1);
+        current = gsl_rng_uniform(r)* maxsize;
     else {
         size_t size = m->data->weights->size;
         #pragma omp critical (pmfsetuptwo)
-- 
2.43.0


From 9c3895009716f3d69e4df65235fb49cfbf37b1e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:14 +0000
Subject: [PATCH 143/192] fix: draws from a PMF with both a vector and a matrix
 have all the matrix's columns

---
 model/apop_pmf.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/model/apop_pmf.c b/model/apop_pmf.c
index 9274624..c549240 100644
--- a/model/apop_pmf.c
+++ b/model/apop_pmf.c
@@ -199,12 +199,12 @@ static int draw (double *out, gsl_rng *r, apop_model *m){
         return 0;
     }
     apop_data *outrow = Apop_r(m->data, current);
-    int i = 0;
-    if (outrow->vector)
-        out[i++] = outrow->vector->data[0];
+    //As in the prep routine, use the vector only if there's no matrix.
     if (outrow->matrix)
-        for( ; i < outrow->matrix->size2; i ++)
+        for(int i=0; i < outrow->matrix->size2; i ++)
             out[i] = gsl_matrix_get(outrow->matrix, 0, i);
+    else if (outrow->vector)
+        out[0] = outrow->vector->data[0];
     return 0;
 }
 
-- 
2.43.0


From ee583492b1eb788a3ff50915cef524a4daa3efab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:41 +0000
Subject: [PATCH 144/192] fix: draws from a binomial are the success count, as
 documented and as its CDF takes them

---
 model/apop_multinomial.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/model/apop_multinomial.c b/model/apop_multinomial.c
index 8dc85b1..0e0c822 100644
--- a/model/apop_multinomial.c
+++ b/model/apop_multinomial.c
@@ -140,8 +140,12 @@ static int multinomial_rng(double *out, gsl_rng *r, apop_model* est){
     int N = gsl_vector_get(est->parameters->vector, 0);
 
     if (est->parameters->vector->size == 2) {
-        *out = gsl_ran_binomial_knuth(r, 1-gsl_vector_get(est->parameters->vector, 1), N);
-        if (est->dsize != 1) out[1] = N-*out; //the Binomial's draw is only one number.
+        int misses = gsl_ran_binomial_knuth(r, 1-gsl_vector_get(est->parameters->vector, 1), N);
+        if (est->dsize == 1) *out = N-misses; //the Binomial's draw is only one number: the hit count.
+        else {
+            out[0] = misses;
+            out[1] = N-misses;
+        }
         return 0;
     }
     //else, multinomial
-- 
2.43.0


From a39122502146f5e8677d607796240515f63427f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:52 +0000
Subject: [PATCH 145/192] fix: a data-constrained model's draw fails when its
 base model's does, and its scale doesn't count failed draws

---
 transform/apop_dconstrain.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/transform/apop_dconstrain.c b/transform/apop_dconstrain.c
index bcb9735..6262784 100644
--- a/transform/apop_dconstrain.c
+++ b/transform/apop_dconstrain.c
@@ -44,7 +44,8 @@ static double get_scaling(apop_model *m){
     apop_data *d = apop_data_alloc(1, cs->base_model->dsize);
     int tally = 0;
     for (int i=0; i< cs->draw_ct; i++){
-        apop_draw(d->matrix->data, cs->rng, cs->base_model);
+        Apop_stopif(apop_draw(d->matrix->data, cs->rng, cs->base_model), apop_data_free(d); return GSL_NAN,
+                0, "Couldn't make a draw from the base model for apop_dconstrain.");
         tally += !!cs->constraint(d, cs->base_model);
     }
     apop_data_free(d);
@@ -83,7 +84,8 @@ static int dc_rng(double *out, gsl_rng *r, apop_model *m){
     Get_set(m, 1)
     gsl_matrix_view mv;
     do {
-        apop_draw(out, r, cs->base_model);
+        Apop_stopif(apop_draw(out, r, cs->base_model), return 1,
+                0, "Couldn't make a draw from the base model for apop_dconstrain.");
         mv = gsl_matrix_view_array(out, 1, cs->base_model->dsize);
     } while (!cs->constraint(&(apop_data){.matrix=&(mv.matrix)}, cs->base_model));
     return 0;
-- 
2.43.0


From 32c5fcd9583e85a750bc8d97dbdc672231f0052f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:37 +0000
Subject: [PATCH 146/192] fix: the cross product of one model is a copy of that
 model, and of none a model with an error mark

---
 transform/apop_cross.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/transform/apop_cross.c b/transform/apop_cross.c
index 9bcaeed..e3d5ce8 100644
--- a/transform/apop_cross.c
+++ b/transform/apop_cross.c
@@ -141,9 +141,9 @@ apop_model *apop_cross = &(apop_model){"Cross product of models", .p=cross_p, .l
 
 apop_model *apop_model_cross_base(apop_model *mlist[]){
     apop_model_print_vtable_add(cross_print, apop_cross);
-    Apop_stopif(!mlist[0], apop_model *oute = apop_model_copy(apop_cross); oute->error='i', 
+    Apop_stopif(!mlist[0], apop_model *oute = apop_model_copy(apop_cross); oute->error='n'; return oute,
                             0, "No inputs. Returning blank model with outmodel->error=='n'.");
-    Apop_stopif(!mlist[1], return apop_model_copy(mlist[1]), 2, "Only one model input; returning a copy of that model.");
+    Apop_stopif(!mlist[1], return apop_model_copy(mlist[0]), 2, "Only one model input; returning a copy of that model.");
     apop_model *m2 = mlist[2] ? apop_model_cross_base(mlist+1): mlist[1];
     apop_model *out = apop_model_copy(apop_cross);
     Apop_model_add_group(out, apop_cross, .model1=mlist[0], .model2=m2);
-- 
2.43.0


From de1948d91cbb2cbe46d012e016a8e0e880d5e042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:39 +0000
Subject: [PATCH 147/192] fix: a draw from a linear regression or logit is
 counted as one outcome plus all of the inputs

---
 model/apop_ols.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/model/apop_ols.c b/model/apop_ols.c
index 67ed731..7184d38 100644
--- a/model/apop_ols.c
+++ b/model/apop_ols.c
@@ -117,6 +117,8 @@ static void ols_prep(apop_data *d, apop_model *m){
     if (m->data && m->info) return; //already prepped; re-prep must be a no-op
     Apop_stopif(!d || (!d->vector && !d->matrix), m->error='d'; return, 0, "No data for regression.");
     ols_shuffle(d);
+    //A draw is the outcome, followed by the inputs.
+    if (m->dsize==-1 && m->draw && d->matrix) m->dsize = d->matrix->size2 + 1;
     void *mpt = m->prep; //also use the defaults.
     m->prep = NULL;
     apop_prep(d, m);
-- 
2.43.0


From 90e0391e1204bb62676f8b5face1071a68bf9169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:39 +0000
Subject: [PATCH 148/192] fix: a draw from a logit fails when its input
 distribution does, and a failed OLS draw doesn't leak

---
 model/apop_ols.c    | 2 +-
 model/apop_probit.c | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/model/apop_ols.c b/model/apop_ols.c
index 7184d38..c7b336b 100644
--- a/model/apop_ols.c
+++ b/model/apop_ols.c
@@ -283,7 +283,7 @@ static int ols_rng(double *out, gsl_rng *r, apop_model *m){
     Apop_stopif(!olp, return 1, 0, "no apop_lm settings group attached. Has this model been estimated yet?");
 
     gsl_vector *tempdata = gsl_vector_alloc(m->parameters->vector->size);
-    Apop_stopif(apop_draw(tempdata->data, r, olp->input_distribution), return 2,
+    Apop_stopif(apop_draw(tempdata->data, r, olp->input_distribution), gsl_vector_free(tempdata); return 2,
             0, "Couldn't draw from the distribution of the input data.");
     gsl_blas_ddot(tempdata, m->parameters->vector, out);
 
diff --git a/model/apop_probit.c b/model/apop_probit.c
index ed2c930..fbc7c56 100644
--- a/model/apop_probit.c
+++ b/model/apop_probit.c
@@ -307,7 +307,8 @@ static int logit_rng(double *out, gsl_rng *r, apop_model *m){
 
     size_t datasize = get_draw_size(olp->input_distribution);
     apop_data *x = apop_data_alloc(datasize);
-    apop_draw(x->vector->data, r, olp->input_distribution);
+    Apop_stopif(apop_draw(x->vector->data, r, olp->input_distribution), apop_data_free(x); return 2,
+            0, "Couldn't draw from the distribution of the input data.");
 
     apop_data *xbeta = apop_dot(x, m->parameters);
     apop_data *zero = apop_data_calloc(1);
-- 
2.43.0


From 6bbc560002fed42522145e32f69243de8329debc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:07 +0000
Subject: [PATCH 149/192] fix: a regression on data whose first column name is
 empty writes within the name

---
 model/apop_ols.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/model/apop_ols.c b/model/apop_ols.c
index c7b336b..6fd4e52 100644
--- a/model/apop_ols.c
+++ b/model/apop_ols.c
@@ -104,7 +104,8 @@ static void ols_shuffle(apop_data *d){
         gsl_vector_set_all(independent, 1);     //affine; first column is ones.
         if (d->names->colct > 0) {		
             apop_name_add(d->names, d->names->col[0], 'v');
-            sprintf(d->names->col[0], "1");
+            free(d->names->col[0]);
+            Asprintf(&d->names->col[0], "1");
         }
     }
 }
-- 
2.43.0


From e956afb3288e512cffbcfe7c37b88efd02bcd54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:56 +0000
Subject: [PATCH 150/192] fix: draws from a mixture use its current weights,
 not those at the first draw

---
 transform/apop_mixture.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/transform/apop_mixture.c b/transform/apop_mixture.c
index 2bfda3f..3a272bc 100644
--- a/transform/apop_mixture.c
+++ b/transform/apop_mixture.c
@@ -95,6 +95,7 @@ This example begins with a fixed mixture distribution, and makes assertions abou
 */
 
 #include "apop_internal.h"
+#include <stdbool.h>
 
 /* Evaluating a mixture writes to the parameters of its components and to the weights, so each
 copy of a mixture has its own. The components of the original are the ones the user sent in.*/
@@ -307,6 +308,14 @@ But I have logs, and want to stay in log-format for as long as possible, to prev
     return total_ll;
 }
 
+static bool same_elements(gsl_vector const *a, gsl_vector const *b){
+    if (!a || !b) return a==b;
+    if (a->size != b->size) return false;
+    for (size_t i=0; i< a->size; i++)
+        if (gsl_vector_get(a, i) != gsl_vector_get(b, i)) return false;
+    return true;
+}
+
 static int mixture_draw (double *out, gsl_rng *r, apop_model *m){
     apop_mixture_settings *ms = Apop_settings_get_group(m, apop_mixture);
     OMP_critical (mixdraw)
@@ -315,6 +324,10 @@ static int mixture_draw (double *out, gsl_rng *r, apop_model *m){
         ms->cmf->data = apop_data_alloc();
         ms->cmf->data->weights = apop_vector_copy(ms->weights);
         Apop_model_add_group(ms->cmf, apop_pmf, .draw_index='y');
+    } else if (!same_elements(ms->cmf->data->weights, ms->weights)){
+        gsl_vector_free(ms->cmf->data->weights);
+        ms->cmf->data->weights = apop_vector_copy(ms->weights);
+        Apop_model_add_group(ms->cmf, apop_pmf, .draw_index='y'); //replaces the group with the old CMF
     }
     double index; 
     Apop_stopif(apop_draw(&index, r, ms->cmf), return 1, 
-- 
2.43.0


From 2f04b64b42f3f259a5cef25b6d5b30587a29e785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:18 +0000
Subject: [PATCH 151/192] fix: draws from a mixture use its parameters

---
 transform/apop_mixture.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/transform/apop_mixture.c b/transform/apop_mixture.c
index 3a272bc..1540e07 100644
--- a/transform/apop_mixture.c
+++ b/transform/apop_mixture.c
@@ -329,6 +329,7 @@ static int mixture_draw (double *out, gsl_rng *r, apop_model *m){
         ms->cmf->data->weights = apop_vector_copy(ms->weights);
         Apop_model_add_group(ms->cmf, apop_pmf, .draw_index='y'); //replaces the group with the old CMF
     }
+    unpack(m); //if the mixture has parameters, the components follow them.
     double index; 
     Apop_stopif(apop_draw(&index, r, ms->cmf), return 1, 
             0, "Couldn't select a mixture element using the internal PMF over mixture elements.");
-- 
2.43.0


From 4529056f42019f95a2b77947f662b8dc948f7a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:29 +0000
Subject: [PATCH 152/192] fix: a mixture's constraint moves its components'
 parameters, and not its weights, into bounds

---
 transform/apop_mixture.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transform/apop_mixture.c b/transform/apop_mixture.c
index 1540e07..dc5ed8e 100644
--- a/transform/apop_mixture.c
+++ b/transform/apop_mixture.c
@@ -353,7 +353,7 @@ static long double mixture_constraint(apop_data *data, apop_model *model_in){
     for (apop_model **m = ms->model_list; *m; m++)
         if ((*m)->constraint) penalty += (*m)->constraint(data, *m);
     if (penalty){
-        int posn=0, i=0;
+        int i=0, posn = ms->weights ? ms->weights->size : 0; //the weights come first
         for (apop_model **m = ms->model_list; *m; m++){
             if (!ms->param_sizes[i]) {i++; continue;} //NULL params
             gsl_vector v = gsl_vector_subvector(model_in->parameters->vector, posn, ms->param_sizes[i]).vector;
-- 
2.43.0


From 0711fdfe63c0c5f3c7855c6156c9e75b0c782730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:42 +0000
Subject: [PATCH 153/192] fix: a data-constrained model's parameter constraint
 is evaluated with its base model

---
 transform/apop_dconstrain.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/transform/apop_dconstrain.c b/transform/apop_dconstrain.c
index 6262784..d303b79 100644
--- a/transform/apop_dconstrain.c
+++ b/transform/apop_dconstrain.c
@@ -66,13 +66,18 @@ Apop_settings_copy(apop_dconstrain,
 )
 Apop_settings_free(apop_dconstrain, gsl_vector_free(in->last_params);)
 
+static long double dc_constraint(apop_data *d, apop_model *m){
+    Get_set(m, GSL_NAN)
+    return cs->base_model->constraint(d, cs->base_model);
+}
+
 static void dc_prep(apop_data *d, apop_model *m){
     apop_dconstrain_settings *cs = Apop_settings_get_group(m, apop_dconstrain); 
     Apop_stopif(!cs, m->error='s', 0, "missing apop_dconstrainct_settings group. "
             "Maybe initialize this with apop_model_dconstrain?");
     apop_prep(d, cs->base_model);
     m->parameters=cs->base_model->parameters;
-    m->constraint=cs->base_model->constraint;
+    m->constraint = cs->base_model->constraint ? dc_constraint : NULL;
     m->vsize = cs->base_model->vsize;
     m->msize1 = cs->base_model->msize1;
     m->msize2 = cs->base_model->msize2;
-- 
2.43.0


From 4069bf41ab708e9329c45ea5e4cc255876ca0a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:06 +0000
Subject: [PATCH 154/192] fix: the result of a likelihood search satisfies the
 model's constraint

---
 apop_mle.m4.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/apop_mle.m4.c b/apop_mle.m4.c
index 4d0d27f..908ff27 100644
--- a/apop_mle.m4.c
+++ b/apop_mle.m4.c
@@ -398,10 +398,9 @@ void add_info_criteria(apop_data *d, apop_model *m, apop_model *est, double ll,
 
 static void auxinfo(apop_data *params, infostruct *i, int status, double ll){
     apop_model *est = i->model; //just an alias.
-    /* This catches too many near-misses
-       if(est->constraint)
-        apop_assert(!est->constraint(i->data, est), "the maximum likelihood search ended "
-                                            "at a point that doesn't satisfy the model's constraints.");*/
+    /* The optimizer's last point may be a near-miss of the model's constraint; if
+    so, the constraint moves it, and the likelihood so far is not the one at the new point. */
+    if (est->parameters && est->constraint && est->constraint(i->data, est)) ll = 0;
     if (i->want_cov=='y' && est->parameters){
         apop_model_numerical_covariance(i->data, est, Apop_settings_get(est,apop_mle,delta));
         if (i->want_tests=='y')
-- 
2.43.0


From 291926530d53026282246d55693c0237b82f5976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:56 +0000
Subject: [PATCH 155/192] fix: impossible observations have likelihood zero

---
 model/apop_beta.c        | 2 +-
 model/apop_exponential.c | 2 ++
 model/apop_gamma.c       | 1 +
 model/apop_yule.c        | 5 ++---
 model/apop_zipf.c        | 4 +++-
 5 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/model/apop_beta.c b/model/apop_beta.c
index a8b55bd..56b09e0 100644
--- a/model/apop_beta.c
+++ b/model/apop_beta.c
@@ -45,7 +45,7 @@ typedef struct{
 
 static double betamap(double x, void *abin) {
     ab_type *ab = abin; 
-    return (x < 0 || x > 1) ? 0
+    return (x < 0 || x > 1) ? -INFINITY
                 : (ab->alpha-1) * log(x) + (ab->beta-1) *log(1-x); 
 }
 
diff --git a/model/apop_exponential.c b/model/apop_exponential.c
index 2bc414b..eb4c30e 100644
--- a/model/apop_exponential.c
+++ b/model/apop_exponential.c
@@ -30,6 +30,8 @@ static long double beta_greater_than_x_constraint(apop_data *data, apop_model *v
 static long double exponential_log_likelihood(apop_data *d, apop_model *p){
     Nullcheck_mpd(d, p, GSL_NAN);
     Get_vmsizes(d) //tsize
+    if ((vsize && gsl_vector_min(d->vector) < 0) || (msize1 && gsl_matrix_min(d->matrix) < 0))
+        return -INFINITY;
     double mu = gsl_vector_get(p->parameters->vector, 0);
     double llikelihood = -((d->matrix ? apop_matrix_sum(d->matrix):0) + (d->vector ? apop_sum(d->vector) : 0))/ mu;
 	llikelihood	-= tsize * log(mu);
diff --git a/model/apop_gamma.c b/model/apop_gamma.c
index 82c5e43..7cb1dfd 100644
--- a/model/apop_gamma.c
+++ b/model/apop_gamma.c
@@ -31,6 +31,7 @@ typedef struct {double a, b, ln_ga_plus_a_ln_b;} abstruct;
 
 static double apply_for_gamma(double x, void *abin) { 
     abstruct *ab = abin;
+    if (x < 0) return -INFINITY;
     return x ? ((ab->a-1)*log(x) - x/ab->b - ab->ln_ga_plus_a_ln_b) : 0; 
 }
 
diff --git a/model/apop_yule.c b/model/apop_yule.c
index f3470b5..b5dce9d 100644
--- a/model/apop_yule.c
+++ b/model/apop_yule.c
@@ -28,9 +28,8 @@ static long double yule_constraint(apop_data *returned_beta, apop_model *m){
 }
 
 static double apply_me(double pt, void *bb){
-    double ln_k = (pt>=1) 
-                   ? gsl_sf_lngamma(pt)
-                   : 0;
+    if (pt < 1) return -INFINITY; //the distribution begins at one.
+    double ln_k = gsl_sf_lngamma(pt);
     double ln_bb_k = gsl_sf_lngamma(pt+*(double*)bb);
     return ln_k - ln_bb_k;
 }
diff --git a/model/apop_zipf.c b/model/apop_zipf.c
index 40d615a..1b655ac 100644
--- a/model/apop_zipf.c
+++ b/model/apop_zipf.c
@@ -28,13 +28,15 @@ static long double zipf_constraint(apop_data *returned_beta, apop_model *m){
     return apop_linear_constraint(m->parameters->vector, constraint, 1e-4);
 }
 
+static double ln_rank(double x){ return x < 1 ? INFINITY : log(x); } //ranks start at one.
+
 static long double zipf_log_likelihood(apop_data *d, apop_model *m){
     Nullcheck_mpd(d, m, GSL_NAN);
     Get_vmsizes(d) //tsize
     long double bb = apop_data_get(m->parameters, 0, -1);
     Apop_stopif(isnan(bb) || bb < 1, return GSL_NAN, 0, "Zipf needs a parameter >=1; "
                                               "got %Lg. Returning NaN.", bb); 
-    double like = -apop_map_sum(d, log) * bb;
+    double like = -apop_map_sum(d, ln_rank) * bb;
     like -= log(gsl_sf_zeta(bb)) * tsize;
     return like;
 }    
-- 
2.43.0


From 4494263c039ede874b7c555e099eed80fee9e08e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:56 +0000
Subject: [PATCH 156/192] fix: a sum over a map whose memory ran out is not
 zero

---
 apop_mapply.m4.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/apop_mapply.m4.c b/apop_mapply.m4.c
index 3b78514..5e5bd67 100644
--- a/apop_mapply.m4.c
+++ b/apop_mapply.m4.c
@@ -159,6 +159,8 @@ APOP_VAR_ENDHEAD
                      : part == 'a' ? apop_data_alloc(vsize, msize1, msize2)
                      : part == 'r' ? apop_data_alloc(maxsize)
                      : part == 'c' ?  apop_data_alloc(msize2) : NULL;
+    Apop_stopif(!out && inplace!='v', return NULL, 0, "Couldn't allocate the output.");
+    Apop_stopif(out && out!=in && out->error, return out, 0, "Couldn't allocate the output.");
     Apop_stopif(inplace=='y' && (part=='r'||part=='c') && !in->vector, in->vector=gsl_vector_alloc(part=='c' ? msize2 : maxsize), 2, 
                             "No vector in your input data set for me to write outputs to; "
                             "allocating one for you of size %i", part=='c' ? msize2 : maxsize);
@@ -508,6 +510,7 @@ APOP_VAR_ENDHEAD
                         .fn_dpi=fn_dpi,  .fn_vpi=fn_vpi, .fn_rpi=fn_rpi, 
                         .fn_di=fn_di, .fn_vi=fn_vi, .fn_ri=fn_ri, 
                         .param=param, .part=part, .inplace='n', .all_pages='n');
+    Apop_stopif(!mapped || mapped->error=='a', apop_data_free(mapped); return GSL_NAN, 0, "Couldn't allocate space for the map.");
     double outsum =   (mapped->vector ? apop_sum(mapped->vector) : 0)
                     + (mapped->matrix ? apop_matrix_sum(mapped->matrix) : 0);
     apop_data_free(mapped);
-- 
2.43.0


From 62ef2299348ca55f25b3fd4284c0750c51d6402c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:56 +0000
Subject: [PATCH 157/192] fix: a mixture's likelihood weights its components

---
 transform/apop_mixture.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/transform/apop_mixture.c b/transform/apop_mixture.c
index dc5ed8e..191eeb5 100644
--- a/transform/apop_mixture.c
+++ b/transform/apop_mixture.c
@@ -267,9 +267,10 @@ static long double mixture_log_likelihood(apop_data *d, apop_model *model_in){
     apop_data *lls = get_lls(d, model_in);
 
     //reweight by last round's lambda 
+    double total_weight = apop_sum(ms->weights);
     for (int i=0; i< lls->matrix->size2; i++){
         Apop_col_v(lls, i, onecol);
-        gsl_vector_add_constant(onecol, gsl_vector_get(ms->weights, i));
+        gsl_vector_add_constant(onecol, log(gsl_vector_get(ms->weights, i)/total_weight));
     }
 
 //OK, now we need the λs, and then the max ll for each observation
@@ -283,15 +284,18 @@ But I have logs, and want to stay in log-format for as long as possible, to prev
     gsl_vector *cp = gsl_vector_alloc(lls->matrix->size2);
     for (int i=0; i< lls->matrix->size1; i++){
         Apop_row_v(lls, i, onerow);
-        total_ll += gsl_vector_max(onerow);
+        double best = gsl_vector_max(onerow);
+        total_ll += best;
         for (int j=0; j < onerow->size; j++){
+            gsl_vector_set(ps, j, 0);
+            if (gsl_vector_get(onerow, j) == -INFINITY) continue; //couldn't have come from this model.
             gsl_vector_memcpy(cp, onerow);
             gsl_vector_add_constant(cp, -gsl_vector_get(onerow, j));
             gsl_vector_set(ps, j, 1./sum_exp_vector(cp));
         }
         gsl_vector_memcpy(onerow, ps);
 
-        Apop_stopif(fabs(apop_sum(onerow) - 1) > 1e-3, /*Warn user, but continue.*/, 0,
+        Apop_stopif(best != -INFINITY && fabs(apop_sum(onerow) - 1) > 1e-3, /*Warn user, but continue.*/, 0,
                 "One of the probability calculations is off: the total for the odds of drawing "
                 "from the %i mixtures is %g but should be 1.", 
                 ms->model_count, fabs(apop_sum(onerow) - 1));
-- 
2.43.0


From a906a4eb3fef40778ab99dbbdae4ebe896d47920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:56 +0000
Subject: [PATCH 158/192] fix: a product's data may have matrices on both
 pages, and is not changed

---
 transform/apop_cross.c | 72 +++++++++++++++++++++---------------------
 1 file changed, 36 insertions(+), 36 deletions(-)

diff --git a/transform/apop_cross.c b/transform/apop_cross.c
index e3d5ce8..dfdba2c 100644
--- a/transform/apop_cross.c
+++ b/transform/apop_cross.c
@@ -27,59 +27,60 @@ Apop_settings_free(apop_cross, )
 
 /* For (almost) all methods, the workings are:
   --get the settings group; fail if missing
-  --find the first and second data sets. This may require changing a 
-    ->more pointer in the input data set to split it into two parts
+  --find the first and second data sets. This may require a new list of
+    the first pages of the input data set to split it into two parts
   --call the submodels using our two data sets 
-  --restore that ->more pointer, if needed.
+  --free what was set up for that.
    */
 
 typedef struct {
-    apop_data *d1, *d2, *dangly_bit;
+    apop_data *d1, *d2, *pages;
     _Bool need_to_free;
 } twop_s;
 
-
 /* A model must accept data in the form of each observation being a single row of
-   data---i.e., each row is what you'd get from apop_draw.
-    If the length of the data matrix is longer than the first model's stated msize2,
-    then we have to unpack the draw into two new apop_data sets.
+   data---i.e., each row is what you'd get from apop_draw. If there is no second page, and
+   the rows of the data matrix are longer than a draw from the first model,
+   then we have to unpack the draws into two new apop_data sets.
 */
-twop_s unpack_a_draw(apop_data *d, apop_cross_settings *s){
-    twop_s out = (twop_s){
-        .d1 = (s->model1 ? apop_data_alloc(s->model1->vsize, s->model1->msize1, s->model1->msize2) : NULL),
-        .d2 = (s->model2 ? apop_data_alloc(s->model2->vsize, s->model2->msize1, s->model2->msize2) : NULL),
-        .need_to_free=1};
-    int len1 = s->model1->vsize + s->model1->msize1 * s->model1->msize2;
-    for (int i=0; i< d->matrix->size1; i++){
-        apop_data_unpack(Apop_subvector(Apop_rv(d, i), 0, len1), Apop_r(out.d1, i));
-        apop_data_unpack(Apop_subvector(Apop_rv(d, i), len1, d->matrix->size1), Apop_r(out.d2, i));
-      }
+static twop_s unpack_draws(apop_data *d, apop_cross_settings *s){
+    size_t len1 = s->model1->dsize, rows = d->matrix->size1, len2 = d->matrix->size2 - len1;
+    twop_s out = (twop_s){.d1 = apop_data_alloc(rows, len1), .d2 = apop_data_alloc(rows, len2), .need_to_free=1};
+    if (out.d1 && !out.d1->error && out.d2 && !out.d2->error){
+        gsl_matrix_memcpy(out.d1->matrix, Apop_subm(d->matrix, 0, 0, rows, len1));
+        gsl_matrix_memcpy(out.d2->matrix, Apop_subm(d->matrix, 0, len1, rows, len2));
+    }
     return out;
 }
 
+static int is_titled(apop_data *d, char *title){ return d->names && d->names->title && !strcasecmp(d->names->title, title); }
+
 static twop_s get_second(apop_data *d, char *splitpage, apop_cross_settings *s){
     twop_s out = {.d1=d, .d2=d};
-    if (splitpage) {
-        if (d->matrix && (d->matrix->size2 > s->model1->msize2))
-            return unpack_a_draw(d, s);
-        apop_data *ctr = d;
-        if (!ctr ||(ctr->names && ctr->names->title && !strcasecmp(ctr->names->title, splitpage))){
-            out.d1 = NULL;
-            out.d2 = d;
-            return out;
-        }
-        for ( ; ctr->more && (!ctr->more->names || !ctr->more->names->title || strcasecmp(ctr->more->names->title, splitpage)); ) 
-            ctr = ctr->more; 
-        out.d2 = ctr->more;
-        out.dangly_bit = ctr;
-        ctr->more = NULL; //the only change to the original data set.
+    if (!splitpage) return out;
+    int before = 0;
+    apop_data *second = d;
+    for ( ; second && !is_titled(second, splitpage); second = second->more) before++;
+    if (!before) return (twop_s){.d1=NULL, .d2=d};
+    if (!second && d->matrix && s->model1->dsize > 0 && d->matrix->size2 > s->model1->dsize)
+        return unpack_draws(d, s);
+    out.d2 = second;
+    if (!second) return out;
+    //The first model gets only the pages before the second model's. Others may be
+    //reading the data, so leave it as is and list those pages anew.
+    out.pages = malloc(sizeof(apop_data) * before);
+    Apop_stopif(!out.pages, out.d1 = out.d2 = NULL; return out, 0, "Couldn't allocate a list of pages.");
+    for (int i=0; i< before; i++, d = d->more){
+        out.pages[i] = *d;
+        out.pages[i].more = (i+1 < before) ? out.pages+i+1 : NULL;
     }
+    out.d1 = out.pages;
     return out;
 }
 
-//post-work cleanup: reattach 2nd data set, or if we built a newly-shaped data set, free it.
+//post-work cleanup: if we listed the pages or built a newly-shaped data set, free it.
 static void repaste(twop_s dd){
-    if (dd.dangly_bit) dd.dangly_bit->more = dd.d2;
+    free(dd.pages);
     if (dd.need_to_free) {apop_data_free(dd.d1); apop_data_free(dd.d2);}
 }
 
@@ -105,8 +106,7 @@ static void cross_est(apop_data *d, apop_model *m){
 
     s->model1 = apop_estimate(datas.d1, s->model1);
     s->model2 = apop_estimate(datas.d2, s->model2);
-
-    repaste(datas);
+    //The estimates may point to their data, so no cleanup.
 }
 
 static long double cross_ll(apop_data *d, apop_model *m){
-- 
2.43.0


From de9c893c07bc99690628bb0589f88c25822fa48d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:44 +0000
Subject: [PATCH 159/192] fix: a multinomial of two draws is not a binomial

---
 model/apop_multinomial.c | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/model/apop_multinomial.c b/model/apop_multinomial.c
index 0e0c822..e21702c 100644
--- a/model/apop_multinomial.c
+++ b/model/apop_multinomial.c
@@ -84,10 +84,6 @@ static long double multinomial_constraint(apop_data *data, apop_model *b){
     return apop_linear_constraint(b->parameters->vector, constr);
 }
 
-static double binomial_ll(gsl_vector *hits, void *paramv){
-    return log(gsl_ran_binomial_pdf(hits->data[1], ((gsl_vector*)paramv)->data[1], ((gsl_vector*)paramv)->data[0]));
-}
-
 //A full list of probabilities, with p_0 instead of n. Other threads may be using the parameters themselves.
 static gsl_vector *p_vector(gsl_vector const *params){
     gsl_vector *out = apop_vector_copy(params);
@@ -98,8 +94,9 @@ static gsl_vector *p_vector(gsl_vector const *params){
 static double multinomial_ll(gsl_vector *v, void *p){
     double *pv = ((gsl_vector*)p)->data;
     size_t size = ((gsl_vector*)p)->size;
-    unsigned int hv[v->size]; //The GSL wants our hit count in an int*.
-    for (size_t i=0; i < v->size; i ++)
+    if (v->size < size) return GSL_NAN; //not a count for every bin.
+    unsigned int hv[size]; //The GSL wants our hit count in an int*.
+    for (size_t i=0; i < size; i ++)
         hv[i] = gsl_vector_get(v, i);
     return gsl_ran_multinomial_lnpdf(size, pv, hv);
 }
@@ -107,12 +104,10 @@ static double multinomial_ll(gsl_vector *v, void *p){
 static long double multinomial_log_likelihood(apop_data *d, apop_model *params){
     Nullcheck_mpd(d, params, GSL_NAN);
     double *pv = params->parameters->vector->data;
-    double n = pv[0]; 
     Apop_assert_c(params->parameters->vector->size>=2, GSL_NAN, 0, "I need two or more input parameters "
                     "representing [n, p_1, (...)].");
     Apop_assert_c(pv[1] <=1, GSL_NAN, 1, "The input parameters should be [n, p_1, (...)], but "
         "element 1 of the parameter vector is >1."); //mostly makes sense for the binomial.
-    if (n==2) return apop_map_sum(d, .fn_vp=binomial_ll, .param=params->parameters->vector);
 
     gsl_vector *p = p_vector(params->parameters->vector);
     Apop_stopif(!p, return GSL_NAN, 0, "Couldn't allocate the list of probabilities.");
-- 
2.43.0


From 15964e602ea506a364d76c903d7ce12b2ef76152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:44 +0000
Subject: [PATCH 160/192] fix: a Poisson's score uses data in the vector

---
 model/apop_poisson.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/model/apop_poisson.c b/model/apop_poisson.c
index f2d50f8..99a995f 100644
--- a/model/apop_poisson.c
+++ b/model/apop_poisson.c
@@ -67,8 +67,8 @@ static void poisson_dlog_likelihood(apop_data *d, gsl_vector *gradient, apop_mod
     Get_vmsizes(d) //tsize
     Nullcheck_mpd(d, p, )
     double     lambda = apop_data_get(p->parameters);
-    gsl_matrix *data = d->matrix;
-    double     d_a = apop_matrix_sum(data)/lambda - tsize;
+    double     d_a = ((vsize ? apop_sum(d->vector) : 0)
+                       + (msize1 ? apop_matrix_sum(d->matrix) : 0))/lambda - tsize;
     gsl_vector_set(gradient,0, d_a);
 }
 
-- 
2.43.0


From d36b544fda1a3f436d825973ee3026e49bdda185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:44 +0000
Subject: [PATCH 161/192] fix: conjugate updates use every observation

---
 apop_internal.h  |  1 +
 apop_update.m4.c | 13 +++++++------
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/apop_internal.h b/apop_internal.h
index bbb9698..428bae8 100644
--- a/apop_internal.h
+++ b/apop_internal.h
@@ -88,6 +88,7 @@ extern int vasprintf (char **res, const char *format, va_list args)
 #endif
 
 #include "apop.h"
+void get_mu_var(apop_data *data, double *mu_out, double *var_out); //In model/apop_normal.c
 void add_info_criteria(apop_data *d, apop_model *m, apop_model *est, double ll, int param_ct); //In apop_mle.c
 
 apop_data *apop_crosstab_query(char const *fmt, ...); //in apop_db.c
diff --git a/apop_update.m4.c b/apop_update.m4.c
index 8054418..33b92fd 100644
--- a/apop_update.m4.c
+++ b/apop_update.m4.c
@@ -71,8 +71,8 @@ static apop_model *betabernie(apop_data *data, apop_model *prior, apop_model *li
 
 static apop_model *gammaexpo(apop_data *data, apop_model *prior, apop_model *likelihood){
     apop_model *outp = apop_model_copy(prior);
-    Get_vmsizes(data); //maxsize
-    *gsl_vector_ptr(outp->parameters->vector, 0) += maxsize;
+    Get_vmsizes(data); //tsize
+    *gsl_vector_ptr(outp->parameters->vector, 0) += tsize;
     apop_data_set(outp->parameters, 1, .val=1./
                           (1./apop_data_get(outp->parameters, 1) 
                         + (data->matrix ? apop_matrix_sum(data->matrix) : 0)
@@ -83,13 +83,13 @@ static apop_model *gammaexpo(apop_data *data, apop_model *prior, apop_model *lik
 static apop_model *gammapoisson(apop_data *data, apop_model *prior, apop_model *likelihood){
     /* Posterior alpha = alpha_0 + sum x; posterior beta = beta_0/(beta_0*n + 1) */
     apop_model *outp = apop_model_copy(prior);
-    Get_vmsizes(data); //vsize, msize1,maxsize
+    Get_vmsizes(data); //vsize, msize1, tsize
     *gsl_vector_ptr(outp->parameters->vector, 0) +=
                          (vsize  ? apop_sum(data->vector): 0) +
                          (msize1 ? apop_matrix_sum(data->matrix): 0);
 
     double *beta = gsl_vector_ptr(outp->parameters->vector, 1);
-    *beta = *beta/(*beta * maxsize + 1);
+    *beta = *beta/(*beta * tsize + 1);
     return outp;
 }
 
@@ -111,8 +111,9 @@ likelihood. If you give me a parametrized normal, with no data, then I'll take t
         var_like = gsl_pow_2(likelihood->parameters->vector->data[1]);
         n        = 1;
     } else {
-        n = data->matrix->size1 * data->matrix->size2;
-        apop_matrix_mean_and_var(data->matrix, &mu_like, &var_like);
+        Get_vmsizes(data); //tsize
+        n = tsize;
+        get_mu_var(data, &mu_like, &var_like);
     }
     gsl_vector_set(outp->parameters->vector, 0, (mu_pri/var_pri + n*mu_like/var_like)/(1/var_pri + n/var_like));
     gsl_vector_set(outp->parameters->vector, 1, pow((1/var_pri + n/var_like), -.5));
-- 
2.43.0


From 5a09b719dcd9a6758bd36fd77233e76fd2d9aed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:44 +0000
Subject: [PATCH 162/192] fix: distributions are estimated alike from vectors,
 matrices and both

---
 model/apop_beta.c        | 12 ++---------
 model/apop_exponential.c |  4 ++--
 model/apop_gamma.c       | 11 ++--------
 model/apop_normal.c      | 43 ++++++++++++++--------------------------
 model/apop_t.c           | 14 ++++---------
 5 files changed, 25 insertions(+), 59 deletions(-)

diff --git a/model/apop_beta.c b/model/apop_beta.c
index 56b09e0..f67696f 100644
--- a/model/apop_beta.c
+++ b/model/apop_beta.c
@@ -18,16 +18,8 @@ static long double beta_log_likelihood(apop_data *d, apop_model *p);
 /* \adoc estimated_info   Reports <tt>log likelihood</tt>. */
 static void beta_estimate(apop_data * data,  apop_model *est){
     Nullcheck_mpd(data, est, );
-    Get_vmsizes(data) //vsize, msize1,...
-    double		mmean=0, mvar=0, vmean=0, vvar=0, alpha, beta;
-    if (vsize){
-        vmean = apop_mean(data->vector);
-        vvar = apop_var(data->vector);
-    }
-    if (msize1)
-        apop_matrix_mean_and_var(data->matrix, &mmean, &mvar);	
-    double mean = mmean *(msize1*msize2/tsize) + vmean *(vsize/tsize);
-    double var = mvar *(msize1*msize2/tsize) + vvar *(vsize/tsize);
+    double alpha, beta, mean, var;
+    get_mu_var(data, &mean, &var);
     apop_data_add_names(est->parameters, 'r', "α", "β");
     alpha   = gsl_pow_2(mean) * ((1-mean)/var - 1/mean);
     beta    = alpha * (1-mean)/mean;
diff --git a/model/apop_exponential.c b/model/apop_exponential.c
index eb4c30e..ba71adb 100644
--- a/model/apop_exponential.c
+++ b/model/apop_exponential.c
@@ -52,8 +52,8 @@ static void exponential_estimate(apop_data * data,  apop_model *est){
     apop_score_vtable_add(exponential_dlog_likelihood, apop_exponential);
     apop_name_add(est->parameters->names, "μ", 'r');
     Get_vmsizes(data); //msize1, msize2, vsize, tsize
-    double mu =  (vsize ? vsize * apop_vector_mean(data->vector):0
-                + msize1 ? msize1*msize2 * apop_matrix_mean(data->matrix):0)/tsize;
+    double mu =  ((vsize ? vsize * apop_vector_mean(data->vector):0)
+                + (msize1 ? msize1*msize2 * apop_matrix_mean(data->matrix):0))/tsize;
 	gsl_vector_set(est->parameters->vector, 0, mu);
     apop_data_add_named_elmt(est->info, "log likelihood", exponential_log_likelihood(data, est));
 }
diff --git a/model/apop_gamma.c b/model/apop_gamma.c
index 7cb1dfd..884a5fd 100644
--- a/model/apop_gamma.c
+++ b/model/apop_gamma.c
@@ -95,15 +95,8 @@ static void gamma_prep(apop_data *data, apop_model *params){
       b = var/E
 */
 static void gamma_est(apop_data *data, apop_model *m){
-    Get_vmsizes(data)
-    double mmean=0, mvar=0, vmean=0, vvar=0;
-    if (vsize){
-        vmean = apop_mean(data->vector);
-        vvar = apop_var(data->vector);
-    }
-    if (msize1) apop_matrix_mean_and_var(data->matrix, &mmean, &mvar);
-    double mean = mmean *(msize1*msize2/(tsize+0.0)) + vmean *(vsize/(tsize+0.0));
-    double var = mvar *(msize1*msize2/(tsize+0.0)) + vvar *(vsize/(tsize+0.0));
+    double mean, var;
+    get_mu_var(data, &mean, &var);
     apop_data_set(m->parameters, 0, .val=gsl_pow_2(mean)/var);
     apop_data_set(m->parameters, 1, .val=var/mean);
 }
diff --git a/model/apop_normal.c b/model/apop_normal.c
index 54e4297..1784000 100644
--- a/model/apop_normal.c
+++ b/model/apop_normal.c
@@ -49,28 +49,15 @@ static long double normal_log_likelihood(apop_data *d, apop_model *params){
 	return ll;
 }
 
+//The mean and the population variance of all of the numbers, wherever they are.
 void get_mu_var(apop_data *data, double *mu_out, double *var_out){
-    Get_vmsizes(data)
-    double mmean=0, mvar=0, vmean=0, vvar=0;
-    if (vsize){
-        vmean = apop_mean(data->vector);
-        vvar = apop_var(data->vector);
-    }
-    if (msize1) {
-        if (!vsize) apop_matrix_mean_and_var(data->matrix, &mmean, &mvar);	
-        else        mmean = apop_matrix_mean(data->matrix);	
-    }
-    *mu_out = mmean *(msize1*msize2/(tsize+0.0)) + vmean *(vsize/(tsize+0.0));
-    *var_out = 0;
-    if      (!vsize && !msize1) *var_out = 0;
-    else if (vsize && !msize1)  *var_out = vvar;
-    else if (!vsize && msize1)  *var_out = mvar;
-    else {
-        long double vv=0;
-        for (int i=-1; i< msize2; i++)
-            vv += gsl_pow_2(apop_data_get(data, i) - *mu_out);
-        *var_out = vv/tsize;
-    }
+    Get_vmsizes(data) //vsize, msize1, tsize
+    *mu_out = *var_out = 0;
+    if (!tsize) return;
+    long double sum = (vsize ? apop_sum(data->vector) : 0) + (msize1 ? apop_matrix_sum(data->matrix) : 0);
+    double mu = sum/tsize;
+    *mu_out = mu;
+    *var_out = apop_map_sum(data, .fn_dp=apply_me2, .param=&mu)/tsize;
 }
 
 /* \adoc estimated_info Reports the log likelihood.*/
@@ -89,7 +76,7 @@ static void normal_estimate(apop_data * data, apop_model *est){
 	if (!p || p->want_cov=='y'){
         apop_data *cov = apop_data_get_page(est->parameters, "<Covariance>");
         if (!cov) cov = apop_data_add_page(est->parameters, apop_data_calloc(2, 2), "<Covariance>");
-        apop_data_set(cov, 0, 0, mean/tsize);
+        apop_data_set(cov, 0, 0, var/tsize);
         apop_data_set(cov, 1, 1, 2*gsl_pow_2(var)/(tsize-1));
     }
     est->data = data;
@@ -164,8 +151,10 @@ The log likelihood function for lognormal distributions:
 \adoc    settings   None.    
 */
 
-static double lnx_minus_mu_squared(double x, void *mu_in){
-	return gsl_pow_2(log(x) - *(double *)mu_in);
+static double lognormal_one(double x, void *mu_sd){
+    if (x <= 0) return -INFINITY;
+    double *p = mu_sd;
+    return -gsl_pow_2(log(x) - p[0])/(2*gsl_pow_2(p[1])) - log(x);
 }
 
 static long double lognormal_log_likelihood(apop_data *d, apop_model *params){
@@ -173,9 +162,7 @@ static long double lognormal_log_likelihood(apop_data *d, apop_model *params){
     Get_vmsizes(d) //tsize
     double mu = gsl_vector_get(params->parameters->vector, 0);
     double sd = gsl_vector_get(params->parameters->vector, 1);
-    long double ll = -apop_map_sum(d, .fn_dp=lnx_minus_mu_squared, .param=&mu);
-      ll /= (2*gsl_pow_2(sd));
-      ll -= apop_map_sum(d, log);
+    long double ll = apop_map_sum(d, .fn_dp=lognormal_one, .param=(double[]){mu, sd});
       ll -= tsize*((M_LNPI+M_LN2)/2+log(sd));
 	return ll;
 }
@@ -211,7 +198,7 @@ static long double lognormal_cdf(apop_data *d, apop_model *params){
     double val = apop_data_get(d, 0, vsize ? -1 : 0);
     double mu = gsl_vector_get(params->parameters->vector, 0);
     double sd = gsl_vector_get(params->parameters->vector, 1);
-    return gsl_cdf_lognormal_P(val, mu, sd);
+    return val <= 0 ? 0 : gsl_cdf_lognormal_P(val, mu, sd);
 }
 
 /* \adoc predict Returns the expeced value, \f$E(x) = e^(mu + sigma^2/2)\f$
diff --git a/model/apop_t.c b/model/apop_t.c
index 2da62c7..ed3c448 100644
--- a/model/apop_t.c
+++ b/model/apop_t.c
@@ -8,16 +8,10 @@ Copyright (c) 2009, 2013 by Ben Klemens.  Licensed under the GPLv2; see COPYING.
 static void apop_t_estimate(apop_data *d, apop_model *m){
     Apop_stopif(!d, m->error='d'; return, 0, "No data with which to count df. (the default estimation method)");
     Get_vmsizes(d); //vsize, msize1, msize2, tsize
-    double vmu = vsize ? apop_mean(d->vector) : 0;
-    double v_sum_sq = vsize ? apop_var(d->vector)*(vsize-1) : 0;
-    double m_sum_sq = 0;
-    double mmu = 0;
-   if (msize1) {
-       apop_matrix_mean_and_var(d->matrix, &mmu, &m_sum_sq);
-       m_sum_sq *= msize1*msize2-1;
-   }
-    apop_data_add_named_elmt(m->parameters, "μ", (vmu *vsize + mmu * msize1*msize2)/tsize);
-    apop_data_add_named_elmt(m->parameters, "σ", sqrt(((tsize-3.)/(tsize-1)) * (v_sum_sq + m_sum_sq)/(tsize-1))); 
+    double mu, var;
+    get_mu_var(d, &mu, &var);
+    apop_data_add_named_elmt(m->parameters, "μ", mu);
+    apop_data_add_named_elmt(m->parameters, "σ", sqrt(((tsize-3.)/(tsize-1)) * (var*tsize)/(tsize-1))); 
     apop_data_add_named_elmt(m->parameters, "df", tsize-1);
     apop_data_add_named_elmt(m->info, "log likelihood", m->log_likelihood(d, m));
 }
-- 
2.43.0


From a1b1486ddc9eedfd76d7f754743d51e83998e646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:20 +0000
Subject: [PATCH 163/192] fix: text that differs in case only ties in a sort

---
 apop_sort.m4.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apop_sort.m4.c b/apop_sort.m4.c
index f56746c..e5c4fc6 100644
--- a/apop_sort.m4.c
+++ b/apop_sort.m4.c
@@ -242,7 +242,7 @@ APOP_VAR_ENDHEAD
                 apop_data *block = apop_data_sort_base(Apop_rs(out, bottom, i-bottom), sort_order, 'a', 'y', col_order+1);
                 if (block->error) {out->error = block->error; break;}
             }
-            if (this_val && strcmp(last_val, this_val)) bottom = i;
+            if (this_val && strcasecmp(last_val, this_val)) bottom = i;
             free(last_val);
             last_val = this_val ? strdup(this_val) : NULL;
             Apop_stopif(this_val && !last_val, out->error='a'; return out, 0, "Allocation error.");
-- 
2.43.0


From 23189ddd7043bf82854fb592646667f9d56f197f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:20 +0000
Subject: [PATCH 164/192] fix: a descending sort applies to every column

---
 apop_sort.m4.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/apop_sort.m4.c b/apop_sort.m4.c
index e5c4fc6..e25a13e 100644
--- a/apop_sort.m4.c
+++ b/apop_sort.m4.c
@@ -226,7 +226,7 @@ APOP_VAR_ENDHEAD
             double this_val=0;
             if ((i==height || (this_val=gsl_vector_get(thiscol, i)) != last_val) 
                     && bottom != i-1){
-                apop_data *block = apop_data_sort_base(Apop_rs(out, bottom, i-bottom), sort_order, 'a', 'y', col_order+1);
+                apop_data *block = apop_data_sort_base(Apop_rs(out, bottom, i-bottom), sort_order, asc, 'y', col_order+1);
                 if (block->error) {out->error = block->error; break;}
             }
             if (last_val != this_val) bottom = i;
@@ -239,7 +239,7 @@ APOP_VAR_ENDHEAD
             char *this_val = i==height ? NULL : is_name ? out->names->row[i] : out->text[i][(int)(*col_order-0.5)];
             if ((i==height || strcasecmp(this_val, last_val)) 
                     && bottom != i-1){
-                apop_data *block = apop_data_sort_base(Apop_rs(out, bottom, i-bottom), sort_order, 'a', 'y', col_order+1);
+                apop_data *block = apop_data_sort_base(Apop_rs(out, bottom, i-bottom), sort_order, asc, 'y', col_order+1);
                 if (block->error) {out->error = block->error; break;}
             }
             if (this_val && strcasecmp(last_val, this_val)) bottom = i;
-- 
2.43.0


From ae9c57dc6e97b306f4686960a7d0c3b6a03d3b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:20 +0000
Subject: [PATCH 165/192] fix: sort orders with ties, and with blanks for what
 is not sorted

---
 apop_sort.m4.c | 67 +++++++++++++++++++++++++-------------------------
 1 file changed, 33 insertions(+), 34 deletions(-)

diff --git a/apop_sort.m4.c b/apop_sort.m4.c
index e25a13e..7e162d0 100644
--- a/apop_sort.m4.c
+++ b/apop_sort.m4.c
@@ -4,51 +4,50 @@ Copyright (c) 2013 by Ben Klemens.  Licensed under the GPLv2; see COPYING.  */
 #include "apop_internal.h"
 #include <stdbool.h>
 
-static double find_smallest_larger_than(apop_data const *sort_order, double *x){
-    //the next column in the sort order is the one that is not NAN, greater than x, but smaller than all other candidate values.
-    double candidate_col=-100, candidate_val = INFINITY, v;
-    if (sort_order->vector && !isnan(v=gsl_vector_get(sort_order->vector, 0)) 
-            && v > *x && v < candidate_val){
-        candidate_val = v;
-        candidate_col = -1;
-    }
+typedef struct {double rank, col; int posn;} sort_key;
+
+//Is this key the first one that comes after the last key used?
+static void consider(sort_key *best, sort_key last, double rank, double col, int posn){
+    bool after_last = rank > last.rank || (rank == last.rank && posn > last.posn); //NaN never is.
+    if (after_last && (best->posn == -1 || rank < best->rank))
+        *best = (sort_key){.rank=rank, .col=col, .posn=posn};
+}
+
+//Text is a rank only if it is neither blank nor a NaN.
+static double text_rank(char const *in){
+    bool blank = !in || !*in || (apop_opts.nan_string && !strcasecmp(in, apop_opts.nan_string));
+    return blank ? NAN : atof(in);
+}
+
+//The next column in the sort order: the smallest rank after the last one; the earlier column if there is a tie.
+static sort_key find_next_key(apop_data const *sort_order, sort_key last){
+    sort_key best = {.col=-100, .posn=-1};
+    int posn = 0;
+    if (sort_order->vector)
+        consider(&best, last, gsl_vector_get(sort_order->vector, 0), -1, posn++);
     if (sort_order->matrix)
         for (int i=0; i< sort_order->matrix->size2; i++)
-            if (!isnan(v=gsl_matrix_get(sort_order->matrix, 0, i)) 
-                    && v > *x && v < candidate_val){
-                candidate_val = v;
-                candidate_col = i;
-            }
+            consider(&best, last, gsl_matrix_get(sort_order->matrix, 0, i), i, posn++);
     if (*sort_order->textsize)
         for (int i=0; i< sort_order->textsize[1]; i++)
-            if (apop_opts.nan_string && strcmp(sort_order->text[0][i], apop_opts.nan_string)
-                    && (v=atof(sort_order->text[0][i])) > *x && v < candidate_val){
-                candidate_val = v;
-                candidate_col = i+0.5;
-            }
-    if (sort_order->weights && !isnan(v=gsl_vector_get(sort_order->weights, 0)) 
-            && v > *x && v < candidate_val){
-        candidate_val = v;
-        candidate_col = -2;
-    }
+            consider(&best, last, text_rank(sort_order->text[0][i]), i+0.5, posn++);
+    if (sort_order->weights)
+        consider(&best, last, gsl_vector_get(sort_order->weights, 0), -2, posn++);
     if (sort_order->names->rowct)
-        if (apop_opts.nan_string && strcmp(*sort_order->names->row, apop_opts.nan_string)
-                && (v=atof(*sort_order->names->row)) > *x && v < candidate_val){
-            candidate_val = v;
-            candidate_col = 0.2;
-        }
-
-    *x = candidate_val;
-    return candidate_col;
+        consider(&best, last, text_rank(*sort_order->names->row), 0.2, posn++);
+    return best;
 }
 
 static void generate_sort_order(apop_data const *data, apop_data const *sort_order, int cols_to_sort_ct, double *so){
 /* the internal rule is that the vector is -1, the weights vector is -2, the names are
  * 0.2, and the text cols are the column+0.5. How's that for arbitrary. */
     if (sort_order) {
-        double x = -INFINITY;
-        for (int i=0; i< cols_to_sort_ct-1; i++)
-            so[i] = find_smallest_larger_than(sort_order, &x);
+        sort_key key = {.rank=-INFINITY, .posn=-1};
+        for (int i=0; i< cols_to_sort_ct-1; i++){
+            key = find_next_key(sort_order, key);
+            so[i] = key.col;
+            if (key.posn == -1) break; //no more columns, and col is the end marker.
+        }
     } else {
         int ctr=0;
         if (data->vector) so[ctr++] = -1;
-- 
2.43.0


From a46dce1fdc6c06401d00e63cc08a6569a9e6ffce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:20 +0000
Subject: [PATCH 166/192] fix: splits after the last row, and 'R' for splits by
 row

---
 apop_data.m4.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/apop_data.m4.c b/apop_data.m4.c
index 4371055..454bd6b 100644
--- a/apop_data.m4.c
+++ b/apop_data.m4.c
@@ -534,6 +534,7 @@ apop_data ** apop_data_split(apop_data *in, int splitpoint, char r_or_c){
     Apop_stopif(!out, return NULL, 0, "Allocation error.");
     out[0] = out[1] = NULL;
     Apop_stopif(!in, return out, 1, "input was NULL; output will be an array of two NULLs.");
+    Get_vmsizes(in); //maxsize
     gsl_vector v1, v2, w1, w2;
     gsl_matrix m1, m2;
     int set_v1 = 1, set_v2 = 1,
@@ -546,7 +547,7 @@ apop_data ** apop_data_split(apop_data *in, int splitpoint, char r_or_c){
      if (r_or_c == 'r' || r_or_c == 'R') {
         if (splitpoint <=0)
             {Apop_stopif(!(out[1] = apop_data_copy(in)), free(out); return NULL, 0, "Allocation error.");}
-        else if (in->matrix && splitpoint >= in->matrix->size1)
+        else if (splitpoint >= maxsize)
             {Apop_stopif(!(out[0] = apop_data_copy(in)), free(out); return NULL, 0, "Allocation error.");}
         else {
             namev0  =
@@ -675,7 +676,7 @@ allocation:
         if (namec1) stack_names(out[1], in, 'c');
     }
     //finally, the text [split by rows only]
-    if (r_or_c=='r' && in->textsize[0] && in->textsize[1]){
+    if ((r_or_c=='r' || r_or_c=='R') && in->textsize[0] && in->textsize[1]){
         stack_names(out[1], in, 't');
         apop_text_alloc(out[0], splitpoint, in->textsize[1]);
         Apop_stopif(out[0]->error, return out, 0, "Allocation error.");
-- 
2.43.0


From 26657c3f4890504f8de64a89e898a2db689a56e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:20 +0000
Subject: [PATCH 167/192] fix: unpack every info page when asked to

---
 apop_conversions.m4.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apop_conversions.m4.c b/apop_conversions.m4.c
index 1c72da7..d84fec4 100644
--- a/apop_conversions.m4.c
+++ b/apop_conversions.m4.c
@@ -743,7 +743,7 @@ APOP_VAR_ENDHEAD
                 d = d->more;
         Apop_stopif(!d, return, 0, "The data set (without info pages, because you didn't ask"
                 " me to use them) is too short for the input vector.");
-        apop_data_unpack(&vin, d);
+        apop_data_unpack(&vin, d, use_info_pages);
     }
 }
 
-- 
2.43.0


From 54de5dec4e4d6e4338e401c359adc4b499e83db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:20 +0000
Subject: [PATCH 168/192] fix: bins asked for in ranks, and ranks with a vector

---
 apop_conversions.m4.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/apop_conversions.m4.c b/apop_conversions.m4.c
index d84fec4..f4a6351 100644
--- a/apop_conversions.m4.c
+++ b/apop_conversions.m4.c
@@ -270,8 +270,9 @@ APOP_VAR_HEAD apop_data * apop_data_rank_compress (apop_data *in, int min_bins){
     int apop_varad_var(min_bins, 0);
 APOP_VAR_ENDHEAD
     Get_vmsizes(in);
-    int upper_bound = GSL_MAX(in->matrix ? gsl_matrix_max(in->matrix) : min_bins,
-                              in->vector ? gsl_vector_max(in->vector) : min_bins);
+    int upper_bound = min_bins;
+    if (in->matrix) upper_bound = GSL_MAX(upper_bound, gsl_matrix_max(in->matrix));
+    if (in->vector) upper_bound = GSL_MAX(upper_bound, gsl_vector_max(in->vector));
     apop_data *out = apop_data_calloc(1, upper_bound+1);
     for (int i=0; i< msize1; i++)
         for (int j=0; j< msize2; j++) 
@@ -290,8 +291,7 @@ APOP_VAR_ENDHEAD
   has exactly the given frequency of zeros, ones, et cetera.
 */
 apop_data *apop_data_rank_expand (apop_data *in){
-    int total_ct = (in->matrix ? apop_matrix_sum(in->matrix) : 0)
-                 + (in->vector ? apop_vector_sum(in->vector) : 0);
+    int total_ct = in->matrix ? apop_matrix_sum(in->matrix) : 0;
     if (total_ct == 0)
         return NULL;
     apop_data *out = apop_data_alloc(total_ct);
-- 
2.43.0


From 5ac41490f8738ac23ebb42a965172e87b8b18ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:20 +0000
Subject: [PATCH 169/192] fix: deleting every row in place clears the data set

---
 apop_missing_data.m4.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/apop_missing_data.m4.c b/apop_missing_data.m4.c
index 589207d..cbcbc89 100644
--- a/apop_missing_data.m4.c
+++ b/apop_missing_data.m4.c
@@ -71,6 +71,7 @@ APOP_VAR_ENDHEAD
             break;
         }
     if (!not_empty){
+        if (inplace=='y'|| inplace=='Y') apop_data_rm_rows(d, marked);
         free(marked);
         return NULL;
     }
-- 
2.43.0


From af66a9e3506f1a918e5661c70312341e3c114d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:59 +0000
Subject: [PATCH 170/192] fix: dummies of a vector, and removing the column
 they come from

---
 apop_regression.m4.c | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/apop_regression.m4.c b/apop_regression.m4.c
index 5ffc304..de90738 100644
--- a/apop_regression.m4.c
+++ b/apop_regression.m4.c
@@ -277,6 +277,19 @@ static apop_data * dummies_and_factors_core(apop_data *d, int col, char type,
     return out;
 }
 
+//Remove the column that dummies were made from.
+static void remove_source(apop_data *d, int col){
+    if (col == -1){
+        gsl_vector_free(d->vector);
+        d->vector = NULL;
+        return;
+    }
+    int rm_list[GSL_MAX(d->matrix->size2, (size_t)d->names->colct)];
+    memset(rm_list, 0, sizeof(rm_list));
+    rm_list[col] = 1;
+    apop_data_rm_columns(d, rm_list);
+}
+
 /** A utility to make a matrix of dummy variables. You give me a single
 vector that lists the category number for each item, and I'll produce
 a matrix with a single one in each row in the column specified.
@@ -339,9 +352,12 @@ APOP_VAR_HEAD apop_data * apop_data_to_dummies(apop_data *d, int col, char type,
     if (remove =='y' && type == 't') Apop_notify(1, "Remove isn't implemented for text source columns yet.");
 APOP_VAR_ENDHEAD
     if (type == 'd'){
-        Apop_stopif((col == -1) && d->vector, apop_return_data_error(d),
+        Apop_stopif((col == -1) && !d->vector, apop_return_data_error(d),
                                 0, "You asked for the vector element "
                                 "(col==-1) but the data's vector element is NULL.");
+        Apop_stopif((col != -1) && !d->matrix, apop_return_data_error(d),
+                                0, "You asked for the matrix element %i "
+                                "but the data's matrix element is NULL.", col);
         Apop_stopif((col != -1) && (col >= d->matrix->size2), apop_return_data_error(d),
                                 0, "You asked for the matrix element %i "
                                 "but the data's matrix element has only %zu columns.", col, d->matrix->size2);
@@ -351,9 +367,6 @@ APOP_VAR_ENDHEAD
     apop_data *fdummy;
     apop_data *dummies= dummies_and_factors_core(d, col, type, keep_first, 0, 'd', &fdummy);
     //Now process the append and remove options.
-    size_t orig_size = d->matrix ? d->matrix->size1 : 0;
-    int rm_list[orig_size+1];
-    memset (rm_list, 0, (orig_size+1)*sizeof(int)); 
     if (append =='i'){
         apop_data **split = apop_data_split(d, col+1, 'c');
         //stack names, then matrices
@@ -372,10 +385,7 @@ APOP_VAR_ENDHEAD
         apop_data_free(split[1]);
         return d;
     }
-    if (remove!='n' && type!='t'){
-        rm_list[col]=1;
-        apop_data_rm_columns(d, rm_list);
-    }
+    if (remove!='n' && type!='t') remove_source(d, col);
     if (append =='y' || append == 'e' || append ==1 || (append=='i' && type=='t')){
         d = apop_data_stack(d, dummies, 'c', .inplace='y');
         apop_data_free(dummies);
-- 
2.43.0


From 517a3827df3596d2e57363055bd06af5e303e3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:59 +0000
Subject: [PATCH 171/192] fix: dummies put in place, after the last column,
 from text, and with the original removed

---
 apop_regression.m4.c | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/apop_regression.m4.c b/apop_regression.m4.c
index de90738..4d089af 100644
--- a/apop_regression.m4.c
+++ b/apop_regression.m4.c
@@ -367,22 +367,28 @@ APOP_VAR_ENDHEAD
     apop_data *fdummy;
     apop_data *dummies= dummies_and_factors_core(d, col, type, keep_first, 0, 'd', &fdummy);
     //Now process the append and remove options.
-    if (append =='i'){
-        apop_data **split = apop_data_split(d, col+1, 'c');
+    if (append =='i' && type=='d'){
+        apop_data **split = apop_data_split(d, col+1, 'c'); //either may be NULL
+        gsl_matrix *left = split[0] ? split[0]->matrix : NULL;
+        gsl_matrix *right = split[1] ? split[1]->matrix : NULL;
         //stack names, then matrices
         for (int i=0; i < d->names->colct; i++)
             free(d->names->col[i]);
-        apop_name_stack(d->names, split[0]->names, 'c');
-        for (int k = d->names->colct; k < (split[0]->matrix ? split[0]->matrix->size2 : 0); k++)
+        d->names->colct = 0;
+        if (split[0]) apop_name_stack(d->names, split[0]->names, 'c');
+        for (int k = d->names->colct; k < (left ? left->size2 : 0); k++)
             apop_name_add(d->names, "", 'c'); //pad so the name stacking is aligned (if needed)
         apop_name_stack(d->names, dummies->names, 'c');
-        apop_name_stack(d->names, split[1]->names, 'c');
+        if (split[1]) apop_name_stack(d->names, split[1]->names, 'c');
         gsl_matrix_free(d->matrix);
-        d->matrix = apop_matrix_stack(split[0]->matrix, dummies->matrix, 'c');
+        d->matrix = apop_matrix_stack(left, dummies->matrix, 'c');
+        if (right && d->matrix) apop_matrix_stack(d->matrix, right, 'c', .inplace='y');
+        else if (right) d->matrix = apop_matrix_copy(right);
         apop_data_free(dummies);
         apop_data_free(split[0]);
-        apop_matrix_stack(d->matrix, split[1]->matrix, 'c', .inplace='y');
         apop_data_free(split[1]);
+        free(split);
+        if (remove!='n') remove_source(d, col);
         return d;
     }
     if (remove!='n' && type!='t') remove_source(d, col);
-- 
2.43.0


From 88de963d5950eced85ae877fc58cd1ff075c17cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:59 +0000
Subject: [PATCH 172/192] fix: space for factors is as high as the data they
 come from

---
 apop_regression.m4.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/apop_regression.m4.c b/apop_regression.m4.c
index 4d089af..8ab4a2d 100644
--- a/apop_regression.m4.c
+++ b/apop_regression.m4.c
@@ -462,9 +462,9 @@ APOP_VAR_ENDHEAD
                             "the matrix has only %zu elements.", incol, data->matrix->size2);
     }
     if (!data->vector && outcol == -1) //allocate a vector for the user.
-        data->vector = gsl_vector_alloc(intype=='t' ? data->textsize[0] : data->matrix->size2);
+        data->vector = gsl_vector_alloc(intype=='t' ? data->textsize[0] : data->matrix->size1);
     if (!data->matrix && outcol >= 0) //allocate a matrxi for the user.
-        data->matrix = gsl_matrix_calloc(intype=='t' ? data->textsize[0] : data->matrix->size2, outcol+1);
+        data->matrix = gsl_matrix_calloc(intype=='t' ? data->textsize[0] : data->vector->size, outcol+1);
     apop_data *out;
     dummies_and_factors_core(data, incol, intype, 1, outcol, 'f', &out);
     return out;
-- 
2.43.0


From a43563662d0c9d408a46b326e4e73fe41d78c565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:59 +0000
Subject: [PATCH 173/192] fix: categories met after the list of factors was
 made

---
 apop_regression.m4.c | 38 +++++++++++++++++++++++++-------------
 1 file changed, 25 insertions(+), 13 deletions(-)

diff --git a/apop_regression.m4.c b/apop_regression.m4.c
index 8ab4a2d..5ea7317 100644
--- a/apop_regression.m4.c
+++ b/apop_regression.m4.c
@@ -193,6 +193,20 @@ apop_data * create_factor_list(apop_data *d, int col, char type){
     return factor_list;
 }
 
+static void add_zero_column(apop_data *d, int height){
+    if (!d->matrix) d->matrix = gsl_matrix_calloc(height, 1);
+    else {
+        d->matrix = apop_matrix_realloc(d->matrix, height, d->matrix->size2+1);
+        gsl_vector_set_zero(Apop_cv(d, d->matrix->size2-1));
+    }
+}
+
+//Elements met after the list was made are at its end, so it may not be sorted.
+static void *find_elmt(void const *key, void const *list, size_t ct, size_t size, int (*compare)(const void*, const void*)){
+    void *out = bsearch(key, list, ct, size, compare);
+    return out ? out : lfind(key, list, &ct, size, compare);
+}
+
 /* Producing dummies consists of finding the index of element i, for all i, then
  setting (i, index) to one.
  Producing factors consists of finding the index and then setting (i, datacol) to index.
@@ -224,20 +238,21 @@ static apop_data * dummies_and_factors_core(apop_data *d, int col, char type,
     for (size_t i=0; i< s; i++){
         if (type == 'd'){
             double val = apop_data_get(d, i, col);
-            size_t posn = (size_t)bsearch(&val, delmts->data, elmt_ctr, sizeof(double), compare_doubles);
-            if (posn )
-                index = (posn - (size_t)delmts->data)/sizeof(double);
+            double *posn = find_elmt(&val, delmts->data, elmt_ctr, sizeof(double), compare_doubles);
+            if (posn)
+                index = posn - delmts->data;
             else {
                 index = elmt_ctr++;
-                (*factor_list)->vector = apop_vector_realloc((*factor_list)->vector, elmt_ctr);
-                gsl_vector_set((*factor_list)->vector, index, val);
-                out->matrix = apop_matrix_realloc(out->matrix, out->matrix->size1, elmt_ctr);
-                gsl_vector_set_zero(Apop_cv(out, index));
+                (*factor_list)->vector = delmts = apop_vector_realloc(delmts, elmt_ctr);
+                gsl_vector_set(delmts, index, val);
+                *factor_list = apop_text_alloc(*factor_list, elmt_ctr, 1);
+                apop_text_set(*factor_list, index, 0, "%g", val);
+                if (dummyfactor == 'd') add_zero_column(out, s);
             }
         } else {
-            size_t posn = (size_t)bsearch(&(d->text[i][col]), *telmts->text, elmt_ctr, sizeof(char**), strcmpwrap);
+            char **posn = find_elmt(&(d->text[i][col]), *telmts->text, elmt_ctr, sizeof(char**), strcmpwrap);
             if (posn)
-                index = (posn - (size_t)*telmts->text)/sizeof(char**);
+                index = posn - *telmts->text;
             else {
                 index = elmt_ctr++;
                 *factor_list = apop_text_alloc(*factor_list, elmt_ctr, 1);
@@ -247,10 +262,7 @@ static apop_data * dummies_and_factors_core(apop_data *d, int col, char type,
 
                 telmts = apop_text_alloc(telmts, 1, elmt_ctr);
                 apop_text_set(telmts, 0, index, "%s", d->text[i][col]);
-                if (dummyfactor == 'd'){
-                    out->matrix = apop_matrix_realloc(out->matrix, out->matrix->size1, out->matrix->size2+1);
-                    gsl_vector_set_zero(Apop_cv(out, out->matrix->size2-1));
-                }
+                if (dummyfactor == 'd') add_zero_column(out, s);
             }
         }
         if (dummyfactor == 'd'){
-- 
2.43.0


From 6cd0d245a732d638ac0d0f688824be9faf4b1464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:16 +0000
Subject: [PATCH 174/192] fix: names of dummies have any length

---
 apop_regression.m4.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/apop_regression.m4.c b/apop_regression.m4.c
index 5ea7317..e32dedf 100644
--- a/apop_regression.m4.c
+++ b/apop_regression.m4.c
@@ -277,13 +277,13 @@ static apop_data * dummies_and_factors_core(apop_data *d, int col, char type,
     if (dummyfactor == 'd'){
         char *basename = apop_get_factor_basename(d, col, type);
         for (size_t i = (keep_first!='n') ? 0 : 1; i< elmt_ctr; i++){
-            char n[1000];
-            if (type =='d'){
-                sprintf(n, "%s dummy %g", basename, gsl_vector_get(delmts,i));
-            } else
-                sprintf(n, "%s", telmts->text[0][i]);
+            char *n;
+            if (type =='d') Asprintf(&n, "%s dummy %g", basename, gsl_vector_get(delmts,i));
+            else            Asprintf(&n, "%s", telmts->text[0][i]);
             apop_name_add(out->names, n, 'c');
+            free(n);
         }
+        free(basename);
     }
     apop_data_free(telmts);
     return out;
-- 
2.43.0


From 98d6e5faa4db07b7e171c5d4aff907ce47c1c2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:21 +0000
Subject: [PATCH 175/192] fix: categories of an unnamed text column are not
 those of a matrix column

---
 apop_regression.m4.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apop_regression.m4.c b/apop_regression.m4.c
index e32dedf..783104e 100644
--- a/apop_regression.m4.c
+++ b/apop_regression.m4.c
@@ -120,7 +120,7 @@ apop_data * apop_text_unique_elements(const apop_data *d, size_t col){
 static char *apop_get_factor_basename(apop_data *d, int col, char type){
     char *name;
     char *catname =   d->names == NULL ? NULL
-                    : type == 't' && d->names && d->names->textct > col ? d->names->text[col]
+                    : type == 't'                                       ? (d->names->textct > col ? d->names->text[col] : NULL)
                     : col == -1 && d->names && d->names->vector         ? d->names->vector
                     : col >=0 && d->names && d->names->colct > col      ? d->names->col[col]
                     : NULL;
-- 
2.43.0


From a4d4b6ecbb8a7a3db9359328b637269964eb1d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:00 +0000
Subject: [PATCH 176/192] fix: weighted least squares uses the weights (the
 loop from column -1 never ran)

---
 model/apop_ols.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/model/apop_ols.c b/model/apop_ols.c
index 6fd4e52..6bf18a6 100644
--- a/model/apop_ols.c
+++ b/model/apop_ols.c
@@ -335,7 +335,7 @@ static void apop_estimate_OLS(apop_data *inset, apop_model *ep){
     if ((pwant &&pwant->covariance) || (!pwant && olp && olp->want_cov=='y'))
         apop_data_add_page(ep->parameters, apop_data_alloc(0, set->matrix->size2, set->matrix->size2), "<Covariance>");
     if (weights)
-        for (int i = -1; i < set->matrix->size2; i++)
+        for (int i = -1; i < (int)set->matrix->size2; i++)
             gsl_vector_mul(Apop_cv(set, i), weights);
 
     apop_data *xpx_d = apop_dot(set, set, .form1='t'); //(X'X)
-- 
2.43.0


From 31d88dcde040b1e92f37db8f60c169998d6692d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:35 +0000
Subject: [PATCH 177/192] fix: the predictions of weighted least squares are on
 the scale of the data, not multiplied by root weights

---
 model/apop_ols.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/model/apop_ols.c b/model/apop_ols.c
index 6bf18a6..80d0d13 100644
--- a/model/apop_ols.c
+++ b/model/apop_ols.c
@@ -296,6 +296,21 @@ static int ols_rng(double *out, gsl_rng *r, apop_model *m){
     return 0;
 }
 
+//The regression used y and X times the square root of the weights, but the observations and predictions are on the scale of the input.
+static void unweighted_predictions(apop_data *in, gsl_vector const *root_weights, int in_is_scaled, apop_model *m){
+    apop_data *predicted = apop_data_get_page(m->info, "<Predicted>");
+    if (!predicted) return;
+    for (size_t i=0; i< in->matrix->size1; i++){
+        double fitted, scale = in_is_scaled ? gsl_vector_get(root_weights, i) : 1;
+        gsl_blas_ddot(Apop_rv(in, i), m->parameters->vector, &fitted);
+        double observed = gsl_vector_get(in->vector, i)/scale;
+        fitted /= scale;
+        gsl_matrix_set(predicted->matrix, i, 0, observed);
+        gsl_matrix_set(predicted->matrix, i, 1, fitted);
+        gsl_matrix_set(predicted->matrix, i, 2, fitted - observed);
+    }
+}
+
 /* \adoc estimated_data You can specify whether the data is modified with an \ref apop_lm_settings group. Else, left unchanged.
 
 \adoc estimated_info Reports log likelihood, and runs \ref apop_estimate_coefficient_of_determination 
@@ -341,6 +356,7 @@ static void apop_estimate_OLS(apop_data *inset, apop_model *ep){
     apop_data *xpx_d = apop_dot(set, set, .form1='t'); //(X'X)
     apop_data *xpy_d = apop_dot(set, set, .form1='t', .form2='v'); //(X'y)
     xpxinvxpy(set, xpx_d->matrix, xpy_d, ep);
+    if (weights) unweighted_predictions(inset, weights, olp->destroy_data, ep);
     prep_names(ep);
     apop_data_free(xpx_d);
     apop_data_free(xpy_d);
-- 
2.43.0


From 8cac8817556af95c03fcdced8b82217cddeb157c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:35 +0000
Subject: [PATCH 178/192] fix: the weighted total sum of squares is on the same
 scale as the weighted sum of squared errors

---
 apop_regression.m4.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/apop_regression.m4.c b/apop_regression.m4.c
index 783104e..cb01e5e 100644
--- a/apop_regression.m4.c
+++ b/apop_regression.m4.c
@@ -570,7 +570,14 @@ apop_data *apop_estimate_coefficient_of_determination (apop_model *m){
         gsl_vector_free(v_times_w);
     }
     gsl_vector *vv = Apop_cv(expected, 0);
-    sst = apop_vector_var(vv, m->data->weights) * (vv->size-1);
+    if (!weights)
+        sst = apop_vector_var(vv) * (vv->size-1);
+    else {
+        double mean = apop_vector_mean(vv, weights);
+        sst = 0;
+        for (size_t i=0; i< vv->size; i++)
+            sst += gsl_vector_get(weights, i) * gsl_pow_2(gsl_vector_get(vv, i) - mean);
+    }
     rsq = 1. - (sse/sst);
     adjustment  = ((obs -1.) /(obs - indep_ct)) * (1.-rsq) ;
     apop_data_add_named_elmt(out, "R squared", rsq);
-- 
2.43.0


From 1ce6264e3f17e9bad699889bbfc5c5e504d3db4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:35 +0000
Subject: [PATCH 179/192] fix: residuals of least squares are observed minus
 predicted, as documented

---
 model/apop_ols.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/model/apop_ols.c b/model/apop_ols.c
index 80d0d13..6eff5df 100644
--- a/model/apop_ols.c
+++ b/model/apop_ols.c
@@ -238,10 +238,11 @@ static void xpxinvxpy(apop_data const*data, gsl_matrix *xpx, apop_data const* xp
 	if ((pwant && pwant->predicted) || (!pwant && p && p->want_expected_value)){
         apop_data *predicted_page = apop_data_get_page(out->info, "<Predicted>");
         gsl_matrix_set_col(predicted_page->matrix, 0, y_data);
-        gsl_matrix_set_col(predicted_page->matrix, 2, error->vector);
         gsl_vector *predicted = Apop_cv(predicted_page, 1);
         gsl_vector_memcpy(predicted, y_data);
         gsl_vector_add(predicted, error->vector); //pred = y_data + error
+        gsl_vector_scale(error->vector, -1);
+        gsl_matrix_set_col(predicted_page->matrix, 2, error->vector); //observed - predicted
     }
     apop_data_free(error);
     if (apop_data_get_page(out->parameters, "<Covariance>"))
@@ -307,7 +308,7 @@ static void unweighted_predictions(apop_data *in, gsl_vector const *root_weights
         fitted /= scale;
         gsl_matrix_set(predicted->matrix, i, 0, observed);
         gsl_matrix_set(predicted->matrix, i, 1, fitted);
-        gsl_matrix_set(predicted->matrix, i, 2, fitted - observed);
+        gsl_matrix_set(predicted->matrix, i, 2, observed - fitted);
     }
 }
 
-- 
2.43.0


From 96548ebdb3b66fc0718181312c0e52a315627ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:54 +0000
Subject: [PATCH 180/192] fix: the test of independence does not truncate the
 total of a table with fractions

---
 apop_tests.m4.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/apop_tests.m4.c b/apop_tests.m4.c
index 019f0c1..f8a9231 100644
--- a/apop_tests.m4.c
+++ b/apop_tests.m4.c
@@ -216,7 +216,7 @@ APOP_VAR_ENDHEAD
     return out;
 }
 
-static double one_chi_sq(apop_data *d, int row, int col, int n){
+static double one_chi_sq(apop_data *d, int row, int col, double n){
     double rowexp  = apop_vector_sum(Apop_rv(d, row))/n;
     double colexp  = apop_vector_sum(Apop_cv(d, col))/n;
     double observed = apop_data_get(d, row, col);
@@ -239,7 +239,7 @@ apop_data * apop_test_anova_independence(apop_data *d){
     double df = d->matrix->size1==1 ? d->matrix->size2-1 : d->matrix->size2 == 1 ? d->matrix->size1 
                               : (d->matrix->size1 - 1)* (d->matrix->size2 - 1);
     Apop_stopif(!df, return NULL, 0, "You sent a degenerate matrix. Returning NULL.");
-    int n = apop_matrix_sum(d->matrix);
+    double n = apop_matrix_sum(d->matrix);
     for (size_t row=0; row <d->matrix->size1; row++)
         for (size_t col=0; col <d->matrix->size2; col++)
             total += one_chi_sq(d, row, col, n);
-- 
2.43.0


From 12c151f755f7c1c140b857dab285e98c7d4e4fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:54 +0000
Subject: [PATCH 181/192] fix: a one-column table has one degree of freedom
 less than rows, as a one-row table has for columns

---
 apop_tests.m4.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apop_tests.m4.c b/apop_tests.m4.c
index f8a9231..27c4890 100644
--- a/apop_tests.m4.c
+++ b/apop_tests.m4.c
@@ -236,7 +236,7 @@ apop_data * apop_test_anova_independence(apop_data *d){
     Apop_stopif(!d || !d->matrix, return NULL, 0, "You sent me data with no matrix element. Returning NULL.");
     double total = 0;
     //You can have a one-column or one-row matrix if you want; else df = (rows-1)*(cols-1)
-    double df = d->matrix->size1==1 ? d->matrix->size2-1 : d->matrix->size2 == 1 ? d->matrix->size1 
+    double df = d->matrix->size1==1 ? d->matrix->size2-1 : d->matrix->size2 == 1 ? d->matrix->size1-1 
                               : (d->matrix->size1 - 1)* (d->matrix->size2 - 1);
     Apop_stopif(!df, return NULL, 0, "You sent a degenerate matrix. Returning NULL.");
     double n = apop_matrix_sum(d->matrix);
-- 
2.43.0


From 6b1a62a2934e27944d87391e3c3dd1e1f10aa00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:54 +0000
Subject: [PATCH 182/192] fix: one-tailed normal tests give the tail that was
 asked for

---
 apop_tests.m4.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/apop_tests.m4.c b/apop_tests.m4.c
index 27c4890..910982b 100644
--- a/apop_tests.m4.c
+++ b/apop_tests.m4.c
@@ -469,9 +469,9 @@ APOP_VAR_ENDHEAD
     //clever way to make it shorter.
      if (!distribution || !strcasecmp(distribution, "normal") || !strcasecmp(distribution, "gaussian") ){
          if (tail == 'u')
-             return gsl_cdf_gaussian_Q(p1-statistic, p2);
+             return gsl_cdf_gaussian_Q(statistic-p1, p2);
          else if (tail == 'l')
-             return gsl_cdf_gaussian_P(p1-statistic, p2);
+             return gsl_cdf_gaussian_P(statistic-p1, p2);
          else
              return 2 * gsl_cdf_gaussian_Q(fabs(p1-statistic), p2);
      }
-- 
2.43.0


From 34782e78d84f3ef5fe06c485ee5687b4589e92c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:54 +0000
Subject: [PATCH 183/192] fix: a two-tailed uniform test is relative to the
 center of the range

---
 apop_tests.m4.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apop_tests.m4.c b/apop_tests.m4.c
index 910982b..6ff2597 100644
--- a/apop_tests.m4.c
+++ b/apop_tests.m4.c
@@ -514,7 +514,7 @@ APOP_VAR_ENDHEAD
          else if (tail == 'l')
              return gsl_cdf_flat_P(statistic, p1, p2);
          else
-             return 2 * gsl_cdf_flat_Q(fabs(statistic - (p1+p2)/2.), p1, p2);
+             return 2 * gsl_cdf_flat_Q((p1+p2)/2. + fabs(statistic - (p1+p2)/2.), p1, p2);
      }
     Apop_assert(0, "Sorry, but I don't recognize %s as a distribution", distribution);
 }
-- 
2.43.0


From 2bf7677a1154c4b3d9921ab68d4ceda2a57edb2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:54 +0000
Subject: [PATCH 184/192] fix: apop_test without a distribution uses the
 Normal, as documented, instead of crashing

---
 apop_tests.m4.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/apop_tests.m4.c b/apop_tests.m4.c
index 6ff2597..792a5da 100644
--- a/apop_tests.m4.c
+++ b/apop_tests.m4.c
@@ -450,6 +450,7 @@ Here are the distributions you can use and their parameters.
 APOP_VAR_HEAD double apop_test(double statistic, char *distribution, double p1, double p2, char tail){
     double  apop_varad_var(statistic, 0);
     char*  apop_varad_var(distribution, NULL);
+    if (!distribution) distribution = "normal";
     double apop_varad_var(p1, 0);
     double apop_varad_var(p2, 0);
     int is_chi = !strcasecmp(distribution, "chi squared")|| !strcasecmp(distribution, "chi")
-- 
2.43.0


From 7d135f6039993448355c1c80fc2098ce1d896785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:54 +0000
Subject: [PATCH 185/192] fix: a moving average wider than its vector returns
 NULL (the check compared an unsigned size with zero)

---
 apop_hist.m4.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apop_hist.m4.c b/apop_hist.m4.c
index 74ac092..1ceb4ce 100644
--- a/apop_hist.m4.c
+++ b/apop_hist.m4.c
@@ -368,7 +368,7 @@ gsl_vector *apop_vector_moving_average(gsl_vector *v, size_t bandwidth){
     Apop_stopif(!v, return NULL, 0, "You asked me to smooth a NULL vector; returning NULL.");
     Apop_stopif(!bandwidth, return apop_vector_copy(v), 0, "Bandwidth must be >=1. Returning a copy of original vector with no smoothing.");
     int halfspan = bandwidth/2;
-    Apop_stopif((v->size - halfspan*2)<=0, return NULL, 0, "Bandwidth wider than the vector. Returning NULL.");
+    Apop_stopif(v->size <= halfspan*2, return NULL, 0, "Bandwidth wider than the vector. Returning NULL.");
     gsl_vector *vout = gsl_vector_calloc(v->size - halfspan*2);
     for(size_t i=0; i < vout->size; i ++){
         double *item = gsl_vector_ptr(vout, i);
-- 
2.43.0


From 43f2842affbabecaa2d7f0a713bdeead95b5a9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:04 +0000
Subject: [PATCH 186/192] fix: the largest point goes to the top bin whatever
 its magnitude

---
 apop_hist.m4.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/apop_hist.m4.c b/apop_hist.m4.c
index 1ceb4ce..9ef38d1 100644
--- a/apop_hist.m4.c
+++ b/apop_hist.m4.c
@@ -350,8 +350,10 @@ APOP_VAR_ENDHEAD
         }
         for (int i=0; i< onecol->size; i++){
             double val = gsl_vector_get(datacol, i);
-            double adjust = (close_top_bin=='y' && val == max && val!=offset) ? 2*GSL_DBL_EPSILON : 0;
-            gsl_vector_set(onecol, i, (floor((val-offset-adjust)/binwidth))*binwidth+offset);
+            double bin = (val-offset)/binwidth;
+            //The top point may be on the upper edge of the top bin, give or take rounding.
+            int close = close_top_bin=='y' && val == max && val!=offset && fabs(bin - round(bin)) < 1e-9;
+            gsl_vector_set(onecol, i, (close ? round(bin)-1 : floor(bin))*binwidth+offset);
         }
     }
     if (indata->weights) out->weights = apop_vector_copy(indata->weights);
-- 
2.43.0


From 8ae731291bcc73576e686ecca55433c838980c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:17 +0000
Subject: [PATCH 187/192] fix: variances and covariances with weights that sum
 to one are not divided by the number of elements again

---
 apop_stats.m4.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/apop_stats.m4.c b/apop_stats.m4.c
index c11a158..7f96034 100644
--- a/apop_stats.m4.c
+++ b/apop_stats.m4.c
@@ -527,7 +527,7 @@ APOP_VAR_END_HEAD
         wsum  += ww; 
     }
     double len = (wsum < 1.1 ? weights->size : wsum);
-    return (sumsq/len - gsl_pow_2(sum/len)) * len/(len -1.);
+    return (sumsq/wsum - gsl_pow_2(sum/wsum)) * len/(len -1.);
 }
 
 /** Find the sample covariance of a pair of vectors, with an optional weighting. This only
@@ -564,7 +564,7 @@ APOP_VAR_ENDHEAD
         wsum += ww; 
     }
     double len = (wsum < 1.1 ? weights->size : wsum);
-    return (sumsq/len  - sum1*sum2/gsl_pow_2(len)) *(len/(len-1));
+    return (sumsq/wsum  - sum1*sum2/gsl_pow_2(wsum)) *(len/(len-1));
 }
 
 /** Returns the sample variance/covariance matrix relating each column of the matrix to each other column.
-- 
2.43.0


From 42d661911486408b3abe670533d2522a27152261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:17 +0000
Subject: [PATCH 188/192] fix: population skew and kurtosis with weights that
 sum to one are not divided by the number of elements again

---
 apop_stats.m4.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/apop_stats.m4.c b/apop_stats.m4.c
index 7f96034..69c6f7a 100644
--- a/apop_stats.m4.c
+++ b/apop_stats.m4.c
@@ -73,8 +73,7 @@ static double wskewkurt(const gsl_vector *v, const gsl_vector *w, const int expo
         sumcu+= ww * gsl_pow_int(vv - mu, exponent); 
         wsum += ww; 
     }
-    double len = wsum < 1.1 ? w->size : wsum;
-    return sumcu/len;
+    return sumcu/wsum;
 }
 
 /** Returns the population skew \f$(\sum_i (x_i - \mu)^3/n))\f$ of the data in the given vector. Observations may be weighted.
-- 
2.43.0


From c29ba1cccd445aa7dadda060d7ae4883a3802b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:46 +0000
Subject: [PATCH 189/192] fix: a matrix whose diagonal sums to zero is made
 positive semidefinite instead of failing an assertion

---
 apop_stats.m4.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/apop_stats.m4.c b/apop_stats.m4.c
index 69c6f7a..649d234 100644
--- a/apop_stats.m4.c
+++ b/apop_stats.m4.c
@@ -959,7 +959,8 @@ double apop_matrix_to_positive_semidefinite(gsl_matrix *m){
         apop_data *eigendiag = apop_data_calloc(0, size, size);
         diagonal_copy(eigenvals, eigendiag->matrix, 'i');
         double new_diag_size = diagonal_size(eigendiag->matrix);
-        gsl_matrix_scale(eigendiag->matrix, orig_diag_size/new_diag_size);
+        if (orig_diag_size) //else there is no original size to keep
+            gsl_matrix_scale(eigendiag->matrix, orig_diag_size/new_diag_size);
         apop_data *qd = apop_dot(eigenvecs, eigendiag);
         qdq = apop_dot(qd, eigenvecs, .form2='t');
         gsl_matrix_memcpy(m, qdq->matrix);
-- 
2.43.0


From e0df90fd47fd99b669f3ed57ad77d295dbbdb0e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:35 +0000
Subject: [PATCH 190/192] fix: least squares with a covariance and without
 predicted values does not write to a page that was not asked for

---
 model/apop_ols.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/model/apop_ols.c b/model/apop_ols.c
index 6eff5df..30d90ab 100644
--- a/model/apop_ols.c
+++ b/model/apop_ols.c
@@ -235,7 +235,7 @@ static void xpxinvxpy(apop_data const*data, gsl_matrix *xpx, apop_data const* xp
     gsl_blas_ddot(error->vector, error->vector, &s_sq); // e'e
     s_sq /= data->matrix->size1 - data->matrix->size2;  // \sigma^2 = e'e / df
 	gsl_matrix_scale(cov->matrix, s_sq);                // cov = \sigma^2 (X'X)^{-1}
-	if ((pwant && pwant->predicted) || (!pwant && p && p->want_expected_value)){
+	if ((pwant && pwant->predicted) || (!pwant && p && p->want_expected_value == 'y')){
         apop_data *predicted_page = apop_data_get_page(out->info, "<Predicted>");
         gsl_matrix_set_col(predicted_page->matrix, 0, y_data);
         gsl_vector *predicted = Apop_cv(predicted_page, 1);
-- 
2.43.0


From 49be7176f6765655e2ec8312335dab41ed6908c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:11 +0000
Subject: [PATCH 191/192] fix: an observation that the expected histogram rules
 out gives a p value of zero, not NaN

---
 apop_hist.m4.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apop_hist.m4.c b/apop_hist.m4.c
index 9ef38d1..725752c 100644
--- a/apop_hist.m4.c
+++ b/apop_hist.m4.c
@@ -77,7 +77,7 @@ apop_data *apop_histograms_test_goodness_of_fit(apop_model *observed, apop_model
     }
     //Data gathered. Now output
     apop_data   *out    = apop_data_alloc();
-    double      toptail = gsl_cdf_chisq_Q(diff, df-1);
+    double      toptail = isinf(diff) ? 0 : gsl_cdf_chisq_Q(diff, df-1);
     Asprintf(&out->names->title, "Goodness-of-fit test via Chi-squared statistic");
     apop_data_add_named_elmt(out, "Chi squared statistic", diff);
     apop_data_add_named_elmt(out, "df", df-1);
-- 
2.43.0


From fa93ed96a86f09dd9d09f80ef3276bfff0df5093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:05 +0000
Subject: [PATCH 192/192] fix: the multivariate gamma is NaN, as documented,
 wherever one of its factors is undefined, instead of ending the program

---
 apop_stats.m4.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/apop_stats.m4.c b/apop_stats.m4.c
index 649d234..aad4779 100644
--- a/apop_stats.m4.c
+++ b/apop_stats.m4.c
@@ -785,6 +785,14 @@ APOP_VAR_ENDHEAD
     return div;
 }
 
+static int gamma_is_undefined(double a, int p){
+    for (int j=1; j<=p; j++){
+        double x = a+(1-j)/2.;
+        if (x <= 0 && x == floor(x)) return 1;
+    }
+    return 0;
+}
+
 /** The multivariate generalization of the Gamma distribution.
 \f[
 \Gamma_p(a)=
@@ -796,7 +804,7 @@ Because \f$\Gamma(x)\f$ is undefined for \f$x\in\{0, -1, -2, ...\}\f$, this func
 See also \ref apop_multivariate_lngamma, which is more numerically stable in most cases.
 */
 long double apop_multivariate_gamma(double a, int p){
-    Apop_stopif(-(a+(1-p)/2) == (int)-(a+(1-p)/2) && a+(1-p)/2 <=0, return NAN, 1, "Undefined when a + (1-p)/2 = 0, -1, -2, ... [you sent a=%g, p=%i]", a, p);
+    Apop_stopif(gamma_is_undefined(a, p), return NAN, 1, "Undefined when a + (1-j)/2 = 0, -1, -2, ... for any j in 1..p [you sent a=%g, p=%i]", a, p);
     long double out = pow(M_PI, p*(p-1.)/4.);
     long double factor = 1;
     for (int i=1; i<=p; i++)
@@ -808,7 +816,7 @@ long double apop_multivariate_gamma(double a, int p){
  \ref apop_multivariate_gamma.
 */
 long double apop_multivariate_lngamma(double a, int p){
-    Apop_stopif(-(a+(1-p)/2) == (int)-(a+(1-p)/2) && a+(1-p)/2 <=0, return NAN, 1, "Undefined when a + (1-p)/2 = 0, -1, -2, ... [you sent a=%g, p=%i]", a, p);
+    Apop_stopif(gamma_is_undefined(a, p), return NAN, 1, "Undefined when a + (1-j)/2 = 0, -1, -2, ... for any j in 1..p [you sent a=%g, p=%i]", a, p);
     long double out = M_LNPI * p*(p-1.)/4.;
     for (int i=1; i<=p; i++)
         out += gsl_sf_lngamma(a+(1-i)/2.);
-- 
2.43.0

