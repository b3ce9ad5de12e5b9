From 36bef5ad0a5cd07b2f501d7e2a03437ea2c055ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:37 +0000
Subject: [PATCH 01/18] fix: give every inequality its KKT diagonal entry even
 when its row of G is empty

---
 src/Auxilary.c | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/Auxilary.c b/src/Auxilary.c
index cfdae2f..0557639 100644
--- a/src/Auxilary.c
+++ b/src/Auxilary.c
@@ -123,13 +123,10 @@ void formkktmatrix_full(smat *P, smat *G, smat *A, smat *Gt, smat *At, smat *kkt
 				kkt->ir[kkt_nnz] = Gt->ir[j];
 				kkt->pr[kkt_nnz] = Gt->pr[j];
 				kkt_nnz++;
-				if (j == Gt->jc[i + 1] - 1)
-				{
-					kkt->ir[kkt_nnz] = P->m + A->m + i;
-					kkt->pr[kkt_nnz] = -1.0;
-					kkt_nnz++;
-				}
 			}
+			kkt->ir[kkt_nnz] = P->m + A->m + i;
+			kkt->pr[kkt_nnz] = -1.0;
+			kkt_nnz++;
 			kkt->jc[i + 1 + P->n + At->n] = kkt_nnz;
 		}
 	}
@@ -168,13 +165,10 @@ void formkktmatrix_full(smat *P, smat *G, smat *A, smat *Gt, smat *At, smat *kkt
 				kkt->ir[kkt_nnz] = Gt->ir[j];
 				kkt->pr[kkt_nnz] = Gt->pr[j];
 				kkt_nnz++;
-				if (j == Gt->jc[i + 1] - 1)
-				{
-					kkt->ir[kkt_nnz] = P->m + i;
-					kkt->pr[kkt_nnz] = -1.0;
-					kkt_nnz++;
-				}
 			}
+			kkt->ir[kkt_nnz] = P->m + i;
+			kkt->pr[kkt_nnz] = -1.0;
+			kkt_nnz++;
 			kkt->jc[i + 1 + P->n] = kkt_nnz;
 		}
 	}
-- 
2.43.0


From a9ca5bb8991e20e6b5652eba54404fd7237e67a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:37 +0000
Subject: [PATCH 02/18] fix: size the fallback ordering by the problem actually
 set up

---
 src/qpSWIFT.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qpSWIFT.c b/src/qpSWIFT.c
index 8831d13..3c92c65 100644
--- a/src/qpSWIFT.c
+++ b/src/qpSWIFT.c
@@ -209,7 +209,7 @@ QP *QP_SETUP(qp_int n, qp_int m, qp_int p, qp_int *Pjc, qp_int *Pir, qp_real *Pp
 #ifdef MATLAB_MEX_FILE
 			PRINT("AMD is not succesful, Using a default permutation matrix \n");
 #endif
-			for (idx = 0; idx < n + m + p; idx++)
+			for (idx = 0; idx < myQP->n + myQP->m + myQP->p; idx++)
 			{
 				myQP->kkt->P[idx] = idx;
 			}
@@ -431,7 +431,7 @@ QP *QP_SETUP_dense(qp_int n, qp_int m, qp_int p, qp_real *Ppr, qp_real *Apr, qp_
 #ifdef MATLAB_MEX_FILE
 			PRINT("AMD is not succesful, Using a default permutation matrix \n");
 #endif
-			for (idx = 0; idx < n + m + p; idx++)
+			for (idx = 0; idx < myQP->n + myQP->m + myQP->p; idx++)
 			{
 				myQP->kkt->P[idx] = idx;
 			}
-- 
2.43.0


From 25f38d23ac8f13d04641cc1f9b5f7ca704f16475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:56 +0000
Subject: [PATCH 03/18] fix: initialise statistics and unused equality pointers
 in setup

---
 src/qpSWIFT.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/qpSWIFT.c b/src/qpSWIFT.c
index 3c92c65..923c3f2 100644
--- a/src/qpSWIFT.c
+++ b/src/qpSWIFT.c
@@ -81,6 +81,11 @@ QP *QP_SETUP(qp_int n, qp_int m, qp_int p, qp_int *Pjc, qp_int *Pir, qp_real *Pp
 	myQP->stats->IterationCount = 0;
 	myQP->stats->alpha_p = 0.0;
 	myQP->stats->alpha_d = 0.0;
+	myQP->stats->n_rx = 0.0;
+	myQP->stats->n_ry = 0.0;
+	myQP->stats->n_rz = 0.0;
+	myQP->stats->n_mu = 0.0;
+	myQP->stats->fval = 0.0;
 	/* Initialise Stats */
 
 	/* Initalize Matrices */
@@ -101,6 +106,9 @@ QP *QP_SETUP(qp_int n, qp_int m, qp_int p, qp_int *Pjc, qp_int *Pir, qp_real *Pp
 		myQP->A = NULL;
 		myQP->At = NULL;
 		myQP->b = NULL;
+		myQP->y = NULL;
+		myQP->ry = NULL;
+		myQP->delta_y = NULL;
 	}
 
 	myQP->P = (smat *)MALLOC(sizeof(smat));
@@ -282,6 +290,11 @@ QP *QP_SETUP_dense(qp_int n, qp_int m, qp_int p, qp_real *Ppr, qp_real *Apr, qp_
 	myQP->stats->IterationCount = 0;
 	myQP->stats->alpha_p = 0.0;
 	myQP->stats->alpha_d = 0.0;
+	myQP->stats->n_rx = 0.0;
+	myQP->stats->n_ry = 0.0;
+	myQP->stats->n_rz = 0.0;
+	myQP->stats->n_mu = 0.0;
+	myQP->stats->fval = 0.0;
 	/* Initialise Stats */
 
 	/* Initalize Matrices */
@@ -309,6 +322,9 @@ QP *QP_SETUP_dense(qp_int n, qp_int m, qp_int p, qp_real *Ppr, qp_real *Apr, qp_
 		myQP->A = NULL;
 		myQP->At = NULL;
 		myQP->b = NULL;
+		myQP->y = NULL;
+		myQP->ry = NULL;
+		myQP->delta_y = NULL;
 	}
 
 	myQP->P = (smat *)MALLOC(sizeof(smat));
-- 
2.43.0


From 70b7e8b04d85fdc39c5335becb9c57145db55047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:28 +0000
Subject: [PATCH 04/18] fix: python: reject zero-dimensional arrays instead of
 reading their extents

---
 python/pyqpSWIFT.c | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/python/pyqpSWIFT.c b/python/pyqpSWIFT.c
index 2f75797..969c6cd 100644
--- a/python/pyqpSWIFT.c
+++ b/python/pyqpSWIFT.c
@@ -49,8 +49,6 @@ static PyObject *method_qpSWIFT(PyObject *self, PyObject *args, PyObject *kwargs
     qp_real *Ppr, *Apr = NULL, *Gpr;
     qp_real *cpr, *hpr, *bpr = NULL;
 
-    npy_intp *dims;
-
     PyObject *basic_info = NULL, *adv_info = NULL, *result;
 
     /* Temporary Pointer */
@@ -85,14 +83,12 @@ static PyObject *method_qpSWIFT(PyObject *self, PyObject *args, PyObject *kwargs
     }
 
     qp_int n, m, p;
-    dims = PyArray_DIMS(c);
-    n = (qp_int)dims[0];
-    dims = PyArray_DIMS(h);
-    m = (qp_int)dims[0];
+    /* zero dimensional arrays have no extents; they are rejected below */
+    n = PyArray_NDIM(c) > 0 ? (qp_int)PyArray_DIM(c, 0) : 0;
+    m = PyArray_NDIM(h) > 0 ? (qp_int)PyArray_DIM(h, 0) : 0;
     if (b && A)
     {
-        dims = PyArray_DIMS(b);
-        p = (qp_int)dims[0];
+        p = PyArray_NDIM(b) > 0 ? (qp_int)PyArray_DIM(b, 0) : 0;
     }
     else
     {
-- 
2.43.0


From 8e831c9dd24a748a67a0560f678ba79eab6f303f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:28 +0000
Subject: [PATCH 05/18] fix: python: reject empty problems the solver does not
 support

---
 python/pyqpSWIFT.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/python/pyqpSWIFT.c b/python/pyqpSWIFT.c
index 969c6cd..34965a5 100644
--- a/python/pyqpSWIFT.c
+++ b/python/pyqpSWIFT.c
@@ -102,6 +102,11 @@ static PyObject *method_qpSWIFT(PyObject *self, PyObject *args, PyObject *kwargs
         PyErr_SetString(PyExc_TypeError, "c must be a floating array with one dimension");
         return NULL;
     }
+    if (n == 0)
+    {
+        PyErr_SetString(PyExc_TypeError, "c must not be empty");
+        return NULL;
+    }
     /*---- c vector ------*/
 
     /*---- h vector ------*/
@@ -110,6 +115,11 @@ static PyObject *method_qpSWIFT(PyObject *self, PyObject *args, PyObject *kwargs
         PyErr_SetString(PyExc_TypeError, "h must be a floating array with one dimension");
         return NULL;
     }
+    if (m == 0)
+    {
+        PyErr_SetString(PyExc_TypeError, "h must not be empty");
+        return NULL;
+    }
     /*---- h vector ------*/
 
     /*---- b vector and A Matrix ------*/
-- 
2.43.0


From c02f3e7ed9556dc04a0d0970c603ae0df23be4ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:28 +0000
Subject: [PATCH 06/18] fix: python: release option values when rejecting them

---
 python/pyqpSWIFT.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/python/pyqpSWIFT.c b/python/pyqpSWIFT.c
index 34965a5..331c938 100644
--- a/python/pyqpSWIFT.c
+++ b/python/pyqpSWIFT.c
@@ -201,6 +201,7 @@ static PyObject *method_qpSWIFT(PyObject *self, PyObject *args, PyObject *kwargs
             else
             {
                 PyErr_SetString(PyExc_TypeError, "max iterations must be between 0 and 200, using the default value of 100");
+                Py_DECREF(opts_maxiter);
                 return NULL;
             }
             Py_DECREF(opts_maxiter);
@@ -218,6 +219,7 @@ static PyObject *method_qpSWIFT(PyObject *self, PyObject *args, PyObject *kwargs
             else
             {
                 PyErr_SetString(PyExc_TypeError, "absolute tolerance must be between 0 and 1, using the default value");
+                Py_DECREF(opts_abstol);
                 return NULL;
             }
             Py_DECREF(opts_abstol);
@@ -235,6 +237,7 @@ static PyObject *method_qpSWIFT(PyObject *self, PyObject *args, PyObject *kwargs
             else
             {
                 PyErr_SetString(PyExc_TypeError, "realtive tolerance must be between 0 and 1, using the default value");
+                Py_DECREF(opts_reltol);
                 return NULL;
             }
             Py_DECREF(opts_reltol);
@@ -252,6 +255,7 @@ static PyObject *method_qpSWIFT(PyObject *self, PyObject *args, PyObject *kwargs
             else
             {
                 PyErr_SetString(PyExc_TypeError, "sigma must be positive, using the default value");
+                Py_DECREF(opts_sigma);
                 return NULL;
             }
             Py_DECREF(opts_sigma);
@@ -270,6 +274,7 @@ static PyObject *method_qpSWIFT(PyObject *self, PyObject *args, PyObject *kwargs
             {
                 //  PyErr_WarnEx(PyExc_UserWarning, "verbose must be non-negative, using the default value", 1);
                 PyErr_SetString(PyExc_TypeError, "verbose must be non-negative integer, using the default value");
+                Py_DECREF(opts_verbose);
                 return NULL;
             }
             Py_DECREF(opts_verbose);
-- 
2.43.0


From b5aa86980631608cb7bee9c31d42808d1f7acc33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:28 +0000
Subject: [PATCH 07/18] fix: python: do not return a result with an exception
 pending for an invalid OUTPUT

---
 python/pyqpSWIFT.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/python/pyqpSWIFT.c b/python/pyqpSWIFT.c
index 331c938..5232b1b 100644
--- a/python/pyqpSWIFT.c
+++ b/python/pyqpSWIFT.c
@@ -291,7 +291,12 @@ static PyObject *method_qpSWIFT(PyObject *self, PyObject *args, PyObject *kwargs
             }
             else
             {
-                PyErr_WarnEx(PyExc_UserWarning, "output must be non-negative, using the default value", 1);
+                PyErr_Clear();
+                if (PyErr_WarnEx(PyExc_UserWarning, "output must be non-negative, using the default value", 1) < 0)
+                {
+                    Py_DECREF(opts_output);
+                    return NULL;
+                }
                 // PyErr_SetString(PyExc_TypeError, "verbose must be non-negative integer, using the default value");
                 // return NULL;
             }
-- 
2.43.0


From 266221caf7b483da54f0ccda659c4e1c36e04e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:46 +0000
Subject: [PATCH 08/18] fix: validate column pointers against the number of
 entries before reading row indices

---
 src/amd_valid.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/amd_valid.c b/src/amd_valid.c
index 609abca..16272d0 100644
--- a/src/amd_valid.c
+++ b/src/amd_valid.c
@@ -62,9 +62,9 @@ GLOBAL Int AMD_valid
 	p1 = Ap [j] ;
 	p2 = Ap [j+1] ;
 	AMD_DEBUG2 (("\nColumn: "ID" p1: "ID" p2: "ID"\n", j, p1, p2)) ;
-	if (p1 > p2)
+	if (p1 > p2 || p2 > nz)
 	{
-	    /* column pointers must be ascending */
+	    /* column pointers must be ascending, and none may exceed nz */
 	    AMD_DEBUG0 (("column "ID" pointer bad\n", j)) ;
 	    return (AMD_INVALID) ;
 	}
-- 
2.43.0


From b0b0fb5613e6d42e85a0a0f7aa45cb6ddd10bd9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:53 +0000
Subject: [PATCH 09/18] fix: test_reach: stop at the root of a tree before
 reading its mark

Trees whose root is not the last node end with parent -1, and the mark of
node -1 was read before the end was noticed.
---
 src/Auxilary.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Auxilary.c b/src/Auxilary.c
index 0557639..4e8a408 100644
--- a/src/Auxilary.c
+++ b/src/Auxilary.c
@@ -1105,7 +1105,7 @@ void test_reach(qp_int *Parent, qp_int *Pinv, qp_int *UPattern, qp_int n, qp_int
 	{
 		i = Pinv[j];
 
-		for (; UPattern[i] != top && i != -1; i = Parent[i])
+		for (; i != -1 && UPattern[i] != top; i = Parent[i])
 		{
 			UPattern[i] = top;
 		}
-- 
2.43.0


From 86ac5a25f7464032921a9cc1b8f4e0d1e4aa82c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:47 +0000
Subject: [PATCH 10/18] fix: python: raise instead of crashing when an array
 cannot be copied

The copies of the arguments were used without checking that they could be
made, so that running out of memory (or a cast error) ended the interpreter.
---
 python/pyqpSWIFT.c | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/python/pyqpSWIFT.c b/python/pyqpSWIFT.c
index 5232b1b..546a18d 100644
--- a/python/pyqpSWIFT.c
+++ b/python/pyqpSWIFT.c
@@ -27,6 +27,10 @@ qp_real *getptr(PyArrayObject *ar)
     PyArrayObject *tmp_arr;
     PyArrayObject *new_owner;
     tmp_arr = PyArray_GETCONTIGUOUS(ar);
+    if (tmp_arr == NULL)
+    {
+        return NULL;
+    }
     new_owner = (PyArrayObject *)PyArray_Cast(tmp_arr, NPY_DOUBLE);
     Py_DECREF(tmp_arr);
     // qp_real *ptr = PyArray_DATA(new_owner);
@@ -310,21 +314,34 @@ static PyObject *method_qpSWIFT(PyObject *self, PyObject *args, PyObject *kwargs
 
     /*** Get Data Pointers ***/
     ctemp = getptr(c);
+    htemp = ctemp ? getptr(h) : NULL;
+    Ptemp = htemp ? getptr(P) : NULL;
+    Gtemp = Ptemp ? getptr(G) : NULL;
+    if (b && A && Gtemp)
+    {
+        btemp = getptr(b);
+        Atemp = btemp ? getptr(A) : NULL;
+    }
+    if (Gtemp == NULL || (b && A && Atemp == NULL))
+    {
+        /* a copy failed, e.g. for lack of memory; the exception is set */
+        Py_XDECREF(ctemp);
+        Py_XDECREF(htemp);
+        Py_XDECREF(Ptemp);
+        Py_XDECREF(Gtemp);
+        Py_XDECREF(btemp);
+        Py_XDECREF(Atemp);
+        return NULL;
+    }
     cpr = (qp_real *)PyArray_DATA(ctemp);
-
-    htemp = getptr(h);
     hpr = (qp_real *)PyArray_DATA(htemp);
+    Ppr = (qp_real *)PyArray_DATA(Ptemp);
+    Gpr = (qp_real *)PyArray_DATA(Gtemp);
     if (b && A)
     {
-        btemp = getptr(b);
         bpr = (qp_real *)PyArray_DATA(btemp);
-        Atemp = getptr(A);
         Apr = (qp_real *)PyArray_DATA(Atemp);
     }
-    Ptemp = getptr(P);
-    Ppr = (qp_real *)PyArray_DATA(Ptemp);
-    Gtemp = getptr(G);
-    Gpr = (qp_real *)PyArray_DATA(Gtemp);
     /*** Get Data Pointers ***/
 
     QP *myQP;
-- 
2.43.0


From 029c1f897a44fac1771b9120ed9f67dd9dd75b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:17 +0000
Subject: [PATCH 11/18] fix: matlab: read the permutation from the documented
 option field

---
 matlab/qpSWIFT_mex.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/matlab/qpSWIFT_mex.c b/matlab/qpSWIFT_mex.c
index eeebc68..1356182 100644
--- a/matlab/qpSWIFT_mex.c
+++ b/matlab/qpSWIFT_mex.c
@@ -347,6 +347,10 @@ void mexFunction(int nlhs, mxArray *plhs[],
     {
         sttgs_permut = sttgs ? mxGetField(sttgs, 0, "permut") : 0;
     }
+    if (!sttgs_permut)
+    {
+        sttgs_permut = sttgs ? mxGetField(sttgs, 0, "Permut") : 0;
+    }
 
     if (sttgs_permut)
     {
-- 
2.43.0


From 5b86dbcb66d98131e72959fa5d6d43f6682d7550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:30 +0000
Subject: [PATCH 12/18] fix: matlab: reject options that do not hold a real
 number

---
 matlab/qpSWIFT_mex.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/matlab/qpSWIFT_mex.c b/matlab/qpSWIFT_mex.c
index 1356182..efafabb 100644
--- a/matlab/qpSWIFT_mex.c
+++ b/matlab/qpSWIFT_mex.c
@@ -342,6 +342,14 @@ void mexFunction(int nlhs, mxArray *plhs[],
         sttgs_sigma = sttgs ? mxGetField(sttgs, 0, "sigma") : 0;
     }
 
+    // Options are read as doubles; anything that does not hold a number is an error
+    const mxArray *sttgs_numeric[] = {sttgs_maxiter, sttgs_abstol, sttgs_reltol, sttgs_verbose, sttgs_sigma};
+    for (qp_int i = 0; i < 5; i++)
+    {
+        if (sttgs_numeric[i] && (!mxIsDouble(sttgs_numeric[i]) || mxIsSparse(sttgs_numeric[i]) || mxIsComplex(sttgs_numeric[i]) || mxIsEmpty(sttgs_numeric[i]) || mxIsNaN(*mxGetPr(sttgs_numeric[i]))))
+            mexErrMsgTxt("Options should be real numbers");
+    }
+
     sttgs_permut = sttgs ? mxGetField(sttgs, 0, "PERMUT") : 0;
     if (!sttgs_permut)
     {
-- 
2.43.0


From 98a98c2dfad8789a0be29db29c287f01b5ab2500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:08 +0000
Subject: [PATCH 13/18] fix: matlab: reject permutation entries outside
 1..n+m+p before converting them

---
 matlab/qpSWIFT_mex.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/matlab/qpSWIFT_mex.c b/matlab/qpSWIFT_mex.c
index efafabb..817d145 100644
--- a/matlab/qpSWIFT_mex.c
+++ b/matlab/qpSWIFT_mex.c
@@ -423,6 +423,9 @@ void mexFunction(int nlhs, mxArray *plhs[],
         // Change Matlab Indexing to C-based Indexing
         for (qp_int i = 0; i < n + m + p; i++)
         {
+            // Entries that are not a position in the KKT matrix (NaN included) have no integer index
+            if (!(pr[i] >= 1 && pr[i] <= n + m + p))
+                mexErrMsgTxt("Not a Valid Permutation Vector");
             Permutpr[i] = pr[i] - 1;
         }
 
-- 
2.43.0


From a444a86c07159c855142a145aa1ad87138b0e2aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:33 +0000
Subject: [PATCH 14/18] fix: simulink: require contiguous input signals, which
 the solver reads as arrays

---
 simulink/qpSWIFT_sfunc.c   | 19 +++++++++++++------
 simulink/qpSWIFT_sfunc_e.c | 25 +++++++++++++++++--------
 2 files changed, 30 insertions(+), 14 deletions(-)

diff --git a/simulink/qpSWIFT_sfunc.c b/simulink/qpSWIFT_sfunc.c
index 9fbb4a5..9f1d785 100644
--- a/simulink/qpSWIFT_sfunc.c
+++ b/simulink/qpSWIFT_sfunc.c
@@ -61,6 +61,13 @@ static void mdlInitializeSizes(SimStruct *S) /* Init sizes array */
     ssSetInputPortDirectFeedThrough(S, 2, 1);
     ssSetInputPortDirectFeedThrough(S, 3, 1);
 
+    /* mdlOutputs hands the signals to the solver as arrays; ask for contiguous storage */
+
+    ssSetInputPortRequiredContiguous(S, 0, 1);
+    ssSetInputPortRequiredContiguous(S, 1, 1);
+    ssSetInputPortRequiredContiguous(S, 2, 1);
+    ssSetInputPortRequiredContiguous(S, 3, 1);
+
     /* One sample time */
 
     ssSetNumSampleTimes(S, 1);
@@ -111,12 +118,12 @@ static void mdlOutputs(SimStruct *S, int_T tid)
     out_tsetup = ssGetOutputPortRealSignal(S, 3);   /* tsetup */
     out_tsolve = ssGetOutputPortRealSignal(S, 4);   /* tsolve */
 
-    InputRealPtrsType in_P, in_c, in_G, in_h, in_sigma_d;
+    qp_real *in_P, *in_c, *in_G, *in_h;
 
-    in_P = ssGetInputPortRealSignalPtrs(S, 0);
-    in_c = ssGetInputPortRealSignalPtrs(S, 1);
-    in_G = ssGetInputPortRealSignalPtrs(S, 2);
-    in_h = ssGetInputPortRealSignalPtrs(S, 3);
+    in_P = (qp_real *)ssGetInputPortRealSignal(S, 0);
+    in_c = (qp_real *)ssGetInputPortRealSignal(S, 1);
+    in_G = (qp_real *)ssGetInputPortRealSignal(S, 2);
+    in_h = (qp_real *)ssGetInputPortRealSignal(S, 3);
 
  
     size_P = ssGetInputPortWidth(S, 0); // P
@@ -137,7 +144,7 @@ static void mdlOutputs(SimStruct *S, int_T tid)
     
     
     
-    myQP = QP_SETUP_dense(n, m, 0, *in_P , NULL, *in_G, *in_c, *in_h, NULL, NULL, COLUMN_MAJOR_ORDERING);
+    myQP = QP_SETUP_dense(n, m, 0, in_P , NULL, in_G, in_c, in_h, NULL, NULL, COLUMN_MAJOR_ORDERING);
       
     /* ---------------------- Change the following settings as desired ---------------------- */
     /* -------------------------------------------------------------------------------------- */
diff --git a/simulink/qpSWIFT_sfunc_e.c b/simulink/qpSWIFT_sfunc_e.c
index 9b301c8..4d959ab 100644
--- a/simulink/qpSWIFT_sfunc_e.c
+++ b/simulink/qpSWIFT_sfunc_e.c
@@ -64,6 +64,15 @@ static void mdlInitializeSizes(SimStruct *S) /* Init sizes array */
     ssSetInputPortDirectFeedThrough(S, 4, 1);
     ssSetInputPortDirectFeedThrough(S, 5, 1);
 
+    /* mdlOutputs hands the signals to the solver as arrays; ask for contiguous storage */
+
+    ssSetInputPortRequiredContiguous(S, 0, 1);
+    ssSetInputPortRequiredContiguous(S, 1, 1);
+    ssSetInputPortRequiredContiguous(S, 2, 1);
+    ssSetInputPortRequiredContiguous(S, 3, 1);
+    ssSetInputPortRequiredContiguous(S, 4, 1);
+    ssSetInputPortRequiredContiguous(S, 5, 1);
+
     /* One sample time */
 
     ssSetNumSampleTimes(S, 1);
@@ -115,14 +124,14 @@ static void mdlOutputs(SimStruct *S, int_T tid)
     out_tsetup = ssGetOutputPortRealSignal(S, 3);   /* tsetup */
     out_tsolve = ssGetOutputPortRealSignal(S, 4);   /* tsolve */
 
-    InputRealPtrsType in_P, in_c, in_A, in_b, in_G, in_h;
+    qp_real *in_P, *in_c, *in_A, *in_b, *in_G, *in_h;
 
-    in_P = ssGetInputPortRealSignalPtrs(S, 0);
-    in_c = ssGetInputPortRealSignalPtrs(S, 1);
-    in_A = ssGetInputPortRealSignalPtrs(S, 2);
-    in_b = ssGetInputPortRealSignalPtrs(S, 3);
-    in_G = ssGetInputPortRealSignalPtrs(S, 4);
-    in_h = ssGetInputPortRealSignalPtrs(S, 5);
+    in_P = (qp_real *)ssGetInputPortRealSignal(S, 0);
+    in_c = (qp_real *)ssGetInputPortRealSignal(S, 1);
+    in_A = (qp_real *)ssGetInputPortRealSignal(S, 2);
+    in_b = (qp_real *)ssGetInputPortRealSignal(S, 3);
+    in_G = (qp_real *)ssGetInputPortRealSignal(S, 4);
+    in_h = (qp_real *)ssGetInputPortRealSignal(S, 5);
 
    
     size_P = ssGetInputPortWidth(S, 0); // P
@@ -137,7 +146,7 @@ static void mdlOutputs(SimStruct *S, int_T tid)
     m = (qp_int)size_h;
 
 
-    myQP = QP_SETUP_dense(n, m, p, *in_P , *in_A, *in_G, *in_c, *in_h, *in_b, NULL, COLUMN_MAJOR_ORDERING);
+    myQP = QP_SETUP_dense(n, m, p, in_P , in_A, in_G, in_c, in_h, in_b, NULL, COLUMN_MAJOR_ORDERING);
     
     /* ---------------------- Change the following settings as desired ---------------------- */
     /* -------------------------------------------------------------------------------------- */
-- 
2.43.0


From 55639ef4b2ae317e7784a681c2e1519bd6c75fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:15 +0000
Subject: [PATCH 15/18] fix: count the factorisation of a centering step in the
 factorisation time

---
 src/Auxilary.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Auxilary.c b/src/Auxilary.c
index 4e8a408..0520303 100644
--- a/src/Auxilary.c
+++ b/src/Auxilary.c
@@ -523,7 +523,10 @@ void kktsolve_2(QP *myQP)
 
 	if(myQP->stats->resolve_kkt)
 	{
+		qp_timer t;
+		tic(&t);
 		qp_int d = LDL_numeric(n, myQP->kkt->kktmatrix->jc, myQP->kkt->kktmatrix->ir, myQP->kkt->kktmatrix->pr, myQP->kkt->Lp, myQP->kkt->Parent, myQP->kkt->Lnz, myQP->kkt->Li, myQP->kkt->Lx, myQP->kkt->D, myQP->kkt->Y, myQP->kkt->Pattern, myQP->kkt->Flag, myQP->kkt->P, myQP->kkt->Pinv);
+		myQP->stats->ldl_numeric += toc(&t);
 	}
     
 	LDL_perm(n, myQP->delta, myQP->kkt->b, myQP->kkt->P);
-- 
2.43.0


From c7599c7f5835607327d9da61203ab6d50756607d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:43 +0000
Subject: [PATCH 16/18] fix: report MAXIT whenever a call uses up its
 iterations, also when an earlier call on the instance was optimal

---
 src/qpSWIFT.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qpSWIFT.c b/src/qpSWIFT.c
index 923c3f2..48b53bf 100644
--- a/src/qpSWIFT.c
+++ b/src/qpSWIFT.c
@@ -617,7 +617,7 @@ qp_int QP_SOLVE(QP *myQP)
 			}
 		}
 
-		if (myQP->stats->IterationCount == myQP->options->maxit)
+		if (idx == myQP->options->maxit)
 		{
 			myQP->stats->Flag = QP_MAXIT;
 		}
-- 
2.43.0


From bf47a2768dddadb46207e68c08d8ce657f6e4460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:43 +0000
Subject: [PATCH 17/18] fix: count the factorisation time of the present call
 only, as for the other solve times

---
 src/qpSWIFT.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/qpSWIFT.c b/src/qpSWIFT.c
index 48b53bf..0d8ff9f 100644
--- a/src/qpSWIFT.c
+++ b/src/qpSWIFT.c
@@ -512,6 +512,8 @@ qp_int QP_SOLVE(QP *myQP)
 *		}
 *	#endif
 */
+	myQP->stats->ldl_numeric = 0;
+
 	if (myQP->stats->Flag != QP_KKTFAIL)
 	{
 
-- 
2.43.0


From 5c3ed16071729fb01cf5e655f142583c518a9fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:22 +0000
Subject: [PATCH 18/18] fix: LDL_cache_numeric read one row index past the end
 of L

---
 src/ldl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ldl.c b/src/ldl.c
index a32d714..beeb81e 100644
--- a/src/ldl.c
+++ b/src/ldl.c
@@ -406,7 +406,7 @@ qp_int UPattern[] /*Update Pattern of subsequent iterations*/
 		else{
 			/*for (jj = Ltp[k]; jj < Ltp[k + 1]; jj++)
 				++work[Lti[jj]];*/
-			for (jj = Lp[k]; UPattern[Li[jj]] != n && jj < Lp[k + 1]; jj++, work[k]++);
+			for (jj = Lp[k]; jj < Lp[k + 1] && UPattern[Li[jj]] != n; jj++, work[k]++);
 		}
 
 	}
-- 
2.43.0

