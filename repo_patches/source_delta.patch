From 338ab63cd06580e1f796dd9b70ad1f28ff73e079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:29:32 +0000
Subject: [PATCH 01/32] fix: keep tan of subnormal arguments finite

The unused reciprocal branch overflowed for arguments below 2^-128 (single)
or 2^-1024 (double) and 0*inf turned the result into NaN.
---
 include/tan.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tan.h b/include/tan.h
index c1ec59d..67c1954 100644
--- a/include/tan.h
+++ b/include/tan.h
@@ -118,7 +118,7 @@ inline double fast_tan(double x){
     // Avoid fpe generated by 1/0 if res is 0
     const double zeroIfXNonZero = (x==0.);
     res += zeroIfXNonZero;
-    res = quad * (-1./res) + alt * res; // one coeff is one and one is 0!
+    res = quad * (-1./(alt ? 1. : res)) + alt * res; // one coeff is one and one is 0!
 
     // Again, return 0 if res==0, the correct result otherwhise
     return details::dpXORuint64(res,sign_mask) * (1.-zeroIfXNonZero);
@@ -155,7 +155,7 @@ inline float fast_tanf(float x){
     // Avoid fpe generated by 1/0 if res is 0
     const float zeroIfXNonZero = (x==0.f);
     res += zeroIfXNonZero;
-    res = quad * (-1.f/res) + alt * res; // one coeff is one and one is 0!
+    res = quad * (-1.f/(alt ? 1.f : res)) + alt * res; // one coeff is one and one is 0!
 
     return details::spXORuint32(res,sign_mask) * (1.f-zeroIfXNonZero);
 
-- 
2.43.0


From 2daff3a36685c34e971566d82349bbbee878abc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:29:32 +0000
Subject: [PATCH 02/32] fix: propagate NaN through the logarithm

A NaN argument passed both range tests and produced a finite number.
---
 include/log.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/log.h b/include/log.h
index ddda848..834e52c 100644
--- a/include/log.h
+++ b/include/log.h
@@ -118,7 +118,7 @@ inline double fast_log(double x){
 
 	if (original_x > details::LOG_UPPER_LIMIT)
 		res = std::numeric_limits<double>::infinity();
-	if (original_x < details::LOG_LOWER_LIMIT) // THIS IS NAN!
+	if (!(original_x >= details::LOG_LOWER_LIMIT)) // THIS IS NAN!
 		res =  - std::numeric_limits<double>::quiet_NaN();
 
 	return res;
@@ -193,7 +193,7 @@ inline float fast_logf( float x ) {
 
 	if (original_x > details::LOGF_UPPER_LIMIT)
 		res = std::numeric_limits<float>::infinity();
-	if (original_x < details::LOGF_LOWER_LIMIT)
+	if (!(original_x >= details::LOGF_LOWER_LIMIT))
 		res = -std::numeric_limits<float>::quiet_NaN();
 
 	return res;
-- 
2.43.0


From 418fc8900518333e48f8eb56573cf3a664e8e844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:29:32 +0000
Subject: [PATCH 03/32] fix: no floating point exception in single precision
 atan2 at the origin

The guard against 0/0 was computed but not applied to the divisor.
---
 include/atan2.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/atan2.h b/include/atan2.h
index 62f9249..bf70eef 100644
--- a/include/atan2.h
+++ b/include/atan2.h
@@ -105,7 +105,7 @@ inline float fast_atan2f( float y, float x ) {
     // To avoid the fpe, we protect against /0.
     const float oneIfXXZero = (xx==0.f);
     
-    float t=yy/(xx/*+oneIfXXZero*/);
+    float t=yy/(xx+oneIfXXZero);
     float z=t;
     if( t > 0.4142135623730950f ) // * tan pi/8
             z = (t-1.0f)/(t+1.0f);
-- 
2.43.0


From 89e72109855cbad43bb2b7633274f1a67f857407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:29:32 +0000
Subject: [PATCH 04/32] fix: make identity.h usable on its own

It used uint32_t without including its declaration.
---
 include/identity.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/identity.h b/include/identity.h
index 88fc726..b477e80 100644
--- a/include/identity.h
+++ b/include/identity.h
@@ -24,6 +24,8 @@
 #ifndef IDENTITY_H_
 #define IDENTITY_H_
 
+#include "vdtcore_common.h"
+
 namespace vdt{
 
 // Identity double precision ---------------------------------------------------
-- 
2.43.0


From 671d3fcb3d167008a6199b29a8f4e08842d7eac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:30:21 +0000
Subject: [PATCH 05/32] fix: measure intervals that cross a second boundary

A negative nanosecond difference wrapped around before being added to the
seconds in floating point, so the elapsed time came out as 0 or garbage.
---
 include/diagnostic/vdtdiag_helper.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/diagnostic/vdtdiag_helper.h b/include/diagnostic/vdtdiag_helper.h
index 6dcb6f5..b437943 100644
--- a/include/diagnostic/vdtdiag_helper.h
+++ b/include/diagnostic/vdtdiag_helper.h
@@ -381,7 +381,7 @@ private:
 		temp.tv_sec = m_time2.tv_sec-m_time1.tv_sec;
 		temp.tv_nsec = m_time2.tv_nsec-m_time1.tv_nsec;
 		uint64_t elapsed_time = temp.tv_nsec;
-		elapsed_time += 1e9*temp.tv_sec;
+		elapsed_time += uint64_t(1000000000)*temp.tv_sec;
 		return elapsed_time;
 	}
 
-- 
2.43.0


From 786f1190aa7b29bdd88a3b6e4122c93cdc63a34f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:30:21 +0000
Subject: [PATCH 06/32] fix: exact position of the most significant different
 bit

The floating point log2 rounded up for differences just below a power of two
from 2^48 on, and was converted from -inf for identical numbers.
---
 include/diagnostic/vdtdiag_helper.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/diagnostic/vdtdiag_helper.h b/include/diagnostic/vdtdiag_helper.h
index b437943..1455a70 100644
--- a/include/diagnostic/vdtdiag_helper.h
+++ b/include/diagnostic/vdtdiag_helper.h
@@ -179,7 +179,9 @@ uint16_t diffbit(const T a,const T b ){
 	uint64_t c = ia>ib? ia-ib : ib -ia;
 	//uint64_t c = ia^ib;
 	/// return the log2+1
-	return log2(c)+1;
+	uint16_t bit = 0;
+	for (;c;c>>=1) ++bit;
+	return bit;
 }
 
 //------------------------------------------------------------------------------
-- 
2.43.0


From dd39d835508728053f39e1927c55c21d118f3ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:30:51 +0000
Subject: [PATCH 07/32] fix: report the RMS of the bit differences instead of
 its square

The statistic stored and printed as RMS was the variance.
---
 include/diagnostic/vdtdiag_interfaces.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/diagnostic/vdtdiag_interfaces.h b/include/diagnostic/vdtdiag_interfaces.h
index bdaec13..96db873 100644
--- a/include/diagnostic/vdtdiag_interfaces.h
+++ b/include/diagnostic/vdtdiag_interfaces.h
@@ -140,7 +140,7 @@ private:
 	if (size==1)
 	  m_RMS=-1;
 	else
-	  m_RMS=(sum_x2 - size*m_mean*m_mean)/(size-1);
+	  m_RMS=std::sqrt((sum_x2 - size*m_mean*m_mean)/(size-1));
 
 	}
 
-- 
2.43.0


From f6c6b2b29806106cf861d0120cdff21ace25149c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:31:06 +0000
Subject: [PATCH 08/32] fix: reload comparison files with infinite or NaN
 inputs

The decimal copy of the input was parsed as a number, which fails on inf and
nan and silently dropped the rest of the file.
---
 include/diagnostic/vdtdiag_fcnComparison.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/diagnostic/vdtdiag_fcnComparison.h b/include/diagnostic/vdtdiag_fcnComparison.h
index 8078e80..308bc34 100644
--- a/include/diagnostic/vdtdiag_fcnComparison.h
+++ b/include/diagnostic/vdtdiag_fcnComparison.h
@@ -66,7 +66,7 @@ public:
 			//read rest of file
 			fpFromHex<T> in_val, out1_val, out2_val;
 			uint16_t tmp_diff;
-			T dummy;	//input value for Python, now useless
+			std::string dummy;	//input value for Python, now useless
 			while(ifile >> in_val >> out1_val >> out2_val >> tmp_diff >> dummy) {
 				m_input.push_back(in_val.getValue());
 				IfcnComparison<T>::m_out1.push_back(out1_val.getValue());
@@ -182,7 +182,7 @@ public:
 			//read rest of file
 			fpFromHex<T> in_val1, in_val2, out1_val, out2_val;
 			uint16_t tmp_diff;
-			T dummy1, dummy2;	//input value for Python, now useless
+			std::string dummy1, dummy2;	//input value for Python, now useless
 			while(ifile >> in_val1 >> in_val2 >> out1_val >> out2_val >> tmp_diff >> dummy1 >> dummy2) {
 				m_input1.push_back(in_val1.getValue());
 				m_input2.push_back(in_val2.getValue());
-- 
2.43.0


From 0a6503e2585fb18273c2c525b2c4ab1427b0f8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:31:06 +0000
Subject: [PATCH 09/32] fix: return double from the double precision fma of the
 fat library

---
 src/fatlib.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fatlib.h b/src/fatlib.h
index b4e81b2..9685405 100644
--- a/src/fatlib.h
+++ b/src/fatlib.h
@@ -64,7 +64,7 @@ namespace {
 
 extern "C" {
   float myfmaF(float x, float y, float z) { return myfmaCPP(x,y,z);} 
-  float myfmaD(double x, double y, double z) { return myfmaCPP(x,y,z);} 
+  double myfmaD(double x, double y, double z) { return myfmaCPP(x,y,z);} 
 }
 
 #endif
-- 
2.43.0


From b9188906d62cde57cc46b6462a59412827673612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:31:06 +0000
Subject: [PATCH 10/32] fix: run the numpy wrapper generator under Python 3

The file() builtin does not exist any more.
---
 src/numpy_wrapper_generator.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/numpy_wrapper_generator.py b/src/numpy_wrapper_generator.py
index 2bf8c6e..41dcaf4 100644
--- a/src/numpy_wrapper_generator.py
+++ b/src/numpy_wrapper_generator.py
@@ -256,7 +256,7 @@ def create_python():
       for fcn_name in sorted(FUNCTIONS_LIST):
         code+=get_python_function(fcn_name,is_double,is_vector)
 
-  ofile=file(VDT_PYTHON_MODULE,'w')
+  ofile=open(VDT_PYTHON_MODULE,'w')
   ofile.write(code)
   ofile.close()
 
@@ -296,7 +296,7 @@ def create_numpy_header():
   code+=data+fname+fdoc;
 
 
-  ofile=file(VDT_NUMPY_WRAPPER_HEADER,'w')
+  ofile=open(VDT_NUMPY_WRAPPER_HEADER,'w')
   ofile.write(code)
   ofile.close()
 
@@ -332,14 +332,14 @@ def get_impl_file():
 #------------------------------------------------------------------
 
 def create_header():
-  ofile=file(VDT_WRAPPER_HEADER,'w')
+  ofile=open(VDT_WRAPPER_HEADER,'w')
   ofile.write(get_header_file())
   ofile.close()
   
 #------------------------------------------------------------------
 
 def create_impl():
-  ofile=file(VDT_WRAPPER_IMPL,'w')
+  ofile=open(VDT_WRAPPER_IMPL,'w')
   ofile.write(get_impl_file())
   ofile.close()
 
-- 
2.43.0


From 9b7e60e58fc5e642a09b79a25822197a9da9644c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:31:06 +0000
Subject: [PATCH 11/32] fix: run the Vc wrapper generator under Python 3

The file() builtin does not exist any more.
---
 src/vc_wrapper_generator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vc_wrapper_generator.py b/src/vc_wrapper_generator.py
index 057e6dc..529ffdd 100644
--- a/src/vc_wrapper_generator.py
+++ b/src/vc_wrapper_generator.py
@@ -153,14 +153,14 @@ def get_impl_file():
 #------------------------------------------------------------------
 
 def create_header():
-  ofile=file(VC_WRAPPER_HEADER,'w')
+  ofile=open(VC_WRAPPER_HEADER,'w')
   ofile.write(get_header_file())
   ofile.close()
   
 #------------------------------------------------------------------
 
 def create_impl():
-  ofile=file(VC_WRAPPER_IMPL,'w')
+  ofile=open(VC_WRAPPER_IMPL,'w')
   ofile.write(get_impl_file())
   ofile.close()
 
-- 
2.43.0


From 15a72981dc972251aa0e4053a7830159b3267de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:55:32 +0000
Subject: [PATCH 12/32] fix: count benchmark calls beyond 32 bits

---
 include/diagnostic/vdtdiag_fcnPerformance.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/diagnostic/vdtdiag_fcnPerformance.h b/include/diagnostic/vdtdiag_fcnPerformance.h
index 0787314..fa809d4 100644
--- a/include/diagnostic/vdtdiag_fcnPerformance.h
+++ b/include/diagnostic/vdtdiag_fcnPerformance.h
@@ -205,7 +205,7 @@ private:
   delete [] results_arr;
   
   // Calculate mean and error on the mean
-  const uint64_t iterations = size * m_repetitions;
+  const uint64_t iterations = uint64_t(size) * m_repetitions;
   calculate_mean_and_err(t,t2,iterations);
   }
   //-----------------------------------------------------------------------------
@@ -253,7 +253,7 @@ private:
     delete [] results_arr;
 
     // Calculate mean and error on the mean
-    const uint64_t iterations = size * m_repetitions;
+    const uint64_t iterations = uint64_t(size) * m_repetitions;
     calculate_mean_and_err(t,t2,iterations);
     }
 //-----------------------------------------------------------------------------
@@ -289,7 +289,7 @@ private:
      fool_optimisation(results);
     }
     
-  const uint64_t iterations = size * m_repetitions;
+  const uint64_t iterations = uint64_t(size) * m_repetitions;
   calculate_mean_and_err(t,t2,iterations);
   }
 
@@ -327,7 +327,7 @@ void measureTime2Dv(){
 			 fool_optimisation(results);
 			}
 
-		const uint64_t iterations = size * m_repetitions;
+		const uint64_t iterations = uint64_t(size) * m_repetitions;
 		calculate_mean_and_err(t,t2,iterations);
 		}
 
-- 
2.43.0


From a2975f1d6079ac8d042a2def0be0f83878b11da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:57:33 +0000
Subject: [PATCH 13/32] fix: load double precision functions with numpy 1.24
 and later

---
 scripts/invokeVDT.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/invokeVDT.py b/scripts/invokeVDT.py
index 55a552f..eb89613 100644
--- a/scripts/invokeVDT.py
+++ b/scripts/invokeVDT.py
@@ -36,7 +36,7 @@ def load(fn,is_single,libname='libvdtFatLibWrapper',nin=1,nout=1) :
    if (is_single) :
      type = numpy.single
    else :
-     type = numpy.float      
+     type = numpy.double
 
    tin = numpy.ctypeslib.ndpointer(type,flags='aligned, contiguous')
    tout = numpy.ctypeslib.ndpointer(type,flags='aligned, contiguous, writeable')
-- 
2.43.0


From 39b0cdb9c31ac25bfacd26cf8ac394513fef941b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:57:33 +0000
Subject: [PATCH 14/32] fix: register the numpy functions under their names
 with Python 3

---
 src/vdtNumpyWrapper.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vdtNumpyWrapper.c b/src/vdtNumpyWrapper.c
index dc7b39e..8653d54 100644
--- a/src/vdtNumpyWrapper.c
+++ b/src/vdtNumpyWrapper.c
@@ -181,7 +181,7 @@ PyMODINIT_FUNC PyInit_vdtnpfun(void)
       vdt_v = PyUFunc_FromFuncAndData(funcs, data+2*i, types, 2, 1, 1,
                                     PyUFunc_None, fname[i],
                                     fdoc[i], 0);
-      PyDict_SetItemString(d, fname+i, vdt_v);
+      PyDict_SetItemString(d, fname[i], vdt_v);
       Py_DECREF(vdt_v);
     }
     // add sincos and atan2 by hand
-- 
2.43.0


From baf451ccfb6ce339b46443c62cde0b1181d8ee2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:57:54 +0000
Subject: [PATCH 15/32] fix: honour the strides of numpy operands

---
 src/vdtNumpyWrapper.c | 56 ++++++++++++++++++++++++++++++-------------
 1 file changed, 40 insertions(+), 16 deletions(-)

diff --git a/src/vdtNumpyWrapper.c b/src/vdtNumpyWrapper.c
index 8653d54..512c246 100644
--- a/src/vdtNumpyWrapper.c
+++ b/src/vdtNumpyWrapper.c
@@ -34,9 +34,12 @@ static void vdt_vf(char **args, npy_intp *dimensions,
   
   npy_intp n = dimensions[0];
   char *in = args[0], *out = args[1];
-  /* npy_intp in_step = steps[0], out_step = steps[1]; */
 
-  (*functionPtr)((const float *)in, (float *)out,n); 
+  if (steps[0]==sizeof(float) && steps[1]==sizeof(float))
+    (*functionPtr)((const float *)in, (float *)out,n);
+  else /* strided or broadcast operands */
+    for (npy_intp i=0;i<n;++i, in+=steps[0], out+=steps[1])
+      (*functionPtr)((const float *)in, (float *)out,1);
 }
 
 static void vdt_vd(char **args, npy_intp *dimensions,
@@ -47,9 +50,12 @@ static void vdt_vd(char **args, npy_intp *dimensions,
   
   npy_intp n = dimensions[0];
   char *in = args[0], *out = args[1];
-  /* npy_intp in_step = steps[0], out_step = steps[1]; */
   
-  (*functionPtr)((const double *)in, (double *)out,n); 
+  if (steps[0]==sizeof(double) && steps[1]==sizeof(double))
+    (*functionPtr)((const double *)in, (double *)out,n);
+  else /* strided or broadcast operands */
+    for (npy_intp i=0;i<n;++i, in+=steps[0], out+=steps[1])
+      (*functionPtr)((const double *)in, (double *)out,1);
 }
 
 
@@ -62,9 +68,12 @@ static void vdt_vf21(char **args, npy_intp *dimensions,
   
   npy_intp n = dimensions[0];
   char *in1 = args[0], *in2 = args[1], *out = args[2];
-  /* npy_intp in_step = steps[0], out_step = steps[1]; */
   
-  (*functionPtr)((const float *)in1, (const float *)in2, (float *)out,n); 
+  if (steps[0]==sizeof(float) && steps[1]==sizeof(float) && steps[2]==sizeof(float))
+    (*functionPtr)((const float *)in1, (const float *)in2, (float *)out,n);
+  else /* strided or broadcast operands */
+    for (npy_intp i=0;i<n;++i, in1+=steps[0], in2+=steps[1], out+=steps[2])
+      (*functionPtr)((const float *)in1, (const float *)in2, (float *)out,1);
 }
 
 static void vdt_vf12(char **args, npy_intp *dimensions,
@@ -75,9 +84,12 @@ static void vdt_vf12(char **args, npy_intp *dimensions,
   
   npy_intp n = dimensions[0];
   char *in = args[0], *out1 = args[1], *out2 = args[2];
-  /* npy_intp in_step = steps[0], out_step = steps[1]; */
   
-  (*functionPtr)((const float *)in, (float *)out1, (float *)out2,n); 
+  if (steps[0]==sizeof(float) && steps[1]==sizeof(float) && steps[2]==sizeof(float))
+    (*functionPtr)((const float *)in, (float *)out1, (float *)out2,n);
+  else /* strided or broadcast operands */
+    for (npy_intp i=0;i<n;++i, in+=steps[0], out1+=steps[1], out2+=steps[2])
+      (*functionPtr)((const float *)in, (float *)out1, (float *)out2,1);
 }
 
 static void vdt_vf31(char **args, npy_intp *dimensions,
@@ -88,9 +100,12 @@ static void vdt_vf31(char **args, npy_intp *dimensions,
   
   npy_intp n = dimensions[0];
   char *in1 = args[0], *in2 = args[1], *in3 = args[2], *out = args[3];
-  /* npy_intp in_step = steps[0], out_step = steps[1]; */
   
-  (*functionPtr)((const float *)in1, (const float *)in2,(const float *)in3, (float *)out,n); 
+  if (steps[0]==sizeof(float) && steps[1]==sizeof(float) && steps[2]==sizeof(float) && steps[3]==sizeof(float))
+    (*functionPtr)((const float *)in1, (const float *)in2,(const float *)in3, (float *)out,n);
+  else /* strided or broadcast operands */
+    for (npy_intp i=0;i<n;++i, in1+=steps[0], in2+=steps[1], in3+=steps[2], out+=steps[3])
+      (*functionPtr)((const float *)in1, (const float *)in2,(const float *)in3, (float *)out,1);
 }
 
 
@@ -102,9 +117,12 @@ static void vdt_vd21(char **args, npy_intp *dimensions,
   
   npy_intp n = dimensions[0];
   char *in1 = args[0], *in2 = args[1], *out = args[2];
-  /* npy_intp in_step = steps[0], out_step = steps[1]; */
   
-  (*functionPtr)((const double *)in1, (const double *)in2, (double *)out,n); 
+  if (steps[0]==sizeof(double) && steps[1]==sizeof(double) && steps[2]==sizeof(double))
+    (*functionPtr)((const double *)in1, (const double *)in2, (double *)out,n);
+  else /* strided or broadcast operands */
+    for (npy_intp i=0;i<n;++i, in1+=steps[0], in2+=steps[1], out+=steps[2])
+      (*functionPtr)((const double *)in1, (const double *)in2, (double *)out,1);
 }
 
 static void vdt_vd12(char **args, npy_intp *dimensions,
@@ -115,9 +133,12 @@ static void vdt_vd12(char **args, npy_intp *dimensions,
   
   npy_intp n = dimensions[0];
   char *in = args[0],  *out1 = args[1], *out2 = args[2];
-  /* npy_intp in_step = steps[0], out_step = steps[1]; */
   
-  (*functionPtr)((const double *)in, (double *)out1, (double *)out2,n); 
+  if (steps[0]==sizeof(double) && steps[1]==sizeof(double) && steps[2]==sizeof(double))
+    (*functionPtr)((const double *)in, (double *)out1, (double *)out2,n);
+  else /* strided or broadcast operands */
+    for (npy_intp i=0;i<n;++i, in+=steps[0], out1+=steps[1], out2+=steps[2])
+      (*functionPtr)((const double *)in, (double *)out1, (double *)out2,1);
 }
 
 static void vdt_vd31(char **args, npy_intp *dimensions,
@@ -128,9 +149,12 @@ static void vdt_vd31(char **args, npy_intp *dimensions,
   
   npy_intp n = dimensions[0];
   char *in1 = args[0], *in2 = args[1], *in3 = args[2], *out = args[3];
-  /* npy_intp in_step = steps[0], out_step = steps[1]; */
   
-  (*functionPtr)((const double *)in1, (const double *)in2,(const double *)in3, (double *)out,n); 
+  if (steps[0]==sizeof(double) && steps[1]==sizeof(double) && steps[2]==sizeof(double) && steps[3]==sizeof(double))
+    (*functionPtr)((const double *)in1, (const double *)in2,(const double *)in3, (double *)out,n);
+  else /* strided or broadcast operands */
+    for (npy_intp i=0;i<n;++i, in1+=steps[0], in2+=steps[1], in3+=steps[2], out+=steps[3])
+      (*functionPtr)((const double *)in1, (const double *)in2,(const double *)in3, (double *)out,1);
 }
 
 
-- 
2.43.0


From 933a857237fbebbcf0bdddc396d8e69814f92315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:57:54 +0000
Subject: [PATCH 16/32] fix: pass all operands of div and fma from the ctypes
 module

---
 scripts/invokeVDT.py           | 12 ++++++++++++
 scripts/vdtBase.py             |  5 +++++
 src/numpy_wrapper_generator.py |  4 +++-
 3 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/scripts/invokeVDT.py b/scripts/invokeVDT.py
index eb89613..e26742f 100644
--- a/scripts/invokeVDT.py
+++ b/scripts/invokeVDT.py
@@ -21,6 +21,18 @@ def invoke2to1(vi1,vi2,f,type) :
   f(vi1,vi2,vo,vi1.size)
   return vo
 
+def invoke3to1(vi1,vi2,vi3,f,type) :
+  requires = ['CONTIGUOUS', 'ALIGNED']
+  vi1 = numpy.asanyarray(vi1)
+  vi1 = numpy.require(vi1, type, requires)
+  vi2 = numpy.asanyarray(vi2)
+  vi2 = numpy.require(vi2, type, requires)
+  vi3 = numpy.asanyarray(vi3)
+  vi3 = numpy.require(vi3, type, requires)
+  vo = numpy.empty_like(vi1)
+  f(vi1,vi2,vi3,vo,vi1.size)
+  return vo
+
 def invoke1to2(vi,f,type) :
   requires = ['CONTIGUOUS', 'ALIGNED']
   vi = numpy.asanyarray(vi)
diff --git a/scripts/vdtBase.py b/scripts/vdtBase.py
index 211b6a5..cdcf9f8 100644
--- a/scripts/vdtBase.py
+++ b/scripts/vdtBase.py
@@ -26,6 +26,11 @@ def vdt_invoke2to1(fn,vi1,vi2) :
     (f,type) =  VDTFunMap[fn]
     return invokeVDT.invoke2to1(vi1,vi2,f,type)    
 
+def vdt_invoke3to1(fn,vi1,vi2,vi3) :
+    loadit(fn,3,1)
+    (f,type) =  VDTFunMap[fn]
+    return invokeVDT.invoke3to1(vi1,vi2,vi3,f,type)    
+
 def vdt_invoke1to2(fn,vi) :
     loadit(fn,1,2)
     (f,type) =  VDTFunMap[fn]
diff --git a/src/numpy_wrapper_generator.py b/src/numpy_wrapper_generator.py
index 41dcaf4..c069cff 100644
--- a/src/numpy_wrapper_generator.py
+++ b/src/numpy_wrapper_generator.py
@@ -238,8 +238,10 @@ def get_python_function(fcn_name,is_double,is_vector):
   code = ''
   if(is_vector):
     fn ='%s%s' %(VDT_PREF,fcn_name)
-    if (fcn_name[:5] == 'atan2') :
+    if (fcn_name[:5] == 'atan2' or fcn_name[:3] == 'div') :
       code='def %s(vi1,vi2): return vdt_invoke2to1("%s",vi1,vi2)' %(fn,fn) + '\n'
+    elif (fcn_name[:3] == 'fma') :
+      code='def %s(vi1,vi2,vi3): return vdt_invoke3to1("%s",vi1,vi2,vi3)' %(fn,fn) + '\n'
     elif (fcn_name[:6] == 'sincos'):
       code='def %s(vi): return vdt_invoke1to2("%s",vi)' %(fn,fn) + '\n'
     else :
-- 
2.43.0


From 657f727beede1cd2edc22ed1478ee86d51d9efb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:13:26 +0000
Subject: [PATCH 17/32] fix: numpy exponential wrapper ignores the operand
 strides

---
 src/expfWrapper.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/expfWrapper.c b/src/expfWrapper.c
index 289e2f2..8311dff 100644
--- a/src/expfWrapper.c
+++ b/src/expfWrapper.c
@@ -33,10 +33,12 @@ static void vdt_vf(char **args, npy_intp *dimensions,
   
   npy_intp n = dimensions[0];
     char *in = args[0], *out = args[1];
-    /* npy_intp in_step = steps[0], out_step = steps[1]; */
 
-    // vdt_expfv((const float *)in, (float *)out,n); 
-    (*functionPtr)((const float *)in, (float *)out,n); 
+    if (steps[0]==sizeof(float) && steps[1]==sizeof(float))
+      (*functionPtr)((const float *)in, (float *)out,n);
+    else /* strided or broadcast operands */
+      for (npy_intp i=0;i<n;++i, in+=steps[0], out+=steps[1])
+        (*functionPtr)((const float *)in, (float *)out,1);
 }
 
 static void vdt_vd(char **args, npy_intp *dimensions,
@@ -48,9 +50,12 @@ static void vdt_vd(char **args, npy_intp *dimensions,
   
   npy_intp n = dimensions[0];
     char *in = args[0], *out = args[1];
-    /* npy_intp in_step = steps[0], out_step = steps[1]; */
 
-    (*functionPtr)((const double *)in, (double *)out,n); 
+    if (steps[0]==sizeof(double) && steps[1]==sizeof(double))
+      (*functionPtr)((const double *)in, (double *)out,n);
+    else /* strided or broadcast operands */
+      for (npy_intp i=0;i<n;++i, in+=steps[0], out+=steps[1])
+        (*functionPtr)((const double *)in, (double *)out,1);
 }
 
 
-- 
2.43.0


From 419071cdee47d08bd1a7b9201e5b920a6a377b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:37:02 +0000
Subject: [PATCH 18/32] fix: writing an object onto the file it was read from
 empties the file

The output was opened, and so truncated, before the input was copied.
---
 include/diagnostic/vdtdiag_fcnComparison.h | 16 ++++++++++++----
 include/diagnostic/vdtdiag_fcnResponse.h   | 16 ++++++++++++----
 include/diagnostic/vdtdiag_random.h        | 16 ++++++++++++----
 3 files changed, 36 insertions(+), 12 deletions(-)

diff --git a/include/diagnostic/vdtdiag_fcnComparison.h b/include/diagnostic/vdtdiag_fcnComparison.h
index 308bc34..4fa55bd 100644
--- a/include/diagnostic/vdtdiag_fcnComparison.h
+++ b/include/diagnostic/vdtdiag_fcnComparison.h
@@ -111,17 +111,21 @@ public:
   /// Dump on ascii file
 	void writeFile(const std::string& output_filename){
 		const std::string preamble("VDT function arithmetics performance comparison file (the first 5 lines are the header)\n");
-		std::ofstream ofile ( output_filename );
 		// Copy the input file if the object was created from file
 		if (IfcnComparison<T>::m_from_file){
 			std::string line;
 			std::ifstream ifile ( IfcnComparison<T>::m_ifile_name );
 			getline(ifile,line);
+			// The output can be the input file itself: read it before opening the output
+			std::stringstream content;
+			content << ifile.rdbuf();
+			std::ofstream ofile ( output_filename );
 			ofile << "Dumped by an object initialised by " << IfcnComparison<T>::m_ifile_name << " - "
 					<< preamble;
-			ofile << ifile.rdbuf() ;
+			ofile << content.rdbuf() ;
 		}
 		else{ // Write an header and the numbers in the other case
+			std::ofstream ofile ( output_filename );
 			ofile << preamble;
 			if (sizeof(T)==8) // some kind of RTTC
 				ofile << "Double Precision\n";
@@ -228,17 +232,21 @@ public:
   /// Dump on ascii file
 	void writeFile(const std::string& output_filename){
 		const std::string preamble("VDT function arithmetics performance comparison file (the first 5 lines are the header)\n");
-		std::ofstream ofile ( output_filename );
 		// Copy the input file if the object was created from file
 		if (IfcnComparison<T>::m_from_file){
 			std::string line;
 			std::ifstream ifile ( IfcnComparison<T>::m_ifile_name );
 			getline(ifile,line);
+			// The output can be the input file itself: read it before opening the output
+			std::stringstream content;
+			content << ifile.rdbuf();
+			std::ofstream ofile ( output_filename );
 			ofile << "Dumped by an object initialised by " << IfcnComparison<T>::m_ifile_name << " - "
 					<< preamble;
-			ofile << ifile.rdbuf() ;
+			ofile << content.rdbuf() ;
 		}
 		else{ // Write an header and the numbers in the other case
+			std::ofstream ofile ( output_filename );
 			ofile << preamble;
 			if (sizeof(T)==8) // some kind of RTTC
 				ofile << "Double Precision\n";
diff --git a/include/diagnostic/vdtdiag_fcnResponse.h b/include/diagnostic/vdtdiag_fcnResponse.h
index c3d2cf2..a41f647 100644
--- a/include/diagnostic/vdtdiag_fcnResponse.h
+++ b/include/diagnostic/vdtdiag_fcnResponse.h
@@ -99,17 +99,21 @@ public:
 	/// Dump on ascii file
 	void writeFile(const std::string& output_filename) {
 		const std::string preamble("VDT function arithmetics performance 1 input file (the first 5 lines are the header)\n");
-		std::ofstream ofile ( output_filename );
 		// Copy the input file if the object was created from file
 		if (IfcnResponse<T>::isFromFile()){
 			std::string line;
 			std::ifstream ifile ( IfcnResponse<T>::getIfileName() );
 			getline(ifile,line);
+			// The output can be the input file itself: read it before opening the output
+			std::stringstream content;
+			content << ifile.rdbuf();
+			std::ofstream ofile ( output_filename );
 			ofile << "Dumped by an object initialised by " << IfcnResponse<T>::getIfileName() << " - "
 					<< preamble;
-			ofile << ifile.rdbuf() ;
+			ofile << content.rdbuf() ;
 		}
 		else{ // Write an header and the numbers in the other case
+			std::ofstream ofile ( output_filename );
 			ofile << preamble;
 			if (sizeof(T)==8) // some kind of RTTC
 				ofile << "Double Precision\n";
@@ -217,17 +221,21 @@ public:
 	/// Dump on ascii file
 	void writeFile(const std::string& output_filename) {
 		const std::string preamble("VDT function arithmetics performance 1 input file (the first 5 lines are the header)\n");
-		std::ofstream ofile ( output_filename );
 		// Copy the input file if the object was created from file
 		if (IfcnResponse<T>::isFromFile()){
 			std::string line;
 			std::ifstream ifile ( IfcnResponse<T>::getIfileName() );
 			getline(ifile,line);
+			// The output can be the input file itself: read it before opening the output
+			std::stringstream content;
+			content << ifile.rdbuf();
+			std::ofstream ofile ( output_filename );
 			ofile << "Dumped by an object initialised by " << IfcnResponse<T>::getIfileName() << " - "
 					<< preamble;
-			ofile << ifile.rdbuf() ;
+			ofile << content.rdbuf() ;
 		}
 		else{ // Write an header and the numbers in the other case
+			std::ofstream ofile ( output_filename );
 			ofile << preamble;
 			if (sizeof(T)==8) // some kind of RTTC
 				ofile << "Double Precision\n";
diff --git a/include/diagnostic/vdtdiag_random.h b/include/diagnostic/vdtdiag_random.h
index b8e4f94..98dcec4 100644
--- a/include/diagnostic/vdtdiag_random.h
+++ b/include/diagnostic/vdtdiag_random.h
@@ -77,17 +77,21 @@ public:
 	/// Write numbers on disk in the form of an ascii file. The numbers are in HEX format.
 	void writeFile(const std::string& output_filename) {
 		const std::string preamble("VDT Random numbers file (the first 5 lines are the header)\n");
-		std::ofstream ofile ( output_filename );
 		// Copy the input file if the object was created from file
 		if (getSize()==0 ){
 			std::string line;
 			std::ifstream ifile ( getFileName() );
 			getline(ifile,line);
+			// The output can be the input file itself: read it before opening the output
+			std::stringstream content;
+			content << ifile.rdbuf();
+			std::ofstream ofile ( output_filename );
 			ofile << "Dumped by an object initialised by " << getFileName() << " - "
 					<< preamble;
-			ofile << ifile.rdbuf() ;
+			ofile << content.rdbuf() ;
 		}
 		else{ // Write an header and the numbers in the other case
+			std::ofstream ofile ( output_filename );
 			ofile << preamble;
 			if (sizeof(T)==8) // some kind of RTTC
 				ofile << "Double Precision\n";
@@ -176,17 +180,21 @@ public:
 	/// Write numbers on disk in the form of an ascii file. The numbers are in HEX format.
 	void writeFile(const std::string& output_filename) {
 		const std::string preamble("VDT Random numbers file 2D (the first 5 lines are the header)\n");
-		std::ofstream ofile ( output_filename );
 		// Copy the input file if the object was created from file
 		if (getSize()==0 ){
 			std::string line;
 			std::ifstream ifile ( getFileName() );
 			getline(ifile,line);
+			// The output can be the input file itself: read it before opening the output
+			std::stringstream content;
+			content << ifile.rdbuf();
+			std::ofstream ofile ( output_filename );
 			ofile << "Dumped by an object initialised by " << getFileName() << " - "
 				  << preamble;
-			ofile << ifile.rdbuf() ;
+			ofile << content.rdbuf() ;
 		}
 		else{ // Write an header and the numbers in the other case
+			std::ofstream ofile ( output_filename );
 			ofile << preamble;
 			if (sizeof(T)==8) // some kind of RTTC
 				ofile << "Double Precision\n";
-- 
2.43.0


From c58e7d4c6333cd36201cc4627ae9f3914844a999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:44:07 +0000
Subject: [PATCH 19/32] fix: do not index empty lists in responses and timings

Taking the address of the first element of an empty vector is undefined
and aborts with library assertions enabled. Ask the vector for its data
pointer instead.
---
 include/diagnostic/vdtdiag_fcnPerformance.h | 12 ++++++------
 include/diagnostic/vdtdiag_fcnResponse.h    |  8 ++++----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/include/diagnostic/vdtdiag_fcnPerformance.h b/include/diagnostic/vdtdiag_fcnPerformance.h
index fa809d4..445f7cb 100644
--- a/include/diagnostic/vdtdiag_fcnPerformance.h
+++ b/include/diagnostic/vdtdiag_fcnPerformance.h
@@ -183,7 +183,7 @@ private:
   // Start the loop on the repetitions
   for (uint32_t irep=0;irep<m_repetitions+warm_up;irep++){
     // Isolate the array inside the vector
-    const T* input_arr=&m_input[0];
+    const T* input_arr=m_input.data();
 
     // Perform the measurment on _all_ the input values
     fcntimer.start();
@@ -230,8 +230,8 @@ private:
     // Start the loop on the repetitions
     for (uint32_t irep=0;irep<m_repetitions+warm_up;irep++){
       // Isolate the array inside the vector
-      const T* input_arr1=&m_input[0];
-      const T* input_arr2=&m_input2[0];
+      const T* input_arr1=m_input.data();
+      const T* input_arr2=m_input2.data();
 
       // Perform the measurment on _all_ the input values
       fcntimer.start();
@@ -271,7 +271,7 @@ private:
 
   for (uint32_t irep=0;irep<m_repetitions+warm_up;irep++){
     
-      T* input_arr= const_cast<T*> (&m_input[0]);
+      T* input_arr= const_cast<T*> (m_input.data());
       T* results_arr=new T[size];
       
       fcntimer.start();
@@ -308,8 +308,8 @@ void measureTime2Dv(){
 
 		for (uint32_t irep=0;irep<m_repetitions+warm_up;irep++){
 
-				T* input_arr1= const_cast<T*> (&m_input[0]);
-				T* input_arr2= const_cast<T*> (&m_input2[0]);
+				T* input_arr1= const_cast<T*> (m_input.data());
+				T* input_arr2= const_cast<T*> (m_input2.data());
 				T* results_arr=new T[size];
 
 				fcntimer.start();
diff --git a/include/diagnostic/vdtdiag_fcnResponse.h b/include/diagnostic/vdtdiag_fcnResponse.h
index a41f647..48959b8 100644
--- a/include/diagnostic/vdtdiag_fcnResponse.h
+++ b/include/diagnostic/vdtdiag_fcnResponse.h
@@ -53,7 +53,7 @@ public:
 		m_fcnv(fcnv){
 		//m_output.reserve(size);
 		const uint64_t size = this->getInput().size();
-		T* input_arr = const_cast<T*> (&this->getInput()[0]);
+		T* input_arr = const_cast<T*> (this->getInput().data());
         T* output_arr = new T[size];
 		fcnv(size,input_arr,output_arr);
 		for (uint32_t i=0;i<size;++i )
@@ -171,8 +171,8 @@ public:
 		m_fcnv(fcnv){
 		//m_output.reserve(size);
 		const uint64_t size = this->getInput1().size();
-		T* input1_arr = const_cast<T*> (&this->getInput1()[0]);
-		T* input2_arr = const_cast<T*> (&this->getInput2()[0]);
+		T* input1_arr = const_cast<T*> (this->getInput1().data());
+		T* input2_arr = const_cast<T*> (this->getInput2().data());
         T* output_arr = new T[size];
 		fcnv(size,input1_arr,input2_arr,output_arr);
 		for (uint32_t i=0;i<size;++i )
@@ -302,7 +302,7 @@ public:
 		m_input(input){
 		const uint32_t size=m_input.size();
 		m_output.reserve(size);
-                T* input_arr = const_cast<T*> (&m_input[0]);
+                T* input_arr = const_cast<T*> (m_input.data());
 		T* output_arr = new T[size];
 		fcnv(size,input_arr,output_arr);
 		for (uint32_t i=0;i<size;++i )
-- 
2.43.0


From da721d106bddd76432c6d005f0d7d723690273f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:44:07 +0000
Subject: [PATCH 20/32] fix: restore the number format after printing
 statistics and timings

Both left fixed notation and two digits on the stream, so everything
printed later lost its digits.
---
 include/diagnostic/vdtdiag_fcnPerformance.h | 5 +++++
 include/diagnostic/vdtdiag_interfaces.h     | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/include/diagnostic/vdtdiag_fcnPerformance.h b/include/diagnostic/vdtdiag_fcnPerformance.h
index 445f7cb..1b5ee0f 100644
--- a/include/diagnostic/vdtdiag_fcnPerformance.h
+++ b/include/diagnostic/vdtdiag_fcnPerformance.h
@@ -116,6 +116,9 @@ fcnPerformance(const std::string& fcnName,
 //------------------------------------------------------------------------------
 /// Print the timing on screen. If a scale is povided, express the time in terms of a speedup factor.
   void print(std::ostream& stream = std::cout, const double scale=1.){
+    // The number format is restored at the end
+    const std::ios_base::fmtflags flags = stream.flags();
+    const std::streamsize precision = stream.precision();
     stream << std::setprecision(2)
               << std::fixed
               << "Function " << std::setw(15) << std::left << m_fcn_name << " : " 
@@ -124,6 +127,8 @@ fcnPerformance(const std::string& fcnName,
     if (scale!=1.)
       stream << " --> " << scale/m_avg_time << "X speedup!";
     stream << std::endl;
+    stream.flags(flags);
+    stream.precision(precision);
   }
 
 //-----------------------------------------------------------------------------
diff --git a/include/diagnostic/vdtdiag_interfaces.h b/include/diagnostic/vdtdiag_interfaces.h
index 96db873..a0d6e2d 100644
--- a/include/diagnostic/vdtdiag_interfaces.h
+++ b/include/diagnostic/vdtdiag_interfaces.h
@@ -78,6 +78,9 @@ public:
 //------------------------------------------------------------------------------
 
 	void printStats(const bool tabular = false){
+		// The number format is restored at the end
+		const std::ios_base::fmtflags flags = std::cout.flags();
+		const std::streamsize precision = std::cout.precision();
 		if(!tabular){
 			std::cout << "Stats for " << m_name << ":\n"
 	              << std::setprecision(2)
@@ -93,6 +96,8 @@ public:
 				<< std::setw(7) << std::right << std::setprecision(2) << m_mean
 				<< std::setw(7) << std::right << std::setprecision(2) << m_RMS << "\n";
 		}
+		std::cout.flags(flags);
+		std::cout.precision(precision);
 	  };
 //------------------------------------------------------------------------------
 
-- 
2.43.0


From e0386b729b35157d790fede7a128548f45114e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:44:07 +0000
Subject: [PATCH 21/32] fix: run the accuracy and tabulation scripts under
 Python 3

---
 scripts/checkAccuracy.py      |  4 ++--
 scripts/tabulateVDTResults.py | 40 ++++++++++++++++++-----------------
 2 files changed, 23 insertions(+), 21 deletions(-)

diff --git a/scripts/checkAccuracy.py b/scripts/checkAccuracy.py
index 7818c01..2d5bcd9 100644
--- a/scripts/checkAccuracy.py
+++ b/scripts/checkAccuracy.py
@@ -71,13 +71,13 @@ def get_tests(nick):
 if __name__ == "__main__":
     import sys
     if len(sys.argv) != 2:
-      print "Usage is checkAccuracy.py nick"
+      print ("Usage is checkAccuracy.py nick")
       sys.exit(1)
     nick=sys.argv[1]
     tests=get_tests(nick)
     refs=get_refs(nick)
     command='vdtArithmComparison -n=%s -T="%s" -R="%s"' %(nick,tests,refs)
-    print command
+    print (command)
         
         
         
diff --git a/scripts/tabulateVDTResults.py b/scripts/tabulateVDTResults.py
index f748c3b..3e8a259 100755
--- a/scripts/tabulateVDTResults.py
+++ b/scripts/tabulateVDTResults.py
@@ -1,5 +1,6 @@
 #! /usr/bin/env python
 
+from __future__ import print_function
 import re
 import math
 
@@ -53,12 +54,12 @@ def createSummaryTable(TitledTimingsList):
    """
    firstTimings =TitledTimingsList[0][1]
    nlines=len(firstTimings)
-   print "   Function Name",
+   print("   Function Name", end=" ")
    for title,timings in TitledTimingsList:
-      print "%20s" %title,
-   print
-   for i in xrange(nlines):
-      print "%16s" %firstTimings[i][0],
+      print("%20s" %title, end=" ")
+   print()
+   for i in range(nlines):
+      print("%16s" %firstTimings[i][0], end=" ")
       first=True
       norm=1.
       speedupString=""
@@ -73,9 +74,9 @@ def createSummaryTable(TitledTimingsList):
             factor = norm/dividend
             speedupString = "%.1fX" %factor
          s="%.2f +- %.2f %s" %(time,err,speedupString)
-         print "%20s" %s,
+         print("%20s" %s, end=" ")
          first=False
-      print
+      print()
 
 
 #-------------------------------------------------------------------------------
@@ -97,17 +98,17 @@ def createVectTable(TitledTimingsList):
    
    firstTimings =TitledTimingsList[0][1]
    nlines=len(firstTimings)
-   print "   Function Name",
+   print("   Function Name", end=" ")
    vectSuffix=""
    for title,timings in TitledTimingsList:      
-      print "%20s" %(title+vectSuffix),
+      print("%20s" %(title+vectSuffix), end=" ")
       vectSuffix=" vect."
-   print
-   for i in xrange(nlines):
+   print()
+   for i in range(nlines):
       funcName=firstTimings[i][0]
       if funcName.endswith('v'):continue
       
-      print "%16s" %funcName,
+      print("%16s" %funcName, end=" ")
       first=True
       norm=1.
       speedupString=""
@@ -117,7 +118,7 @@ def createVectTable(TitledTimingsList):
             err = timings[i][2]
             norm=time
             s="%.2f +- %.2f" %(time,err)
-            print "%20s" %s,
+            print("%20s" %s, end=" ")
             first=False
          else:
             timingsDict = timings2TimingsDict(timings)            
@@ -128,9 +129,9 @@ def createVectTable(TitledTimingsList):
             factor = norm/dividend
             speedupString = "%.1f X" %factor
             s="%.2f +- %.2f %s" %(time,err,speedupString)
-            print "%20s" %s,
+            print("%20s" %s, end=" ")
             first=False
-      print
+      print()
 
 #-------------------------------------------------------------------------------
 def createLibmVdtTable(TitledTimings):
@@ -140,8 +141,8 @@ def createLibmVdtTable(TitledTimings):
 
    nlines=len(TitledTimings)
    title,timings = TitledTimings
-   print "--------- %s Scalar Calls ----------" %title
-   print "%16s %16s %16s" %("Function Name","Libm","VDT")
+   print("--------- %s Scalar Calls ----------" %title)
+   print("%16s %16s %16s" %("Function Name","Libm","VDT"))
    timingsDict=timings2TimingsDict(timings) 
    for name,time,err in timings:
       if name.startswith("Fast_") or name.endswith("v"): continue
@@ -158,7 +159,7 @@ def createLibmVdtTable(TitledTimings):
       speedupString = "%.1fX"%speedup
       vdtString="%.2f +- %.2f %s" %(vdtTime,vdtErr,speedupString)
 
-      print "%16s %20s %20s" %(name,libmString,vdtString)
+      print("%16s %20s %20s" %(name,libmString,vdtString))
       
 #-------------------------------------------------------------------------------
 if __name__ == "__main__":
@@ -199,7 +200,8 @@ if __name__ == "__main__":
       createVectTable(titledTimingsList)
 
    if options.libmTable:
-      map (createLibmVdtTable, titledTimingsList)
+      for titledTimings in titledTimingsList:
+         createLibmVdtTable(titledTimings)
 
 
 
-- 
2.43.0


From 5146a94d4f819b2565f3d1432cdb40204e0396d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:44:07 +0000
Subject: [PATCH 22/32] fix: tabulate libm and vdt timings without
 normalisation and with zero times

The table of libm and vdt timings stopped with an error at the identity
function when the timings were not normalised, and at a vdt time of zero.
---
 scripts/tabulateVDTResults.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/scripts/tabulateVDTResults.py b/scripts/tabulateVDTResults.py
index 3e8a259..f72d9c3 100755
--- a/scripts/tabulateVDTResults.py
+++ b/scripts/tabulateVDTResults.py
@@ -146,6 +146,8 @@ def createLibmVdtTable(TitledTimings):
    timingsDict=timings2TimingsDict(timings) 
    for name,time,err in timings:
       if name.startswith("Fast_") or name.endswith("v"): continue
+      # Not normalised: the identity has no vdt counterpart
+      if "Identity" in name: continue
       
       libmString="%.2f +- %.2f" %(time,err)
 
@@ -155,7 +157,9 @@ def createLibmVdtTable(TitledTimings):
       
       vdtTime = timingsDict[vdtName][0]
       vdtErr = timingsDict[vdtName][1]
-      speedup = time / vdtTime
+      dividend=vdtTime
+      if dividend==0.: dividend =1.
+      speedup = time / dividend
       speedupString = "%.1fX"%speedup
       vdtString="%.2f +- %.2f %s" %(vdtTime,vdtErr,speedupString)
 
-- 
2.43.0


From 08b8b15cb0445fc47fa61d0878deb66a5d0faec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:44:07 +0000
Subject: [PATCH 23/32] fix: show the error of the vector timing in the vector
 table

The error of the scalar function was shown next to the vector time.
---
 scripts/tabulateVDTResults.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/scripts/tabulateVDTResults.py b/scripts/tabulateVDTResults.py
index f72d9c3..de94f78 100755
--- a/scripts/tabulateVDTResults.py
+++ b/scripts/tabulateVDTResults.py
@@ -123,7 +123,6 @@ def createVectTable(TitledTimingsList):
          else:
             timingsDict = timings2TimingsDict(timings)            
             time,err = timingsDict[funcName+"v"]
-            err = timingsDict[funcName][1]
             dividend=time
             if dividend==0.: dividend =1.
             factor = norm/dividend
-- 
2.43.0


From 500ee798c4a2da5fd99aab6389e74c46a38ceb07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:44:07 +0000
Subject: [PATCH 24/32] fix: histogram comparisons of two-argument functions

The number of columns differs, the differing bit was looked for in the
wrong one and the script stopped with an error.
---
 scripts/diffhisto.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/scripts/diffhisto.py b/scripts/diffhisto.py
index 089c6b0..19f5fc9 100644
--- a/scripts/diffhisto.py
+++ b/scripts/diffhisto.py
@@ -51,9 +51,11 @@ def fill_histos(cmpfile,histo1D,histo2D):
     line = cmpfile.readline()
     if line == "":
       break
-    m=re.match("(.*) (.*) (.*) (.*) (.*)",line)
-    inputval=float(m.group(5))
-    db=int(m.group(4))
+    # n inputs, two outputs, diffbit, n decimal inputs
+    fields=line.split()
+    ninputs=(len(fields)-3)//2
+    inputval=float(fields[ninputs+3])
+    db=int(fields[ninputs+2])
     # fill histograms
     histo1D.Fill(db)
     histo2D.Fill(inputval,db)  
-- 
2.43.0


From 7438642fe7d81b6df09d17f4ff63c50d2f97f590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:44:07 +0000
Subject: [PATCH 25/32] fix: open comparison files in the directory asked for

---
 scripts/diffhisto.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scripts/diffhisto.py b/scripts/diffhisto.py
index 19f5fc9..695fe40 100644
--- a/scripts/diffhisto.py
+++ b/scripts/diffhisto.py
@@ -63,6 +63,7 @@ def fill_histos(cmpfile,histo1D,histo2D):
 #-------------------------------------------------------------------------------    
 
 def compare(nick,dirname):
+  import os
   import ROOT
   
   # Some globals for the style
@@ -79,7 +80,7 @@ def compare(nick,dirname):
   print ( str( len(filenames) ) + " files found." )
   for filename in filenames:      
     print ( "Studying " + filename )
-    cmpfile = open(filename)
+    cmpfile = open(os.path.join(dirname,filename))
     typelength,typelength_s =  getTypeLength(cmpfile)
     
     m=re.match("comparison__" + nick + "__(.*).txt" ,filename)
-- 
2.43.0


From 73ee5192ab4b66db3f443c7c122bfb369963109f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:51:26 +0000
Subject: [PATCH 26/32] fix: write and read data files independently of the
 global locale

The streams took digit grouping and the decimal point from the global
locale, so that files could not be read in another locale, and with a
blank as separator not even in the same one.
---
 include/diagnostic/vdtdiag_fcnComparison.h | 4 ++++
 include/diagnostic/vdtdiag_fcnResponse.h   | 4 ++++
 include/diagnostic/vdtdiag_random.h        | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/include/diagnostic/vdtdiag_fcnComparison.h b/include/diagnostic/vdtdiag_fcnComparison.h
index 4fa55bd..7533766 100644
--- a/include/diagnostic/vdtdiag_fcnComparison.h
+++ b/include/diagnostic/vdtdiag_fcnComparison.h
@@ -53,6 +53,7 @@ public:
 	fcnComparison1D(const std::string& input_filename):
 		IfcnComparison<T>(input_filename){
 		std::ifstream ifile ( input_filename );
+		ifile.imbue(std::locale::classic());
 			std::string line;
 			//skip the 2 header lines but read the func name from resp
 			for (uint16_t i=0;i<5;++i)
@@ -126,6 +127,7 @@ public:
 		}
 		else{ // Write an header and the numbers in the other case
 			std::ofstream ofile ( output_filename );
+			ofile.imbue(std::locale::classic());
 			ofile << preamble;
 			if (sizeof(T)==8) // some kind of RTTC
 				ofile << "Double Precision\n";
@@ -173,6 +175,7 @@ public:
 	fcnComparison2D(const std::string& input_filename):
 		IfcnComparison<T>(input_filename){
 		std::ifstream ifile ( input_filename );
+		ifile.imbue(std::locale::classic());
 			std::string line;
 			//skip the 2 header lines but read the func name from resp
 			for (uint16_t i=0;i<5;++i)
@@ -247,6 +250,7 @@ public:
 		}
 		else{ // Write an header and the numbers in the other case
 			std::ofstream ofile ( output_filename );
+			ofile.imbue(std::locale::classic());
 			ofile << preamble;
 			if (sizeof(T)==8) // some kind of RTTC
 				ofile << "Double Precision\n";
diff --git a/include/diagnostic/vdtdiag_fcnResponse.h b/include/diagnostic/vdtdiag_fcnResponse.h
index 48959b8..7080f0f 100644
--- a/include/diagnostic/vdtdiag_fcnResponse.h
+++ b/include/diagnostic/vdtdiag_fcnResponse.h
@@ -66,6 +66,7 @@ public:
 	fcnResponse1D(const std::string& input_filename):
 		IfcnResponse<T>(input_filename){
 		std::ifstream ifile ( input_filename );
+		ifile.imbue(std::locale::classic());
 		std::string line;
 		//skip the 5 header lines
 		for (uint16_t i=0;i<5;++i)
@@ -114,6 +115,7 @@ public:
 		}
 		else{ // Write an header and the numbers in the other case
 			std::ofstream ofile ( output_filename );
+			ofile.imbue(std::locale::classic());
 			ofile << preamble;
 			if (sizeof(T)==8) // some kind of RTTC
 				ofile << "Double Precision\n";
@@ -185,6 +187,7 @@ public:
 	fcnResponse2D(const std::string& input_filename):
 		IfcnResponse<T>(input_filename){
 		std::ifstream ifile ( input_filename );
+		ifile.imbue(std::locale::classic());
 		std::string line;
 		//skip the 5 header lines
 		for (uint16_t i=0;i<5;++i)
@@ -236,6 +239,7 @@ public:
 		}
 		else{ // Write an header and the numbers in the other case
 			std::ofstream ofile ( output_filename );
+			ofile.imbue(std::locale::classic());
 			ofile << preamble;
 			if (sizeof(T)==8) // some kind of RTTC
 				ofile << "Double Precision\n";
diff --git a/include/diagnostic/vdtdiag_random.h b/include/diagnostic/vdtdiag_random.h
index 98dcec4..b57f620 100644
--- a/include/diagnostic/vdtdiag_random.h
+++ b/include/diagnostic/vdtdiag_random.h
@@ -59,6 +59,7 @@ public:
 		m_min(0),
 		m_max(0){
 		std::ifstream ifile ( getFileName() );
+		ifile.imbue(std::locale::classic());
 		std::string line;
 		// skip the 5 header lines
 		for (uint16_t i=0;i<5;++i)
@@ -92,6 +93,7 @@ public:
 		}
 		else{ // Write an header and the numbers in the other case
 			std::ofstream ofile ( output_filename );
+			ofile.imbue(std::locale::classic());
 			ofile << preamble;
 			if (sizeof(T)==8) // some kind of RTTC
 				ofile << "Double Precision\n";
@@ -157,6 +159,7 @@ public:
 		m_maxX(0),
 		m_maxY(0){
 		std::ifstream ifile ( getFileName() );
+		ifile.imbue(std::locale::classic());
 		std::string line;
 		// skip the 5 header lines
 		for (uint16_t i=0;i<5;++i)
@@ -195,6 +198,7 @@ public:
 		}
 		else{ // Write an header and the numbers in the other case
 			std::ofstream ofile ( output_filename );
+			ofile.imbue(std::locale::classic());
 			ofile << preamble;
 			if (sizeof(T)==8) // some kind of RTTC
 				ofile << "Double Precision\n";
-- 
2.43.0


From fff33102d5cfca0946cc8105c34ec3fa346ba136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:44:49 +0000
Subject: [PATCH 27/32] fix: let several source files of a program include the
 diagnostic headers

---
 include/diagnostic/vdtdiag_helper.h | 42 ++++++++++++++---------------
 1 file changed, 21 insertions(+), 21 deletions(-)

diff --git a/include/diagnostic/vdtdiag_helper.h b/include/diagnostic/vdtdiag_helper.h
index 1455a70..9902009 100644
--- a/include/diagnostic/vdtdiag_helper.h
+++ b/include/diagnostic/vdtdiag_helper.h
@@ -43,26 +43,26 @@
 
 // Wrappers to support macos 10.14 https://github.com/dpiparo/vdt/issues/9
 namespace refMath {
-double atan2(double x, double y) { return ::atan2(x, y); }
-float atan2f(float x, float y) { return ::atan2f(x, y); }
-double tan(double x) { return ::tan(x); }
-float tanf(float x) { return ::tanf(x); }
-double atan(double x) { return ::atan(x); }
-float atanf(float x) { return ::atanf(x); }
-double tanh(double x) { return ::tanh(x); }
-float tanhf(float x) { return ::tanhf(x); }
-double exp(double x) { return ::exp(x); }
-float expf(float x) { return ::expf(x); }
-double log(double x) { return ::log(x); }
-float logf(float x) { return ::logf(x); }
-double sin(double x) { return ::sin(x); }
-float sinf(float x) { return ::sinf(x); }
-double asin(double x) { return ::asin(x); }
-float asinf(float x) { return ::asinf(x); }
-double cos(double x) { return ::cos(x); }
-float cosf(float x) { return ::cosf(x); }
-double acos(double x) { return ::acos(x); }
-float acosf(float x) { return ::acosf(x); }
+inline double atan2(double x, double y) { return ::atan2(x, y); }
+inline float atan2f(float x, float y) { return ::atan2f(x, y); }
+inline double tan(double x) { return ::tan(x); }
+inline float tanf(float x) { return ::tanf(x); }
+inline double atan(double x) { return ::atan(x); }
+inline float atanf(float x) { return ::atanf(x); }
+inline double tanh(double x) { return ::tanh(x); }
+inline float tanhf(float x) { return ::tanhf(x); }
+inline double exp(double x) { return ::exp(x); }
+inline float expf(float x) { return ::expf(x); }
+inline double log(double x) { return ::log(x); }
+inline float logf(float x) { return ::logf(x); }
+inline double sin(double x) { return ::sin(x); }
+inline float sinf(float x) { return ::sinf(x); }
+inline double asin(double x) { return ::asin(x); }
+inline float asinf(float x) { return ::asinf(x); }
+inline double cos(double x) { return ::cos(x); }
+inline float cosf(float x) { return ::cosf(x); }
+inline double acos(double x) { return ::acos(x); }
+inline float acosf(float x) { return ::acosf(x); }
 }
 
 
@@ -187,7 +187,7 @@ uint16_t diffbit(const T a,const T b ){
 //------------------------------------------------------------------------------
 
 ///Check and print which instructions sets are enabled.
-void print_instructions_info(){
+inline void print_instructions_info(){
 
 	std::ostringstream os;
 	os << "List of enabled instructions' sets:\n";
-- 
2.43.0


From f08d50f9fb5f063a14a62fc0d860fb78aecf885d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:44:58 +0000
Subject: [PATCH 28/32] fix: include what the timing and wrapper headers use

---
 include/diagnostic/vdtdiag_fcnPerformance.h | 1 +
 include/stdwrap.h                           | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/include/diagnostic/vdtdiag_fcnPerformance.h b/include/diagnostic/vdtdiag_fcnPerformance.h
index 1b5ee0f..64a4c64 100644
--- a/include/diagnostic/vdtdiag_fcnPerformance.h
+++ b/include/diagnostic/vdtdiag_fcnPerformance.h
@@ -2,6 +2,7 @@
 #define VDTDIAG_FCNPERFORMANCE_H_
 
 #include <iomanip>
+#include <vector>
 #include "vdtdiag_helper.h"
 
 /**
diff --git a/include/stdwrap.h b/include/stdwrap.h
index fc0c958..8e55332 100644
--- a/include/stdwrap.h
+++ b/include/stdwrap.h
@@ -4,6 +4,8 @@
 // wrapper around std function just to benefit of naming
 // to be used in vectorized wrappers
 
+#include <cmath>
+
 namespace vdt {
   
   template<typename T>
-- 
2.43.0


From 27072e6775adde3eaed138b4f28efa03baf7027a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:45:23 +0000
Subject: [PATCH 29/32] fix: let several source files of a program include the
 function tables

---
 include/diagnostic/vdtdiag_fcnTuples.h | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/diagnostic/vdtdiag_fcnTuples.h b/include/diagnostic/vdtdiag_fcnTuples.h
index b4d7b79..0be2df4 100644
--- a/include/diagnostic/vdtdiag_fcnTuples.h
+++ b/include/diagnostic/vdtdiag_fcnTuples.h
@@ -58,7 +58,7 @@ template<class T> using genfpfcn2Dv_tuple = std::tuple<const std::string,
 																											 const std::vector<T>&>;
 
 /// Fills vector passed in first parameter with fcn tuples based on random pools passed in following parameters
-void getFunctionTuples(	std::vector<genfpfcn2D_tuple<double>>* fcn_tuples,
+inline void getFunctionTuples(	std::vector<genfpfcn2D_tuple<double>>* fcn_tuples,
 			            			randomPool2D<double>& moneone2Pool){
     fcn_tuples->clear();
 
@@ -68,7 +68,7 @@ void getFunctionTuples(	std::vector<genfpfcn2D_tuple<double>>* fcn_tuples,
 
 }
 
-void getFunctionTuples(	std::vector<genfpfcn2D_tuple<float>>* fcn_tuples,
+inline void getFunctionTuples(	std::vector<genfpfcn2D_tuple<float>>* fcn_tuples,
 					            	randomPool2D<float>& moneone2Pool){
     fcn_tuples->clear();
 
@@ -79,7 +79,7 @@ void getFunctionTuples(	std::vector<genfpfcn2D_tuple<float>>* fcn_tuples,
 }
 
 /// Fills vector passed in first parameter with fcn tuples based on random pools passed in following parameters
-void getFunctionTuplesvect(	std::vector<genfpfcn2Dv_tuple<double>>* fcn_tuples,
+inline void getFunctionTuplesvect(	std::vector<genfpfcn2Dv_tuple<double>>* fcn_tuples,
 					             	randomPool2D<double>& moneone2Pool){
     fcn_tuples->clear();
 
@@ -90,7 +90,7 @@ void getFunctionTuplesvect(	std::vector<genfpfcn2Dv_tuple<double>>* fcn_tuples,
 }
 
 /// Fills vector passed in first parameter with fcn tuples based on random pools passed in following parameters
-void getFunctionTuplesvect(	std::vector<genfpfcn2Dv_tuple<float>>* fcn_tuples,
+inline void getFunctionTuplesvect(	std::vector<genfpfcn2Dv_tuple<float>>* fcn_tuples,
 					             	randomPool2D<float>& moneone2Pool){
     fcn_tuples->clear();
 
@@ -101,7 +101,7 @@ void getFunctionTuplesvect(	std::vector<genfpfcn2Dv_tuple<float>>* fcn_tuples,
 }
 
 /// Fills vector passed in first parameter with fcn tuples based on random pools passed in following parameters
-void getFunctionTuples(	std::vector<genfpfcn_tuple<double>>* fcn_tuples,
+inline void getFunctionTuples(	std::vector<genfpfcn_tuple<double>>* fcn_tuples,
 						randomPool<double>& symmetricrPool,
 						randomPool<double>& positiverPool,
 						randomPool<double>& mone2onerPool,
@@ -147,7 +147,7 @@ void getFunctionTuples(	std::vector<genfpfcn_tuple<double>>* fcn_tuples,
 #endif
 }
 
-void getFunctionTuples(	std::vector<genfpfcn_tuple<float>>* fcn_tuples,
+inline void getFunctionTuples(	std::vector<genfpfcn_tuple<float>>* fcn_tuples,
 						randomPool<float>& symmetricrPool,
 						randomPool<float>& positiverPool,
 						randomPool<float>& mone2onerPool,
@@ -194,7 +194,7 @@ void getFunctionTuples(	std::vector<genfpfcn_tuple<float>>* fcn_tuples,
 }
 
 /// Vector form
-void getFunctionTuplesvect(std::vector<genfpfcnv_tuple<double>>* fcn_tuples,
+inline void getFunctionTuplesvect(std::vector<genfpfcnv_tuple<double>>* fcn_tuples,
 						randomPool<double>& symmetricrPool,
 						randomPool<double>& positiverPool,
 						randomPool<double>& mone2onerPool,
@@ -240,7 +240,7 @@ void getFunctionTuplesvect(std::vector<genfpfcnv_tuple<double>>* fcn_tuples,
 #endif
 }
 
-void getFunctionTuplesvect(std::vector<genfpfcnv_tuple<float>>* fcn_tuples,
+inline void getFunctionTuplesvect(std::vector<genfpfcnv_tuple<float>>* fcn_tuples,
 						randomPool<float>& symmetricrPool,
 						randomPool<float>& positiverPool,
 						randomPool<float>& mone2onerPool,
@@ -287,7 +287,7 @@ void getFunctionTuplesvect(std::vector<genfpfcnv_tuple<float>>* fcn_tuples,
 }
 
 /// Helper function retrieves basic function names like Cos, Sin, Exp... (no Fast_, no extensions)
-void getFunctionBasicNames(std::vector<std::string>* names){
+inline void getFunctionBasicNames(std::vector<std::string>* names){
 
 	// Prepare dummy tuple to retrieve function names 
 	std::vector<genfpfcn_tuple<double>> tmpTuples;
-- 
2.43.0


From 7b81ddfcabe3b4269b62727a3c49e2e36742acaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:48:22 +0000
Subject: [PATCH 30/32] fix: guard the response and option headers against
 double inclusion

---
 include/diagnostic/vdtdiag_fcnResponse.h | 6 ++++--
 include/diagnostic/vdtdiag_simpleCmd.h   | 5 +++++
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/diagnostic/vdtdiag_fcnResponse.h b/include/diagnostic/vdtdiag_fcnResponse.h
index 7080f0f..cd92dd7 100644
--- a/include/diagnostic/vdtdiag_fcnResponse.h
+++ b/include/diagnostic/vdtdiag_fcnResponse.h
@@ -6,6 +6,9 @@
  * 
  **/
 
+#ifndef _VDTDIAG_FCNRESPONSE_
+#define _VDTDIAG_FCNRESPONSE_
+
 #include "assert.h"
 #include <algorithm>
 #include <limits>
@@ -407,5 +410,4 @@ private:
 template <typename T>
 using fcnResponse = fcnResponse1D<T>;
 
-
-
+#endif
diff --git a/include/diagnostic/vdtdiag_simpleCmd.h b/include/diagnostic/vdtdiag_simpleCmd.h
index ddb3440..3e10436 100644
--- a/include/diagnostic/vdtdiag_simpleCmd.h
+++ b/include/diagnostic/vdtdiag_simpleCmd.h
@@ -21,6 +21,9 @@
  * along with this program.  If not, see <http://www.gnu.org/licenses/>.
  */
 
+#ifndef _VDTDIAG_SIMPLECMD_
+#define _VDTDIAG_SIMPLECMD_
+
 #include<iostream>
 #include<tuple>
 #include<vector>
@@ -143,3 +146,5 @@ public:
 	}
 
 };
+
+#endif
-- 
2.43.0


From 113dafb12c7775cd06980e2c1da992c100811ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:54:05 +0000
Subject: [PATCH 31/32] fix: comparison read from a file without statistics
 took its mean and RMS from unset memory

The reader of hexadecimal values starts at zero now. A comparison file that
ended before its statistics line gave a mean and an RMS that depended on what
the memory held.
---
 include/diagnostic/vdtdiag_filePersistence.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/diagnostic/vdtdiag_filePersistence.h b/include/diagnostic/vdtdiag_filePersistence.h
index 92be668..3c396d2 100644
--- a/include/diagnostic/vdtdiag_filePersistence.h
+++ b/include/diagnostic/vdtdiag_filePersistence.h
@@ -54,8 +54,8 @@ template<class T>
 class fpFromHex{
 	uint64_t value;
 public:
-	/// Nothing
-	fpFromHex(){}
+	/// Zero until a value is read
+	fpFromHex():value(0){}
 	~fpFromHex(){}
 
 	/// Overloaded insertion operator, just reads int value
-- 
2.43.0


From 54724fe3f4bdae4a5bdff0986cfe4ea407e560cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:52:45 +0000
Subject: [PATCH 32/32] fix: error on the mean time was not zero for constant
 times

The sum of squares was taken over whole repetitions, but normalised
as if it was taken over single calls, so that the error was about
mean/sqrt(repetitions) for perfectly stable timings. The squares
overflowed for repetitions longer than 4.3 seconds.
---
 include/diagnostic/vdtdiag_fcnPerformance.h | 26 +++++++++++----------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/include/diagnostic/vdtdiag_fcnPerformance.h b/include/diagnostic/vdtdiag_fcnPerformance.h
index 64a4c64..d2b0384 100644
--- a/include/diagnostic/vdtdiag_fcnPerformance.h
+++ b/include/diagnostic/vdtdiag_fcnPerformance.h
@@ -173,7 +173,7 @@ private:
   
   // momenta to calculate mean and rms, they will be filled later
   uint64_t t=0;
-  uint64_t t2=0;
+  double t2=0.;
 
   // An useful quantity
   const uint32_t size=m_input.size();
@@ -201,7 +201,7 @@ private:
     if (irep>=warm_up){
       deltat=fcntimer.get_elapsed_time();      
       t+=deltat;
-      t2+=deltat*deltat;
+      t2+=double(deltat)*deltat;
       }
       
     // To avoid optimisations, call a dummy function
@@ -220,7 +220,7 @@ private:
 
     // momenta to calculate mean and rms, they will be filled later
     uint64_t t=0;
-    uint64_t t2=0;
+    double t2=0.;
 
     // An useful quantity
     const uint32_t size=m_input.size();
@@ -249,7 +249,7 @@ private:
       if (irep>=warm_up){
         deltat=fcntimer.get_elapsed_time();
         t+=deltat;
-        t2+=deltat*deltat;
+        t2+=double(deltat)*deltat;
         }
 
       // To avoid optimisations, call a dummy function
@@ -267,7 +267,7 @@ private:
   void measureTimev(){
   // See explainations in the scalar method!
   uint64_t t=0.;
-  uint64_t t2=0.;
+  double t2=0.;
 
   const uint32_t size=m_input.size();
 
@@ -287,7 +287,7 @@ private:
       if (irep>=warm_up){
       	deltat = fcntimer.get_elapsed_time();
         t+=deltat;
-        t2+=deltat*deltat;
+        t2+=double(deltat)*deltat;
         }
 
      std::vector<T> results(results_arr,results_arr+size);
@@ -304,7 +304,7 @@ private:
 void measureTime2Dv(){
 	// See explainations in the scalar method!
 		uint64_t t=0.;
-		uint64_t t2=0.;
+		double t2=0.;
 
 		const uint32_t size=m_input.size();
 
@@ -325,7 +325,7 @@ void measureTime2Dv(){
 				if (irep>=warm_up){
 					deltat = fcntimer.get_elapsed_time();
 					t+=deltat;
-					t2+=deltat*deltat;
+					t2+=double(deltat)*deltat;
 					}
 
 			 std::vector<T> results(results_arr,results_arr+size);
@@ -353,10 +353,12 @@ void calculate_mean_and_err(const double t, const double t2,const uint64_t itera
   m_avg_time = t / iterations;
 
   // Calculate the error on the mean
-  // RMS, one dof is gone for the mean, so iterations-1
-  const double rms2=(double(t2) - iterations*m_avg_time*m_avg_time)/(iterations-1);
-  const double rms=sqrt(rms2);
-  m_avg_time_err = rms / sqrt(iterations); //2 sqrts, but we go for clarity here.
+  // The measurements are the repetitions: each gives the mean over its calls
+  const double calls=double(iterations)/m_repetitions;
+  // RMS, one dof is gone for the mean, so repetitions-1. Rounding can make it negative.
+  const double rms2=m_repetitions>1 ? (t2 - t*t/m_repetitions)/(m_repetitions-1) : 0.;
+  const double rms=rms2>0. ? sqrt(rms2)/calls : 0.;
+  m_avg_time_err = rms / sqrt(m_repetitions); //2 sqrts, but we go for clarity here.
 
 }
 
-- 
2.43.0

