From fa0e75203ed3a64e6dbf36922f8164c9d4a7ab4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:09 +0000
Subject: [PATCH 01/49] fix: scalars past int64 range and long double scalars
 had wrong values in float operations

---
 src/RipTide.cpp | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/RipTide.cpp b/src/RipTide.cpp
index dd43761..2c19a8c 100644
--- a/src/RipTide.cpp
+++ b/src/RipTide.cpp
@@ -1009,7 +1009,7 @@ bool ConvertSingleItemArray(void * pInput, int16_t numpyInType, _m256all * pDest
     CASE_NPY_UINT64:
 
         value = (int64_t) * (uint64_t *)pInput;
-        fvalue = (double)value;
+        fvalue = (double)*(uint64_t *)pInput;
         break;
     CASE_NPY_INT64:
 
@@ -1145,6 +1145,7 @@ bool ConvertScalarObject(PyObject * inObject1, _m256all * pDest, int16_t numpyOu
             int overflow = 0;
             int64_t value;
             uint64_t value2;
+            double fvalue;
 
             if (! isNumpyScalarInteger)
             {
@@ -1163,6 +1164,18 @@ bool ConvertScalarObject(PyObject * inObject1, _m256all * pDest, int16_t numpyOu
                 {
                     value2 = (uint64_t)value;
                 }
+
+                // past the range of int64_t the integer value is not usable for float output
+                fvalue = (double)value;
+                if (overflow != 0)
+                {
+                    fvalue = PyLong_AsDouble(inObject1);
+                    if (PyErr_Occurred())
+                    {
+                        PyErr_Clear();
+                        return false;
+                    }
+                }
             }
             else
             {
@@ -1178,6 +1191,7 @@ bool ConvertScalarObject(PyObject * inObject1, _m256all * pDest, int16_t numpyOu
 
                     PyArray_CastScalarToCtype(inObject1, &value, g_pDescrLongLong);
                     PyArray_CastScalarToCtype(inObject1, &value2, g_pDescrULongLong);
+                    fvalue = PyTypeNum_ISUNSIGNED(dtype->type_num) ? (double)value2 : (double)value;
                 }
                 else
                 {
@@ -1219,10 +1233,10 @@ bool ConvertScalarObject(PyObject * inObject1, _m256all * pDest, int16_t numpyOu
                 pDest->ci.i2 = _mm_set1_epi64x(value2);
                 break;
             case NPY_FLOAT32:
-                pDest->s = _mm256_set1_ps((float)value);
+                pDest->s = _mm256_set1_ps((float)fvalue);
                 break;
             case NPY_FLOAT64:
-                pDest->d = _mm256_set1_pd((double)value);
+                pDest->d = _mm256_set1_pd(fvalue);
                 break;
             default:
                 printf("unknown long scalar type in convertScalarObject %d\n", numpyOutType);
@@ -1271,7 +1285,7 @@ bool ConvertScalarObject(PyObject * inObject1, _m256all * pDest, int16_t numpyOu
                 pDest->d = _mm256_set1_pd((double)value);
                 break;
             case NPY_LONGDOUBLE:
-                pDest->d = _mm256_set1_pd((double)(long double)value);
+                *(long double *)pDest = (long double)value;
                 break;
             default:
                 printf("unknown float scalar type in convertScalarObject %d\n", numpyOutType);
-- 
2.43.0


From dff4f6bfde1b5367a649cfbf18efab5b064fb8d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:29 +0000
Subject: [PATCH 02/49] fix: two-operand math read strided, mixed-order or
 byte-swapped multi-dimensional inputs as if contiguous

---
 src/BasicMath.cpp | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/src/BasicMath.cpp b/src/BasicMath.cpp
index d3271b3..76cfd6a 100644
--- a/src/BasicMath.cpp
+++ b/src/BasicMath.cpp
@@ -2434,6 +2434,15 @@ public:
         return true;
     }
 
+    //----------------------------------------
+    // The loops walk memory linearly: true if the elements are adjacent and in native byte order
+    static bool IsLinear(PyArrayObject * arr)
+    {
+        if (! PyArray_ISNOTSWAPPED(arr))
+            return false;
+        return PyArray_NDIM(arr) <= 1 || PyArray_ISONESEGMENT(arr);
+    }
+
     // Common routine from array_ufunc or lower level slot hook
     // inObject1 is set and will get analyzed
     // inObject2 is set and will get analyzed
@@ -2587,7 +2596,7 @@ public:
             // We know the first object is an array
             FillArray1(inObject1);
             // Check strides
-            if (ndim1 > 0 && PyArray_DIM(inArr, 0) > 1 && itemSize1 != PyArray_STRIDE(inArr, 0))
+            if (! IsLinear(inArr) || (ndim1 > 0 && PyArray_DIM(inArr, 0) > 1 && itemSize1 != PyArray_STRIDE(inArr, 0)))
             {
                 return false;
             }
@@ -2648,7 +2657,8 @@ public:
             FillArray2(inObject2);
 
             // Check strides
-            if (ndim2 > 0 && PyArray_DIM(inArr2, 0) > 1 && itemSize2 != PyArray_STRIDE((PyArrayObject *)inArr2, 0))
+            if (! IsLinear(inArr2) ||
+                (ndim2 > 0 && PyArray_DIM(inArr2, 0) > 1 && itemSize2 != PyArray_STRIDE((PyArrayObject *)inArr2, 0)))
             {
                 return false;
             }
@@ -2781,6 +2791,14 @@ public:
             }
             else
             {
+                // Same number of elements, but numpy broadcasts when the shapes differ
+                if (len1 > 1 && ! PyArray_SAMESHAPE(inArr, inArr2))
+                    return false;
+
+                // Same shape, but the elements are in a different order in memory
+                if (ndim1 > 1 && ! (flags1 & flags2 & (NPY_ARRAY_C_CONTIGUOUS | NPY_ARRAY_F_CONTIGUOUS)))
+                    return false;
+
                 // Check if we need to upcast one or both of the arrays
                 // bool, NPY_INT8, NPY_UINT8
                 if (! CheckUpcast())
@@ -2826,14 +2844,16 @@ public:
             {
                 int64_t len3 = ArrayLength((PyArrayObject *)outputObject);
                 LOGGING("oref %llu  len1:%lld  len2:%lld  len3: %lld\n", outputObject->ob_refcnt, len1, len2, len3);
-                if (len3 < len2 || len3 < len1)
+                if (len3 < len2 || len3 < len1 ||
+                    ((ndim1 > 1 || ndim2 > 1) && PyArray_NDIM((PyArrayObject *)outputObject) != (ndim1 > ndim2 ? ndim1 : ndim2)))
                 {
                     // something wrong with output size (gonna crash)
                     return nullptr;
                 }
 
-                if (PyArray_DIM(reinterpret_cast<PyArrayObject const *>(outputObject), 0) > 1 &&
-                    PyArray_ITEMSIZE((PyArrayObject *)outputObject) != PyArray_STRIDE((PyArrayObject *)outputObject, 0))
+                if (! IsLinear((PyArrayObject *)outputObject) ||
+                    (PyArray_NDIM((PyArrayObject *)outputObject) > 0 && PyArray_DIM((PyArrayObject *)outputObject, 0) > 1 &&
+                     PyArray_ITEMSIZE((PyArrayObject *)outputObject) != PyArray_STRIDE((PyArrayObject *)outputObject, 0)))
                 {
                     // output array is strided
                     LOGGING("Punting because output array is strided\n");
-- 
2.43.0


From 0706d108c56a5007de103b0663f7c413e55d1f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:29 +0000
Subject: [PATCH 03/49] fix: integer modulo by zero and minimum integer divided
 by -1 killed the process

---
 src/BasicMath.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/BasicMath.cpp b/src/BasicMath.cpp
index 76cfd6a..305ee6d 100644
--- a/src/BasicMath.cpp
+++ b/src/BasicMath.cpp
@@ -297,6 +297,10 @@ static const inline T FloorDivOp(T x, T y)
 {
     if (y != 0)
     {
+        // the most negative integer divided by -1 traps
+        if (std::is_signed<T>::value && y == (T)-1)
+            return (T)(0 - (typename std::make_unsigned<T>::type)x);
+
         if ((x < 0) == (y < 0))
             return x / y;
 
@@ -337,6 +341,9 @@ static const inline float FloorDivOp(float x, float y)
 template <typename T>
 static const inline T ModOp(T x, T y)
 {
+    // integer division by zero traps, and so does the most negative integer modulo -1
+    if (y == 0 || (std::is_signed<T>::value && y == (T)-1))
+        return 0;
     return x % y;
 }
 template <typename T>
-- 
2.43.0


From 0b52681c9a55cf5fdbaa181ca1598747ed068fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:08 +0000
Subject: [PATCH 04/49] fix: unsigned array with a negative scalar wrapped
 around for some scalar values

---
 src/BasicMath.cpp | 21 ++-------------------
 1 file changed, 2 insertions(+), 19 deletions(-)

diff --git a/src/BasicMath.cpp b/src/BasicMath.cpp
index 305ee6d..83041e4 100644
--- a/src/BasicMath.cpp
+++ b/src/BasicMath.cpp
@@ -2074,15 +2074,6 @@ static int g_signed_table[65] = {
     NPY_INT64, NPY_INT64, NPY_INT64, NPY_INT64, NPY_INT64, NPY_INT64, NPY_INT64, NPY_INT64, NPY_INT64, NPY_INT64
 };
 
-// the dtype is signed but the scalar has no sign
-static int g_mixedsign_table[65] = {
-    NPY_INT8,  NPY_INT8,  NPY_INT8,  NPY_INT8,  NPY_INT8,  NPY_INT8,   NPY_INT8,  NPY_INT8,  NPY_UINT8, NPY_INT16, NPY_INT16,
-    NPY_INT16, NPY_INT16, NPY_INT16, NPY_INT16, NPY_INT16, NPY_UINT16, NPY_INT32, NPY_INT32, NPY_INT32, NPY_INT32, NPY_INT32,
-    NPY_INT32, NPY_INT32, NPY_INT32, NPY_INT32, NPY_INT32, NPY_INT32,  NPY_INT32, NPY_INT32, NPY_INT32, NPY_INT32, NPY_UINT32,
-    NPY_INT64, NPY_INT64, NPY_INT64, NPY_INT64, NPY_INT64, NPY_INT64,  NPY_INT64, NPY_INT64, NPY_INT64, NPY_INT64, NPY_INT64,
-    NPY_INT64, NPY_INT64, NPY_INT64, NPY_INT64, NPY_INT64, NPY_INT64,  NPY_INT64, NPY_INT64, NPY_INT64, NPY_INT64, NPY_INT64,
-    NPY_INT64, NPY_INT64, NPY_INT64, NPY_INT64, NPY_INT64, NPY_INT64,  NPY_INT64, NPY_INT64, NPY_INT64, NPY_UINT64
-};
 static int g_bothunsigned_table[65] = {
     NPY_UINT8,  NPY_UINT8,  NPY_UINT8,  NPY_UINT8,  NPY_UINT8,  NPY_UINT8,  NPY_UINT8,  NPY_UINT8,  NPY_UINT8,  NPY_UINT16,
     NPY_UINT16, NPY_UINT16, NPY_UINT16, NPY_UINT16, NPY_UINT16, NPY_UINT16, NPY_UINT16, NPY_UINT32, NPY_UINT32, NPY_UINT32,
@@ -2162,16 +2153,8 @@ public:
                     int scalar_dtype;
                     if (issigned)
                     {
-                        if (dtype > NPY_BOOL && (dtype & 1) == 0)
-                        {
-                            // dtype is unsigned and scalar is signed
-                            scalar_dtype = g_mixedsign_table[log2];
-                        }
-                        else
-                        {
-                            // both are signed
-                            scalar_dtype = g_signed_table[log2];
-                        }
+                        // a negative scalar needs a signed dtype whatever the dtype of the array
+                        scalar_dtype = g_signed_table[log2];
                     }
                     else
                     {
-- 
2.43.0


From 55d2d7e791dbf327dab1ebf1186d5a4a5f0e4c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:16 +0000
Subject: [PATCH 05/49] fix: uint64 with a signed scalar was computed in
 float32 or int64 instead of float64

---
 src/RipTide.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/RipTide.cpp b/src/RipTide.cpp
index 2c19a8c..8d0b62d 100644
--- a/src/RipTide.cpp
+++ b/src/RipTide.cpp
@@ -1979,8 +1979,8 @@ PyMODINIT_FUNC PyInit_riptide_cpp()
                             {
                                 if (convertType1 == NPY_LONG || convertType1 == NPY_ULONG)
                                 {
-                                    pRow->dtype1 = convertType1 + 3;
-                                    pRow->dtype2 = convertType1 + 3;
+                                    pRow->dtype1 = NPY_FLOAT64;
+                                    pRow->dtype2 = NPY_FLOAT64;
                                 }
                             }
                         }
@@ -2038,8 +2038,8 @@ PyMODINIT_FUNC PyInit_riptide_cpp()
                                 {
                                     if (convertType2 == NPY_LONG || convertType2 == NPY_ULONG)
                                     {
-                                        pRow->dtype1 = convertType2 + 3;
-                                        pRow->dtype2 = convertType2 + 3;
+                                        pRow->dtype1 = NPY_FLOAT64;
+                                        pRow->dtype2 = NPY_FLOAT64;
                                     }
                                 }
                             }
@@ -2055,6 +2055,13 @@ PyMODINIT_FUNC PyInit_riptide_cpp()
         }
     }
 
+    if (sizeof(long) == 8)
+    {
+        // long long is not larger than an 8 byte unsigned long
+        gUpcastTable[NPY_LONGLONG * 14 + NPY_ULONG] = { NPY_FLOAT64, NPY_FLOAT64 };
+        gUpcastTable[NPY_ULONG * 14 + NPY_LONGLONG] = { NPY_FLOAT64, NPY_FLOAT64 };
+    }
+
     // Comparisons should be able to handle int64 to uint64 specially
     memcpy(&gUpcastTableComparison, &gUpcastTable, sizeof(gUpcastTable));
     stUpCast * pRow;
-- 
2.43.0


From 75f62d894d00501189dfb1e9b759fef3a3471ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:36 +0000
Subject: [PATCH 06/49] fix: two-operand math on an empty multi-dimensional
 array lost the shape

---
 src/BasicMath.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/BasicMath.cpp b/src/BasicMath.cpp
index 83041e4..f217611 100644
--- a/src/BasicMath.cpp
+++ b/src/BasicMath.cpp
@@ -2924,7 +2924,18 @@ public:
             {
                 // Handle empty
                 npy_intp dimensions[1] = { 0 };
-                returnObject = AllocateNumpyArray(1, dimensions, wantOutType);
+                if (ndim1 > 1)
+                {
+                    returnObject = AllocateNumpyArray(ndim1, dims1, wantOutType);
+                }
+                else if (ndim2 > 1)
+                {
+                    returnObject = AllocateNumpyArray(ndim2, dims2, wantOutType);
+                }
+                else
+                {
+                    returnObject = AllocateNumpyArray(1, dimensions, wantOutType);
+                }
             }
             else
                 // Check for functions that always output a boolean
-- 
2.43.0


From db2a97f60d29c07f02a32d7f0ed5cc9e3c922831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:22 +0000
Subject: [PATCH 07/49] fix: infinities became NaN in conversions to or from
 long double

---
 src/Convert.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Convert.cpp b/src/Convert.cpp
index d8df26c..ddc6726 100644
--- a/src/Convert.cpp
+++ b/src/Convert.cpp
@@ -411,11 +411,12 @@ public:
         // then the reverse, MIININT converts to NAN (for int --> float conversion)
         // convert from int --> float
         // check for NPY_MIN_INT64_t
+        // An infinity has a value only in another float
         if (strideIn == sizeof(T) && strideOut == sizeof(U))
         {
             for (int64_t i = 0; i < len; i++)
             {
-                if (std::isfinite(pIn[i]) && (pIn[i] != pBadValueIn))
+                if ((std::isfinite(pIn[i]) && (pIn[i] != pBadValueIn)) || (std::is_floating_point_v<U> && std::isinf(pIn[i])))
                 {
                     pOut[i] = (U)pIn[i];
                 }
@@ -431,7 +432,7 @@ public:
             U * pEndOut = (U *)((char *)pOut + (len * strideOut));
             while (pOut != pEndOut)
             {
-                if (std::isfinite(*pIn) && (*pIn != pBadValueIn))
+                if ((std::isfinite(*pIn) && (*pIn != pBadValueIn)) || (std::is_floating_point_v<U> && std::isinf(*pIn)))
                 {
                     *pOut = (U)*pIn;
                 }
-- 
2.43.0


From c7cb5cc0aeabd6e0d68f3a34277aed11aae02a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:14 +0000
Subject: [PATCH 08/49] fix: BITWISE_ANDNOT with a scalar read past the scalar

---
 src/BasicMath.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/BasicMath.cpp b/src/BasicMath.cpp
index f217611..b2a8595 100644
--- a/src/BasicMath.cpp
+++ b/src/BasicMath.cpp
@@ -914,6 +914,15 @@ inline void SimpleMathOpFast(void * pDataIn1X, void * pDataIn2X, void * pDataOut
 template <typename T, typename U256, const T MATH_OP(T, T), const U256 MATH_OP256(U256, U256)>
 inline void SimpleMathOpFastReverse(void * pDataIn1X, void * pDataIn2X, void * pDataOutX, int64_t datalen, int32_t scalarMode)
 {
+    // the arguments are flipped, so is the one that is a scalar
+    if (scalarMode == SCALAR_MODE::FIRST_ARG_SCALAR)
+    {
+        scalarMode = SCALAR_MODE::SECOND_ARG_SCALAR;
+    }
+    else if (scalarMode == SCALAR_MODE::SECOND_ARG_SCALAR)
+    {
+        scalarMode = SCALAR_MODE::FIRST_ARG_SCALAR;
+    }
     return SimpleMathOpFast<T, U256, MATH_OP, MATH_OP256>(pDataIn2X, pDataIn1X, pDataOutX, datalen, scalarMode);
 }
 
-- 
2.43.0


From b572520c66feacccf579642af0b5d6b325020ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:27 +0000
Subject: [PATCH 09/49] fix: uint64 compared with a signed value gave wrong
 answers for negative scalars and for equality

---
 src/BasicMath.cpp | 23 ++++++++++++++++++++++-
 src/Compare.cpp   | 11 ++++++++---
 src/RipTide.cpp   |  4 ++++
 3 files changed, 34 insertions(+), 4 deletions(-)

diff --git a/src/BasicMath.cpp b/src/BasicMath.cpp
index b2a8595..ffb404f 100644
--- a/src/BasicMath.cpp
+++ b/src/BasicMath.cpp
@@ -2123,6 +2123,21 @@ public:
         }
     }
 
+    // True if a 64 bit integer of that sign can hold the value of an integer scalar
+    static bool FitsInt64(PyObject * scalarObject, bool isUnsigned)
+    {
+        PyObject * pyLong = PyNumber_Long(scalarObject);
+        if (! pyLong)
+        {
+            PyErr_Clear();
+            return true;
+        }
+        int overflow = 0;
+        int64_t val = PyLong_AsLongLongAndOverflow(pyLong, &overflow);
+        Py_DECREF(pyLong);
+        return isUnsigned ? (overflow > 0 || (! overflow && val >= 0)) : ! overflow;
+    }
+
     //-------------------------------------------------------------------
     // Called when there is scalar which might be too large for the array
     // For instance a large number with an array of int32s
@@ -2180,7 +2195,8 @@ public:
                     }
                     int convertType1 = dtype;
                     int convertType2 = scalar_dtype;
-                    bool result = GetUpcastType(dtype, scalar_dtype, convertType1, convertType2, funcNumber);
+                    // the comparison of int64_t <-> uint64_t is for arrays: a scalar takes the type of the array
+                    bool result = GetUpcastType(dtype, scalar_dtype, convertType1, convertType2, 0);
                     LOGGING("Getting upcast %d %d, result %d  convert:%d\n", dtype, scalar_dtype, result, convertType1);
                     if (result)
                     {
@@ -2234,6 +2250,11 @@ public:
                 int convertType1 = dtype;
                 int convertType2 = scalarType;
                 bool result = GetUpcastType(dtype, scalarType, convertType1, convertType2, funcNumber);
+                if (result && convertType1 != convertType2 && ! FitsInt64(scalarObject, (dtype & 1) == 0))
+                {
+                    // int64_t <-> uint64_t comparison, and the array type cannot hold the scalar
+                    result = GetUpcastType(dtype, scalarType, convertType1, convertType2, 0);
+                }
                 if (result)
                 {
                     return convertType1;
diff --git a/src/Compare.cpp b/src/Compare.cpp
index d9c0626..bd07786 100644
--- a/src/Compare.cpp
+++ b/src/Compare.cpp
@@ -953,6 +953,12 @@ ANY_TWO_FUNC GetComparisonOpFast(int func, int scalarMode, int numpyInType1, int
     *wantedOutType = NPY_BOOL;
     int mainType = scalarMode == SCALAR_MODE::FIRST_ARG_SCALAR ? numpyInType2 : numpyInType1;
 
+    // int64_t with uint64_t: the order of the arguments matters
+    if (numpyInType1 >= NPY_LONG && numpyInType1 <= NPY_ULONGLONG)
+    {
+        mainType = numpyInType1;
+    }
+
     LOGGING("Comparison maintype %d for func %d  inputs: %d %d\n", mainType, func, numpyInType1, numpyInType2);
 
     // NOTE: Intel on Nans
@@ -1091,11 +1097,10 @@ ANY_TWO_FUNC GetComparisonOpFast(int func, int scalarMode, int numpyInType1, int
         {
             switch (func)
             {
-                // For equal, not equal the sign does not matter
             case MATH_OPERATION::CMP_EQ:
-                return CompareAny<int64_t, COMP_EQ>;
+                return CompareAny<int64_t, COMP_EQ_uint64_t>;
             case MATH_OPERATION::CMP_NE:
-                return CompareAny<int64_t, COMP_NE>;
+                return CompareAny<int64_t, COMP_NE_uint64_t>;
             case MATH_OPERATION::CMP_GT:
                 return CompareAny<uint64_t, COMP_GT_uint64_t>;
             case MATH_OPERATION::CMP_GTE:
diff --git a/src/RipTide.cpp b/src/RipTide.cpp
index 8d0b62d..e281300 100644
--- a/src/RipTide.cpp
+++ b/src/RipTide.cpp
@@ -2073,6 +2073,10 @@ PyMODINIT_FUNC PyInit_riptide_cpp()
         pRow = &gUpcastTableComparison[NPY_ULONG * 14 + NPY_LONG];
         pRow->dtype1 = NPY_ULONG;
         pRow->dtype2 = NPY_LONG;
+        gUpcastTableComparison[NPY_LONG * 14 + NPY_ULONGLONG] = { NPY_LONG, NPY_ULONGLONG };
+        gUpcastTableComparison[NPY_ULONGLONG * 14 + NPY_LONG] = { NPY_ULONGLONG, NPY_LONG };
+        gUpcastTableComparison[NPY_LONGLONG * 14 + NPY_ULONG] = { NPY_LONGLONG, NPY_ULONG };
+        gUpcastTableComparison[NPY_ULONG * 14 + NPY_LONGLONG] = { NPY_ULONG, NPY_LONGLONG };
     }
 
     pRow = &gUpcastTableComparison[NPY_LONGLONG * 14 + NPY_ULONGLONG];
-- 
2.43.0


From f54b753d74b3c3713d1721594a7666f355274f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:27 +0000
Subject: [PATCH 10/49] fix: one-operand math paired wrong elements for mixed
 memory orders and byte-swapped arrays

---
 src/UnaryOps.cpp | 60 ++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 58 insertions(+), 2 deletions(-)

diff --git a/src/UnaryOps.cpp b/src/UnaryOps.cpp
index f552b38..ddbfd97 100644
--- a/src/UnaryOps.cpp
+++ b/src/UnaryOps.cpp
@@ -2477,6 +2477,49 @@ static bool UnaryThreadCallbackStrided(struct stMATH_WORKER_ITEM * pstWorkerItem
     return didSomeWork;
 }
 
+//------------------------------------------------------------------------------
+// Returns true if the elements of dimensions [firstDim, lastDim] are a constant stride apart when visited in C order
+// (or in F order)
+static bool IsConstantStride(PyArrayObject * arr, int firstDim, int lastDim, int64_t stride, bool cOrder)
+{
+    int64_t expected = stride;
+    for (int i = firstDim; i <= lastDim; i++)
+    {
+        int dim = cOrder ? lastDim - (i - firstDim) : i;
+        if (PyArray_DIM(arr, dim) > 1 && PyArray_STRIDE(arr, dim) != expected)
+            return false;
+        expected *= PyArray_DIM(arr, dim);
+    }
+    return true;
+}
+
+//------------------------------------------------------------------------------
+// The loops below visit the input in memory order (constant stride, or constant stride inside one outer dimension)
+// and the output with a constant stride: both must then be visited in the same element order
+static bool IsSameElementOrder(PyArrayObject * inArr, int directionIn, int64_t strideIn, PyArrayObject * outArr, int64_t strideOut)
+{
+    int ndim = PyArray_NDIM(inArr);
+    int ndimOut = PyArray_NDIM(outArr);
+
+    if (! PyArray_ISNOTSWAPPED(inArr) || ! PyArray_ISNOTSWAPPED(outArr))
+        return false;
+
+    // An output with other dimensions than the input is filled in C order
+    bool sameShape = PyArray_SAMESHAPE(inArr, outArr);
+    if (! sameShape && ndimOut > 1)
+        return false;
+
+    if (ndim <= 1 && ndimOut <= 1)
+        return true;
+
+    if (directionIn >= 0 && IsConstantStride(inArr, directionIn, ndim - 1, strideIn, true) &&
+        IsConstantStride(outArr, 0, ndimOut - 1, strideOut, true))
+        return true;
+
+    return directionIn <= 0 && sameShape && IsConstantStride(inArr, 0, ndim - 1 + directionIn, strideIn, false) &&
+           IsConstantStride(outArr, 0, ndimOut - 1, strideOut, false);
+}
+
 //------------------------------------------------------------------------------
 // Main routine for unary operations
 // if numpyOutType is -1, then outObject1 is IGNORED
@@ -2508,6 +2551,13 @@ PyObject * ProcessOneInput(PyArrayObject * inArray, PyArrayObject * outObject1,
 
             if (outputArray)
             {
+                if (! IsSameElementOrder(inArray, directionIn, strideIn, outputArray, PyArray_ITEMSIZE(outputArray)))
+                {
+                    // punt to numpy
+                    Py_DECREF(outputArray);
+                    RETURN_NONE;
+                }
+
                 stMATH_WORKER_ITEM * pWorkItem = g_cMathWorker->GetWorkItem(len);
 
                 void * pDataIn = PyArray_BYTES(inArray);
@@ -2608,6 +2658,13 @@ PyObject * ProcessOneInput(PyArrayObject * inArray, PyArrayObject * outObject1,
         int64_t strideOut;
         int directionOut = GetStridesAndContig(outputArray, ndimOut, strideOut);
 
+        if (! IsSameElementOrder(inArray, directionIn, strideIn, outputArray, strideOut))
+        {
+            LOGGING("punt element order %d %d %d\n", ndim, directionIn, directionOut);
+            Py_DECREF(outputArray);
+            RETURN_NONE;
+        }
+
         // F contig on 2 dim =>  dim0 * stride0 == stride1
         // C contig on 2 dim1 * stride1 == stride0
         // Handle single or 0 dim, can also handle contig any dim
@@ -2669,8 +2726,7 @@ PyObject * ProcessOneInput(PyArrayObject * inArray, PyArrayObject * outObject1,
             {
                 // Col Major 2dim like array with output being fully contiguous
                 int64_t innerLen = 1;
-                directionIn = -directionIn;
-                for (int i = 0; i < directionIn; i++)
+                for (int i = 0; i < ndim + directionIn; i++)
                 {
                     innerLen *= PyArray_DIM(inArray, i);
                 }
-- 
2.43.0


From f4dc08713e21c4eb31afa5b18e1b64ed87fdd741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:47 +0000
Subject: [PATCH 11/49] fix: round gave a different answer for ties depending
 on the position and alignment of the element

---
 src/UnaryOps.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/UnaryOps.cpp b/src/UnaryOps.cpp
index ddbfd97..10cb498 100644
--- a/src/UnaryOps.cpp
+++ b/src/UnaryOps.cpp
@@ -290,19 +290,19 @@ static const inline bool ISNANORZERO_OP(T x)
 }
 
 template <typename T>
-static const inline long double ROUND_OP(long double x)
+static const inline long double ROUND_OP(long double x) // ties to even, as the vector code does
 {
-    return roundl(x);
+    return rintl(x);
 }
 template <typename T>
 static const inline double ROUND_OP(double x)
 {
-    return round(x);
+    return rint(x);
 }
 template <typename T>
 static const inline float ROUND_OP(float x)
 {
-    return roundf(x);
+    return rintf(x);
 }
 
 template <typename T>
-- 
2.43.0


From 30afe00600fe3f63edd4d809d869cfd63d02730b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:47 +0000
Subject: [PATCH 12/49] fix: float functions treated uint64 values past int64
 as negative

---
 src/UnaryOps.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/UnaryOps.cpp b/src/UnaryOps.cpp
index 10cb498..9588cba 100644
--- a/src/UnaryOps.cpp
+++ b/src/UnaryOps.cpp
@@ -2060,7 +2060,7 @@ UNARY_FUNC GetUnaryOpSlow(int func, int numpyInType1, int numpyOutType, int * wa
         CASE_NPY_INT64:
             return UnaryOpSlowDouble_SQRT<int64_t>;
         CASE_NPY_UINT64:
-            return UnaryOpSlowDouble_SQRT<int64_t>;
+            return UnaryOpSlowDouble_SQRT<uint64_t>;
         case NPY_DOUBLE:
             return UnaryOpSlow_SQRT<double>;
         case NPY_LONGDOUBLE:
@@ -2087,7 +2087,7 @@ UNARY_FUNC GetUnaryOpSlow(int func, int numpyInType1, int numpyOutType, int * wa
         CASE_NPY_INT64:
             return UnaryOpSlowDouble_CBRT<int64_t>;
         CASE_NPY_UINT64:
-            return UnaryOpSlowDouble_CBRT<int64_t>;
+            return UnaryOpSlowDouble_CBRT<uint64_t>;
         }
         break;
 
@@ -2116,7 +2116,7 @@ UNARY_FUNC GetUnaryOpSlow(int func, int numpyInType1, int numpyOutType, int * wa
         CASE_NPY_INT64:
             return UnaryOpSlowDouble_LOG<int64_t>;
         CASE_NPY_UINT64:
-            return UnaryOpSlowDouble_LOG<int64_t>;
+            return UnaryOpSlowDouble_LOG<uint64_t>;
         }
         break;
 
@@ -2145,7 +2145,7 @@ UNARY_FUNC GetUnaryOpSlow(int func, int numpyInType1, int numpyOutType, int * wa
         CASE_NPY_INT64:
             return UnaryOpSlowDouble_LOG10<int64_t>;
         CASE_NPY_UINT64:
-            return UnaryOpSlowDouble_LOG10<int64_t>;
+            return UnaryOpSlowDouble_LOG10<uint64_t>;
         }
         break;
 
@@ -2174,7 +2174,7 @@ UNARY_FUNC GetUnaryOpSlow(int func, int numpyInType1, int numpyOutType, int * wa
         CASE_NPY_INT64:
             return UnaryOpSlowDouble_EXP<int64_t>;
         CASE_NPY_UINT64:
-            return UnaryOpSlowDouble_EXP<int64_t>;
+            return UnaryOpSlowDouble_EXP<uint64_t>;
         }
         break;
 
@@ -2203,7 +2203,7 @@ UNARY_FUNC GetUnaryOpSlow(int func, int numpyInType1, int numpyOutType, int * wa
         CASE_NPY_INT64:
             return UnaryOpSlowDouble_EXP2<int64_t>;
         CASE_NPY_UINT64:
-            return UnaryOpSlowDouble_EXP2<int64_t>;
+            return UnaryOpSlowDouble_EXP2<uint64_t>;
         }
         break;
 
-- 
2.43.0


From 043ecac8480ebdde0dd263bd4ec9ac3ba9933891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:47 +0000
Subject: [PATCH 13/49] fix: unicode strings whose first character is a
 multiple of 256 counted as empty

---
 src/UnaryOps.cpp | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/UnaryOps.cpp b/src/UnaryOps.cpp
index 9588cba..e56426a 100644
--- a/src/UnaryOps.cpp
+++ b/src/UnaryOps.cpp
@@ -1291,9 +1291,11 @@ static void UnaryOpSlow_ISNANORZERO(void * pDataIn1, void * pDataOut, int64_t le
 template <typename T>
 static void UnaryOpSlow_ISINVALID(void * pDataIn1, void * pDataOut, int64_t len, int64_t strideIn, int64_t strideOut)
 {
-    constexpr bool is_scalar{ ! is_flexible_v<T> };
+    // A string is invalid when its first character is zero: one byte for bytes, four for unicode (char32_t)
+    constexpr bool is_unicode{ std::is_same_v<T, char32_t> };
+    constexpr bool is_scalar{ ! is_flexible_v<T> && ! is_unicode };
 
-    using TData = std::conditional_t<is_scalar, T, char>;
+    using TData = std::conditional_t<is_scalar || is_unicode, T, char>;
 
     TData * pIn = (TData *)pDataIn1;
     int8_t * pOut = (int8_t *)pDataOut;
@@ -1342,9 +1344,11 @@ static void UnaryOpSlow_ISINVALIDORZERO(void * pDataIn1, void * pDataOut, int64_
 template <typename T>
 static void UnaryOpSlow_ISNOTINVALID(void * pDataIn1, void * pDataOut, int64_t len, int64_t strideIn, int64_t strideOut)
 {
-    constexpr bool is_scalar{ ! is_flexible_v<T> };
+    // A string is invalid when its first character is zero: one byte for bytes, four for unicode (char32_t)
+    constexpr bool is_unicode{ std::is_same_v<T, char32_t> };
+    constexpr bool is_scalar{ ! is_flexible_v<T> && ! is_unicode };
 
-    using TData = std::conditional_t<is_scalar, T, char>;
+    using TData = std::conditional_t<is_scalar || is_unicode, T, char>;
 
     TData * pIn = (TData *)pDataIn1;
     int8_t * pOut = (int8_t *)pDataOut;
@@ -1758,8 +1762,9 @@ UNARY_FUNC GetUnaryOpSlow(int func, int numpyInType1, int numpyOutType, int * wa
                 return UnaryOpSlow_ISNOTINVALID<int16_t>;
             case NPY_UINT16:
                 return UnaryOpSlow_ISNOTINVALID<uint16_t>;
-            case NPY_STRING:
             case NPY_UNICODE:
+                return UnaryOpSlow_ISNOTINVALID<char32_t>;
+            case NPY_STRING:
             case NPY_VOID:
                 return UnaryOpSlow_ISNOTINVALID<flexible_t>;
             }
@@ -1797,8 +1802,9 @@ UNARY_FUNC GetUnaryOpSlow(int func, int numpyInType1, int numpyOutType, int * wa
                 return UnaryOpSlow_ISINVALID<int16_t>;
             case NPY_UINT16:
                 return UnaryOpSlow_ISINVALID<uint16_t>;
-            case NPY_STRING:
             case NPY_UNICODE:
+                return UnaryOpSlow_ISINVALID<char32_t>;
+            case NPY_STRING:
             case NPY_VOID:
                 return UnaryOpSlow_ISINVALID<flexible_t>;
             }
@@ -1836,8 +1842,9 @@ UNARY_FUNC GetUnaryOpSlow(int func, int numpyInType1, int numpyOutType, int * wa
                 return UnaryOpSlow_ISINVALID<int16_t>;
             case NPY_UINT16:
                 return UnaryOpSlow_ISINVALID<uint16_t>;
-            case NPY_STRING:
             case NPY_UNICODE:
+                return UnaryOpSlow_ISINVALID<char32_t>;
+            case NPY_STRING:
             case NPY_VOID:
                 return UnaryOpSlow_ISINVALID<flexible_t>;
             }
@@ -1874,8 +1881,9 @@ UNARY_FUNC GetUnaryOpSlow(int func, int numpyInType1, int numpyOutType, int * wa
                 return UnaryOpSlow_ISINVALIDORZERO<int16_t>;
             case NPY_UINT16:
                 return UnaryOpSlow_ISINVALIDORZERO<uint16_t>;
-            case NPY_STRING:
             case NPY_UNICODE:
+                return UnaryOpSlow_ISINVALID<char32_t>;
+            case NPY_STRING:
             case NPY_VOID:
                 return UnaryOpSlow_ISINVALID<flexible_t>;
             }
@@ -1913,8 +1921,9 @@ UNARY_FUNC GetUnaryOpSlow(int func, int numpyInType1, int numpyOutType, int * wa
                 return UnaryOpSlow_ISNOTINVALID<int16_t>;
             case NPY_UINT16:
                 return UnaryOpSlow_ISNOTINVALID<uint16_t>;
-            case NPY_STRING:
             case NPY_UNICODE:
+                return UnaryOpSlow_ISNOTINVALID<char32_t>;
+            case NPY_STRING:
             case NPY_VOID:
                 return UnaryOpSlow_ISNOTINVALID<flexible_t>;
             }
-- 
2.43.0


From a030a4dcded32359ac81b7f6ef53443f6691d82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:28 +0000
Subject: [PATCH 14/49] fix: reductions read strided multi-dimensional,
 zero-dimensional or byte-swapped arrays as if linear

---
 src/Reduce.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/Reduce.cpp b/src/Reduce.cpp
index 2ff168c..f757a16 100644
--- a/src/Reduce.cpp
+++ b/src/Reduce.cpp
@@ -3394,8 +3394,19 @@ PyObject * Reduce(PyObject * self, PyObject * args)
 
     if (IsFastArrayOrNumpy(inArr1))
     {
-        // make sure not strided -- we don't currently handle those
-        if (PyArray_DIM(inArr1, 0) <= 1 || PyArray_STRIDE(inArr1, 0) == PyArray_ITEMSIZE(inArr1))
+        // make sure not strided or byte-swapped -- we don't currently handle those
+        const int ndim = PyArray_NDIM(inArr1);
+        bool isLinear = PyArray_ISNOTSWAPPED(inArr1) &&
+                        (ndim == 0 || PyArray_DIM(inArr1, 0) <= 1 || PyArray_STRIDE(inArr1, 0) == PyArray_ITEMSIZE(inArr1));
+        if (isLinear && ndim > 1)
+        {
+            // the index returned by the arg functions is in C order
+            const int64_t func = PyLong_Check(PyTuple_GET_ITEM(args, 1)) ? PyLong_AsLongLong(PyTuple_GET_ITEM(args, 1)) : 0;
+            isLinear = (func >= REDUCE_FUNCTIONS::REDUCE_ARGMIN && func <= REDUCE_FUNCTIONS::REDUCE_NANARGMAX) ?
+                           PyArray_IS_C_CONTIGUOUS(inArr1) :
+                           PyArray_ISONESEGMENT(inArr1);
+        }
+        if (isLinear)
         {
             PyObject * object2 = PyTuple_GET_ITEM(args, 1);
             if (PyLong_Check(object2))
-- 
2.43.0


From 8164c9b64f78c98d4e872f576bc97e34ac5cd3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:28 +0000
Subject: [PATCH 15/49] fix: mean, var and std of a type without a sum
 (strings, objects, dates) crashed

---
 src/Reduce.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Reduce.cpp b/src/Reduce.cpp
index f757a16..616d9e1 100644
--- a/src/Reduce.cpp
+++ b/src/Reduce.cpp
@@ -3201,6 +3201,12 @@ static PyObject * ReduceInternal(PyArrayObject * inArr1, REDUCE_FUNCTIONS func,
         REDUCE_FUNCTIONS newFunc = (REDUCE_FUNCTIONS)(REDUCE_SUM + (func & 1));
         fl.AnyScatterGatherCall = GetReduceFuncPtr(numpyInType, newFunc);
 
+        // Without a sum for this type punt to numpy
+        if (! fl.AnyScatterGatherCall)
+        {
+            Py_RETURN_NONE;
+        }
+
         // First call add
         g_cMathWorker->WorkScatterGatherCall(&fl, pDataIn, len, newFunc, &sgFunc);
 
-- 
2.43.0


From a779851b4d56d06d4a09a622a649b6966112b926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:55 +0000
Subject: [PATCH 16/49] fix: 64-bit integer sums lost their low digits, and
 threaded sums, means and variances past int64 became NaN

---
 src/Reduce.cpp | 40 +++++++++++++++++++++++++++++-----------
 1 file changed, 29 insertions(+), 11 deletions(-)

diff --git a/src/Reduce.cpp b/src/Reduce.cpp
index 616d9e1..cf88040 100644
--- a/src/Reduce.cpp
+++ b/src/Reduce.cpp
@@ -546,16 +546,13 @@ void CMathWorker::WorkScatterGatherCall(FUNCTION_LIST * anyScatterGatherCall, vo
                 pstScatterGatherFunc->lenOut += pZeroArray[i].lenOut;
                 pstScatterGatherFunc->resultOut = riptide::add(pstScatterGatherFunc->resultOut, pZeroArray[i].resultOut);
                 pstScatterGatherFunc->resultOutInt64 =
-                    riptide::add(pstScatterGatherFunc->resultOutInt64, pZeroArray[i].resultOutInt64);
+                    (int64_t)((uint64_t)pstScatterGatherFunc->resultOutInt64 + (uint64_t)pZeroArray[i].resultOutInt64);
 
+                // The double result tells if there was an invalid: the integer result may hold any value
                 if (! invalid_for_type<double>::is_valid(pstScatterGatherFunc->resultOut))
                 {
                     pstScatterGatherFunc->resultOutInt64 = invalid_for_type<int64_t>::value;
                 }
-                else if (! invalid_for_type<int64_t>::is_valid(pstScatterGatherFunc->resultOutInt64))
-                {
-                    pstScatterGatherFunc->resultOut = invalid_for_type<double>::value;
-                }
             }
         }
         WORKSPACE_FREE(pWorkSpace);
@@ -2178,10 +2175,12 @@ class ReduceSum final
         T * pIn = (T *)pDataIn;
         T * pEnd;
         double result = 0;
+        uint64_t resultInt = 0; // exact (modulo 2^64) for the integer types
 
         if (pstScatterGatherFunc->inputType == NPY_BOOL)
         {
-            result = (double)SumBooleanMask((int8_t *)pDataIn, length);
+            resultInt = (uint64_t)SumBooleanMask((int8_t *)pDataIn, length);
+            result = (double)resultInt;
         }
         else
         {
@@ -2196,12 +2195,22 @@ class ReduceSum final
                     break;
                 }
                 result += static_cast<double>(value);
+                if constexpr (std::is_integral_v<T>)
+                {
+                    resultInt += static_cast<uint64_t>(value);
+                }
             }
         }
 
         pstScatterGatherFunc->lenOut += length;
         pstScatterGatherFunc->resultOut = riptide::add(pstScatterGatherFunc->resultOut, result);
-        pstScatterGatherFunc->resultOutInt64 = riptide::cast<int64_t>(pstScatterGatherFunc->resultOut);
+        if constexpr (std::is_integral_v<T>)
+        {
+            pstScatterGatherFunc->resultOutInt64 =
+                invalid_for_type<double>::is_valid(pstScatterGatherFunc->resultOut) ?
+                    (int64_t)((uint64_t)pstScatterGatherFunc->resultOutInt64 + resultInt) :
+                    invalid_for_type<int64_t>::value;
+        }
         return result;
     }
 
@@ -2618,6 +2627,7 @@ class ReduceNanSum final
     static double non_vector(void * pDataIn, int64_t len, stScatterGatherFunc * pstScatterGatherFunc)
     {
         double result = 0;
+        uint64_t resultInt = 0; // exact (modulo 2^64) for the integer types
         int64_t count = 0;
         T * pIn = (T *)pDataIn;
 
@@ -2626,12 +2636,16 @@ class ReduceNanSum final
             if (invalid_for_type<T>::is_valid(pIn[i]))
             {
                 result += pIn[i];
+                if constexpr (std::is_integral_v<T>)
+                {
+                    resultInt += static_cast<uint64_t>(pIn[i]);
+                }
                 count += 1;
             }
         }
         pstScatterGatherFunc->lenOut += count;
         pstScatterGatherFunc->resultOut += result;
-        pstScatterGatherFunc->resultOutInt64 += (int64_t)result;
+        pstScatterGatherFunc->resultOutInt64 = (int64_t)((uint64_t)pstScatterGatherFunc->resultOutInt64 + resultInt);
         return result;
     }
 
@@ -3274,19 +3288,23 @@ static PyObject * ReduceInternal(PyArrayObject * inArr1, REDUCE_FUNCTIONS func,
             switch (numpyInType)
             {
             CASE_NPY_INT64:
-                if (sgFunc.resultOut > 9223372036854775807.0 || sgFunc.resultOut < -9223372036854775808.0)
+                if (sgFunc.resultOut >= 9223372036854775808.0 || sgFunc.resultOut <= -9223372036854775808.0)
                 {
                     LOGGING("Returning overflow %lf  for func %lld\n", sgFunc.resultOut, func);
                     return PyFloat_FromDouble(sgFunc.resultOut);
                 }
                 return PyLong_FromLongLong(sgFunc.resultOutInt64);
             CASE_NPY_UINT64:
-                if (sgFunc.resultOut > 18446744073709551615.0)
+                if (sgFunc.resultOut >= 18446744073709551616.0)
                 {
                     LOGGING("Returning overflow %lf  for func %lld\n", sgFunc.resultOut, func);
                     return PyFloat_FromDouble(sgFunc.resultOut);
                 }
-                return PyLong_FromUnsignedLongLong(riptide::cast<uint64_t>(sgFunc.resultOutInt64));
+                if (! invalid_for_type<double>::is_valid(sgFunc.resultOut))
+                {
+                    return PyLong_FromUnsignedLongLong(invalid_for_type<uint64_t>::value);
+                }
+                return PyLong_FromUnsignedLongLong((uint64_t)sgFunc.resultOutInt64);
             case NPY_FLOAT:
             case NPY_DOUBLE:
             case NPY_LONGDOUBLE:
-- 
2.43.0


From e875ab7f0eca6e41ad8d86a4103eb1a55f563888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:11 +0000
Subject: [PATCH 17/49] fix: Sort and SortInPlace sorted the wrong memory for
 strided or byte-swapped arrays, overflowed on strings and wrote to read-only
 arrays

---
 src/Sort.cpp | 51 +++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 37 insertions(+), 14 deletions(-)

diff --git a/src/Sort.cpp b/src/Sort.cpp
index 433027a..639c662 100644
--- a/src/Sort.cpp
+++ b/src/Sort.cpp
@@ -2865,9 +2865,6 @@ static void SortArray(void * pDataIn1, int64_t arraySize1, int32_t arrayType1, S
 {
     switch (arrayType1)
     {
-    case NPY_STRING:
-        SortInPlace<char, Ascending>(pDataIn1, arraySize1, mode);
-        break;
     case NPY_BOOL:
         SortInPlace<bool, Ascending>(pDataIn1, arraySize1, mode);
         break;
@@ -2905,7 +2902,7 @@ static void SortArray(void * pDataIn1, int64_t arraySize1, int32_t arrayType1, S
         SortInPlaceFloat<long double, Ascending>(pDataIn1, arraySize1, mode);
         break;
     default:
-        printf("SortArray does not understand type %d\n", arrayType1);
+        PyErr_Format(PyExc_TypeError, "SortArray does not understand type %d", arrayType1);
         break;
     }
 }
@@ -2927,13 +2924,33 @@ PyObject * SortInPlace(PyObject * self, PyObject * args)
     npy_intp * dims = PyArray_DIMS(inArr1);
 
     int64_t arraySize1 = CalcArrayLength(ndim, dims);
-    void * pDataIn1 = PyArray_BYTES(inArr1);
 
     // printf("Arary size %llu  type %d\n", arraySize1, arrayType1);
 
+    if (PyArray_FailUnlessWriteable(inArr1, "array to sort") < 0)
+        return NULL;
+
     SORT_MODE mode = (SORT_MODE)sortMode;
 
-    SortArray(pDataIn1, arraySize1, arrayType1, mode);
+    if (PyArray_IS_C_CONTIGUOUS(inArr1) && PyArray_ISNOTSWAPPED(inArr1))
+    {
+        SortArray(PyArray_BYTES(inArr1), arraySize1, arrayType1, mode);
+    }
+    else
+    {
+        // sort a contiguous native copy, then put it back
+        PyArrayObject * pCopy = (PyArrayObject *)PyArray_FromAny((PyObject *)inArr1, NULL, 0, 0,
+                                                                 NPY_ARRAY_C_CONTIGUOUS | NPY_ARRAY_ENSURECOPY | NPY_ARRAY_NOTSWAPPED, NULL);
+        if (! pCopy)
+            return NULL;
+        SortArray(PyArray_BYTES(pCopy), arraySize1, arrayType1, mode);
+        if (! PyErr_Occurred())
+            PyArray_CopyInto(inArr1, pCopy);
+        Py_DecRef((PyObject *)pCopy);
+    }
+
+    if (PyErr_Occurred())
+        return NULL;
 
     Py_IncRef((PyObject *)inArr1);
     return SetFastArrayView(inArr1);
@@ -3043,7 +3060,7 @@ PyObject * Sort(PyObject * self, PyObject * args)
     int64_t arraySize1 = CalcArrayLength(ndim, dims);
 
     // The output is a boolean where the nth item was found
-    PyArrayObject * duplicateArray = AllocateNumpyArray(ndim, dims, arrayType1);
+    PyArrayObject * duplicateArray = AllocateNumpyArray(ndim, dims, arrayType1, NpyItemSize((PyObject *)inArr1));
 
     if (duplicateArray == NULL)
     {
@@ -3051,16 +3068,22 @@ PyObject * Sort(PyObject * self, PyObject * args)
         return NULL;
     }
 
-    void * pDataIn1 = PyArray_BYTES(inArr1);
-    void * pDataOut1 = PyArray_BYTES(duplicateArray);
-
-    int64_t itemSize = NpyItemSize((PyObject *)inArr1);
-
-    memcpy(pDataOut1, pDataIn1, arraySize1 * itemSize);
+    // the input may be strided or byte swapped
+    if (PyArray_CopyInto(duplicateArray, inArr1) < 0)
+    {
+        Py_DecRef((PyObject *)duplicateArray);
+        return NULL;
+    }
 
     SORT_MODE mode = (SORT_MODE)sortMode;
 
-    SortArray(pDataOut1, arraySize1, arrayType1, mode);
+    SortArray(PyArray_BYTES(duplicateArray), arraySize1, arrayType1, mode);
+
+    if (PyErr_Occurred())
+    {
+        Py_DecRef((PyObject *)duplicateArray);
+        return NULL;
+    }
 
     return SetFastArrayView(duplicateArray);
 }
-- 
2.43.0


From 69cb95686f0bd60a76facd39ce2ede60b492e6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:02 +0000
Subject: [PATCH 18/49] fix: byte-swapped keys were sorted and hashed as
 native, and LexSort returned a result with an error set

---
 src/RipTide.cpp | 6 +++---
 src/Sort.cpp    | 8 ++++++--
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/RipTide.cpp b/src/RipTide.cpp
index e281300..5862fe0 100644
--- a/src/RipTide.cpp
+++ b/src/RipTide.cpp
@@ -243,11 +243,11 @@ PyArrayObject * EnsureContiguousArray(PyArrayObject * inObject)
 {
     int arrFlags = PyArray_FLAGS(inObject);
 
-    // make sure C or F contiguous
-    if (! (arrFlags & (NPY_ARRAY_C_CONTIGUOUS | NPY_ARRAY_F_CONTIGUOUS)))
+    // make sure C or F contiguous, and in native byte order
+    if (! (arrFlags & (NPY_ARRAY_C_CONTIGUOUS | NPY_ARRAY_F_CONTIGUOUS)) || ! PyArray_ISNOTSWAPPED(inObject))
     {
         // Have to make a copy (which needs to be deleted later)
-        inObject = (PyArrayObject *)PyArray_FromAny((PyObject *)inObject, NULL, 0, 0, NPY_ARRAY_ENSURECOPY, NULL);
+        inObject = (PyArrayObject *)PyArray_FromAny((PyObject *)inObject, NULL, 0, 0, NPY_ARRAY_ENSURECOPY | NPY_ARRAY_NOTSWAPPED, NULL);
         if (! inObject)
         {
             PyErr_Format(PyExc_ValueError, "RipTide: Error converting non-contiguous array");
diff --git a/src/Sort.cpp b/src/Sort.cpp
index 639c662..c4c87d9 100644
--- a/src/Sort.cpp
+++ b/src/Sort.cpp
@@ -3249,9 +3249,9 @@ PyObject * IsSorted(PyObject * self, PyObject * args)
 
     int64_t itemSize = PyArray_ITEMSIZE(inArr1);
 
-    if (ndim != 1 || (dims[0] > 1 && itemSize != PyArray_STRIDE(inArr1, 0)))
+    if (ndim != 1 || (dims[0] > 1 && itemSize != PyArray_STRIDE(inArr1, 0)) || ! PyArray_ISNOTSWAPPED(inArr1))
     {
-        PyErr_Format(PyExc_ValueError, "IsSorted arrays must be one dimensional and contiguous.  ndim is %d\n", ndim);
+        PyErr_Format(PyExc_ValueError, "IsSorted arrays must be one dimensional, native and contiguous.  ndim is %d\n", ndim);
         return NULL;
     }
 
@@ -3637,6 +3637,10 @@ PyObject * LexSort(PyObject * self, PyObject * args, PyObject * kwargs)
         }
     }
 
+    // bad keys have set an error
+    if (PyErr_Occurred())
+        return NULL;
+
     Py_INCREF(Py_None);
     return Py_None;
 }
-- 
2.43.0


From 16cb7549fa1810161aeb14015f10d8cc396a4b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:27 +0000
Subject: [PATCH 19/49] fix: GroupFromLexSort counts of string/void keys
 shifted and racy with cutoffs; counts uninitialised with base_index=0 or no
 rows

---
 src/Sort.cpp | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/Sort.cpp b/src/Sort.cpp
index c4c87d9..84df509 100644
--- a/src/Sort.cpp
+++ b/src/Sort.cpp
@@ -3858,8 +3858,12 @@ static int64_t GroupIndexStep2String(void * pDataIn1, UINDEX arraySize1, UINDEX
     UINDEX baseIndex = (UINDEX)base_index;
     UINDEX curGroup = 0;
 
-    // Invalid bin init when base_index is 1
-    pCountOut[0] = 0;
+    // Invalid bin init when base_index is 1, otherwise the counts start at 0 as in GroupIndexStep2
+    if (baseIndex != 0)
+    {
+        pCountOut[0] = 0;
+        pCountOut++;
+    }
 
     pFirstOut[0] = curIndex;
     pGroupOut[curIndex] = baseIndex;
@@ -3876,16 +3880,16 @@ static int64_t GroupIndexStep2String(void * pDataIn1, UINDEX arraySize1, UINDEX
         }
         else
         {
-            curGroup++;
             pCountOut[curGroup] = curCount;
+            curGroup++;
             pFirstOut[curGroup] = curIndex;
             pGroupOut[curIndex] = curGroup + baseIndex;
             val1 = val2;
             curCount = 1;
         }
     }
-    curGroup++;
     pCountOut[curGroup] = curCount;
+    curGroup++;
     return curGroup;
 }
 
@@ -4332,9 +4336,10 @@ static PyObject * GroupFromLexSortInternal(PyObject * kwargs, UINDEX * pIndex, n
         uniqueCount++;
         PyArrayObject * countReduced =
             AllocateNumpyArray(1, (npy_intp *)&uniqueCount, sizeof(UINDEX) == 4 ? NPY_INT32 : NPY_INT64);
-        copySize = sizeof(UINDEX) * uniqueCount;
-        // reduced
-        memcpy(PyArray_BYTES(countReduced), pCountOut, copySize);
+        // reduced, with the zero bin first (only base_index 1 has it already)
+        UINDEX * pCountReduced = (UINDEX *)PyArray_BYTES(countReduced);
+        pCountReduced[0] = 0;
+        memcpy(pCountReduced + 1, pCountOut + (base_index == 0 ? 0 : 1), copySize);
 
         Py_DecRef((PyObject *)first);
         Py_DecRef((PyObject *)count);
-- 
2.43.0


From 15d55d4b9be407b352f353a0f5d4ee98c3b3cbee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:39 +0000
Subject: [PATCH 20/49] fix: GroupFromLexSort read the wrong memory for strided
 values

---
 src/Sort.cpp | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/Sort.cpp b/src/Sort.cpp
index 84df509..e9228c8 100644
--- a/src/Sort.cpp
+++ b/src/Sort.cpp
@@ -4394,20 +4394,40 @@ PyObject * GroupFromLexSort(PyObject * self, PyObject * args, PyObject * kwargs)
 
     const auto dtype = PyArray_TYPE(inArrSortIndex);
 
+    if (! PyArray_ISCARRAY_RO(inArrSortIndex))
+    {
+        return PyErr_Format(PyExc_ValueError, "GroupFromLexSort index must be contiguous");
+    }
+
+    // The values may be strided
+    PyArrayObject * const values = EnsureContiguousArray(inArrValues);
+    if (! values)
+    {
+        return NULL;
+    }
+
     void * pIndex = PyArray_BYTES(inArrSortIndex);
-    void * pValues = PyArray_BYTES(inArrValues);
+    void * pValues = PyArray_BYTES(values);
+    PyObject * result = NULL;
 
     switch (dtype)
     {
     CASE_NPY_INT32:
-        return GroupFromLexSortInternal<int32_t>(kwargs, (int32_t *)pIndex, arrLength, arrLengthValues, pValues, itemSize);
+        result = GroupFromLexSortInternal<int32_t>(kwargs, (int32_t *)pIndex, arrLength, arrLengthValues, pValues, itemSize);
         break;
 
     CASE_NPY_INT64:
-        return GroupFromLexSortInternal<int64_t>(kwargs, (int64_t *)pIndex, arrLength, arrLengthValues, pValues, itemSize);
+        result = GroupFromLexSortInternal<int64_t>(kwargs, (int64_t *)pIndex, arrLength, arrLengthValues, pValues, itemSize);
         break;
 
     default:
-        return PyErr_Format(PyExc_ValueError, "GroupFromLexSort does not support index type of %d", dtype);
+        PyErr_Format(PyExc_ValueError, "GroupFromLexSort does not support index type of %d", dtype);
+        break;
+    }
+
+    if (values != inArrValues)
+    {
+        Py_DecRef((PyObject *)values);
     }
+    return result;
 }
-- 
2.43.0


From 1e2e261bb00c3912a0bba39b3118e523240cc413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:53 +0000
Subject: [PATCH 21/49] fix: LexSort index= without rows sorted uninitialised
 indexes, and rows out of bounds were dereferenced

---
 src/Sort.cpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/Sort.cpp b/src/Sort.cpp
index e9228c8..c23514d 100644
--- a/src/Sort.cpp
+++ b/src/Sort.cpp
@@ -3540,8 +3540,24 @@ PyObject * LexSort(PyObject * self, PyObject * args, PyObject * kwargs)
             return NULL;
         }
 
-        if (indexLength > 0)
+        if (index)
         {
+            if (! PyArray_ISCARRAY(index))
+            {
+                PyErr_Format(PyExc_ValueError, "LexSort 'index' must be contiguous and writeable");
+                return NULL;
+            }
+
+            for (int64_t i = 0; i < indexLength; i++)
+            {
+                const int64_t row = indexDType == NPY_INT64 ? ((int64_t *)PyArray_BYTES(index))[i] : ((int32_t *)PyArray_BYTES(index))[i];
+                if (row < 0 || row >= arraySize1)
+                {
+                    PyErr_Format(PyExc_IndexError, "LexSort 'index' has %lld which is out of bounds for %lld rows", row, arraySize1);
+                    return NULL;
+                }
+            }
+
             if (indexLength > arraySize1)
             {
                 PyErr_Format(PyExc_ValueError, "LexSort 'index' is larger than value array");
-- 
2.43.0


From a7e8a892d7913efb640c189e7a7712f2c3fc054e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:18 +0000
Subject: [PATCH 22/49] fix: Sort in merge mode compared doubles as floats

---
 src/Sort.cpp | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/Sort.cpp b/src/Sort.cpp
index c23514d..5c980c6 100644
--- a/src/Sort.cpp
+++ b/src/Sort.cpp
@@ -534,7 +534,7 @@ NPY_INLINE static int BINARY_LT(const char * s1, const char * s2, size_t len)
 //}
 
 // NPY_INLINE static int
-// COMPARE_LT<float, Ascending>(npy_float a, npy_float b)
+// COMPARE_LT<T, Ascending>(npy_float a, npy_float b)
 //{
 //   return a < b || (b != b && a == a);
 //}
@@ -859,11 +859,11 @@ static int aheapsort_float(T * vv, UINDEX * tosort, UINDEX n)
         tmp = a[l];
         for (i = l, j = l << 1; j <= n;)
         {
-            if (j < n && COMPARE_LT<float, Ascending>(v[a[j]], v[a[j + 1]]))
+            if (j < n && COMPARE_LT<T, Ascending>(v[a[j]], v[a[j + 1]]))
             {
                 j += 1;
             }
-            if (COMPARE_LT<float, Ascending>(v[tmp], v[a[j]]))
+            if (COMPARE_LT<T, Ascending>(v[tmp], v[a[j]]))
             {
                 a[i] = a[j];
                 i = j;
@@ -884,11 +884,11 @@ static int aheapsort_float(T * vv, UINDEX * tosort, UINDEX n)
         n -= 1;
         for (i = 1, j = 2; j <= n;)
         {
-            if (j < n && COMPARE_LT<float, Ascending>(v[a[j]], v[a[j + 1]]))
+            if (j < n && COMPARE_LT<T, Ascending>(v[a[j]], v[a[j + 1]]))
             {
                 j++;
             }
-            if (COMPARE_LT<float, Ascending>(v[tmp], v[a[j]]))
+            if (COMPARE_LT<T, Ascending>(v[tmp], v[a[j]]))
             {
                 a[i] = a[j];
                 i = j;
@@ -1122,11 +1122,11 @@ static int aquicksort_float(T * vv, UINDEX * tosort, UINDEX num)
         {
             /* quicksort partition */
             pm = pl + ((pr - pl) >> 1);
-            if (COMPARE_LT<float, Ascending>(v[*pm], v[*pl]))
+            if (COMPARE_LT<T, Ascending>(v[*pm], v[*pl]))
                 INTP_SWAP(*pm, *pl);
-            if (COMPARE_LT<float, Ascending>(v[*pr], v[*pm]))
+            if (COMPARE_LT<T, Ascending>(v[*pr], v[*pm]))
                 INTP_SWAP(*pr, *pm);
-            if (COMPARE_LT<float, Ascending>(v[*pm], v[*pl]))
+            if (COMPARE_LT<T, Ascending>(v[*pm], v[*pl]))
                 INTP_SWAP(*pm, *pl);
             vp = v[*pm];
             pi = pl;
@@ -1136,10 +1136,10 @@ static int aquicksort_float(T * vv, UINDEX * tosort, UINDEX num)
             {
                 do
                     ++pi;
-                while (COMPARE_LT<float, Ascending>(v[*pi], vp));
+                while (COMPARE_LT<T, Ascending>(v[*pi], vp));
                 do
                     --pj;
-                while (COMPARE_LT<float, Ascending>(vp, v[*pj]));
+                while (COMPARE_LT<T, Ascending>(vp, v[*pj]));
                 if (pi >= pj)
                 {
                     break;
@@ -1171,7 +1171,7 @@ static int aquicksort_float(T * vv, UINDEX * tosort, UINDEX num)
             vp = v[vi];
             pj = pi;
             pk = pi - 1;
-            while (pj > pl && COMPARE_LT<float, Ascending>(vp, v[*pk]))
+            while (pj > pl && COMPARE_LT<T, Ascending>(vp, v[*pk]))
             {
                 *pj-- = *pk--;
             }
@@ -1437,7 +1437,7 @@ static void mergesort0_float(T * pl, T * pr, T * pw, T * head)
         pk = pl;
         while (pj < pi && pm < pr)
         {
-            if (COMPARE_LT<float, Ascending>(*pm, *pj))
+            if (COMPARE_LT<T, Ascending>(*pm, *pj))
             {
                 *pk++ = *pm++;
             }
@@ -1470,7 +1470,7 @@ static void mergesort0_float(T * pl, T * pr, T * pw, T * head)
             vp = *pi;
             pj = pi;
             pk = pi - 1;
-            while (pj > pl && COMPARE_LT<float, Ascending>(vp, *pk))
+            while (pj > pl && COMPARE_LT<T, Ascending>(vp, *pk))
             {
                 *pj-- = *pk--;
             }
-- 
2.43.0


From 9dd0cf9e30c0c5f9c136ad4a493aca646f504b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:31 +0000
Subject: [PATCH 23/49] fix: descending lexsort of void keys compared the last
 odd byte ascending

---
 src/Sort.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/Sort.cpp b/src/Sort.cpp
index 5c980c6..ac4181a 100644
--- a/src/Sort.cpp
+++ b/src/Sort.cpp
@@ -162,7 +162,7 @@ NPY_INLINE static int VOID_LT(const char * s1, const char * s2, size_t len)
         c2 += 2;
         if (*c1 != *c2)
         {
-            return *c1 < *c2;
+            return COMPARE_LT<unsigned char, Ascending>(*c1, *c2);
         }
         return 0;
     case 4:
@@ -180,7 +180,7 @@ NPY_INLINE static int VOID_LT(const char * s1, const char * s2, size_t len)
         c2 += 4;
         if (*c1 != *c2)
         {
-            return *c1 < *c2;
+            return COMPARE_LT<unsigned char, Ascending>(*c1, *c2);
         }
         return 0;
     case 6:
@@ -210,7 +210,7 @@ NPY_INLINE static int VOID_LT(const char * s1, const char * s2, size_t len)
         c2 += 2;
         if (*c1 != *c2)
         {
-            return *c1 < *c2;
+            return COMPARE_LT<unsigned char, Ascending>(*c1, *c2);
         }
         return 0;
     case 8:
@@ -237,7 +237,7 @@ NPY_INLINE static int VOID_LT(const char * s1, const char * s2, size_t len)
             case 1:
                 if (*c1 != *c2)
                 {
-                    return *c1 < *c2;
+                    return COMPARE_LT<unsigned char, Ascending>(*c1, *c2);
                 }
                 return 0;
             case 2:
@@ -255,7 +255,7 @@ NPY_INLINE static int VOID_LT(const char * s1, const char * s2, size_t len)
                 c2 += 2;
                 if (*c1 != *c2)
                 {
-                    return *c1 < *c2;
+                    return COMPARE_LT<unsigned char, Ascending>(*c1, *c2);
                 }
                 return 0;
             case 4:
@@ -273,7 +273,7 @@ NPY_INLINE static int VOID_LT(const char * s1, const char * s2, size_t len)
                 c2 += 4;
                 if (*c1 != *c2)
                 {
-                    return *c1 < *c2;
+                    return COMPARE_LT<unsigned char, Ascending>(*c1, *c2);
                 }
                 return 0;
             case 6:
@@ -303,7 +303,7 @@ NPY_INLINE static int VOID_LT(const char * s1, const char * s2, size_t len)
                 c2 += 2;
                 if (*c1 != *c2)
                 {
-                    return *c1 < *c2;
+                    return COMPARE_LT<unsigned char, Ascending>(*c1, *c2);
                 }
                 return 0;
             case 8:
-- 
2.43.0


From 0c88d882547fa311506f5bcacb6da2e69a2d2694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:16 +0000
Subject: [PATCH 24/49] fix: SortInPlaceIndirect left longlong and other arrays
 unsorted without an error

---
 src/Sort.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/Sort.cpp b/src/Sort.cpp
index ac4181a..ee8db29 100644
--- a/src/Sort.cpp
+++ b/src/Sort.cpp
@@ -2975,8 +2975,12 @@ PyObject * SortInPlaceIndirect(PyObject * self, PyObject * args)
     if (! PyArg_ParseTuple(args, "O!O!", &PyArray_Type, &inArr1, &PyArray_Type, &inSort))
         return NULL;
 
-    int32_t arrayType1 = PyArray_TYPE(inArr1);
-    int32_t sortType = PyArray_TYPE(inSort);
+    // fold the types which have the same size (long and long long)
+    int32_t arrayType1 = PyArray_EquivTypenums(PyArray_TYPE(inArr1), NPY_INT64) ? NPY_INT64 : PyArray_TYPE(inArr1);
+    int32_t sortType = PyArray_EquivTypenums(PyArray_TYPE(inSort), NPY_INT64) ? NPY_INT64 : PyArray_TYPE(inSort);
+
+    if (! PyArray_ISCARRAY(inArr1) || ! PyArray_ISCARRAY_RO(inSort))
+        return PyErr_Format(PyExc_ValueError, "SortInplaceIndirect arrays must be contiguous");
 
     int64_t arraySize1 = ArrayLength(inArr1);
     int64_t sortSize = ArrayLength(inSort);
@@ -3035,7 +3039,7 @@ PyObject * SortInPlaceIndirect(PyObject * self, PyObject * args)
     }
     else
     {
-        printf("**SortInplaceIndirect failure!  arrays must be int32 or int64\n");
+        return PyErr_Format(PyExc_TypeError, "SortInplaceIndirect arrays must be int32 or int64");
     }
 
     Py_IncRef((PyObject *)inArr1);
-- 
2.43.0


From 0dd5090240048f46880508055e7179d8e35893aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:22 +0000
Subject: [PATCH 25/49] fix: byte-swapped keys were still read as native after
 the contiguous copy

---
 src/RipTide.cpp | 2 +-
 src/Sort.cpp    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/RipTide.cpp b/src/RipTide.cpp
index 5862fe0..8d44443 100644
--- a/src/RipTide.cpp
+++ b/src/RipTide.cpp
@@ -247,7 +247,7 @@ PyArrayObject * EnsureContiguousArray(PyArrayObject * inObject)
     if (! (arrFlags & (NPY_ARRAY_C_CONTIGUOUS | NPY_ARRAY_F_CONTIGUOUS)) || ! PyArray_ISNOTSWAPPED(inObject))
     {
         // Have to make a copy (which needs to be deleted later)
-        inObject = (PyArrayObject *)PyArray_FromAny((PyObject *)inObject, NULL, 0, 0, NPY_ARRAY_ENSURECOPY | NPY_ARRAY_NOTSWAPPED, NULL);
+        inObject = (PyArrayObject *)PyArray_CheckFromAny((PyObject *)inObject, NULL, 0, 0, NPY_ARRAY_ENSURECOPY | NPY_ARRAY_NOTSWAPPED, NULL);
         if (! inObject)
         {
             PyErr_Format(PyExc_ValueError, "RipTide: Error converting non-contiguous array");
diff --git a/src/Sort.cpp b/src/Sort.cpp
index ee8db29..68058ed 100644
--- a/src/Sort.cpp
+++ b/src/Sort.cpp
@@ -2939,7 +2939,7 @@ PyObject * SortInPlace(PyObject * self, PyObject * args)
     else
     {
         // sort a contiguous native copy, then put it back
-        PyArrayObject * pCopy = (PyArrayObject *)PyArray_FromAny((PyObject *)inArr1, NULL, 0, 0,
+        PyArrayObject * pCopy = (PyArrayObject *)PyArray_CheckFromAny((PyObject *)inArr1, NULL, 0, 0,
                                                                  NPY_ARRAY_C_CONTIGUOUS | NPY_ARRAY_ENSURECOPY | NPY_ARRAY_NOTSWAPPED, NULL);
         if (! pCopy)
             return NULL;
-- 
2.43.0


From 4879992d10f30fa5876ec0f807098824ebf0bcd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:31 +0000
Subject: [PATCH 26/49] fix: GroupFromLexSort joined different rows of keys
 with itemsize 7 or 15, 23...

---
 src/Sort.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Sort.cpp b/src/Sort.cpp
index 68058ed..e75cf32 100644
--- a/src/Sort.cpp
+++ b/src/Sort.cpp
@@ -396,7 +396,7 @@ NPY_INLINE static int BINARY_LT(const char * s1, const char * s2, size_t len)
         c2 += 2;
         if (*c1 != *c2)
         {
-            return *c1 < *c2;
+            return 1;
         }
         return 0;
     case 8:
-- 
2.43.0


From 5b0d9f84f20530a0e817c70d3a593d36cdf3401a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:15 +0000
Subject: [PATCH 27/49] fix: one-row views of strided arrays were refused as
 keys

---
 src/MultiKey.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/MultiKey.cpp b/src/MultiKey.cpp
index d2bd21d..1571bec 100644
--- a/src/MultiKey.cpp
+++ b/src/MultiKey.cpp
@@ -241,8 +241,8 @@ ArrayInfo * BuildArrayInfo(PyObject * listObject, int64_t * pTupleSize, int64_t
                 goto EXIT_ROUTINE;
             }
 
-            int64_t stride0 = PyArray_STRIDE((PyArrayObject *)inObject, 0);
             int64_t itemSize = aInfo[i].ItemSize;
+            int64_t stride0 = aInfo[i].NDim > 0 ? PyArray_STRIDE((PyArrayObject *)inObject, 0) : itemSize;
 
             if (checkrows)
             {
@@ -252,7 +252,7 @@ ArrayInfo * BuildArrayInfo(PyObject * listObject, int64_t * pTupleSize, int64_t
                     goto EXIT_ROUTINE;
                 }
 
-                if (itemSize != stride0 && aInfo[i].ArrayLength > 0)
+                if (itemSize != stride0 && aInfo[i].ArrayLength > 1)
                 {
                     PyErr_Format(PyExc_ValueError, "BuildArrayInfo array strides must match itemsize -- %lld %lld", itemSize,
                                  stride0);
@@ -261,7 +261,7 @@ ArrayInfo * BuildArrayInfo(PyObject * listObject, int64_t * pTupleSize, int64_t
             }
             else
             {
-                if (itemSize != stride0 && aInfo[i].ArrayLength > 0)
+                if (itemSize != stride0 && aInfo[i].ArrayLength > 1)
                 {
                     // If 2 dims and Fortran, then strides will not match
                     // TODO: better check
-- 
2.43.0


From 19bf66440aaf989bb22f1a13cdb63480621ff388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:03 +0000
Subject: [PATCH 28/49] fix: BitCount read the wrong memory of strided and
 Fortran-ordered arrays

---
 src/BitCount.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/BitCount.cpp b/src/BitCount.cpp
index 59b181e..3e9a843 100644
--- a/src/BitCount.cpp
+++ b/src/BitCount.cpp
@@ -32,6 +32,13 @@ PyObject * BitCount(PyObject * self, PyObject * args)
     PyArrayObject * returnObject = AllocateNumpyArray(ndim, dims, NPY_INT8);
     if (returnObject == NULL)
         return NULL;
+    // The loops below walk the elements in C order
+    inArr = PyArray_GETCONTIGUOUS(inArr);
+    if (inArr == NULL)
+    {
+        PyArray_XDECREF(returnObject);
+        return NULL;
+    }
     int8_t * pDataOut = (int8_t *)PyArray_BYTES(returnObject);
 
     const npy_intp length = CalcArrayLength(ndim, dims);
@@ -90,5 +97,6 @@ PyObject * BitCount(PyObject * self, PyObject * args)
         }
     }
 
+    Py_DECREF(inArr);
     return (PyObject *)returnObject;
 }
-- 
2.43.0


From 4b5f455675a4e8fbb2c1ad8f6a73228ca8e84e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:56 +0000
Subject: [PATCH 29/49] fix: MBGet took unsigned indexes as signed, doubled the
 output step for variable items, moved threaded output by the values' stride;
 BooleanIndex/BooleanSum/BooleanToFancy on strided or multidimensional masks;
 ReverseShuffle on strided keys; results lost record, time unit or byte order

---
 src/Merge.cpp   | 309 ++++++++++++++++++++++++++++++------------------
 src/RipTide.cpp |  13 ++
 2 files changed, 205 insertions(+), 117 deletions(-)

diff --git a/src/Merge.cpp b/src/Merge.cpp
index 1e9c356..db9434d 100644
--- a/src/Merge.cpp
+++ b/src/Merge.cpp
@@ -5,6 +5,7 @@
 #include "Convert.h"
 
 #include <algorithm>
+#include <vector>
 
 // for _pext_u64
 #if defined(__GNUC__) || defined(__clang__)
@@ -240,12 +241,51 @@ int64_t BooleanCount(PyArrayObject * aIndex, int64_t ** ppChunkCount, int64_t st
     return 0;
 }
 
+//---------------------------------------------------------------------------
+// Arrays that can be walked with one stride, in row-major order, are returned as they are;
+// anything else (multidimensional but not C contiguous, or byte swapped if native is set) is copied.
+// Returns a new reference, or NULL with an error set
+static PyArrayObject * EnsureSingleStride(PyArrayObject * inArr, bool native)
+{
+    if ((PyArray_NDIM(inArr) <= 1 || PyArray_IS_C_CONTIGUOUS(inArr)) && (! native || PyArray_ISNOTSWAPPED(inArr)))
+    {
+        Py_INCREF(inArr);
+        return inArr;
+    }
+    return (PyArrayObject *)PyArray_CheckFromAny((PyObject *)inArr, NULL, 0, 0,
+                                                 NPY_ARRAY_C_CONTIGUOUS | (native ? NPY_ARRAY_NOTSWAPPED : 0), NULL);
+}
+
+//---------------------------------------------------------------------------
+// The stride of an array that passed EnsureSingleStride
+static int64_t SingleStride(PyArrayObject * inArr)
+{
+    return PyArray_NDIM(inArr) == 1 && PyArray_DIM(inArr, 0) > 1 ? PyArray_STRIDE(inArr, 0) : PyArray_ITEMSIZE(inArr);
+}
+
+static PyObject * BooleanIndexFlat(PyArrayObject * aValues, PyArrayObject * aIndex);
+
 //---------------------------------------------------------------------------
 // Input:
 // Arg1: numpy array aValues (can be any array)
 // Arg2: numpy array aIndex (must be bool)
 //
 PyObject * BooleanIndexInternal(PyArrayObject * aValues, PyArrayObject * aIndex)
+{
+    PyObject * result = NULL;
+    PyArrayObject * values = EnsureSingleStride(aValues, false);
+    PyArrayObject * index = EnsureSingleStride(aIndex, false);
+
+    if (values && index)
+    {
+        result = BooleanIndexFlat(values, index);
+    }
+    Py_XDECREF(values);
+    Py_XDECREF(index);
+    return result;
+}
+
+static PyObject * BooleanIndexFlat(PyArrayObject * aValues, PyArrayObject * aIndex)
 {
     if (PyArray_TYPE(aIndex) != NPY_BOOL)
     {
@@ -253,36 +293,8 @@ PyObject * BooleanIndexInternal(PyArrayObject * aValues, PyArrayObject * aIndex)
         return NULL;
     }
 
-    int ndimValue = 0;
-    int ndimBoolean = 0;
-    int64_t strideValue = 0;
-    int64_t strideBoolean = 0;
-
-    int result1 = GetStridesAndContig(aValues, ndimValue, strideValue);
-    int result2 = GetStridesAndContig(aIndex, ndimBoolean, strideBoolean);
-
-    // This logic is not quite correct, if the strides on all dimensions are the
-    // same, we can use this routine
-    if (result1 != 0)
-    {
-        if (! PyArray_ISCONTIGUOUS(aValues))
-        {
-            PyErr_Format(PyExc_ValueError,
-                         "Dont know how to handle multidimensional "
-                         "value array for boolean index.");
-            return NULL;
-        }
-    }
-    if (result2 != 0)
-    {
-        if (! PyArray_ISCONTIGUOUS(aIndex))
-        {
-            PyErr_Format(PyExc_ValueError,
-                         "Dont know how to handle multidimensional "
-                         "array used as boolean index.");
-            return NULL;
-        }
-    }
+    const int64_t strideValue = SingleStride(aValues);
+    const int64_t strideBoolean = SingleStride(aIndex);
 
     // if ( strideBoolean != 1) {
     //   PyErr_Format(PyExc_ValueError, "Dont know how to handle multidimensional
@@ -583,7 +595,7 @@ PyObject * BooleanIndexInternal(PyArrayObject * aValues, PyArrayObject * aIndex)
                                 if (*pBooleanMask++)
                                 {
                                     memcpy(pValuesOut, pValuesIn, itemSize);
-                                    pValuesOut += strideValues;
+                                    pValuesOut += itemSize;
                                 }
                                 pValuesIn += strideValues;
                             }
@@ -740,13 +752,15 @@ PyObject * BooleanSum(PyObject * self, PyObject * args)
         return NULL;
     }
 
-    int ndimBoolean;
-    int64_t strideBoolean;
-
-    int result1 = GetStridesAndContig(aIndex, ndimBoolean, strideBoolean);
+    aIndex = EnsureSingleStride(aIndex, false);
+    if (! aIndex)
+    {
+        return NULL;
+    }
 
     int64_t * pChunkCount = NULL;
-    int64_t chunks = BooleanCount(aIndex, &pChunkCount, strideBoolean);
+    int64_t chunks = BooleanCount(aIndex, &pChunkCount, SingleStride(aIndex));
+    Py_DECREF(aIndex);
 
     int64_t totalTrue = 0;
     for (int64_t i = 0; i < chunks; i++)
@@ -855,7 +869,7 @@ static void GetItemUInt(void * aValues, void * aIndex, void * aDataOut, int64_t
             const INDEX index = *pIndex;
             *pDataOut =
                 // Make sure the item is in range
-                index >= 0 && index < valLength ? pValues[index] : defaultVal;
+                (uint64_t)index < (uint64_t)valLength ? pValues[index] : defaultVal;
             pIndex++;
             pDataOut++;
         }
@@ -868,7 +882,7 @@ static void GetItemUInt(void * aValues, void * aIndex, void * aDataOut, int64_t
             const INDEX index = *pIndex;
             // Make sure the item is in range; if the index is negative -- but
             // otherwise still in range -- mimic Python's negative-indexing support.
-            if (index >= 0 && index < valLength)
+            if ((uint64_t)index < (uint64_t)valLength)
             {
                 *pDataOut = *(VALUE *)((char *)pValues + (strideValue * index));
             }
@@ -990,7 +1004,7 @@ static void GetItemUIntVariable(void * aValues, void * aIndex, void * aDataOut,
         {
             const INDEX index = *pIndex;
             const char * pSrc;
-            if (index < valLength)
+            if ((uint64_t)index < (uint64_t)valLength)
             {
                 pSrc = pValues + (itemSize * index);
             }
@@ -1014,7 +1028,6 @@ static void GetItemUIntVariable(void * aValues, void * aIndex, void * aDataOut,
             //    memcpy(pDataOut, pSrc, itemSize);
 
             pIndex++;
-            pDataOut += itemSize;
         }
     }
     else
@@ -1024,7 +1037,7 @@ static void GetItemUIntVariable(void * aValues, void * aIndex, void * aDataOut,
         {
             const INDEX index = *pIndex;
             const char * pSrc;
-            if (index < valLength)
+            if ((uint64_t)index < (uint64_t)valLength)
             {
                 pSrc = pValues + (strideValue * index);
             }
@@ -1046,11 +1059,16 @@ static void GetItemUIntVariable(void * aValues, void * aIndex, void * aDataOut,
                 *pDataOut++ = *pSrc++;
             }
             pIndex = STRIDE_NEXT(const INDEX, pIndex, strideIndex);
-            pDataOut += itemSize;
         }
     }
 }
 
+// Items of 16 bytes need not be aligned
+struct GETITEM_16BYTES
+{
+    char bytes[16];
+};
+
 typedef void (*GETITEM_FUNC)(void * pDataIn, void * pDataIn2, void * pDataOut, int64_t valLength, int64_t itemSize, int64_t len,
                              int64_t strideIndex, int64_t strideValue, void * pDefault);
 struct MBGET_CALLBACK
@@ -1102,7 +1120,8 @@ static bool GetItemCallback(struct stMATH_WORKER_ITEM * pstWorkerItem, int core,
         // work block
         int64_t blockStart = workBlock * pstWorkerItem->BlockSize;
 
-        int64_t valueAdj = blockStart * strideValue;
+        // the output is never strided
+        int64_t valueAdj = blockStart * valueItemSize;
         int64_t indexAdj = blockStart * strideIndex;
 
         LOGGING(
@@ -1142,7 +1161,7 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType)
         case 8:
             return GetItemInt<int64_t, int8_t>;
         case 16:
-            return GetItemInt<__m128, int8_t>;
+            return GetItemInt<GETITEM_16BYTES, int8_t>;
         default:
             return GetItemIntVariable<int8_t>;
         }
@@ -1151,17 +1170,17 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType)
         switch (itemSize)
         {
         case 1:
-            return GetItemUInt<int8_t, int8_t>;
+            return GetItemUInt<int8_t, uint8_t>;
         case 2:
-            return GetItemUInt<int16_t, int8_t>;
+            return GetItemUInt<int16_t, uint8_t>;
         case 4:
-            return GetItemUInt<int32_t, int8_t>;
+            return GetItemUInt<int32_t, uint8_t>;
         case 8:
-            return GetItemUInt<int64_t, int8_t>;
+            return GetItemUInt<int64_t, uint8_t>;
         case 16:
-            return GetItemUInt<__m128, int8_t>;
+            return GetItemUInt<GETITEM_16BYTES, uint8_t>;
         default:
-            return GetItemUIntVariable<int8_t>;
+            return GetItemUIntVariable<uint8_t>;
         }
         break;
 
@@ -1177,7 +1196,7 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType)
         case 8:
             return GetItemInt<int64_t, int16_t>;
         case 16:
-            return GetItemInt<__m128, int16_t>;
+            return GetItemInt<GETITEM_16BYTES, int16_t>;
         default:
             return GetItemIntVariable<int16_t>;
         }
@@ -1186,17 +1205,17 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType)
         switch (itemSize)
         {
         case 1:
-            return GetItemUInt<int8_t, int16_t>;
+            return GetItemUInt<int8_t, uint16_t>;
         case 2:
-            return GetItemUInt<int16_t, int16_t>;
+            return GetItemUInt<int16_t, uint16_t>;
         case 4:
-            return GetItemUInt<int32_t, int16_t>;
+            return GetItemUInt<int32_t, uint16_t>;
         case 8:
-            return GetItemUInt<int64_t, int16_t>;
+            return GetItemUInt<int64_t, uint16_t>;
         case 16:
-            return GetItemUInt<__m128, int16_t>;
+            return GetItemUInt<GETITEM_16BYTES, uint16_t>;
         default:
-            return GetItemUIntVariable<int16_t>;
+            return GetItemUIntVariable<uint16_t>;
         }
         break;
 
@@ -1212,7 +1231,7 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType)
         case 8:
             return GetItemInt<int64_t, int32_t>;
         case 16:
-            return GetItemInt<__m128, int32_t>;
+            return GetItemInt<GETITEM_16BYTES, int32_t>;
         default:
             return GetItemIntVariable<int32_t>;
         }
@@ -1221,17 +1240,17 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType)
         switch (itemSize)
         {
         case 1:
-            return GetItemUInt<int8_t, int32_t>;
+            return GetItemUInt<int8_t, uint32_t>;
         case 2:
-            return GetItemUInt<int16_t, int32_t>;
+            return GetItemUInt<int16_t, uint32_t>;
         case 4:
-            return GetItemUInt<int32_t, int32_t>;
+            return GetItemUInt<int32_t, uint32_t>;
         case 8:
-            return GetItemUInt<int64_t, int32_t>;
+            return GetItemUInt<int64_t, uint32_t>;
         case 16:
-            return GetItemUInt<__m128, int32_t>;
+            return GetItemUInt<GETITEM_16BYTES, uint32_t>;
         default:
-            return GetItemUIntVariable<int32_t>;
+            return GetItemUIntVariable<uint32_t>;
         }
         break;
 
@@ -1247,7 +1266,7 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType)
         case 8:
             return GetItemInt<int64_t, int64_t>;
         case 16:
-            return GetItemInt<__m128, int64_t>;
+            return GetItemInt<GETITEM_16BYTES, int64_t>;
         default:
             return GetItemIntVariable<int64_t>;
         }
@@ -1256,17 +1275,17 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType)
         switch (itemSize)
         {
         case 1:
-            return GetItemUInt<int8_t, int64_t>;
+            return GetItemUInt<int8_t, uint64_t>;
         case 2:
-            return GetItemUInt<int16_t, int64_t>;
+            return GetItemUInt<int16_t, uint64_t>;
         case 4:
-            return GetItemUInt<int32_t, int64_t>;
+            return GetItemUInt<int32_t, uint64_t>;
         case 8:
-            return GetItemUInt<int64_t, int64_t>;
+            return GetItemUInt<int64_t, uint64_t>;
         case 16:
-            return GetItemUInt<__m128, int64_t>;
+            return GetItemUInt<GETITEM_16BYTES, uint64_t>;
         default:
-            return GetItemUIntVariable<int64_t>;
+            return GetItemUIntVariable<uint64_t>;
         }
         break;
     }
@@ -1291,6 +1310,8 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType)
 //         result[i] = aValues[aIndex[i]]
 //      else :
 //         result[i] = default  (OR RETURN ERROR)
+static PyObject * MBGetFlat(PyArrayObject * aValues, PyArrayObject * aIndex, PyObject * defaultValue);
+
 PyObject * MBGet(PyObject * self, PyObject * args)
 {
     PyArrayObject * aValues = NULL;
@@ -1327,38 +1348,25 @@ PyObject * MBGet(PyObject * self, PyObject * args)
         return BooleanIndexInternal(aValues, aIndex);
     }
 
-    int ndimValue;
-    int ndimIndex;
-    int64_t strideValue = 0;
-    int64_t strideIndex = 0;
+    PyObject * result = NULL;
+    aValues = EnsureSingleStride(aValues, false);
+    aIndex = EnsureSingleStride(aIndex, true);
 
-    int result1 = GetStridesAndContig(aValues, ndimValue, strideValue);
-    int result2 = GetStridesAndContig(aIndex, ndimIndex, strideIndex);
-
-    // This logic is not quite correct, if the strides on all dimensions are the
-    // same, we can use this routine
-    if (result1 != 0)
+    if (aValues && aIndex)
     {
-        if (! PyArray_ISCONTIGUOUS(aValues))
-        {
-            PyErr_Format(PyExc_ValueError,
-                         "Dont know how to handle multidimensional array %d using "
-                         "index dtype: %d",
-                         numpyValuesType, numpyIndexType);
-            return NULL;
-        }
-    }
-    if (result2 != 0)
-    {
-        if (! PyArray_ISCONTIGUOUS(aIndex))
-        {
-            PyErr_Format(PyExc_ValueError,
-                         "Dont know how to handle multidimensional array %d using "
-                         "index dtype: %d",
-                         numpyValuesType, numpyIndexType);
-            return NULL;
-        }
+        result = MBGetFlat(aValues, aIndex, defaultValue);
     }
+    Py_XDECREF(aValues);
+    Py_XDECREF(aIndex);
+    return result;
+}
+
+static PyObject * MBGetFlat(PyArrayObject * aValues, PyArrayObject * aIndex, PyObject * defaultValue)
+{
+    const int32_t numpyValuesType = PyArray_TYPE(aValues);
+    const int32_t numpyIndexType = PyArray_TYPE(aIndex);
+    const int64_t strideValue = SingleStride(aValues);
+    const int64_t strideIndex = SingleStride(aIndex);
 
     // printf("numpy types %d %d\n", numpyValuesType, numpyIndexType);
 
@@ -1384,26 +1392,64 @@ PyObject * MBGet(PyObject * self, PyObject * args)
             if (aIndexLength != 0)
             {
                 void * pDataOut = PyArray_BYTES(outArray);
-                void * pDefault = GetDefaultForType(numpyValuesType);
+                // One item of the values' type, which starts as all zeroes
+                std::vector<char> defaultItem(aValueItemSize + sizeof(_m256all), 0);
+                void * pDefault = defaultItem.data();
 
-                // reserve a full 16 bytes for default in case we have oneS
-                _m256all tempDefault;
+                switch (numpyValuesType)
+                {
+                case NPY_STRING:
+                case NPY_UNICODE:
+                case NPY_VOID:
+                case NPY_CFLOAT:
+                case NPY_CDOUBLE:
+                case NPY_CLONGDOUBLE:
+                case NPY_HALF:
+                    break;
+                case NPY_DATETIME:
+                case NPY_TIMEDELTA:
+                    memcpy(pDefault, GetDefaultForType(NPY_INT64), sizeof(int64_t));
+                    break;
+                default:
+                    memcpy(pDefault, GetDefaultForType(numpyValuesType), aValueItemSize);
+                    break;
+                }
 
                 // Check if a default value was passed in as third parameter
                 if (defaultValue != Py_None)
                 {
-                    bool result;
-                    int64_t itemSize;
+                    int64_t itemSize = 0;
+                    _m256all tempDefault;
                     void * pTempData = NULL;
                     // Try to convert the scalar
-                    result = ConvertScalarObject(defaultValue, &tempDefault, numpyValuesType, &pTempData, &itemSize);
-                    if (result)
+                    if (ConvertScalarObject(defaultValue, &tempDefault, numpyValuesType, &pTempData, &itemSize))
                     {
                         // Assign the new default for out of range indexes
-                        pDefault = &tempDefault;
+                        if (pTempData == &tempDefault)
+                        {
+                            memcpy(pDefault, &tempDefault, std::min<int64_t>(aValueItemSize, sizeof(tempDefault)));
+                        }
+                        else
+                        {
+                            // bytes for a string array, ucs4 for a unicode array
+                            if (numpyValuesType == (PyBytes_Check(defaultValue) ? NPY_STRING : NPY_UNICODE))
+                            {
+                                memcpy(pDefault, pTempData, std::min<int64_t>(aValueItemSize, itemSize));
+                            }
+                            if (! PyBytes_Check(defaultValue))
+                            {
+                                PyMem_Free(pTempData);
+                            }
+                        }
                     }
                 }
 
+                if (! PyArray_ISNOTSWAPPED(aValues) && aValueItemSize <= 16 && ! PyTypeNum_ISFLEXIBLE(numpyValuesType))
+                {
+                    // the output has the byte order of the values
+                    std::reverse(defaultItem.begin(), defaultItem.begin() + aValueItemSize);
+                }
+
                 stMATH_WORKER_ITEM * pWorkItem = g_cMathWorker->GetWorkItem(aIndexLength);
 
                 if (pWorkItem == NULL)
@@ -1504,10 +1550,12 @@ PyObject * BooleanToFancy(PyObject * self, PyObject * args, PyObject * kwargs)
         return NULL;
     }
 
-    int ndimBoolean;
-    int64_t strideBoolean;
-
-    int result1 = GetStridesAndContig(aIndex, ndimBoolean, strideBoolean);
+    aIndex = EnsureSingleStride(aIndex, false);
+    if (! aIndex)
+    {
+        return NULL;
+    }
+    const int64_t strideBoolean = SingleStride(aIndex);
 
     // if bothMode is set, will return fancy index for both True and False
     bool bothMode = GetKwargBoth(kwargs);
@@ -1525,7 +1573,8 @@ PyObject * BooleanToFancy(PyObject * self, PyObject * args, PyObject * kwargs)
         // TJD: April 2019 note -- when the chunk size is between 65536 and 128000
         // it is really one chunk, but the code still works
         int64_t chunkSize = g_cMathWorker->WORK_ITEM_CHUNK;
-        int64_t chunks = (indexLength + (chunkSize - 1)) / chunkSize;
+        // an empty mask still has one chunk
+        int64_t chunks = indexLength > 0 ? (indexLength + (chunkSize - 1)) / chunkSize : 1;
 
         // Also need false count
         pChunkCountFalse = (int64_t *)WORKSPACE_ALLOC(chunks * sizeof(int64_t));
@@ -1586,6 +1635,7 @@ PyObject * BooleanToFancy(PyObject * self, PyObject * args, PyObject * kwargs)
             int64_t * pChunkCount;
             int64_t * pChunkCountFalse;
             int8_t * pBooleanMask;
+            int64_t strideBoolean;
             void * pValuesOut;
             int64_t totalTrue;
             int dtype;
@@ -1599,6 +1649,7 @@ PyObject * BooleanToFancy(PyObject * self, PyObject * args, PyObject * kwargs)
 
             int64_t chunkCount = callbackArg->pChunkCount[start / g_cMathWorker->WORK_ITEM_CHUNK];
             int8_t * pBooleanMask = callbackArg->pBooleanMask;
+            const int64_t strideBoolean = callbackArg->strideBoolean;
             bool bothMode = callbackArg->bothMode;
 
             if (bothMode)
@@ -1617,7 +1668,7 @@ PyObject * BooleanToFancy(PyObject * self, PyObject * args, PyObject * kwargs)
 
                     for (int64_t i = start; i < (start + length); i++)
                     {
-                        if (pBooleanMask[i])
+                        if (pBooleanMask[i * strideBoolean])
                         {
                             *pOut++ = i;
                         }
@@ -1637,7 +1688,7 @@ PyObject * BooleanToFancy(PyObject * self, PyObject * args, PyObject * kwargs)
 
                     for (int64_t i = start; i < (start + length); i++)
                     {
-                        if (pBooleanMask[i])
+                        if (pBooleanMask[i * strideBoolean])
                         {
                             *pOut++ = (int32_t)i;
                         }
@@ -1657,7 +1708,7 @@ PyObject * BooleanToFancy(PyObject * self, PyObject * args, PyObject * kwargs)
 
                     for (int64_t i = start; i < (start + length); i++)
                     {
-                        if (pBooleanMask[i])
+                        if (pBooleanMask[i * strideBoolean])
                         {
                             *pOut++ = i;
                         }
@@ -1670,7 +1721,7 @@ PyObject * BooleanToFancy(PyObject * self, PyObject * args, PyObject * kwargs)
 
                     for (int64_t i = start; i < (start + length); i++)
                     {
-                        if (pBooleanMask[i])
+                        if (pBooleanMask[i * strideBoolean])
                         {
                             *pOut++ = (int32_t)i;
                         }
@@ -1685,6 +1736,7 @@ PyObject * BooleanToFancy(PyObject * self, PyObject * args, PyObject * kwargs)
         stBTFCallback.pChunkCount = pChunkCount;
         stBTFCallback.pChunkCountFalse = pChunkCountFalse;
         stBTFCallback.pBooleanMask = (int8_t *)PyArray_BYTES(aIndex);
+        stBTFCallback.strideBoolean = strideBoolean;
         stBTFCallback.pValuesOut = (int64_t *)PyArray_BYTES(returnArray);
         stBTFCallback.dtype = dtype;
         stBTFCallback.totalTrue = totalTrue;
@@ -1695,6 +1747,7 @@ PyObject * BooleanToFancy(PyObject * self, PyObject * args, PyObject * kwargs)
 
     //_mm_i32gather_epi32
 
+    Py_DECREF(aIndex);
     WORKSPACE_FREE(pChunkCount);
     if (pChunkCountFalse)
     {
@@ -1949,6 +2002,24 @@ PyObject * ReverseShuffle(PyObject * self, PyObject * args)
         return NULL;
     }
 
+    ikey = EnsureSingleStride(ikey, true);
+    if (! ikey)
+    {
+        return NULL;
+    }
+
+    // a single dimension may still be strided
+    if (! PyArray_IS_C_CONTIGUOUS(ikey))
+    {
+        PyArrayObject * contiguous = EnsureContiguousArray(ikey);
+        Py_DECREF(ikey);
+        if (! contiguous)
+        {
+            return NULL;
+        }
+        ikey = contiguous;
+    }
+
     PyArrayObject * pReturnArray = AllocateLikeNumpyArray(ikey, dtype);
 
     if (pReturnArray)
@@ -1975,12 +2046,16 @@ PyObject * ReverseShuffle(PyObject * self, PyObject * args)
             break;
         default:
             PyErr_Format(PyExc_ValueError, "ReverseShuffle: ikey must be int8/16/32/64");
+            Py_DECREF(ikey);
+            Py_DECREF(pReturnArray);
             return NULL;
         }
 
+        Py_DECREF(ikey);
         return (PyObject *)pReturnArray;
     }
 
+    Py_DECREF(ikey);
     PyErr_Format(PyExc_ValueError, "ReverseShuffle: ran out of memory");
     return NULL;
 }
diff --git a/src/RipTide.cpp b/src/RipTide.cpp
index 8d44443..907b1de 100644
--- a/src/RipTide.cpp
+++ b/src/RipTide.cpp
@@ -857,6 +857,19 @@ PyArrayObject * AllocateLikeResize(PyArrayObject * inArr, npy_intp rowSize)
         printf("!!! Cannot allocate for object\n");
         return nullptr;
     }
+    else if (PyDataType_REFCHK(PyArray_DESCR(inArr)))
+    {
+        // The items hold references, which cannot be copied as bytes
+        return nullptr;
+    }
+    else if (numpyType == NPY_VOID || PyTypeNum_ISDATETIME(numpyType) || ! PyArray_ISNOTSWAPPED(inArr))
+    {
+        // The type number alone does not say what the items are: fields, time unit or byte order
+        PyTypeObject * const allocType = g_FastArrayType ? g_FastArrayType : &PyArray_Type;
+        PyArray_Descr * const descr = PyArray_DESCR(inArr);
+        Py_INCREF(descr);
+        result = (PyArrayObject *)PyArray_NewFromDescr(allocType, descr, 1, &rowSize, nullptr, nullptr, 0, nullptr);
+    }
     else if (PyTypeNum_ISSTRING(numpyType))
     {
         int64_t itemSize = NpyItemSize((PyObject *)inArr);
-- 
2.43.0


From 8a354aa58c1de21c3c0693c9167e92a6f7e32374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:56 +0000
Subject: [PATCH 30/49] fix: SetItem and PutMask wrote wrong elements for
 strided, byte swapped, overlapping or readonly arrays; PutMask turned False
 into invalid; ShiftArrays ignored strided arrays

---
 src/Convert.cpp | 62 ++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 51 insertions(+), 11 deletions(-)

diff --git a/src/Convert.cpp b/src/Convert.cpp
index ddc6726..8a80724 100644
--- a/src/Convert.cpp
+++ b/src/Convert.cpp
@@ -3078,12 +3078,20 @@ PyObject * ShiftArrays(PyObject * self, PyObject * args)
     int64_t totalItemSize = 0;
     int64_t tupleSize = 0;
 
-    // Allow jagged rows
-    ArrayInfo * aInfo = BuildArrayInfo(inList1, &tupleSize, &totalItemSize, false);
+    // Allow jagged rows, do not copy: the arrays are shifted in place
+    ArrayInfo * aInfo = BuildArrayInfo(inList1, &tupleSize, &totalItemSize, false, false);
 
     if (aInfo)
     {
-        int64_t totalLength = 0;
+        for (int64_t t = 0; t < tupleSize; t++)
+        {
+            if (aInfo[t].pObject && (! PyArray_ISONESEGMENT(aInfo[t].pObject) || ! PyArray_ISWRITEABLE(aInfo[t].pObject)))
+            {
+                FreeArrayInfo(aInfo);
+                PyErr_Format(PyExc_ValueError, "ShiftArrays: array %lld must be contiguous and writeable", t);
+                return NULL;
+            }
+        }
 
         // Callback routine from multithreaded worker thread (items just count up
         // from 0,1,2,...)
@@ -3628,6 +3636,22 @@ PyObject * SetItemBooleanMask(PyArrayObject * arr, PyArrayObject * mask, PyArray
     return Py_False;
 }
 
+//--------------------------------------------------------------------------
+// Whether SetItem and PutMask can walk the array as one plain block of memory
+static bool IsPlainBlock(PyArrayObject * arr)
+{
+    return PyArray_IS_C_CONTIGUOUS(arr) && PyArray_ISNOTSWAPPED(arr) && ! PyDataType_REFCHK(PyArray_DESCR(arr));
+}
+
+//--------------------------------------------------------------------------
+// Whether two arrays which are plain blocks share memory
+static bool IsOverlapping(PyArrayObject * arr1, PyArrayObject * arr2)
+{
+    const char * p1 = PyArray_BYTES(arr1);
+    const char * p2 = PyArray_BYTES(arr2);
+    return p1 < p2 + PyArray_NBYTES(arr2) && p2 < p1 + PyArray_NBYTES(arr1);
+}
+
 //--------------------------------------------------------------------------
 // Must be a power of 2
 // For smaller arrays, change this size
@@ -3817,8 +3841,9 @@ PyObject * SetItem(PyObject * self, PyObject * args)
             // check for strides, same itemsize, 1 dimensional
             // TODO: improvement when string itemsize is different length -- we can do
             // a custom string copy
-            if (PyArray_NDIM(arr) == 1 && PyArray_ITEMSIZE(arr) > 0 && PyArray_NDIM(inValues) == 1 &&
-                PyArray_ITEMSIZE(inValues) == PyArray_ITEMSIZE(arr) && PyArray_TYPE(arr) == PyArray_TYPE(inValues))
+            if (PyArray_NDIM(arr) == 1 && PyArray_ITEMSIZE(arr) > 0 && PyArray_NDIM(inValues) == 1 && PyArray_ISWRITEABLE(arr) &&
+                IsPlainBlock(arr) && IsPlainBlock(mask) && IsPlainBlock(inValues) && ! IsOverlapping(arr, mask) &&
+                ! IsOverlapping(arr, inValues) && PyArray_EquivTypes(PyArray_DESCR(arr), PyArray_DESCR(inValues)))
             {
                 // Boolean path...
                 int arrType = PyArray_TYPE(mask);
@@ -3862,6 +3887,7 @@ PyObject * SetItem(PyObject * self, PyObject * args)
     else
     {
         LOGGING("SetItem Could not convert value to array\n");
+        PyErr_Clear();
     }
     // punt to numpy
     Py_IncRef(Py_False);
@@ -3888,23 +3914,35 @@ PyObject * PutMask(PyObject * self, PyObject * args)
 
     // Try to convert value if we have to
     PyObject * value = PyTuple_GetItem(args, 2);
-    if (! PyArray_Check(value))
+    if (PyArray_Check(value))
+    {
+        Py_INCREF(value);
+    }
+    else
     {
         value = PyArray_FromAny(value, NULL, 0, 0, NPY_ARRAY_ENSUREARRAY, NULL);
     }
 
-    if (PyArray_Check(arr) && PyArray_Check(mask) && PyArray_Check(value))
+    if (! value)
+    {
+        PyErr_Clear();
+    }
+    else if (PyArray_Check(arr) && PyArray_Check(mask) && PyArray_Check(value))
     {
         PyArrayObject * inValues = (PyArrayObject *)value;
 
-        if (PyArray_TYPE(mask) == NPY_BOOL)
+        // values of the same size in the same place are read before they are written
+        const bool isSamePlace =
+            PyArray_BYTES(arr) == PyArray_BYTES(inValues) && PyArray_ITEMSIZE(arr) == PyArray_ITEMSIZE(inValues);
+
+        if (PyArray_TYPE(mask) == NPY_BOOL && PyArray_ISWRITEABLE(arr) && IsPlainBlock(arr) && IsPlainBlock(mask) &&
+            IsPlainBlock(inValues) && ! IsOverlapping(arr, mask) && (isSamePlace || ! IsOverlapping(arr, inValues)))
         {
             int64_t itemSizeOut = PyArray_ITEMSIZE(arr);
             int64_t itemSizeIn = PyArray_ITEMSIZE(inValues);
 
-            // check for strides... ?
             int64_t arrayLength = ArrayLength(arr);
-            if (arrayLength == ArrayLength(mask) && (arrayLength <= 1 || itemSizeOut == PyArray_STRIDE(arr, 0)))
+            if (arrayLength == ArrayLength(mask))
             {
                 int64_t valLength = ArrayLength(inValues);
 
@@ -3951,7 +3989,7 @@ PyObject * PutMask(PyObject * self, PyObject * args)
 
                         stMask.itemSizeIn = itemSizeIn;
                         stMask.itemSizeOut = itemSizeOut;
-                        stMask.pBadInput1 = GetDefaultForType(inDType);
+                        stMask.pBadInput1 = GetInvalid(inDType);
                         stMask.pBadOutput1 = GetDefaultForType(outDType);
 
                         stMask.pIn = (char *)PyArray_BYTES(inValues);
@@ -3961,6 +3999,7 @@ PyObject * PutMask(PyObject * self, PyObject * args)
 
                         g_cMathWorker->DoMultiThreadedChunkWork(arrayLength, lambdaMaskCallback, &stMask);
 
+                        Py_DECREF(value);
                         Py_IncRef(Py_True);
                         return Py_True;
                     }
@@ -3969,6 +4008,7 @@ PyObject * PutMask(PyObject * self, PyObject * args)
         }
     }
 
+    Py_XDECREF(value);
     // punt to numpy
     Py_IncRef(Py_False);
     return Py_False;
-- 
2.43.0


From 4d625b5ff813bc83e155f238e983b5964ee71c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:56 +0000
Subject: [PATCH 31/49] fix: ReIndex needed 16-byte alignment and returned None
 with an error set

---
 src/Bins.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/Bins.cpp b/src/Bins.cpp
index 0959de3..d42f1b9 100644
--- a/src/Bins.cpp
+++ b/src/Bins.cpp
@@ -70,7 +70,8 @@ REINDEXCALLBACK ReIndexDataStep1(int64_t itemSize)
     case 8:
         return ReIndexData<T, double>;
     case 16:
-        return ReIndexData<T, __m128>;
+        // the generic version: items of 16 bytes need not be aligned
+        return ReIndexData<T>;
     default:
         return ReIndexData<T>;
     }
@@ -162,7 +163,7 @@ PyObject * ReIndex(PyObject * self, PyObject * args)
 {
     CMultiListPrepare mlp(args);
 
-    if (mlp.aInfo && mlp.tupleSize > 1)
+    if (mlp.aInfo && mlp.tupleSize > 1 && ! PyErr_Occurred())
     {
         // Bug bug -- arraysize should come from first arg and must <= second arg
         int64_t arraySize1 = mlp.totalRows;
@@ -209,16 +210,17 @@ PyObject * ReIndex(PyObject * self, PyObject * args)
 
                 return SetFastArrayView(result);
             }
+            Py_DECREF(result);
         }
     }
-    else
+
+    if (! PyErr_Occurred())
     {
         PyErr_Format(PyExc_ValueError,
                      "ReIndex: Must pass in at least two params, "
                      "first param is the indexer");
     }
-    Py_INCREF(Py_None);
-    return Py_None;
+    return NULL;
 }
 
 //=================================================================================================================
-- 
2.43.0


From 8bbf07aec08f92c2d4b6311d9c84b7725901d877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:56 +0000
Subject: [PATCH 32/49] fix: Where read wrong elements for strided conditions
 or choices and for choices not a whole number of items apart

---
 src/BasicMath.cpp | 62 ++++++++++++++++++++++++++++++++---------------
 1 file changed, 43 insertions(+), 19 deletions(-)

diff --git a/src/BasicMath.cpp b/src/BasicMath.cpp
index ffb404f..07fea3b 100644
--- a/src/BasicMath.cpp
+++ b/src/BasicMath.cpp
@@ -3665,26 +3665,12 @@ bool WhereCallback(void * callbackArgT, int core, int64_t start, int64_t length)
                 //__m128i* pCondition128 = (__m128i*)pCondition;
                 //__m128i condition = _mm_min_epu8(*pCondition128, allones);
 
-                // calculate the address delta since we know input1 and input2 are the
-                // same itemsize assumes 64bit addressing
-                uint64_t delta = pInput2 - pInput1;
-                uint64_t ulength = (uint64_t)length;
-
-                for (uint64_t i = 0; i < ulength; i++)
+                // The inputs need not be a whole number of items apart
+                for (int64_t i = 0; i < length; i++)
                 {
-                    // The condition is either 1 or 0.  if 1 we use the address delta to get
-                    // from input2 to input1
-                    uint64_t test = pCondition[i] == 0;
-                    pOutput[i] = pInput1[i + delta * test];
+                    const T * address = pCondition[i] ? pInput1 : pInput2;
+                    pOutput[i] = address[i];
                 }
-
-                // This is slower on msft windows compiler
-                // does not produce cmove (conditional move instruction)
-                // for (uint64_t i = 0; i < ulength; i++) {
-                //   // The condition is either 1 or 0.  if 1 we use the address delta to
-                //   get from input2 to input1 T* address = pCondition[i] ? pInput1 :
-                //   pInput2; pOutput[i] = address[i];
-                //}
             }
             break;
         case SCALAR_MODE::FIRST_ARG_SCALAR:
@@ -3873,6 +3859,8 @@ bool WhereCallbackString(void * callbackArgT, int core, int64_t start, int64_t l
 //
 // rc.where(condition, (x,y), 0, dtype.num, dtype.itemsize)
 //
+static PyObject * WhereInternal(PyArrayObject * inBool1, PyObject * tuple, int64_t numpyOutputType, int64_t numpyItemSize);
+
 PyObject * Where(PyObject * self, PyObject * args)
 {
     PyArrayObject * inBool1 = nullptr;
@@ -3891,6 +3879,37 @@ PyObject * Where(PyObject * self, PyObject * args)
         return nullptr;
     }
 
+    // The loops below walk the condition and the choices in row-major order with the strides of their items:
+    // copy whatever is laid out in another way
+    const int copyFlags = NPY_ARRAY_C_CONTIGUOUS | NPY_ARRAY_NOTSWAPPED;
+    PyObject * condition = PyArray_CheckFromAny((PyObject *)inBool1, NULL, 0, 0, copyFlags, NULL);
+    PyObject * choices = PyTuple_New(PyTuple_GET_SIZE(tuple));
+    bool success = condition && choices;
+
+    for (Py_ssize_t i = 0; success && i < PyTuple_GET_SIZE(tuple); i++)
+    {
+        PyObject * item = PyTuple_GET_ITEM(tuple, i);
+        if (PyArray_Check(item))
+        {
+            item = PyArray_CheckFromAny(item, NULL, 0, 0, copyFlags, NULL);
+            success = item != nullptr;
+        }
+        else
+        {
+            Py_INCREF(item);
+        }
+        PyTuple_SET_ITEM(choices, i, item);
+    }
+
+    PyObject * result = success ? WhereInternal((PyArrayObject *)condition, choices, numpyOutputType, numpyItemSize) : nullptr;
+    Py_XDECREF(condition);
+    Py_XDECREF(choices);
+    return result;
+}
+
+static PyObject * WhereInternal(PyArrayObject * inBool1, PyObject * tuple, int64_t numpyOutputType, int64_t numpyItemSize)
+{
+
     if (PyArray_TYPE(inBool1) != 0)
     {
         PyErr_Format(PyExc_ValueError, "Where: first argument must be a boolean array");
@@ -4008,7 +4027,7 @@ PyObject * Where(PyObject * self, PyObject * args)
             {
                 free(extraAlloc1);
             }
-            if (extraAlloc2 == nullptr)
+            if (extraAlloc2)
             {
                 free(extraAlloc2);
             }
@@ -4019,6 +4038,11 @@ PyObject * Where(PyObject * self, PyObject * args)
         return nullptr;
     }
 
+    if (PyErr_Occurred())
+    {
+        return nullptr;
+    }
+
     // punt to numpy
     Py_INCREF(Py_None);
     return Py_None;
-- 
2.43.0


From 77e18f1589abe1e28ea2835d03cf50ce878b9b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:22 +0000
Subject: [PATCH 33/49] fix: IsMember read strided and byte-swapped columns as
 if contiguous, 0.0 was not found when the haystack held -0.0, a lookup miss
 in a full hash table threw from a worker thread (aborting), int8/int16
 categorical lookups with the prime mode wrote outside the table, long double
 and complex columns returned uninitialised memory, and string tables of prime
 size degenerated to a few buckets

---
 src/HashFunctions.cpp |  29 ++++++++-
 src/HashLinear.cpp    | 147 ++++++++++++++++++++++++++++++++----------
 src/HashLinear.h      |  20 ++++++
 3 files changed, 160 insertions(+), 36 deletions(-)

diff --git a/src/HashFunctions.cpp b/src/HashFunctions.cpp
index 46b0770..8256419 100644
--- a/src/HashFunctions.cpp
+++ b/src/HashFunctions.cpp
@@ -62,6 +62,15 @@ PyObject * IsMemberCategorical(PyObject * self, PyObject * args)
         if (! PyArg_ParseTuple(args, "O!O!iL", &PyArray_Type, &inArr1, &PyArray_Type, &inArr2, &hashMode, &hintSize))
             return NULL;
     }
+    CHashInput input1(inArr1);
+    CHashInput input2(inArr2);
+    if (! input1.pArray || ! input2.pArray)
+    {
+        return NULL;
+    }
+    inArr1 = input1.pArray;
+    inArr2 = input2.pArray;
+
     int32_t arrayType1 = PyArray_TYPE(inArr1);
     int32_t arrayType2 = PyArray_TYPE(inArr2);
 
@@ -131,6 +140,12 @@ PyObject * IsMemberCategorical(PyObject * self, PyObject * args)
         return NULL;
     }
 
+    if (arrayType1 == NPY_LONGDOUBLE || PyTypeNum_ISCOMPLEX(arrayType1))
+    {
+        PyErr_Format(PyExc_ValueError, "IsMemberCategorical does not support %s", NpyToString(arrayType1));
+        return NULL;
+    }
+
     int64_t arraySize1 = ArrayLength(inArr1);
     int64_t arraySize2 = ArrayLength(inArr2);
 
@@ -152,7 +167,7 @@ PyObject * IsMemberCategorical(PyObject * self, PyObject * args)
                                                       arraySize2, sizeType2, (const char *)pDataIn2, HASH_MODE(hashMode), hintSize,
                                                       arrayType1 == NPY_UNICODE);
         }
-        else if (arrayType1 == NPY_FLOAT32 || arrayType1 == NPY_FLOAT64 || arrayType1 == NPY_LONGDOUBLE)
+        else if (arrayType1 == NPY_FLOAT32 || arrayType1 == NPY_FLOAT64)
         {
             LOGGING("Calling float!\n");
             if (arraySize1 < 2100000000)
@@ -191,6 +206,7 @@ PyObject * IsMemberCategorical(PyObject * self, PyObject * args)
     }
     catch (std::runtime_error const & e)
     {
+        Py_XDECREF((PyObject *)indexArray);
         PyErr_Format(PyExc_RuntimeError, e.what());
         return NULL;
     }
@@ -376,6 +392,17 @@ PyObject * IsMemberCategoricalFixup(PyObject * self, PyObject * args)
                            &unique2Length, &baseoffset1, &baseoffset2))
         return NULL;
 
+    CHashInput input1(inArr1);
+    CHashInput input2(inArr2);
+    CHashInput inputUnique(isMemberUnique);
+    if (! input1.pArray || ! input2.pArray || ! inputUnique.pArray)
+    {
+        return NULL;
+    }
+    inArr1 = input1.pArray;
+    inArr2 = input2.pArray;
+    isMemberUnique = inputUnique.pArray;
+
     int64_t const arraySize1 = (int64_t)ArrayLength(inArr1);
     int64_t const arraySize2 = (int64_t)ArrayLength(inArr2);
     int64_t const arraySizeUnique64 = (int64_t)ArrayLength(isMemberUnique);
diff --git a/src/HashLinear.cpp b/src/HashLinear.cpp
index 033a06d..2867243 100644
--- a/src/HashLinear.cpp
+++ b/src/HashLinear.cpp
@@ -576,7 +576,8 @@ RT_FORCEINLINE void CHashLinear<T, U>::InternalGetLocation(U i, HashLocation * p
 
         if (hash == h)
         {
-            throw(std::runtime_error("About to go into infinite loop, need a smaller dataset"));
+            // every slot was searched
+            break;
         }
     }
     // Not found
@@ -613,7 +614,8 @@ RT_FORCEINLINE void CHashLinear<T, U>::InternalGetLocationCategorical(U i, HashL
 
         if (hash == h)
         {
-            throw(std::runtime_error("About to go into infinite loop, need a smaller dataset"));
+            // every slot was searched
+            break;
         }
     }
     // Not found
@@ -1261,7 +1263,10 @@ static void IsMemberMK(void * pHashLinearVoid, int64_t arraySize, void * pInputT
 
                 if (hash == h)
                 {
-                    throw(std::runtime_error("About to go into infinite loop, need a smaller dataset"));
+                    // every slot was searched
+                    pLocationOutput[i] = BAD_INDEX;
+                    pBoolOutput[i] = 0;
+                    break;
                 }
                 // printf("[%d] continue\n", (int)i);
                 continue;
@@ -1301,6 +1306,8 @@ static void IsMemberMK(void * pHashLinearVoid, int64_t arraySize, void * pInputT
 // HASH_FLOAT4  h ^= h >> 33; h *= 0xff51afd7ed558ccd; h ^= h >> 33; h *=
 // 0xc4ceb9fe1a85ec53; h ^= h >> 33; h = h & (HashSize - 1);
 
+// NOTE: -0.0 and 0.0 are equal, so they must hash alike
+
 //------------------
 // WHEN MULT SIZE *4
 // 28000000 entries had 1018080 collisions   22388609 unique
@@ -1317,22 +1324,27 @@ static void IsMemberMK(void * pHashLinearVoid, int64_t arraySize, void * pInputT
 // SCORE 5 seconds #define HASH_FLOAT1  h ^= (h >> 23) ^ (h << 32); h = h %
 // HashSize;
 #define HASH_FLOAT1 \
+    h = (item == 0) ? 0 : h; \
     h ^= (h >> 20); \
     h = h % HashSize;
 //#define HASH_FLOAT2  h ^= (h >> 23); h = h & (HashSize - 1);
 // -- NOT BAD 11 #define HASH_FLOAT2  h ^= (h >> 23); h = h & (HashSize - 1);
 // -- NOT BAD 10.9 #define HASH_FLOAT2  h ^= (h >> 16); h = h & (HashSize - 1);
 #define HASH_FLOAT2 \
+    h = (item == 0) ? 0 : h; \
     h ^= (h >> 20); \
     h = h & (HashSize - 1);
 #define HASH_FLOAT3 \
+    h = (item == 0) ? 0 : h; \
     h ^= h >> 32; \
     h = h % HashSize;
 
 //------------------------------------------------------------------------------
 // hash for 64 bit float
 //#define HASH_FLOAT4  h ^= h >> 32; h = h & (HashSize - 1);
-#define HASH_FLOAT4 h = fasthash64_8(h) & (HashSize - 1);
+#define HASH_FLOAT4 \
+    h = (item == 0) ? 0 : h; \
+    h = fasthash64_8(h) & (HashSize - 1);
 //#define HASH_FLOAT4  h ^= (h >> 44) ^ (h >> 32) ^ (h >> 17) ^ (h >> 4); h = h
 //& (HashSize - 1);
 
@@ -1769,7 +1781,10 @@ void IsMember(void * pHashLinearVoid, int64_t arraySize, void * pHashListT, int8
                             }
                             if (hash == static_cast<uint64_t>(h))
                             {
-                                throw(std::runtime_error("About to go into infinite loop, need a smaller dataset"));
+                                // every slot was searched
+                                pLocationOutput[i] = BAD_INDEX;
+                                pBoolOutput[i] = 0;
+                                break;
                             }
                             continue;
                         }
@@ -1811,7 +1826,10 @@ void IsMember(void * pHashLinearVoid, int64_t arraySize, void * pHashListT, int8
                             }
                             if (hash == h)
                             {
-                                throw(std::runtime_error("About to go into infinite loop, need a smaller dataset"));
+                                // every slot was searched
+                                pLocationOutput[i] = BAD_INDEX;
+                                pBoolOutput[i] = 0;
+                                break;
                             }
                             continue;
                         }
@@ -1855,7 +1873,10 @@ void IsMember(void * pHashLinearVoid, int64_t arraySize, void * pHashListT, int8
                             }
                             if (hash == static_cast<uint64_t>(h))
                             {
-                                throw(std::runtime_error("About to go into infinite loop, need a smaller dataset"));
+                                // every slot was searched
+                                pLocationOutput[i] = BAD_INDEX;
+                                pBoolOutput[i] = 0;
+                                break;
                             }
                             continue;
                         }
@@ -1896,7 +1917,10 @@ void IsMember(void * pHashLinearVoid, int64_t arraySize, void * pHashListT, int8
                             }
                             if (hash == h)
                             {
-                                throw(std::runtime_error("About to go into infinite loop, need a smaller dataset"));
+                                // every slot was searched
+                                pLocationOutput[i] = BAD_INDEX;
+                                pBoolOutput[i] = 0;
+                                break;
                             }
                             continue;
                         }
@@ -2282,7 +2306,10 @@ void IsMemberFloat(void * pHashLinearVoid, int64_t arraySize, void * pHashListT,
                             }
                             if (hash == h)
                             {
-                                throw(std::runtime_error("About to go into infinite loop, need a smaller dataset"));
+                                // every slot was searched
+                                pLocationOutput[i] = BAD_INDEX;
+                                pBoolOutput[i] = 0;
+                                break;
                             }
                             continue;
                         }
@@ -2335,7 +2362,10 @@ void IsMemberFloat(void * pHashLinearVoid, int64_t arraySize, void * pHashListT,
                             }
                             if (hash == h)
                             {
-                                throw(std::runtime_error("About to go into infinite loop, need a smaller dataset"));
+                                // every slot was searched
+                                pLocationOutput[i] = BAD_INDEX;
+                                pBoolOutput[i] = 0;
+                                break;
                             }
                             continue;
                         }
@@ -2391,8 +2421,10 @@ void IsMemberFloat(void * pHashLinearVoid, int64_t arraySize, void * pHashListT,
                             }
                             if (hash == h)
                             {
-                                throw(std::runtime_error(
-                                    "We are about to enter an infinite loop, we need a smaller set of uniques"));
+                                // every slot was searched
+                                pLocationOutput[i] = BAD_INDEX;
+                                pBoolOutput[i] = 0;
+                                break;
                             }
                         }
                         else
@@ -2444,8 +2476,10 @@ void IsMemberFloat(void * pHashLinearVoid, int64_t arraySize, void * pHashListT,
                             }
                             if (hash == h)
                             {
-                                throw(std::runtime_error(
-                                    "We are about to enter an infinite loop, we need a smaller set of uniques"));
+                                // every slot was searched
+                                pLocationOutput[i] = BAD_INDEX;
+                                pBoolOutput[i] = 0;
+                                break;
                             }
                             continue;
                         }
@@ -3816,7 +3850,8 @@ RT_FORCEINLINE void CHashLinear<T, U>::InternalGetLocationString(int64_t i, Hash
         }
         if (hash == h)
         {
-            throw(std::runtime_error("We are about to enter an infinite loop. We need a smaller set of uniques"));
+            // every slot was searched
+            break;
         }
     }
     // Not found
@@ -3857,7 +3892,8 @@ RT_FORCEINLINE void CHashLinear<T, U>::InternalGetLocationUnicode(int64_t i, Has
         }
         if (hash == h)
         {
-            throw(std::runtime_error("We are about to enter an infinite loop. We need a smaller set of uniques"));
+            // every slot was searched
+            break;
         }
     }
     // Not found
@@ -3902,7 +3938,8 @@ RT_FORCEINLINE void CHashLinear<T, U>::InternalGetLocationString2(int64_t i, Has
         }
         if (hash == h)
         {
-            throw(std::runtime_error("We are about to enter an infinite loop. We need a smaller set of uniques"));
+            // every slot was searched
+            break;
         }
     }
     // Not found
@@ -3947,7 +3984,8 @@ RT_FORCEINLINE void CHashLinear<T, U>::InternalGetLocationUnicode2(int64_t i, Ha
         }
         if (hash == h)
         {
-            throw(std::runtime_error("We are about to enter an infinite loop. We need a smaller set of uniques"));
+            // every slot was searched
+            break;
         }
     }
     // Not found
@@ -3985,7 +4023,8 @@ RT_FORCEINLINE void CHashLinear<T, U>::InternalGetLocationStringCategorical(int6
         }
         if (hash == h)
         {
-            throw(std::runtime_error("We are about to enter an infinite loop. We need a smaller set of uniques"));
+            // every slot was searched
+            break;
         }
     }
     // Not found
@@ -4028,7 +4067,8 @@ RT_FORCEINLINE void CHashLinear<T, U>::InternalGetLocationString2Categorical(int
         }
         if (hash == h)
         {
-            throw(std::runtime_error("We are about to enter an infinite loop. We need a smaller set of uniques"));
+            // every slot was searched
+            break;
         }
     }
     // Not found
@@ -4099,7 +4139,10 @@ static int64_t IsMemberStringCategorical(void * pHashLinearVoid, int64_t arraySi
                         }
                         if (hash == h)
                         {
-                            throw(std::runtime_error("We are about to enter an infinite loop. We need a smaller set of uniques"));
+                            // every slot was searched
+                            pLocationOutput[i] = 0;
+                            missed = 1;
+                            break;
                         }
                         continue;
                     }
@@ -4142,7 +4185,10 @@ static int64_t IsMemberStringCategorical(void * pHashLinearVoid, int64_t arraySi
                         }
                         if (hash == h)
                         {
-                            throw(std::runtime_error("We are about to enter an infinite loop. We need a smaller set of uniques"));
+                            // every slot was searched
+                            pLocationOutput[i] = 0;
+                            missed = 1;
+                            break;
                         }
                         continue;
                     }
@@ -4192,7 +4238,10 @@ static int64_t IsMemberStringCategorical(void * pHashLinearVoid, int64_t arraySi
                         }
                         if (hash == h)
                         {
-                            throw(std::runtime_error("We are about to enter an infinite loop. We need a smaller set of uniques"));
+                            // every slot was searched
+                            pLocationOutput[i] = 0;
+                            missed = 1;
+                            break;
                         }
                         continue;
                     }
@@ -4236,7 +4285,10 @@ static int64_t IsMemberStringCategorical(void * pHashLinearVoid, int64_t arraySi
                         }
                         if (hash == h)
                         {
-                            throw(std::runtime_error("We are about to enter an infinite loop. We need a smaller set of uniques"));
+                            // every slot was searched
+                            pLocationOutput[i] = 0;
+                            missed = 1;
+                            break;
                         }
                         continue;
                     }
@@ -4540,8 +4592,9 @@ int64_t IsMemberHashCategorical(int64_t size1, void * pInput1, int64_t size2, vo
     {
     case 1:
         {
-            CHashLinear<uint8_t, int32_t> * pHashLinear = new CHashLinear<uint8_t, int32_t>(hashMode);
-            pHashLinear->MakeHashLocation(size2, (uint8_t *)pInput2, hintSize);
+            // the hash is the value itself, which fits the smallest table of this mode
+            CHashLinear<uint8_t, int32_t> * pHashLinear = new CHashLinear<uint8_t, int32_t>(HASH_MODE_MASK);
+            pHashLinear->MakeHashLocation(size2, (uint8_t *)pInput2, 256 / 2);
             missed = pHashLinear->IsMemberCategorical(size1, (uint8_t *)pInput1, pOutput);
             delete pHashLinear;
             return missed;
@@ -4550,8 +4603,9 @@ int64_t IsMemberHashCategorical(int64_t size1, void * pInput1, int64_t size2, vo
 
     case 2:
         {
-            CHashLinear<uint16_t, int32_t> * pHashLinear = new CHashLinear<uint16_t, int32_t>(hashMode);
-            pHashLinear->MakeHashLocation(size2, (uint16_t *)pInput2, hintSize);
+            // the hash is the value itself, which fits the smallest table of this mode
+            CHashLinear<uint16_t, int32_t> * pHashLinear = new CHashLinear<uint16_t, int32_t>(HASH_MODE_MASK);
+            pHashLinear->MakeHashLocation(size2, (uint16_t *)pInput2, 65536 / 2);
             missed = pHashLinear->IsMemberCategorical(size1, (uint16_t *)pInput1, pOutput);
             delete pHashLinear;
             return missed;
@@ -4628,8 +4682,9 @@ int64_t IsMemberHashCategorical64(int64_t size1, void * pInput1, int64_t size2,
     {
     case 1:
         {
-            CHashLinear<uint8_t, int64_t> * pHashLinear = new CHashLinear<uint8_t, int64_t>(hashMode);
-            pHashLinear->MakeHashLocation(size2, (uint8_t *)pInput2, hintSize);
+            // the hash is the value itself, which fits the smallest table of this mode
+            CHashLinear<uint8_t, int64_t> * pHashLinear = new CHashLinear<uint8_t, int64_t>(HASH_MODE_MASK);
+            pHashLinear->MakeHashLocation(size2, (uint8_t *)pInput2, 256 / 2);
             missed = pHashLinear->IsMemberCategorical(size1, (uint8_t *)pInput1, pOutput);
             delete pHashLinear;
             return missed;
@@ -4638,8 +4693,9 @@ int64_t IsMemberHashCategorical64(int64_t size1, void * pInput1, int64_t size2,
 
     case 2:
         {
-            CHashLinear<uint16_t, int64_t> * pHashLinear = new CHashLinear<uint16_t, int64_t>(hashMode);
-            pHashLinear->MakeHashLocation(size2, (uint16_t *)pInput2, hintSize);
+            // the hash is the value itself, which fits the smallest table of this mode
+            CHashLinear<uint16_t, int64_t> * pHashLinear = new CHashLinear<uint16_t, int64_t>(HASH_MODE_MASK);
+            pHashLinear->MakeHashLocation(size2, (uint16_t *)pInput2, 65536 / 2);
             missed = pHashLinear->IsMemberCategorical(size1, (uint16_t *)pInput1, pOutput);
             delete pHashLinear;
             return missed;
@@ -4766,7 +4822,8 @@ template <typename U>
 int64_t IsMemberHashStringCategorical(int64_t size1, int64_t strWidth1, const char * pInput1, int64_t size2, int64_t strWidth2,
                                       const char * pInput2, U * pOutput, HASH_MODE hashMode, int64_t hintSize, bool isUnicode)
 {
-    CHashLinear<uint64_t, U> * pHashLinear = new CHashLinear<uint64_t, U>(hashMode);
+    // strings are hashed with a mask, which only spreads over a table whose size is a power of 2
+    CHashLinear<uint64_t, U> * pHashLinear = new CHashLinear<uint64_t, U>(HASH_MODE_MASK);
 
     LOGGING("MakeHashLocationString  %lld  %p  strdwidth2: %lld  hashMode %d\n", size2, pInput2, strWidth2, (int)hashMode);
 
@@ -4824,7 +4881,8 @@ void IsMemberHashString32(int64_t size1, int64_t strWidth1, const char * pInput1
                           const char * pInput2, U * pOutput, int8_t * pBoolOutput, HASH_MODE hashMode, int64_t hintSize,
                           bool isUnicode)
 {
-    CHashLinear<uint64_t, U> * pHashLinear = new CHashLinear<uint64_t, U>(hashMode);
+    // strings are hashed with a mask, which only spreads over a table whose size is a power of 2
+    CHashLinear<uint64_t, U> * pHashLinear = new CHashLinear<uint64_t, U>(HASH_MODE_MASK);
 
     LOGGING("MakeHashLocationString  %lld  %p  strdwidth2: %lld  hashMode %d\n", size2, pInput2, strWidth2, (int)hashMode);
 
@@ -5712,6 +5770,15 @@ PyObject * IsMember32(PyObject * self, PyObject * args)
         if (! PyArg_ParseTuple(args, "O!O!iL", &PyArray_Type, &inArr1, &PyArray_Type, &inArr2, &hashMode, &hintSize))
             return NULL;
     }
+    CHashInput input1(inArr1);
+    CHashInput input2(inArr2);
+    if (! input1.pArray || ! input2.pArray)
+    {
+        return NULL;
+    }
+    inArr1 = input1.pArray;
+    inArr2 = input2.pArray;
+
     NPY_TYPES arrayType1 = static_cast<NPY_TYPES>(PyArray_TYPE(inArr1));
     NPY_TYPES arrayType2 = static_cast<NPY_TYPES>(PyArray_TYPE(inArr2));
 
@@ -5747,6 +5814,12 @@ PyObject * IsMember32(PyObject * self, PyObject * args)
         return NULL;
     }
 
+    if (arrayType1 == NPY_LONGDOUBLE || PyTypeNum_ISCOMPLEX(arrayType1))
+    {
+        PyErr_Format(PyExc_ValueError, "IsMember32 does not support %s", NpyToString(arrayType1));
+        return NULL;
+    }
+
     int64_t arraySize1 = ArrayLength(inArr1);
     int64_t arraySize2 = ArrayLength(inArr2);
 
@@ -5850,6 +5923,9 @@ PyObject * IsMember32(PyObject * self, PyObject * args)
                     // Performance gain: if STRING and itemsize matches and itemsize is 1 or 2
                     // --> Send to IsMemberHash32
                     // sizeType2 is taken to the be fixed length of each string
+                    // NOTE: allocates its own index array
+                    Py_DECREF((PyObject *)indexArray);
+                    indexArray = NULL;
                     IsMemberHashString32Pre(&indexArray, inArr1, arraySize1, sizeType1, (const char *)pDataIn1, arraySize2,
                                             sizeType2, (const char *)pDataIn2, pDataOut1, HASH_MODE(hashMode), hintSize,
                                             arrayType1 == NPY_UNICODE);
@@ -5898,7 +5974,8 @@ PyObject * IsMember32(PyObject * self, PyObject * args)
     }
     catch (std::runtime_error const & e)
     {
-        // TODO: Need to release some objects that may have been allocated? E.g. 'boolArray', 'indexArray'.
+        Py_XDECREF((PyObject *)boolArray);
+        Py_XDECREF((PyObject *)indexArray);
         PyErr_Format(PyExc_RuntimeError, e.what());
         return NULL;
     }
diff --git a/src/HashLinear.h b/src/HashLinear.h
index d0c39b7..560c296 100644
--- a/src/HashLinear.h
+++ b/src/HashLinear.h
@@ -10,6 +10,26 @@ enum HASH_MODE
     HASH_MODE_MASK = 2
 };
 
+//---------------------------------------
+// Holds an array as the hash functions read it: gapless, in row-major order and in native byte order
+class CHashInput
+{
+public:
+    explicit CHashInput(PyArrayObject * inArr)
+        : pArray((PyArrayObject *)PyArray_CheckFromAny((PyObject *)inArr, NULL, 0, 0,
+                                                       NPY_ARRAY_C_CONTIGUOUS | NPY_ARRAY_ALIGNED | NPY_ARRAY_NOTSWAPPED, NULL))
+    {
+    }
+    ~CHashInput()
+    {
+        Py_XDECREF(pArray);
+    }
+    CHashInput(CHashInput const &) = delete;
+    CHashInput & operator=(CHashInput const &) = delete;
+
+    PyArrayObject * const pArray; // NULL with a Python error set when the conversion failed
+};
+
 struct UINT128
 {
     uint64_t _val1;
-- 
2.43.0


From 41ef8cbc2e7a678487b747dc85b51c27398973f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:28 +0000
Subject: [PATCH 34/49] fix: grouping read a strided filter as dense, the prime
 hash mode merged groups, and a size hint smaller than the number of keys
 aborted or crashed the process (MultiKeyHash, MultiKeyRolling,
 MultiKeyGroupBy32Super, cutoffs)

---
 src/HashLinear.cpp | 95 +++++++++++++++++++++++++++++++++-------------
 src/MultiKey.cpp   | 68 +++++++++++++++++++++++++++------
 2 files changed, 124 insertions(+), 39 deletions(-)

diff --git a/src/HashLinear.cpp b/src/HashLinear.cpp
index 2867243..7e624ad 100644
--- a/src/HashLinear.cpp
+++ b/src/HashLinear.cpp
@@ -5131,17 +5131,18 @@ uint64_t DoLinearHash(int64_t totalRows, int64_t totalItemSize, const char * pIn
                       int64_t hintSize, bool * pBoolFilter)
 {
     uint64_t numUnique = 0;
-    CHashLinear<HASH_TYPE, INDEX_TYPE> * pHashLinear = new CHashLinear<HASH_TYPE, INDEX_TYPE>(hashMode, false);
+    std::unique_ptr<CHashLinear<HASH_TYPE, INDEX_TYPE>> pHashLinear{ new CHashLinear<HASH_TYPE, INDEX_TYPE>(hashMode, false) };
     INDEX_TYPE * pFirstArray = (INDEX_TYPE *)pHashLinear->AllocMemory(hintSize, -2, sizeof(INDEX_TYPE) * (totalRows + 1), false);
 
+    // the caller owns these, also when the hashing throws
+    *pHashTableAny = pHashLinear->pHashTableAny;
+    *hashTableSize = pHashLinear->HashTableAllocSize;
+    *pFirstArrayVoid = pFirstArray;
+
     // Handles any size
     numUnique = pHashLinear->GroupBy(totalRows, totalItemSize, pInput1, coreType, pIndexArray, pFirstArray, hashMode, hintSize,
                                      pBoolFilter);
 
-    *pHashTableAny = pHashLinear->pHashTableAny;
-    *hashTableSize = pHashLinear->HashTableAllocSize;
-    *pFirstArrayVoid = pFirstArray;
-    delete pHashLinear;
     return numUnique;
 }
 
@@ -5153,17 +5154,17 @@ uint64_t DoLinearHashFloat(int64_t totalRows, int64_t totalItemSize, const char
                            int64_t hintSize, bool * pBoolFilter)
 {
     uint64_t numUnique = 0;
-    CHashLinear<HASH_TYPE, INDEX_TYPE> * pHashLinear = new CHashLinear<HASH_TYPE, INDEX_TYPE>(hashMode, false);
+    std::unique_ptr<CHashLinear<HASH_TYPE, INDEX_TYPE>> pHashLinear{ new CHashLinear<HASH_TYPE, INDEX_TYPE>(hashMode, false) };
     INDEX_TYPE * pFirstArray = (INDEX_TYPE *)pHashLinear->AllocMemory(hintSize, -1, sizeof(INDEX_TYPE) * (totalRows + 1), false);
 
-    numUnique = pHashLinear->GroupByFloat(totalRows, totalItemSize, (HASH_TYPE *)pInput1, coreType, pIndexArray, pFirstArray,
-                                          hashMode, hintSize, pBoolFilter);
-
-    // Copy these before they get deleted
+    // the caller owns these, also when the hashing throws
     *pHashTableAny = pHashLinear->pHashTableAny;
     *hashTableSize = pHashLinear->HashTableAllocSize;
     *pFirstArrayVoid = pFirstArray;
-    delete pHashLinear;
+
+    numUnique = pHashLinear->GroupByFloat(totalRows, totalItemSize, (HASH_TYPE *)pInput1, coreType, pIndexArray, pFirstArray,
+                                          hashMode, hintSize, pBoolFilter);
+
     return numUnique;
 }
 
@@ -5177,21 +5178,20 @@ uint64_t DoLinearHashItemSize(int64_t totalRows, int64_t totalItemSize, const ch
 {
     uint64_t numUnique = 0;
 
-    CHashLinear<HASH_TYPE, INDEX_TYPE> * pHashLinear = new CHashLinear<HASH_TYPE, INDEX_TYPE>(hashMode, false);
+    std::unique_ptr<CHashLinear<HASH_TYPE, INDEX_TYPE>> pHashLinear{ new CHashLinear<HASH_TYPE, INDEX_TYPE>(hashMode, false) };
     INDEX_TYPE * pFirstArray = (INDEX_TYPE *)pHashLinear->AllocMemory(hintSize, -1, sizeof(INDEX_TYPE) * (totalRows + 1), false);
 
+    // the caller owns these, also when the hashing throws
+    *pHashTableAny = pHashLinear->pHashTableAny;
+    *hashTableSize = pHashLinear->HashTableAllocSize;
+    *pFirstArrayVoid = pFirstArray;
+
     if (pFirstArray)
     {
         numUnique = pHashLinear->GroupByItemSize(totalRows, totalItemSize, (HASH_TYPE *)pInput1, coreType, pIndexArray,
                                                  pFirstArray, hashMode, hintSize, pBoolFilter);
     }
 
-    // Copy these before they get deleted
-    *pHashTableAny = pHashLinear->pHashTableAny;
-    *hashTableSize = pHashLinear->HashTableAllocSize;
-    *pFirstArrayVoid = pFirstArray;
-
-    delete pHashLinear;
     return numUnique;
 }
 
@@ -5211,6 +5211,9 @@ uint64_t GroupByInternal(void ** pFirstArray, void ** pHashTableAny, int64_t * h
         hintSize = totalRows;
     }
 
+    // the grouping loops always mask, which needs a table of a power of two
+    hashMode = HASH_MODE_MASK;
+
     //
     // TODO: Need to add special handling for bools
     //
@@ -6039,6 +6042,7 @@ static uint64_t GroupByImpl(const int64_t partitionLength, // may be 0
             int64_t HashTableSize;
             int64_t NumUnique;
             int64_t TotalRows;
+            bool Failed;
         };
 
         // MT callback
@@ -6094,14 +6098,28 @@ static uint64_t GroupByImpl(const int64_t partitionLength, // may be 0
             pIndexArray += partOffset;
             pInput1 += (partOffset * cb->TotalItemSize);
 
+            pPartition->pFirstArray = NULL;
+            pPartition->pHashTableAny = NULL;
+            pPartition->HashTableSize = 0;
+            pPartition->NumUnique = 0;
+            pPartition->Failed = false;
+
             // NOW HASH the data
-            pPartition->NumUnique = (int64_t)GroupByInternal<_Index>(
-                // These three are returned, they have to be deallocated
-                reinterpret_cast<void **>(&pPartition->pFirstArray), &pPartition->pHashTableAny, &pPartition->HashTableSize,
+            // an exception must not leave a worker thread
+            try
+            {
+                pPartition->NumUnique = (int64_t)GroupByInternal<_Index>(
+                    // These three are returned, they have to be deallocated
+                    reinterpret_cast<void **>(&pPartition->pFirstArray), &pPartition->pHashTableAny, &pPartition->HashTableSize,
 
-                partLength, cb->TotalItemSize, pInput1,
-                cb->CoreType, // set to -1 for unknown
-                pIndexArray, cb->HashMode, cb->HintSize, pBoolFilter);
+                    partLength, cb->TotalItemSize, pInput1,
+                    cb->CoreType, // set to -1 for unknown
+                    pIndexArray, cb->HashMode, cb->HintSize, pBoolFilter);
+            }
+            catch (std::runtime_error const &)
+            {
+                pPartition->Failed = true;
+            }
 
             return true;
         };
@@ -6129,6 +6147,20 @@ static uint64_t GroupByImpl(const int64_t partitionLength, // may be 0
 
         g_cMathWorker->DoMultiThreadedWork(static_cast<int>(partitionLength), lambdaMKGBCallback, &stMKGBCallback);
 
+        for (int i = 0; i < partitionLength; i++)
+        {
+            if (pPartitions[i].Failed)
+            {
+                for (int j = 0; j < partitionLength; j++)
+                {
+                    WorkSpaceFreeAllocLarge(pPartitions[j].pHashTableAny, pPartitions[j].HashTableSize);
+                }
+                g_cMathWorker->NoCaching = false;
+                WORKSPACE_FREE(pPartitions);
+                throw(std::runtime_error("We need a smaller set of uniques"));
+            }
+        }
+
         // firstArray = *stMKGBCallback.pFirstArray;
         // NOW COLLECT ALL THE RESULTS
 
@@ -6187,9 +6219,18 @@ static uint64_t GroupByImpl(const int64_t partitionLength, // may be 0
         // parallel mode, it has to shut down the low level caching Further, the
         // size of the first array is not known until the unique count is known
 
-        uint64_t numUnique =
-            GroupByInternal<_Index>(reinterpret_cast<void **>(&pFirstArray), &pHashTableAny, &hashTableSize, totalRows,
-                                    totalItemSize, pInput1, coreType, pIndexArray, hashMode, hintSize, pBoolFilter);
+        uint64_t numUnique = 0;
+        try
+        {
+            numUnique =
+                GroupByInternal<_Index>(reinterpret_cast<void **>(&pFirstArray), &pHashTableAny, &hashTableSize, totalRows,
+                                        totalItemSize, pInput1, coreType, pIndexArray, hashMode, hintSize, pBoolFilter);
+        }
+        catch (std::runtime_error const &)
+        {
+            WorkSpaceFreeAllocLarge(pHashTableAny, hashTableSize);
+            throw;
+        }
 
         // Move uniques into proper array size
         // Free HashTableAllocSize
diff --git a/src/MultiKey.cpp b/src/MultiKey.cpp
index 1571bec..79d5845 100644
--- a/src/MultiKey.cpp
+++ b/src/MultiKey.cpp
@@ -394,6 +394,22 @@ public:
                     {
                         pBoolFilterObject = (PyArrayObject *)filterArray;
                     }
+                    // the hash loops read the filter as a dense array
+                    if (! PyArray_ISCARRAY_RO(pBoolFilterObject))
+                    {
+                        PyArrayObject * const pDense = (PyArrayObject *)PyArray_CheckFromAny(
+                            (PyObject *)pBoolFilterObject, NULL, 0, 0, NPY_ARRAY_CARRAY_RO, NULL);
+                        if (filterObjAllocated)
+                        {
+                            Py_DECREF(pBoolFilterObject);
+                        }
+                        pBoolFilterObject = pDense;
+                        filterObjAllocated = pDense != NULL;
+                        if (! pDense)
+                        {
+                            return;
+                        }
+                    }
                     pBoolFilter = (bool *)PyArray_BYTES(pBoolFilterObject);
                     LOGGING("Bool array is at %p\n", pBoolFilter);
                 }
@@ -1196,13 +1212,10 @@ PyObject * MultiKeyGroupBy32Super(PyObject * self, PyObject * args)
                     "hintsize: %lld  filter: %p  coreType:%d\n",
                     numpyIndexType, mkp.totalRows, mkp.totalItemSize, mkp.hintSize, mkp.pBoolFilter, coreType);
 
-                Py_BEGIN_ALLOW_THREADS
-
-                    numUnique = (int64_t)GroupBy32Super(mkp.totalRows, mkp.totalItemSize, (const char *)mkp.pSuperArray, coreType,
-                                                        pIndexArray, pNextArray, pUniqueArray, pUniqueCountArray,
-                                                        HASH_MODE(hashMode), mkp.hintSize, mkp.pBoolFilter);
-
-                Py_END_ALLOW_THREADS
+                // the GIL stays held: the hash table comes from a shared cache, and a full table throws
+                numUnique = (int64_t)GroupBy32Super(mkp.totalRows, mkp.totalItemSize, (const char *)mkp.pSuperArray, coreType,
+                                                    pIndexArray, pNextArray, pUniqueArray, pUniqueCountArray, HASH_MODE(hashMode),
+                                                    mkp.hintSize, mkp.pBoolFilter);
 
                     // now one based, so zero reserved
                     //++numUnique;
@@ -1463,6 +1476,12 @@ PyObject * MultiKeyRolling(PyObject * self, PyObject * args)
     {
         PyArrayObject * firstObject = mkp.aInfo[0].pObject;
 
+        if (mkp.totalItemSize > 16)
+        {
+            PyErr_Format(PyExc_ValueError, "MultiKeyRolling keys can be at most 16 bytes wide, not %lld", mkp.totalItemSize);
+            return NULL;
+        }
+
         PyArrayObject * indexArray = AllocateLikeNumpyArray(firstObject, NPY_INT64);
         PyArrayObject * runningCountArray = AllocateLikeNumpyArray(firstObject, NPY_INT64);
 
@@ -1473,9 +1492,21 @@ PyObject * MultiKeyRolling(PyObject * self, PyObject * args)
         bool prevValue = g_cMathWorker->NoCaching;
         g_cMathWorker->NoCaching = true;
 
-        void * pKeepRolling =
-            MultiKeyRollingStep2(mkp.totalRows, mkp.totalItemSize, (const char *)mkp.pSuperArray, pIndexArray, pRunningCountArray,
-                                 HASH_MODE::HASH_MODE_MASK, hintSize, &numUnique, (void *)memPointer);
+        void * pKeepRolling = NULL;
+        try
+        {
+            pKeepRolling =
+                MultiKeyRollingStep2(mkp.totalRows, mkp.totalItemSize, (const char *)mkp.pSuperArray, pIndexArray,
+                                     pRunningCountArray, HASH_MODE::HASH_MODE_MASK, hintSize, &numUnique, (void *)memPointer);
+        }
+        catch (std::runtime_error const & e)
+        {
+            g_cMathWorker->NoCaching = prevValue;
+            Py_DECREF((PyObject *)indexArray);
+            Py_DECREF((PyObject *)runningCountArray);
+            PyErr_SetString(PyExc_RuntimeError, e.what());
+            return NULL;
+        }
 
         g_cMathWorker->NoCaching = prevValue;
 
@@ -1536,8 +1567,21 @@ PyObject * MultiKeyHash(PyObject * self, PyObject * args)
             int32_t * pBktSize = (int32_t *)PyArray_BYTES(bktSizeArray);
             int32_t * pLastArray = (int32_t *)PyArray_BYTES(lastArray);
 
-            MultiKeyHash32(mkp.totalRows, mkp.totalItemSize, (const char *)mkp.pSuperArray, pIndexArray, pRunningCountArray,
-                           pPrevArray, pNextArray, pFirstArray, HASH_MODE::HASH_MODE_MASK, mkp.hintSize, mkp.pBoolFilter);
+            try
+            {
+                MultiKeyHash32(mkp.totalRows, mkp.totalItemSize, (const char *)mkp.pSuperArray, pIndexArray, pRunningCountArray,
+                               pPrevArray, pNextArray, pFirstArray, HASH_MODE::HASH_MODE_MASK, mkp.hintSize, mkp.pBoolFilter);
+            }
+            catch (std::runtime_error const & e)
+            {
+                for (PyArrayObject * pArray :
+                     { indexArray, runningCountArray, prevArray, nextArray, firstArray, bktSizeArray, lastArray })
+                {
+                    Py_DECREF((PyObject *)pArray);
+                }
+                PyErr_SetString(PyExc_RuntimeError, e.what());
+                return NULL;
+            }
 
             assert(mkp.totalRows < 2100000000);
 
-- 
2.43.0


From 6d8209270643cfc4ce2279ffef2c319d1cd3bf9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:45 +0000
Subject: [PATCH 35/49] fix: the group bookkeeping calls (BinCount,
 GroupFromBinCount, MakeiNext, GroupByPack32, MakeiFirst, Combine*Filter,
 ReIndexGroups) read strided arrays as dense, left rows unset and ran past
 their arrays on other dtypes, empty arrays and out-of-range bins

---
 src/Convert.cpp  |  71 +++++++++++++++++++++++++--
 src/Merge.cpp    |  40 ++++++++++++++++
 src/MultiKey.cpp | 121 ++++++++++++++++++++++++++++++++++++++++-------
 3 files changed, 212 insertions(+), 20 deletions(-)

diff --git a/src/Convert.cpp b/src/Convert.cpp
index 8a80724..8d93712 100644
--- a/src/Convert.cpp
+++ b/src/Convert.cpp
@@ -3,6 +3,7 @@
 #include "MathWorker.h"
 #include "Convert.h"
 #include "MultiKey.h"
+#include "HashLinear.h"
 #include "Recycler.h"
 #include "Reduce.h"
 
@@ -1443,6 +1444,20 @@ PyObject * CombineFilter(PyObject * self, PyObject * args)
         return NULL;
     }
 
+    // the loops below want dense arrays
+    CHashInput const denseKey(inArr1);
+    if (! denseKey.pArray)
+    {
+        return NULL;
+    }
+    inArr1 = denseKey.pArray;
+    CHashInput const denseFilter(inFilter);
+    if (! denseFilter.pArray)
+    {
+        return NULL;
+    }
+    inFilter = denseFilter.pArray;
+
     int32_t numpyOutType = PyArray_TYPE(inArr1);
     void * pDataIn = PyArray_BYTES(inArr1);
     int ndim = PyArray_NDIM(inArr1);
@@ -1742,6 +1757,21 @@ PyObject * CombineAccum2Filter(PyObject * self, PyObject * args)
         return NULL;
     }
 
+    // the loops below want dense arrays
+    CHashInput const denseKey1(inArr1);
+    if (! denseKey1.pArray)
+    {
+        return NULL;
+    }
+    inArr1 = denseKey1.pArray;
+    CHashInput const denseKey2(inArr2);
+    if (! denseKey2.pArray)
+    {
+        return NULL;
+    }
+    inArr2 = denseKey2.pArray;
+    std::unique_ptr<CHashInput> denseFilter;
+
     inArr1Max++;
     inArr2Max++;
 
@@ -1775,7 +1805,12 @@ PyObject * CombineAccum2Filter(PyObject * self, PyObject * args)
             PyErr_Format(PyExc_ValueError, "CombineAccum2Filter: Filter is not type NPY_BOOL");
             return NULL;
         }
-        pFilterIn = (int8_t *)PyArray_BYTES((PyArrayObject *)inFilter);
+        denseFilter.reset(new CHashInput((PyArrayObject *)inFilter));
+        if (! denseFilter->pArray)
+        {
+            return NULL;
+        }
+        pFilterIn = (int8_t *)PyArray_BYTES(denseFilter->pArray);
     }
     else if (inFilter != Py_None)
     {
@@ -2192,6 +2227,15 @@ PyObject * CombineAccum1Filter(PyObject * self, PyObject * args)
         return NULL;
     }
 
+    // the loops below want dense arrays
+    CHashInput const denseKey(inArr1);
+    if (! denseKey.pArray)
+    {
+        return NULL;
+    }
+    inArr1 = denseKey.pArray;
+    std::unique_ptr<CHashInput> denseFilter;
+
     void * pDataIn1 = PyArray_BYTES(inArr1);
     int8_t * pFilterIn = NULL;
 
@@ -2211,7 +2255,12 @@ PyObject * CombineAccum1Filter(PyObject * self, PyObject * args)
             PyErr_Format(PyExc_ValueError, "CombineAccum1Filter: Filter is not type NPY_BOOL");
             return NULL;
         }
-        pFilterIn = (int8_t *)PyArray_BYTES((PyArrayObject *)inFilter);
+        denseFilter.reset(new CHashInput((PyArrayObject *)inFilter));
+        if (! denseFilter->pArray)
+        {
+            return NULL;
+        }
+        pFilterIn = (int8_t *)PyArray_BYTES(denseFilter->pArray);
     }
 
     inArr1Max++;
@@ -2433,6 +2482,15 @@ PyObject * MakeiFirst(PyObject * self, PyObject * args)
         return NULL;
     }
 
+    // the loops below want dense arrays
+    CHashInput const denseKey(inArr1);
+    if (! denseKey.pArray)
+    {
+        return NULL;
+    }
+    inArr1 = denseKey.pArray;
+    std::unique_ptr<CHashInput> denseFilter;
+
     void * pDataIn1 = PyArray_BYTES(inArr1);
     int8_t * pFilterIn = NULL;
 
@@ -2452,7 +2510,12 @@ PyObject * MakeiFirst(PyObject * self, PyObject * args)
             PyErr_Format(PyExc_ValueError, "MakeiFirst: Filter is not type NPY_BOOL");
             return NULL;
         }
-        pFilterIn = (int8_t *)PyArray_BYTES((PyArrayObject *)inFilter);
+        denseFilter.reset(new CHashInput((PyArrayObject *)inFilter));
+        if (! denseFilter->pArray)
+        {
+            return NULL;
+        }
+        pFilterIn = (int8_t *)PyArray_BYTES(denseFilter->pArray);
     }
 
     inArr1Max++;
@@ -2522,7 +2585,7 @@ PyObject * MakeiFirst(PyObject * self, PyObject * args)
             return (PyObject *)firstArray;
         }
     }
-    return NULL;
+    return PyErr_Format(PyExc_ValueError, "MakeiFirst: Unsupported index type, %d", dtype);
 }
 
 //=====================================================================================
diff --git a/src/Merge.cpp b/src/Merge.cpp
index db9434d..7388065 100644
--- a/src/Merge.cpp
+++ b/src/Merge.cpp
@@ -3,6 +3,7 @@
 #include "MathWorker.h"
 #include "Merge.h"
 #include "Convert.h"
+#include "HashLinear.h"
 
 #include <algorithm>
 #include <vector>
@@ -1906,8 +1907,47 @@ PyObject * ReIndexGroups(PyObject * self, PyObject * args)
         return NULL;
     }
 
+    CHashInput const denseUCutoffs(u_cutoffs);
+    if (! denseUCutoffs.pArray)
+    {
+        return NULL;
+    }
+    u_cutoffs = denseUCutoffs.pArray;
+    CHashInput const denseICutoffs(i_cutoffs);
+    if (! denseICutoffs.pArray)
+    {
+        return NULL;
+    }
+    i_cutoffs = denseICutoffs.pArray;
+    CHashInput const denseUKey(uikey);
+    if (! denseUKey.pArray)
+    {
+        return NULL;
+    }
+    uikey = denseUKey.pArray;
+
+    // ikey is written in place
+    if (! PyArray_ISCARRAY(ikey))
+    {
+        return PyErr_Format(PyExc_ValueError, "ikey must be contiguous and writable");
+    }
+
     int64_t u_cutoffs_length = ArrayLength(u_cutoffs);
 
+    if (ArrayLength(i_cutoffs) != u_cutoffs_length)
+    {
+        return PyErr_Format(PyExc_ValueError, "u-cutoffs and i-cutoffs must have the same length");
+    }
+    for (int64_t i = 0; i < u_cutoffs_length; i++)
+    {
+        int64_t const * const pU = (int64_t *)PyArray_BYTES(u_cutoffs);
+        int64_t const * const pI = (int64_t *)PyArray_BYTES(i_cutoffs);
+        if (pU[i] < (i ? pU[i - 1] : 0) || pU[i] > ArrayLength(uikey) || pI[i] < (i ? pI[i - 1] : 0) || pI[i] > ArrayLength(ikey))
+        {
+            return PyErr_Format(PyExc_ValueError, "cutoffs must ascend and stay within their arrays");
+        }
+    }
+
     stReIndex preindex;
 
     preindex.pUCutOffs = (int64_t *)PyArray_BYTES(u_cutoffs);
diff --git a/src/MultiKey.cpp b/src/MultiKey.cpp
index 79d5845..cddfe35 100644
--- a/src/MultiKey.cpp
+++ b/src/MultiKey.cpp
@@ -536,6 +536,10 @@ void MakeNextKey(int64_t mode, int64_t numUnique, int64_t totalRows, void * pInd
                     pNextArray[i] = pGroupArray[group];
                     pGroupArray[group] = (KEYTYPE)i;
                 }
+                else
+                {
+                    pNextArray[i] = invalid;
+                }
             }
         }
         else
@@ -549,6 +553,10 @@ void MakeNextKey(int64_t mode, int64_t numUnique, int64_t totalRows, void * pInd
                     pNextArray[i] = pGroupArray[group];
                     pGroupArray[group] = (KEYTYPE)i;
                 }
+                else
+                {
+                    pNextArray[i] = invalid;
+                }
             }
         }
         WORKSPACE_FREE(pGroupArray);
@@ -587,6 +595,13 @@ PyObject * MakeiNext(PyObject * self, PyObject * args)
         return NULL;
     }
 
+    CHashInput const denseKey(ikey);
+    if (! denseKey.pArray)
+    {
+        return NULL;
+    }
+    ikey = denseKey.pArray;
+
     PyArrayObject * pReturnArray = AllocateLikeNumpyArray(ikey, dtype);
 
     if (pReturnArray)
@@ -652,6 +667,12 @@ int32_t * GroupByPackFixup32(int64_t numUnique, int64_t totalRows, void * pIndex
     {
         K group = pIndexArray[i];
 
+        if (group < 0 || group >= numUnique)
+        {
+            WORKSPACE_FREE(pNextArray);
+            return NULL;
+        }
+
         pNextArray[i] = pGroupArray[group];
 
         // printf("%d  - group %d next %d\n", i, (int)group, pNextArray[i]);
@@ -696,12 +717,11 @@ bool GroupByPackFinal32(int64_t numUnique, int64_t totalRows, void * pIndexArray
         int32_t * pFirstArray = (int32_t *)PyArray_BYTES(firstArray);
         int32_t * pCountArray = (int32_t *)PyArray_BYTES(countArray);
 
-        int32_t i = (int32_t)totalRows;
-
-        // TODO -- how to handle empty?
-        pSortArray[0] = GB_INVALID_INDEX;
-        pFirstArray[0] = GB_INVALID_INDEX;
-        pCountArray[0] = 0;
+        for (int64_t k = 0; k < numUnique; k++)
+        {
+            pFirstArray[k] = GB_INVALID_INDEX;
+            pCountArray[k] = 0;
+        }
 
         // fills up sort array
         int32_t runningCount = 0;
@@ -726,7 +746,7 @@ bool GroupByPackFinal32(int64_t numUnique, int64_t totalRows, void * pIndexArray
                 pFirstArray[lookfor] = runningCount;
 
                 // We are at the head of the list, now count up how many
-                while (j != GB_INVALID_INDEX)
+                while (j >= 0 && j < totalRows && runningCount < totalRows)
                 {
                     pSortArray[runningCount++] = j;
                     j = pNextArray[j];
@@ -741,7 +761,7 @@ bool GroupByPackFinal32(int64_t numUnique, int64_t totalRows, void * pIndexArray
         {
             // Check if first item is filtered out
             // If so, go ahead and chain this now
-            if (pIndexArray[0] == 0)
+            if (totalRows > 0 && pIndexArray[0] == 0)
             {
                 int32_t count = runningCount;
 
@@ -752,7 +772,7 @@ bool GroupByPackFinal32(int64_t numUnique, int64_t totalRows, void * pIndexArray
                 int32_t j = pNextArray[0];
 
                 // We are at the head of the list, now count up how many
-                while (j != GB_INVALID_INDEX)
+                while (j >= 0 && j < totalRows && runningCount < totalRows)
                 {
                     pSortArray[runningCount++] = j;
                     j = pNextArray[j];
@@ -769,7 +789,7 @@ bool GroupByPackFinal32(int64_t numUnique, int64_t totalRows, void * pIndexArray
             for (int32_t i = 0; i < totalRows; i++)
             {
                 // Check if we found the head of the unique id (the key)
-                if (pIndexArray[i] == lookfor)
+                if (lookfor < numUnique && pIndexArray[i] == lookfor)
                 {
                     int32_t count = runningCount;
 
@@ -780,7 +800,7 @@ bool GroupByPackFinal32(int64_t numUnique, int64_t totalRows, void * pIndexArray
                     int32_t j = pNextArray[i];
 
                     // We are at the head of the list, now count up how many
-                    while (j != GB_INVALID_INDEX)
+                    while (j >= 0 && j < totalRows && runningCount < totalRows)
                     {
                         pSortArray[runningCount++] = j;
                         j = pNextArray[j];
@@ -796,7 +816,7 @@ bool GroupByPackFinal32(int64_t numUnique, int64_t totalRows, void * pIndexArray
             LOGGING("running count %d\n", runningCount);
 
             // Check if first item was not filtered out
-            if (pIndexArray[0] != 0)
+            if (totalRows > 0 && pIndexArray[0] != 0)
             {
                 // Have to search for invalid bins
                 for (int32_t i = 0; i < totalRows; i++)
@@ -815,7 +835,7 @@ bool GroupByPackFinal32(int64_t numUnique, int64_t totalRows, void * pIndexArray
                         int32_t j = pNextArray[i];
 
                         // We are at the head of the list, now count up how many
-                        while (j != GB_INVALID_INDEX)
+                        while (j >= 0 && j < totalRows && runningCount < totalRows)
                         {
                             pSortArray[runningCount++] = j;
                             j = pNextArray[j];
@@ -866,6 +886,34 @@ PyObject * GroupByPack32(PyObject * self, PyObject * args)
         return NULL;
     }
 
+    if (numUnique < 0)
+    {
+        return PyErr_Format(PyExc_ValueError, "GroupByPack32 the unique count cannot be negative");
+    }
+
+    CHashInput const denseIndex(indexArray);
+    if (! denseIndex.pArray)
+    {
+        return NULL;
+    }
+    indexArray = denseIndex.pArray;
+
+    // only an int32 array can be the next array
+    std::unique_ptr<CHashInput> denseNext;
+    if (PyArray_Check(nextArray))
+    {
+        if (PyArray_TYPE((PyArrayObject *)nextArray) != NPY_INT32)
+        {
+            return PyErr_Format(PyExc_ValueError, "GroupByPack32 next array must be int32");
+        }
+        denseNext.reset(new CHashInput((PyArrayObject *)nextArray));
+        if (! denseNext->pArray)
+        {
+            return NULL;
+        }
+        nextArray = (PyObject *)denseNext->pArray;
+    }
+
     try
     {
         int64_t totalRows = ArrayLength(indexArray);
@@ -902,9 +950,17 @@ PyObject * GroupByPack32(PyObject * self, PyObject * args)
                 pNextArray = GroupByPackFixup32<int64_t>(numUnique, totalRows, pIndexArray, pGroupArray);
                 break;
             default:
+                WORKSPACE_FREE(pGroupArray);
                 PyErr_Format(PyExc_ValueError, "GroupByPack32 index must be int8 int16, int32, int64");
                 return NULL;
             }
+
+            if (! pNextArray)
+            {
+                WORKSPACE_FREE(pGroupArray);
+                PyErr_Format(PyExc_ValueError, "GroupByPack32 index is not between 0 and the unique count %lld", numUnique);
+                return NULL;
+            }
         }
         else
         {
@@ -2022,7 +2078,10 @@ void MakeiGroup(void * piKeyT, void * pnCountGroupT, void * piFirstGroupT, void
             OUTDTYPE nextloc = piFirstGroup[key];
             // printf("%lld %lld -- %p %p\n", (int64_t)key, (int64_t)nextloc,
             // piFirstGroup, piGroup );
-            piGroup[nextloc] = (OUTDTYPE)i;
+            if (nextloc >= 0 && nextloc < totalRows)
+            {
+                piGroup[nextloc] = (OUTDTYPE)i;
+            } // else the counts are not those of this ikey
             piFirstGroup[key] = nextloc + 1;
         }
     }
@@ -2110,10 +2169,28 @@ PyObject * GroupFromBinCount(PyObject * self, PyObject * args)
         return NULL;
     }
 
+    CHashInput const denseKey(iKey);
+    if (! denseKey.pArray)
+    {
+        return NULL;
+    }
+    iKey = denseKey.pArray;
+    CHashInput const denseCount(nCountGroup);
+    if (! denseCount.pArray)
+    {
+        return NULL;
+    }
+    nCountGroup = denseCount.pArray;
+
     int32_t iKeyType = PyArray_TYPE(iKey);
     int64_t totalRows = ArrayLength(iKey);
     int64_t totalUnique = ArrayLength(nCountGroup);
 
+    if (iKeyType > NPY_LONGLONG || (iKeyType & 1) == 0)
+    {
+        return PyErr_Format(PyExc_ValueError, "GroupFromBinCount: ikey must be int8/16/32/64");
+    }
+
     PyArrayObject * outiGroup = NULL;
     PyArrayObject * outiFirstGroup = NULL;
 
@@ -2125,7 +2202,7 @@ PyObject * GroupFromBinCount(PyObject * self, PyObject * args)
         outdtype = NPY_INT64;
     }
 
-    if (outdtype != PyArray_TYPE(nCountGroup))
+    if (PyArray_DESCR(nCountGroup)->kind != 'i' || PyArray_ITEMSIZE(nCountGroup) != (outdtype == NPY_INT32 ? 4 : 8))
     {
         // bail
         PyErr_Format(PyExc_ValueError, "GroupFromBinCount: nCountGroup dtype does not match expected dtype.");
@@ -2458,10 +2535,22 @@ PyObject * BinCount(PyObject * self, PyObject * args, PyObject * kwargs)
         return NULL;
     }
 
+    CHashInput const denseKey(iKey);
+    if (! denseKey.pArray)
+    {
+        return NULL;
+    }
+    iKey = denseKey.pArray;
+
     int32_t iKeyType = PyArray_TYPE(iKey);
     int64_t totalRows = ArrayLength(iKey);
     int64_t pack = GetPack(kwargs);
 
+    if (iKeyType > NPY_LONGLONG || (iKeyType & 1) == 0)
+    {
+        return PyErr_Format(PyExc_ValueError, "BinCount: ikey must be int8/16/32/64");
+    }
+
     PyArrayObject * outArray = NULL;
     PyArrayObject * outiGroup = NULL;
     PyArrayObject * outiFirstGroup = NULL;
@@ -2469,7 +2558,7 @@ PyObject * BinCount(PyObject * self, PyObject * args, PyObject * kwargs)
     // Check for totalRows > 2100000000 and switch to int64_t
     int outdtype = NPY_INT32;
 
-    if (unique_rows == 0 || totalRows <= 0)
+    if (unique_rows <= 0 || totalRows <= 0)
     {
         PyErr_Format(PyExc_ValueError, "BinCount: unique or totalRows is zero, cannot calculate the bins.");
         return NULL;
-- 
2.43.0


From f4d1ed87899e5fbe58896183dff0f62615f50932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:26 +0000
Subject: [PATCH 36/49] fix: the group-by aggregations (GroupByAll32,
 GroupByAllPack32) read strided keys and packings as dense, took bin ranges
 outside the output, cleared the wrong bins of float sums, overflowed the
 integer median and quantile midpoint (the rolling quantile used Ema.cpp's
 copy of the template), cut window sizes to 32 bits, read backwards for
 negative windows of sum/mean/quantile, and banded string columns

---
 src/Ema.cpp     |   3 +-
 src/GroupBy.cpp | 128 ++++++++++++++++++++++++++++++++++++++++++------
 2 files changed, 115 insertions(+), 16 deletions(-)

diff --git a/src/Ema.cpp b/src/Ema.cpp
index 119ebe4..4f5a60b 100644
--- a/src/Ema.cpp
+++ b/src/Ema.cpp
@@ -21,7 +21,8 @@ typedef void (*ROLLING_FUNC)(void * pDataIn, void * pDataOut, int64_t len, int64
 template <typename T, typename U>
 inline U QUANTILE_SPLIT(T X, T Y)
 {
-    return (X + Y) / 2.0;
+    // the sum of two integers may not fit their type
+    return (static_cast<long double>(X) + Y) / 2;
 }
 
 // Overloads to handle cases of bool, float, long double
diff --git a/src/GroupBy.cpp b/src/GroupBy.cpp
index f2438d2..0b8d681 100644
--- a/src/GroupBy.cpp
+++ b/src/GroupBy.cpp
@@ -2,6 +2,7 @@
 #include "ndarray.h"
 #include "MathWorker.h"
 #include "MultiKey.h"
+#include "HashLinear.h"
 #include "GroupBy.h"
 #include "Sort.h"
 #include "Heap.h"
@@ -45,19 +46,20 @@ inline uint16_t MEDIAN_SPLIT(uint16_t X, uint16_t Y)
 }
 inline int32_t MEDIAN_SPLIT(int32_t X, int32_t Y)
 {
-    return (X + Y) / 2;
+    return (int32_t)(((int64_t)X + Y) / 2);
 }
 inline uint32_t MEDIAN_SPLIT(uint32_t X, uint32_t Y)
 {
-    return (X + Y) / 2;
+    return (uint32_t)(((uint64_t)X + Y) / 2);
 }
 inline int64_t MEDIAN_SPLIT(int64_t X, int64_t Y)
 {
-    return (X + Y) / 2;
+    // the sum may not fit
+    return (int64_t)(((long double)X + Y) / 2);
 }
 inline uint64_t MEDIAN_SPLIT(uint64_t X, uint64_t Y)
 {
-    return (X + Y) / 2;
+    return (X & Y) + ((X ^ Y) / 2);
 }
 inline float MEDIAN_SPLIT(float X, float Y)
 {
@@ -75,7 +77,8 @@ inline long double MEDIAN_SPLIT(long double X, long double Y)
 template <typename T, typename U>
 inline U QUANTILE_SPLIT(T X, T Y)
 {
-    return (X + Y) / 2.0;
+    // the sum of two integers may not fit their type
+    return (static_cast<long double>(X) + Y) / 2;
 }
 
 // Overloads to handle cases of bool, float, long double
@@ -97,6 +100,12 @@ inline long double QUANTILE_SPLIT<long double, long double>(long double X, long
     return (X + Y) / 2.0L;
 }
 
+// No group has more than totalRows rows: a wider window covers the same rows, and its ends fit the index type
+inline int64_t ClampWindow(int64_t window, int64_t totalRows)
+{
+    return window > totalRows ? totalRows : window < -totalRows ? -totalRows : window;
+}
+
 // taken from multiarray/scalartypesc.src
 //// need this routine
 //// the numpy routine can also search for registered types
@@ -395,7 +404,7 @@ public:
         if (pass <= 0)
         {
             // Clear out memory for our range
-            memset(pOut, 0, sizeof(U) * (binHigh - binLow));
+            memset(pOut + binLow, 0, sizeof(U) * (binHigh - binLow));
             memset(pOutAccum, 0, sizeof(double) * (binHigh - binLow));
         }
 
@@ -880,7 +889,7 @@ public:
         if (pass <= 0)
         {
             // Clear out memory for our range
-            memset(pOriginalOut, 0, sizeof(U) * (binHigh - binLow));
+            memset(pOriginalOut + binLow, 0, sizeof(U) * (binHigh - binLow));
             memset(pOut, 0, sizeof(double) * (binHigh - binLow));
         }
 
@@ -1369,7 +1378,7 @@ public:
         V const * const pFirst = (V *)pFirstT;
         V const * const pCount = (V *)pCountT;
 
-        int64_t windowSize = funcParam;
+        int64_t windowSize = ClampWindow(funcParam, totalInputRows);
         U const invalid{ riptide::invalid_for_type<U>::value };
 
         if (binLow == 0)
@@ -1433,7 +1442,7 @@ public:
         V const * const pFirst = (V *)pFirstT;
         V const * const pCount = (V *)pCountT;
 
-        int64_t windowSize = funcParam;
+        int64_t windowSize = ClampWindow(funcParam, totalInputRows);
         U const invalid{ riptide::invalid_for_type<U>::value };
 
         if (binLow == 0)
@@ -1507,7 +1516,7 @@ public:
         V const * const pFirst = (V *)pFirstT;
         V const * const pCount = (V *)pCountT;
 
-        int64_t const windowSize = funcParam;
+        int64_t const windowSize = ClampWindow(funcParam, totalInputRows);
         U const invalid_out{ riptide::invalid_for_type<U>::value };
 
         if (binLow == 0)
@@ -1571,7 +1580,7 @@ public:
         V const * const pFirst = (V *)pFirstT;
         V const * const pCount = (V *)pCountT;
 
-        int64_t const windowSize = funcParam;
+        int64_t const windowSize = ClampWindow(funcParam, totalInputRows);
         U const invalid_out{ riptide::invalid_for_type<U>::value };
 
         if (binLow == 0)
@@ -1751,7 +1760,7 @@ public:
         V const * const pFirst = (V *)pFirstT;
         V const * const pCount = (V *)pCountT;
 
-        int64_t const windowSize = funcParam;
+        int64_t const windowSize = ClampWindow(funcParam, totalInputRows);
         U const invalid{ riptide::invalid_for_type<U>::value };
 
         logger->debug("AccumRollingCount {} {}  sizeofdest {}", binLow, binHigh, sizeof(U));
@@ -1817,7 +1826,7 @@ public:
         V const * const pFirst = (V *)pFirstT;
         V const * const pCount = (V *)pCountT;
 
-        int64_t windowSize = (int64_t)funcParam;
+        int64_t windowSize = ClampWindow(funcParam, totalInputRows);
 
         logger->debug("AcculRollingShift: binlow {},  binhigh {},  windowSize: {}", binLow, binHigh, windowSize);
 
@@ -1927,7 +1936,7 @@ public:
         V const * const pFirst = (V *)pFirstT;
         V const * const pCount = (V *)pCountT;
 
-        int64_t windowSize = funcParam;
+        int64_t windowSize = ClampWindow(funcParam, totalInputRows);
         U const invalid{ riptide::invalid_for_type<U>::value };
 
         if (binLow == 0)
@@ -4571,6 +4580,39 @@ PyObject * GroupBySingleOpMultithreaded(ArrayInfo * aInfo, PyArrayObject * iKey,
     return returnTuple;
 }
 
+//---------------------------------------------------------------
+// Every column needs a range of bins that lies within the output
+// Returns false with the error set otherwise
+static bool CheckBinRanges(PyListObject * listBinLow, PyListObject * listBinHigh, int64_t tupleSize, int64_t unique_rows)
+{
+    if (PyList_GET_SIZE(listBinHigh) != tupleSize)
+    {
+        PyErr_Format(PyExc_ValueError, "GroupBy bin numbers do not match array columns %lld %lld", tupleSize,
+                     (int64_t)PyList_GET_SIZE(listBinHigh));
+        return false;
+    }
+
+    for (int64_t i = 0; i < tupleSize; i++)
+    {
+        int64_t const binLow = PyLong_AsLongLong(PyList_GET_ITEM(listBinLow, i));
+        if (binLow == -1 && PyErr_Occurred())
+        {
+            return false;
+        }
+        int64_t const binHigh = PyLong_AsLongLong(PyList_GET_ITEM(listBinHigh, i));
+        if (binHigh == -1 && PyErr_Occurred())
+        {
+            return false;
+        }
+        if (binLow < 0 || binHigh < binLow || binHigh > unique_rows)
+        {
+            PyErr_Format(PyExc_ValueError, "GroupBy bins %lld to %lld are not within the %lld bins", binLow, binHigh, unique_rows);
+            return false;
+        }
+    }
+    return true;
+}
+
 //---------------------------------------------------------------
 // Arg1 = LIST of numpy arrays which has the values to accumulate (often all the
 // columns in a dataset) Arg2 = iKey = numpy array (int32_t) which has the index
@@ -4607,6 +4649,13 @@ PyObject * GroupByAll32(PyObject * self, PyObject * args)
         return NULL;
     }
 
+    CHashInput const denseKey(iKey);
+    if (! denseKey.pArray)
+    {
+        return NULL;
+    }
+    iKey = denseKey.pArray;
+
     int32_t iKeyType = PyArray_TYPE(iKey);
 
     // Valid types we can index by
@@ -4655,6 +4704,11 @@ PyObject * GroupByAll32(PyObject * self, PyObject * args)
         return NULL;
     }
 
+    if (! CheckBinRanges(listBinLow, listBinHigh, tupleSize, unique_rows))
+    {
+        return NULL;
+    }
+
     // Since this is the 32 bit function, the array indexes are 32 bit
     void * pDataIn2 = PyArray_BYTES(iKey);
     int64_t arraySizeKey = ArrayLength(iKey);
@@ -4915,6 +4969,31 @@ PyObject * GroupByAllPack32(PyObject * self, PyObject * args)
         return NULL;
     }
 
+    CHashInput const denseKey(iKey);
+    if (! denseKey.pArray)
+    {
+        return NULL;
+    }
+    iKey = denseKey.pArray;
+    CHashInput const denseGroup(iGroup);
+    if (! denseGroup.pArray)
+    {
+        return NULL;
+    }
+    iGroup = denseGroup.pArray;
+    CHashInput const denseFirst(iFirst);
+    if (! denseFirst.pArray)
+    {
+        return NULL;
+    }
+    iFirst = denseFirst.pArray;
+    CHashInput const denseCount(nCount);
+    if (! denseCount.pArray)
+    {
+        return NULL;
+    }
+    nCount = denseCount.pArray;
+
     // Add 1 for zero bin
     unique_rows += GB_BASE_INDEX;
 
@@ -4948,6 +5027,13 @@ PyObject * GroupByAllPack32(PyObject * self, PyObject * args)
         return NULL;
     }
 
+    // iFirst and nCount are read for these bins
+    int64_t const numBins = (std::min)({ static_cast<int64_t>(unique_rows), ArrayLength(iFirst), ArrayLength(nCount) });
+    if (! CheckBinRanges(listBinLow, listBinHigh, tupleSize, numBins))
+    {
+        return NULL;
+    }
+
     void * pDataIn2 = PyArray_BYTES(iKey);
     // New reference
     PyObject * returnTuple = NULL;
@@ -4960,7 +5046,7 @@ PyObject * GroupByAllPack32(PyObject * self, PyObject * args)
         return NULL;
     }
 
-    if (tupleSize == 1 && arraySizeKey > 65536)
+    if (tupleSize == 1 && arraySizeKey > 65536 && ! PyTypeNum_ISFLEXIBLE(aInfo[0].NumpyDType))
     {
         int overflow = 0;
         int64_t binLow = PyLong_AsLongLongAndOverflow(PyList_GET_ITEM(listBinLow, 0), &overflow);
@@ -5052,6 +5138,18 @@ PyObject * GroupByAllPack32(PyObject * self, PyObject * args)
 
             numpyOutType = aInfo[i].NumpyDType;
 
+            // these do not look forward
+            bool const needsWindow = funcNum == GB_ROLLING_SUM || funcNum == GB_ROLLING_NANSUM || funcNum == GB_ROLLING_MEAN ||
+                                     funcNum == GB_ROLLING_NANMEAN;
+            if (needsWindow && funcParam < 0)
+            {
+                return PyErr_Format(PyExc_ValueError, "GroupByAllPack32 negative window sizes are not supported");
+            }
+            if (funcNum == GB_ROLLING_QUANTILE && funcParam < static_cast<int64_t>(1e9) + 1)
+            {
+                return PyErr_Format(PyExc_ValueError, "Negative or zero window sizes are not supported for rolling_quantile.");
+            }
+
             GROUPBY_X_FUNC pFunction = NULL;
 
             switch (iGroupType)
-- 
2.43.0


From f3fc962ca448741aa155614ce8ff465f0ad45be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:19 +0000
Subject: [PATCH 37/49] fix: SDS files lost empty and None columns when written
 uncompressed, silently truncated arrays of more than five dimensions and
 stored object pointers, read a banded column of exactly its own size raw,
 reused a too small buffer under filters, overran the names buffer, raised
 SystemError for refused arrays and non-ASCII items, and shared memory kept
 freed mappings and lost None

---
 src/SDSFile.cpp       | 26 ++++++++++++++++----
 src/SDSFilePython.cpp | 55 ++++++++++++++++++++++++++++++++++++++-----
 2 files changed, 70 insertions(+), 11 deletions(-)

diff --git a/src/SDSFile.cpp b/src/SDSFile.cpp
index e489f76..6aed41e 100644
--- a/src/SDSFile.cpp
+++ b/src/SDSFile.cpp
@@ -1029,11 +1029,17 @@ public:
 
     void Destroy()
     {
-        SharedMemoryName[0] = 0;
         if (pMapStruct)
         {
+            // SharedMemoryEnd frees the struct
+            auto it = g_SMMap.find(SharedMemoryName);
+            if (it != g_SMMap.end() && it->second == pMapStruct)
+            {
+                g_SMMap.erase(it);
+            }
             SharedMemoryEnd(pMapStruct);
         }
+        SharedMemoryName[0] = 0;
         pMapStruct = NULL;
     }
 
@@ -1740,8 +1746,8 @@ static size_t ReadAndDecompressArrayBlock(SDS_ARRAY_BLOCK * pBlockInfo, // may c
     logger->debug("[{}] seek to {}  sz: {}  <-- ReadAndDecompressArrayBlock", arrayIndex, pBlockInfo->ArrayDataOffset,
                   pBlockInfo->ArrayCompressedSize);
 
-    // Check if uncompressed
-    if (compressedSize == pBlockInfo->ArrayUncompressedSize)
+    // Check if uncompressed (a banded array always carries its band header)
+    if (pBlockInfo->ArrayBandCount <= 0 && compressedSize == pBlockInfo->ArrayUncompressedSize)
     {
         // Read uncompressed chunk directly into our destination
         result = DefaultFileIO.FileReadChunk(eventHandle, fileHandle, destBuffer, compressedSize, pBlockInfo->ArrayDataOffset);
@@ -2508,7 +2514,9 @@ bool DecompressFileArray(void * pstCompressArraysV, int32_t core, int64_t t)
     {
         // Check if uncompressed
         // check if our temporary buffer is large enough to hold decompression data
-        if (source_size != pBlockInfo->ArrayUncompressedSize && (pstCompressArrays->pCoreMemorySize[core] < source_size))
+        bool needsBuffer = source_size != pBlockInfo->ArrayUncompressedSize || pBlockInfo->ArrayBandCount > 0 ||
+                           (pBlockInfo->Flags & SDS_ARRAY_FILTERED);
+        if (needsBuffer && (pstCompressArrays->pCoreMemorySize[core] < source_size))
         {
             //  Not large enough, allocate more
             if (pstCompressArrays->pCoreMemory[core])
@@ -2590,6 +2598,12 @@ bool CompressFileArray(void * pstCompressArraysV, int32_t core, int64_t t)
         wantedSize += bandCount * sizeof(int64_t);
     }
 
+    // empty columns are written too: the NULL check below is for out of memory only
+    if (wantedSize <= 0)
+    {
+        wantedSize = 1;
+    }
+
     if (pstCompressArrays->pCoreMemorySize[core] < wantedSize)
     {
         if (pstCompressArrays->pCoreMemory[core])
@@ -5937,7 +5951,9 @@ bool DecompressMultiArray(void * pstCompressArraysV,
 
         // Check if uncompressed
         // check if our temporary buffer is large enough to hold decompression data
-        if ((source_size != pBlockInfo->ArrayUncompressedSize) && (pMultiIOPackets->pCoreMemorySize[core] < source_size))
+        bool needsBuffer = source_size != pBlockInfo->ArrayUncompressedSize || pBlockInfo->ArrayBandCount > 0 ||
+                           (pBlockInfo->Flags & SDS_ARRAY_FILTERED) || (pMasterBlock && pMasterBlock->Flags & SDS_ARRAY_FILTERED);
+        if (needsBuffer && (pMultiIOPackets->pCoreMemorySize[core] < source_size))
         {
             if (pMultiIOPackets->pCoreMemory[core])
             {
diff --git a/src/SDSFilePython.cpp b/src/SDSFilePython.cpp
index 994343f..e980448 100644
--- a/src/SDSFilePython.cpp
+++ b/src/SDSFilePython.cpp
@@ -418,6 +418,19 @@ void DestroyStringList(SDS_STRING_LIST * pStringList)
     delete pStringList;
 }
 
+//----------------------------------
+// The bytes of a unicode string as stored in SDS files and passed to the file system
+static PyObject * EncodeString(PyObject * pUnicode)
+{
+    PyObject * result = PyUnicode_AsEncodedString(pUnicode, "utf-8", "surrogateescape");
+    if (! result)
+    {
+        PyErr_Clear();
+        result = PyUnicode_AsEncodedString(pUnicode, "utf-8", "surrogatepass");
+    }
+    return result;
+}
+
 //----------------------------------
 // caller must delete STRING_LIST
 // handles both BYTE and UNICODE
@@ -448,7 +461,7 @@ SDS_STRING_LIST * StringListToVector(PyObject * listFilenames)
             }
             else if (PyUnicode_Check(pBytes))
             {
-                PyObject * temp2 = PyUnicode_AsASCIIString(pBytes);
+                PyObject * temp2 = EncodeString(pBytes);
                 if (temp2 != NULL)
                 {
                     fileName = PyBytes_AsString(temp2);
@@ -915,6 +928,14 @@ void * ReadFromSharedMemory(SDS_SHARED_MEMORY_CALLBACK * pSMCB)
     {
         SDS_ARRAY_BLOCK * pArrayBlock = GetArrayBlock(baseOffset, i);
 
+        // None was stored for this array
+        if (pArrayBlock->ItemSize == 0 && pArrayBlock->DType == NPY_BOOL)
+        {
+            Py_IncRef(Py_None);
+            PyTuple_SetItem(returnTuple, i, Py_None);
+            continue;
+        }
+
         // scalars
         // if (pArrayBlock->Dimensions ==0)
 
@@ -1180,7 +1201,7 @@ void * ReadFinalStack(SDS_STACK_CALLBACK * pSDSFinalCallback, int64_t finalCount
 // free string with WORKSPACE_FREE
 void CopyUnicodeString(PyObject * pUnicode, char ** returnString, int64_t * returnSize)
 {
-    PyObject * temp2 = PyUnicode_AsASCIIString(pUnicode);
+    PyObject * temp2 = EncodeString(pUnicode);
     if (temp2 != NULL)
     {
         *returnString = PyBytes_AsString(temp2);
@@ -1196,7 +1217,7 @@ void CopyUnicodeString(PyObject * pUnicode, char ** returnString, int64_t * retu
     else
     {
         *returnString = NULL;
-        *returnSize = strlen(*returnString);
+        *returnSize = 0;
     }
 }
 
@@ -1359,8 +1380,18 @@ PyObject * CompressFile(PyObject * self, PyObject * args, PyObject * kwargs)
 
     LOGGING("Name count is %d\n", (int)listNameCount);
 
-    // alloc worst case scenario
-    char * pListNames = (char *)WORKSPACE_ALLOC((SDS_MAX_FILENAME * listNameCount) + 8);
+    // every name takes its bytes, a terminating 0 and one byte for the enum
+    int64_t listNameBytes = 8;
+    for (int64_t i = 0; i < listNameCount; i++)
+    {
+        PyObject * pTuple = PyList_GET_ITEM(inListNames, i);
+        if (PyTuple_Check(pTuple) && PyTuple_GET_SIZE(pTuple) > 0 && PyBytes_Check(PyTuple_GET_ITEM(pTuple, 0)))
+        {
+            listNameBytes += PyBytes_GET_SIZE(PyTuple_GET_ITEM(pTuple, 0)) + 2;
+        }
+    }
+
+    char * pListNames = (char *)WORKSPACE_ALLOC(listNameBytes);
     if (! pListNames)
     {
         return NULL;
@@ -1375,6 +1406,18 @@ PyObject * CompressFile(PyObject * self, PyObject * args, PyObject * kwargs)
 
     ArrayInfo * aInfo = BuildArrayInfo(inListArrays, &arrayCount, &totalItemSize, false);
 
+    // the format has room for SDS_MAX_DIMS dimensions and none for Python objects
+    for (int64_t i = 0; aInfo && i < arrayCount; i++)
+    {
+        if (aInfo[i].NDim > SDS_MAX_DIMS || aInfo[i].NumpyDType == NPY_OBJECT)
+        {
+            PyErr_Format(PyExc_ValueError, "CompressFile array %lld cannot be stored: %d dimensions, dtype %d", i, aInfo[i].NDim,
+                         aInfo[i].NumpyDType);
+            FreeArrayInfo(aInfo);
+            aInfo = NULL;
+        }
+    }
+
     // CHECK FOR ERRORS
     if (aInfo)
     {
@@ -1509,7 +1552,7 @@ PyObject * CompressFile(PyObject * self, PyObject * args, PyObject * kwargs)
     }
 
     // If there are errors, return NULL
-    if (CheckErrors())
+    if (! aInfo || CheckErrors())
     {
         return NULL;
     }
-- 
2.43.0


From d8aad5ef73466b252b1f9a91f5b7bfda3e360b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:28 +0000
Subject: [PATCH 38/49] fix: stacking SDS files: False became invalid, strings
 of unequal widths were garbled, strided masks read wrong rows, long double
 gaps were zero, one-column and Fortran-order columns overflowed

---
 src/SDSFile.cpp       | 102 ++++++++++++++++++++++++++++++++----------
 src/SDSFilePython.cpp |  19 ++++++--
 2 files changed, 95 insertions(+), 26 deletions(-)

diff --git a/src/SDSFile.cpp b/src/SDSFile.cpp
index 6aed41e..f5852e1 100644
--- a/src/SDSFile.cpp
+++ b/src/SDSFile.cpp
@@ -4578,7 +4578,8 @@ static void ConvertInplace(void * pDataIn, void * pDataOut, int64_t dataInSize,
     for (int64_t i = 0; i < len; i++)
     {
         // printf("[%lld]converted %lf -> %lf\n", i, (double)*pIn, (double)*pOut);
-        if (*pIn != pBadValueIn)
+        // bool has no invalid value: its default False is an ordinary value
+        if (dtypein == SDS_BOOL || *pIn != pBadValueIn)
         {
             U temp = (U)*pIn;
             *pOut = temp;
@@ -4841,6 +4842,17 @@ void GapFill(void * destBuffer, SDSArrayInfo * pDestInfo)
         }
         break;
     default:
+        if (pDestInfo->NumpyDType == SDS_LONGDOUBLE)
+        {
+            long double * pDestBuffer = (long double *)destBuffer;
+            long double invalid = *(long double *)pDefaultType;
+            bytesToFill /= sizeof(long double);
+            for (int64_t j = 0; j < bytesToFill; j++)
+            {
+                pDestBuffer[j] = invalid;
+            }
+            break;
+        }
         // probably a string
         // does matlab want ' ' spaces instead?
         memset(destBuffer, 0, bytesToFill);
@@ -5263,7 +5275,7 @@ void GapFillAny(SDSArrayInfo * pDestInfo, void * destBuffer, SDS_IO_PACKET * pIO
         // startrow:%lld   dtype: %d\n", (int)pMasterBlock->NDim, rowLength, colSize,
         // pIOPacket->ArrayOffset, (int)pMasterBlock->DType);
 
-        SDS_GAP_FILL_SPECIAL pGapFill = GetGapFillSpecial(pMasterBlock->DType);
+        SDS_GAP_FILL_SPECIAL pGapFill = GetGapFillSpecial(FixupDType(pMasterBlock->DType, pMasterBlock->ItemSize));
 
         pGapFill(destBuffer, // upper left corner of src
                  totalRowLength,
@@ -5435,11 +5447,11 @@ void StringFixup(char * destBuffer, SDS_ARRAY_BLOCK * pMasterBlock, SDS_ARRAY_BL
                  int64_t slaveItemSize)
 {
     // Only the itemsize for master is correct
-    // The other dimensions are correct in the pSlaveBlock
+    // Every string is widened, also when there are more dimensions
     int64_t oneRowSize = pMasterBlock->ItemSize;
     for (int32_t j = 1; j < pSlaveBlock->NDim; j++)
     {
-        oneRowSize *= pSlaveBlock->Dimensions[j];
+        slaveRowLength *= pSlaveBlock->Dimensions[j];
     }
 
     int64_t gap = oneRowSize - slaveItemSize;
@@ -5551,7 +5563,13 @@ SDS_COMPATIBLE IsArrayCompatible(const char * colName, SDS_ARRAY_BLOCK * pMaster
                 {
                     // upgrade the dtype
                     logger->debug("step2 conversion {}", pArrayBlock->ItemSize);
-                    UpgradeType(pMasterArrayBlock, odtype, pArrayBlock->ItemSize);
+                    int64_t newItemSize = pArrayBlock->ItemSize;
+                    if (mdtype == SDS_STRING && odtype == SDS_UNICODE && pMasterArrayBlock->ItemSize * 4 > newItemSize)
+                    {
+                        // the string may be the wider of the two
+                        newItemSize = pMasterArrayBlock->ItemSize * 4;
+                    }
+                    UpgradeType(pMasterArrayBlock, odtype, newItemSize);
                 }
             }
             else
@@ -5747,22 +5765,15 @@ SDS_COMPATIBLE IsArrayCompatible(const char * colName, SDS_ARRAY_BLOCK * pMaster
         // If the other array is both C and F contiguous, it never needs no rotation.
         if (oflags != (SDS_ARRAY_C_CONTIGUOUS | SDS_ARRAY_F_CONTIGUOUS))
         {
-            if (mflag != oflag)
+            // If the master block is C and F contiguous, and fixing up, adopt the other's order.
+            if (doFixup && mflags == (SDS_ARRAY_C_CONTIGUOUS | SDS_ARRAY_F_CONTIGUOUS))
+            {
+                pMasterArrayBlock->Flags = pArrayBlock->Flags;
+            }
+            else if (mflag != oflag)
             {
                 // possibly incompatible
-                bool needsRotation = true;
-
-                // If the master block is C and F contiguous, and fixing up, adopt the other's order.
-                if (doFixup)
-                {
-                    if (mflags == (SDS_ARRAY_C_CONTIGUOUS | SDS_ARRAY_F_CONTIGUOUS))
-                    {
-                        pMasterArrayBlock->Flags = pArrayBlock->Flags;
-                        needsRotation = false;
-                    }
-                }
-
-                c.NeedsRotation = needsRotation;
+                c.NeedsRotation = true;
             }
         }
     }
@@ -5822,7 +5833,9 @@ void * CheckRotationalFixup(SDS_IO_PACKET * pIOPacket)
 //----------------------------------------------------------
 // Called from multiple threads
 // Frees the buffer allocated from CheckRotationalFixup
-bool FinishRotationalFixup(SDS_IO_PACKET * pIOPacket, void * origBuffer, void * tempBuffer)
+//
+// pMask is the row mask of this file (maskLength rows) or NULL to keep all rows
+bool FinishRotationalFixup(SDS_IO_PACKET * pIOPacket, void * origBuffer, void * tempBuffer, const bool * pMask, int64_t maskLength)
 {
     if (! tempBuffer || ! origBuffer)
     {
@@ -5838,6 +5851,27 @@ bool FinishRotationalFixup(SDS_IO_PACKET * pIOPacket, void * origBuffer, void *
         int64_t rowLength = pBlockInfo->Dimensions[0];
         int64_t colLength = pMasterBlock->Dimensions[1];
 
+        if (pMask)
+        {
+            // the columns were read whole: keep the selected rows of each
+            int64_t itemSize = pMasterBlock->ItemSize;
+            char * pKeep = (char *)tempBuffer;
+
+            for (int64_t col = 0; col < colLength; col++)
+            {
+                const char * pColumn = (const char *)tempBuffer + (col * rowLength * itemSize);
+                for (int64_t i = 0; i < rowLength && i < maskLength; i++)
+                {
+                    if (pMask[i])
+                    {
+                        memmove(pKeep, pColumn + (i * itemSize), itemSize);
+                        pKeep += itemSize;
+                    }
+                }
+            }
+            rowLength = colLength > 0 ? (pKeep - (char *)tempBuffer) / (itemSize * colLength) : 0;
+        }
+
         RotationalFixup((char *)origBuffer, // original buffer (upper left of final destination)
                         (char *)tempBuffer, // upper left corner of src
                         totalRowLength,
@@ -5986,7 +6020,10 @@ bool DecompressMultiArray(void * pstCompressArraysV,
             if (slaveItemSize == 0)
                 return true;
 
-            if ((pMasterBlock && pMasterBlock->Flags & SDS_ARRAY_FILTERED) || (pBlockInfo->Flags & SDS_ARRAY_FILTERED))
+            bool isFiltered = (pMasterBlock && pMasterBlock->Flags & SDS_ARRAY_FILTERED) || (pBlockInfo->Flags & SDS_ARRAY_FILTERED);
+
+            // a buffer to rotate is read whole and filtered by FinishRotationalFixup
+            if (isFiltered && ! rotateBuffer)
             {
                 // printf("filtering on for %lld\n", t);
                 // if (pMultiIOPackets->pFilter->pFancyMask) {
@@ -6037,7 +6074,14 @@ bool DecompressMultiArray(void * pstCompressArraysV,
                 // Check if we had to allocate an extra buffer for rotation
                 if (origBuffer)
                 {
-                    FinishRotationalFixup(pIOPacket, origBuffer, rotateBuffer);
+                    const bool * pMask = NULL;
+                    int64_t maskLength = 0;
+                    if (isFiltered)
+                    {
+                        pMask = pMultiIOPackets->pFilter->pBoolMask + pIOPacket->OriginalArrayOffset;
+                        maskLength = pMultiIOPackets->pFilter->BoolMaskLength - pIOPacket->OriginalArrayOffset;
+                    }
+                    FinishRotationalFixup(pIOPacket, origBuffer, rotateBuffer, pMask, maskLength);
                     destBuffer = origBuffer;
                 }
                 else
@@ -6047,7 +6091,7 @@ bool DecompressMultiArray(void * pstCompressArraysV,
                     {
                         // This is when column have strings, but they are different widths
                         // Find the wide string and expand everyone else
-                        StringFixup((char *)destBuffer, pMasterBlock, pBlockInfo, slaveRowLength, slaveItemSize);
+                        StringFixup((char *)destBuffer, pMasterBlock, pBlockInfo, slaveRowLength, pBlockInfo->ItemSize);
                     }
                     if (pIOPacket->Compatible.NeedsConversion)
                     {
@@ -6060,6 +6104,11 @@ bool DecompressMultiArray(void * pstCompressArraysV,
                             pIOPacket->pMasterBlock->Dimensions[0], slaveRowLength, pIOPacket->Compatible.NeedsStringFixup,
                             pMasterBlock->Flags);
                         ConvertDType((char *)destBuffer, pMasterBlock, pBlockInfo, slaveRowLength, slaveItemSize);
+                        if (pBlockInfo->DType == SDS_STRING && pMasterBlock->DType == SDS_UNICODE)
+                        {
+                            // now unicode of the width of the string
+                            StringFixup((char *)destBuffer, pMasterBlock, pBlockInfo, slaveRowLength, pBlockInfo->ItemSize * 4);
+                        }
                     }
                 }
             }
@@ -7533,6 +7582,13 @@ public:
                 sdsArrayCallback.itemsize = pMasterBlock->ItemSize;
                 sdsArrayCallback.data = NULL; // for shared memory this is set
 
+                // arrays which are in both orders (such as one column) stack as C order
+                int32_t const bothOrders = SDS_ARRAY_C_CONTIGUOUS | SDS_ARRAY_F_CONTIGUOUS;
+                if (pMasterBlock->NDim > 1 && (pMasterBlock->Flags & bothOrders) == bothOrders)
+                {
+                    pMasterBlock->Flags &= ~SDS_ARRAY_F_CONTIGUOUS;
+                }
+
                 sdsArrayCallback.numpyFlags = pMasterBlock->Flags;
                 sdsArrayCallback.pArrayName = pKing->ColName;
                 sdsArrayCallback.sdsFlags = pKing->ArrayEnum;
diff --git a/src/SDSFilePython.cpp b/src/SDSFilePython.cpp
index e980448..c7390b4 100644
--- a/src/SDSFilePython.cpp
+++ b/src/SDSFilePython.cpp
@@ -1640,8 +1640,11 @@ void AllocateArrayCallback(SDS_ALLOCATE_ARRAY * pAllocateArray)
 
 //----------------------------------------------------
 // Return the maskLength and pBooleanMask
-void GetFilters(PyObject * kwargs, SDS_READ_CALLBACKS * pRCB)
+// Returns the (contiguous) array which owns the mask or NULL: release it with
+// Py_XDECREF once the read is done
+PyObject * GetFilters(PyObject * kwargs, SDS_READ_CALLBACKS * pRCB)
 {
+    PyObject * maskOwner = NULL;
     pRCB->Filter.BoolMaskLength = 0;
     pRCB->Filter.pBoolMask = NULL;
     pRCB->Filter.BoolMaskTrueCount = 0;
@@ -1673,6 +1676,12 @@ void GetFilters(PyObject * kwargs, SDS_READ_CALLBACKS * pRCB)
         {
             if (PyArray_TYPE((PyArrayObject *)maskItem) == NPY_BOOL)
             {
+                // the mask is read as consecutive bytes
+                maskOwner = (PyObject *)PyArray_GETCONTIGUOUS((PyArrayObject *)maskItem);
+                if (! maskOwner)
+                    return NULL;
+                maskItem = maskOwner;
+
                 if (fancyItem)
                     pRCB->Filter.IsFancy = PyObject_IsTrue(fancyItem);
                 pRCB->Filter.BoolMaskLength = ArrayLength((PyArrayObject *)maskItem);
@@ -1692,6 +1701,7 @@ void GetFilters(PyObject * kwargs, SDS_READ_CALLBACKS * pRCB)
             }
         }
     }
+    return maskOwner;
 }
 
 //----------------------------------------------------
@@ -1763,7 +1773,7 @@ PyObject * DecompressFile(PyObject * self, PyObject * args, PyObject * kwargs)
     sdsRCB.pFolderInclusionList = NULL;
 
     // new for filtering
-    GetFilters(kwargs, &sdsRCB);
+    PyObject * maskOwner = GetFilters(kwargs, &sdsRCB);
 
     // new for boolean mask
     // GetFilters(kwargs, &sdsRCB.pBooleanMask, &sdsRCB.MaskLength);
@@ -1775,6 +1785,8 @@ PyObject * DecompressFile(PyObject * self, PyObject * args, PyObject * kwargs)
     //==============================================
     void * result = SDSReadFile(fileName, shareName, folderName, sectionsName, &sdsRI, &sdsRCB);
 
+    Py_XDECREF(maskOwner);
+
     if (folderName)
     {
         DestroyStringList(folderName);
@@ -1920,12 +1932,13 @@ PyObject * InternalDecompressFiles(PyObject * self, PyObject * args, PyObject *
             sdsRCB.strOutputFilename = pOutputName;
 
             // new for filtering
-            GetFilters(kwargs, &sdsRCB);
+            PyObject * maskOwner = GetFilters(kwargs, &sdsRCB);
 
             //==============================================
             // may return NULL if not all files existed
             result = SDSReadManyFiles(pMultiRead, pInclusionList, pFolderList, pSectionsList, fileCount, multiMode, &sdsRCB);
 
+            Py_XDECREF(maskOwner);
             WORKSPACE_FREE(pMultiRead);
         }
     }
-- 
2.43.0


From aef0a753fca223c65c87dbb92749f0180369392b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:11 +0000
Subject: [PATCH 39/49] fix: cumulative min/max rows of the filtered-out bin
 uninitialised, EmaDecay with filter and reset gave 0, long double time
 overflow, RollingNanVar/NanStd and nan-mean windows wrong, negative windows,
 strided or byte-swapped inputs read out of bounds, errors not reported

---
 src/Ema.cpp        | 105 ++++++++++++++++++++++++++++++++++++++++-----
 src/TimeWindow.cpp |  18 +++++++-
 2 files changed, 111 insertions(+), 12 deletions(-)

diff --git a/src/Ema.cpp b/src/Ema.cpp
index 4f5a60b..d0d3235 100644
--- a/src/Ema.cpp
+++ b/src/Ema.cpp
@@ -234,7 +234,8 @@ public:
                 currentSum += temp;
                 count++;
             }
-            pOut[i] = currentSum / count;
+            // what is left of the sum is only rounding when no valid value is left
+            pOut[i] = count > 0 ? currentSum / count : (U)NAN;
         }
 
         for (int64_t i = windowSize; i < len; i++)
@@ -256,7 +257,8 @@ public:
                 count--;
             }
 
-            pOut[i] = currentSum / count;
+            // what is left of the sum is only rounding when no valid value is left
+            pOut[i] = count > 0 ? currentSum / count : (U)NAN;
         }
     }
 
@@ -357,6 +359,9 @@ public:
             amean += delta * count_inv;
             item -= amean;
             asqr += (item + old) * delta;
+            // rounding must not leave a negative sum of squares
+            if (asqr < 0)
+                asqr = 0;
 
             pOut[i] = asqr * count_inv;
         }
@@ -394,6 +399,9 @@ public:
             amean += delta * count_inv;
             item -= amean;
             asqr += (item + old) * delta;
+            // rounding must not leave a negative sum of squares
+            if (asqr < 0)
+                asqr = 0;
 
             pOut[i] = sqrt(asqr * count_inv);
         }
@@ -428,7 +436,7 @@ public:
             }
         }
 
-        U count_inv = (U)1.0 / windowSize;
+        U count_inv = (U)1.0 / count;
 
         for (int64_t i = windowSize; i < len; i++)
         {
@@ -464,7 +472,7 @@ public:
                     // dd
                     if (count > 0)
                     {
-                        delta = old = amean;
+                        delta = old - amean;
                         amean -= delta * count_inv;
                         asqr -= delta * (old - amean);
                     }
@@ -515,7 +523,7 @@ public:
             }
         }
 
-        U count_inv = (U)1.0 / windowSize;
+        U count_inv = (U)1.0 / count;
 
         for (int64_t i = windowSize; i < len; i++)
         {
@@ -551,7 +559,7 @@ public:
                     // dd
                     if (count > 0)
                     {
-                        delta = old = amean;
+                        delta = old - amean;
                         amean -= delta * count_inv;
                         asqr -= delta * (old - amean);
                     }
@@ -696,6 +704,12 @@ PyObject * Rolling(PyObject * self, PyObject * args)
         return NULL;
     }
 
+    if (param1 < 0)
+    {
+        PyErr_Format(PyExc_ValueError, "Rolling window must not be negative");
+        return NULL;
+    }
+
     // TODO: determine based on function
     int32_t numpyOutType = NPY_FLOAT64;
 
@@ -952,6 +966,10 @@ static void CumNanExtreme(void * pKeyT, void * pAccumBin, void * pColumn, int64_
                     }
                     pDest[i] = pWorkSpace[location];
                 }
+                else
+                {
+                    pDest[i] = Invalid;
+                }
             }
         }
         else
@@ -979,6 +997,10 @@ static void CumNanExtreme(void * pKeyT, void * pAccumBin, void * pColumn, int64_
                     }
                     pDest[i] = pWorkSpace[location];
                 }
+                else
+                {
+                    pDest[i] = Invalid;
+                }
             }
         }
     }
@@ -1011,6 +1033,10 @@ static void CumNanExtreme(void * pKeyT, void * pAccumBin, void * pColumn, int64_
                     }
                     pDest[i] = pWorkSpace[location];
                 }
+                else
+                {
+                    pDest[i] = Invalid;
+                }
             }
         }
 
@@ -1021,6 +1047,11 @@ static void CumNanExtreme(void * pKeyT, void * pAccumBin, void * pColumn, int64_
                 K const location = pKey[i];
 
                 // Bin 0 is bad
+                if (location < GB_BASE_INDEX)
+                {
+                    pDest[i] = Invalid;
+                    continue;
+                }
                 // if new value (pSrc[i]) is invalid, do nothing
                 if (riptide::invalid_for_type<T>::is_valid(pSrc[i]))
                 {
@@ -1101,6 +1132,10 @@ static void CumExtreme(void * pKeyT, void * pAccumBin, void * pColumn, int64_t n
                     }
                     pDest[i] = pWorkSpace[location];
                 }
+                else
+                {
+                    pDest[i] = Invalid;
+                }
             }
         }
         else
@@ -1131,6 +1166,10 @@ static void CumExtreme(void * pKeyT, void * pAccumBin, void * pColumn, int64_t n
                     }
                     pDest[i] = pWorkSpace[location];
                 }
+                else
+                {
+                    pDest[i] = Invalid;
+                }
             }
         }
     }
@@ -1162,6 +1201,10 @@ static void CumExtreme(void * pKeyT, void * pAccumBin, void * pColumn, int64_t n
                     }
                     pDest[i] = pWorkSpace[location];
                 }
+                else
+                {
+                    pDest[i] = Invalid;
+                }
             }
         }
 
@@ -1172,6 +1215,11 @@ static void CumExtreme(void * pKeyT, void * pAccumBin, void * pColumn, int64_t n
                 K const location = pKey[i];
 
                 // Bin 0 is bad
+                if (location < GB_BASE_INDEX)
+                {
+                    pDest[i] = Invalid;
+                    continue;
+                }
                 if (not pWorkSpaceDataSeen[location])
                 {
                     pWorkSpace[location] = pSrc[i];
@@ -1192,6 +1240,7 @@ static void CumExtreme(void * pKeyT, void * pAccumBin, void * pColumn, int64_t n
     }
 
     WORKSPACE_FREE(pWorkSpace);
+    WORKSPACE_FREE(pWorkSpaceDataSeen);
 }
 
 //-------------------------------------------------------------------
@@ -1473,7 +1522,7 @@ public:
                             pLastTime[location] = pTime[i];
                         }
 
-                        pDest[i] = 0;
+                        pDest[i] = pLastEma[location];
                     }
                     else
                     {
@@ -1960,7 +2009,7 @@ static EMA_BY_TWO_FUNC GetEmaByStep2(int timeType, EMA_FUNCTIONS func)
     case NPY_DOUBLE:
         return EmaByBase<T, double, double, K>::GetFunc(func);
     case NPY_LONGDOUBLE:
-        return EmaByBase<T, long double, long double, K>::GetFunc(func);
+        return EmaByBase<T, double, long double, K>::GetFunc(func);
     CASE_NPY_INT32:
         return EmaByBase<T, double, int32_t, K>::GetFunc(func);
     CASE_NPY_INT64:
@@ -2380,6 +2429,7 @@ PyObject * EmaAll32(PyObject * self, PyObject * args)
         else if (! PyArray_Check(inTime))
         {
             PyErr_Format(PyExc_ValueError, "EmaAll32 inTime must be an array");
+            return NULL;
         }
 
         if (inIncludeMask == (PyArrayObject *)Py_None)
@@ -2389,6 +2439,7 @@ PyObject * EmaAll32(PyObject * self, PyObject * args)
         else if (! PyArray_Check(inIncludeMask))
         {
             PyErr_Format(PyExc_ValueError, "EmaAll32 inIncludeMask must be an array");
+            return NULL;
         }
 
         if (inResetMask == (PyArrayObject *)Py_None)
@@ -2398,6 +2449,7 @@ PyObject * EmaAll32(PyObject * self, PyObject * args)
         else if (! PyArray_Check(inResetMask))
         {
             PyErr_Format(PyExc_ValueError, "EmaAll32 inResetMask must be an array");
+            return NULL;
         }
         break;
 
@@ -2427,8 +2479,6 @@ PyObject * EmaAll32(PyObject * self, PyObject * args)
         return NULL;
     }
 
-    int32_t numpyInType2 = ObjectToDtype(iKey);
-
     int64_t totalItemSize = 0;
     ArrayInfo * aInfo = BuildArrayInfo(inList1, (int64_t *)&tupleSize, &totalItemSize);
 
@@ -2438,6 +2488,39 @@ PyObject * EmaAll32(PyObject * self, PyObject * args)
         return NULL;
     }
 
+    for (int64_t i = 0; i < tupleSize; i++)
+    {
+        if (aInfo[i].ArrayLength != totalArrayLength)
+        {
+            FreeArrayInfo(aInfo);
+            PyErr_Format(PyExc_ValueError, "EmaAll32 arrays must have the length of the key");
+            return NULL;
+        }
+    }
+
+    // The loops read these as consecutive native values
+    PyArrayObject * params4[4] = { iKey, inTime, inIncludeMask, inResetMask };
+    bool paramsOk = true;
+    for (PyArrayObject *& param : params4)
+    {
+        if (param)
+        {
+            param = (PyArrayObject *)PyArray_FromArray(param, PyArray_DescrFromType(PyArray_TYPE(param)), NPY_ARRAY_CARRAY_RO);
+            paramsOk = paramsOk && param;
+        }
+    }
+    if (! paramsOk)
+    {
+        for (PyArrayObject * param : params4)
+            Py_XDECREF((PyObject *)param);
+        FreeArrayInfo(aInfo);
+        return NULL;
+    }
+    iKey = params4[0];
+    inTime = params4[1];
+    inIncludeMask = params4[2];
+    inResetMask = params4[3];
+
     LOGGING("Ema started %llu  param:%lf\n", tupleSize, doubleParam);
 
     // Allocate the struct + ROOM at the end of struct for all the tuple objects
@@ -2534,6 +2617,8 @@ PyObject * EmaAll32(PyObject * self, PyObject * args)
     // LOGGING("Return tuple ref %llu\n", returnTuple->ob_refcnt);
     WORKSPACE_FREE(pstEma32);
     FreeArrayInfo(aInfo);
+    for (PyArrayObject * param : params4)
+        Py_XDECREF((PyObject *)param);
 
     LOGGING("!!ema returning\n");
 
diff --git a/src/TimeWindow.cpp b/src/TimeWindow.cpp
index 81f26a0..3fb0360 100644
--- a/src/TimeWindow.cpp
+++ b/src/TimeWindow.cpp
@@ -216,6 +216,18 @@ PyObject * TimeWindow(PyObject * self, PyObject * args)
 
             TWCallbackStruct stTWCallback;
 
+            // read as consecutive native values
+            PyArrayObject * values = (PyArrayObject *)PyArray_FromArray(inArr, PyArray_DescrFromType(dType), NPY_ARRAY_CARRAY_RO);
+            PyArrayObject * times =
+                (PyArrayObject *)PyArray_FromArray(timeArr, PyArray_DescrFromType(PyArray_TYPE(timeArr)), NPY_ARRAY_CARRAY_RO);
+            if (! values || ! times)
+            {
+                Py_XDECREF((PyObject *)values);
+                Py_XDECREF((PyObject *)times);
+                Py_DECREF((PyObject *)outArray);
+                return NULL;
+            }
+
             // This is the routine that will be called back from multiple threads
             auto lambdaTWCallback = [](void * callbackArgT, int core, int64_t start, int64_t length) -> bool
             {
@@ -229,13 +241,15 @@ PyObject * TimeWindow(PyObject * self, PyObject * args)
             };
 
             stTWCallback.func = pTimeWindowFunc;
-            stTWCallback.pDataIn = PyArray_BYTES(inArr);
-            stTWCallback.pTimeIn = PyArray_BYTES(timeArr);
+            stTWCallback.pDataIn = PyArray_BYTES(values);
+            stTWCallback.pTimeIn = PyArray_BYTES(times);
             stTWCallback.pDataOut = PyArray_BYTES(outArray);
             stTWCallback.timeDelta = param1;
 
             g_cMathWorker->DoMultiThreadedChunkWork(arrayLength, lambdaTWCallback, &stTWCallback);
 
+            Py_DECREF((PyObject *)values);
+            Py_DECREF((PyObject *)times);
             return (PyObject *)outArray;
         }
 
-- 
2.43.0


From ea42143288aa0a8d3c9461ada37aef3d0b15db20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:11 +0000
Subject: [PATCH 40/49] fix: PutMask of infinity into integers, conversion of
 strided, Fortran-order or byte-swapped arrays out of bounds, upcast of long
 with unsigned long, RemoveTrailingSpaces on views, HomogenizeArrays turning
 False into invalid and crashing on strings, leaks

---
 src/Convert.cpp | 88 ++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 68 insertions(+), 20 deletions(-)

diff --git a/src/Convert.cpp b/src/Convert.cpp
index 8d93712..bdf8885 100644
--- a/src/Convert.cpp
+++ b/src/Convert.cpp
@@ -188,7 +188,8 @@ public:
         {
             if (pMask[i])
             {
-                if (pIn[i] == pIn[i])
+                // An infinity has a value only in another float
+                if (std::isfinite(pIn[i]) || (std::is_floating_point_v<U> && std::isinf(pIn[i])))
                 {
                     pOut[i] = (U)pIn[i];
                 }
@@ -1039,6 +1040,14 @@ void * GetInvalid(int dtype)
     return pBadInput;
 }
 
+//=====================================================================================
+// True when the elements are not native or, with several dimensions, not in one block
+static bool NeedsCopyToConvert(PyArrayObject * const inArr)
+{
+    return PyArray_ISBYTESWAPPED(inArr) ||
+           (PyArray_NDIM(inArr) > 1 && ! PyArray_IS_C_CONTIGUOUS(inArr) && ! PyArray_IS_F_CONTIGUOUS(inArr));
+}
+
 //=====================================================================================
 // Input: Two parameters
 // Arg1: array to convert
@@ -1071,6 +1080,20 @@ PyObject * ConvertSafeInternal(PyArrayObject * const inArr1, const int64_t out_d
 
     LOGGING("ConvertSafe converting type %d to type %d\n", numpyInType, numpyOutType);
 
+    // What the loops cannot walk in the order of the output is converted from a copy
+    if (NeedsCopyToConvert(inArr1))
+    {
+        PyArrayObject * const copy =
+            (PyArrayObject *)PyArray_FromArray(inArr1, PyArray_DescrFromType(numpyInType), NPY_ARRAY_CARRAY | NPY_ARRAY_ENSUREARRAY);
+        if (! copy)
+        {
+            return NULL;
+        }
+        PyObject * const result = ConvertSafeInternal(copy, out_dtype);
+        Py_DECREF((PyObject *)copy);
+        return result;
+    }
+
     void * const pDataIn = PyArray_BYTES(inArr1);
     int ndim = PyArray_NDIM(inArr1);
     npy_intp * const dims = PyArray_DIMS(inArr1);
@@ -1273,6 +1296,20 @@ PyObject * ConvertUnsafeInternal(PyArrayObject * inArr1, int64_t out_dtype)
 
     LOGGING("ConvertUnsafe converting type %d to type %d\n", numpyInType, numpyOutType);
 
+    // What the loops cannot walk in the order of the output is converted from a copy
+    if (NeedsCopyToConvert(inArr1))
+    {
+        PyArrayObject * const copy =
+            (PyArrayObject *)PyArray_FromArray(inArr1, PyArray_DescrFromType(PyArray_TYPE(inArr1)), NPY_ARRAY_CARRAY | NPY_ARRAY_ENSUREARRAY);
+        if (! copy)
+        {
+            return NULL;
+        }
+        PyObject * const result = ConvertUnsafeInternal(copy, out_dtype);
+        Py_DECREF((PyObject *)copy);
+        return result;
+    }
+
     void * pDataIn = PyArray_BYTES(inArr1);
 
     const int ndim = PyArray_NDIM(inArr1);
@@ -1299,13 +1336,17 @@ PyObject * ConvertUnsafeInternal(PyArrayObject * inArr1, int64_t out_dtype)
     // if output is boolean, bad means false
     void * pBadOutput1 = GetDefaultForType(numpyOutType);
 
+    // From one element to the next: a single dimension may be strided, several are in one block
+    const int64_t strideIn = ndim == 1 ? PyArray_STRIDE(inArr1, 0) : PyArray_ITEMSIZE(inArr1);
+    const int64_t strideOut = PyArray_ITEMSIZE(outArray);
+
     stMATH_WORKER_ITEM * pWorkItem = g_cMathWorker->GetWorkItem(len);
 
     if (! pWorkItem)
     {
         // Threading not allowed for this work item, call it directly from main
         // thread
-        pFunction(pDataIn, pDataOut, len, pBadInput1, pBadOutput1, PyArray_STRIDE(inArr1, 0), PyArray_STRIDE(outArray, 0));
+        pFunction(pDataIn, pDataOut, len, pBadInput1, pBadOutput1, strideIn, strideOut);
     }
     else
     {
@@ -1319,8 +1360,8 @@ PyObject * ConvertUnsafeInternal(PyArrayObject * inArr1, int64_t out_dtype)
         stConvertCallback.pBadInput1 = pBadInput1;
         stConvertCallback.pBadOutput1 = pBadOutput1;
 
-        stConvertCallback.typeSizeIn = PyArray_STRIDE(inArr1, 0);
-        stConvertCallback.typeSizeOut = PyArray_STRIDE(outArray, 0);
+        stConvertCallback.typeSizeIn = strideIn;
+        stConvertCallback.typeSizeOut = strideOut;
 
         // This will notify the worker threads of a new work item
         g_cMathWorker->WorkMain(pWorkItem, len, 0);
@@ -2637,6 +2678,13 @@ PyObject * RemoveTrailingSpaces(PyObject * self, PyObject * args)
 
     if (dtype == NPY_STRING || dtype == NPY_UNICODE)
     {
+        // The strings are changed in place
+        if (! PyArray_ISCARRAY(inArr1) && ! PyArray_ISFARRAY(inArr1))
+        {
+            PyErr_Format(PyExc_ValueError, "The array of strings must be a writeable block in memory");
+            return NULL;
+        }
+
         void * pDataIn1 = PyArray_BYTES(inArr1);
         int64_t arraySize1 = ArrayLength(inArr1);
         int64_t itemSize = PyArray_ITEMSIZE(inArr1);
@@ -2765,7 +2813,7 @@ int GetUpcastDtype(ArrayInfo * aInfo, int64_t tupleSize)
         if (maxuint > 0)
         {
             // Do we have a uint and no floats?
-            if (maxint > maxuint)
+            if (maxint > maxuint && ! (sizeof(long) == 8 && maxuint == NPY_ULONG))
             {
                 // we can safely upcast the uint to maxint
                 return maxint;
@@ -2919,6 +2967,7 @@ PyObject * HStack(PyObject * self, PyObject * args)
                 }
                 else
                 {
+                    FreeArrayInfo(aInfo);
                     PyErr_Format(PyExc_ValueError,
                                  "Dont know how to convert dtype num %d.  Please make "
                                  "sure all arrays are ints or floats.",
@@ -3034,6 +3083,7 @@ PyObject * HStack(PyObject * self, PyObject * args)
 
                 if (a_dtype > NPY_LONGDOUBLE || aInfo[t].NDim != 1)
                 {
+                    WORKSPACE_FREE(pHStack);
                     FreeArrayInfo(aInfo);
                     PyErr_Format(PyExc_ValueError,
                                  "Dont know how to convert dtype num %d or more than 1 dimension. "
@@ -3322,6 +3372,7 @@ PyObject * HomogenizeArrays(PyObject * self, PyObject * args)
         {
             if (dtype < 0 || dtype > NPY_LONGDOUBLE)
             {
+                FreeArrayInfo(aInfo);
                 PyErr_Format(PyExc_ValueError,
                              "HomogenizeArrays: Dont know how to convert dtype num %d. "
                              " Please make sure all arrays are ints or floats.",
@@ -3334,14 +3385,13 @@ PyObject * HomogenizeArrays(PyObject * self, PyObject * args)
             dtype = GetUpcastDtype(aInfo, tupleSize);
             if (dtype == -1)
             {
+                FreeArrayInfo(aInfo);
+                PyErr_Format(PyExc_ValueError, "HomogenizeArrays: Dont know how to convert to a common dtype.");
                 return NULL;
             }
         }
 
         // Now convert?
-        // if output is boolean, bad means false
-        void * pBadOutput1 = GetDefaultForType(dtype);
-
         PyObject * returnList = PyList_New(0);
 
         // Convert any different types... build a new list...
@@ -3349,21 +3399,19 @@ PyObject * HomogenizeArrays(PyObject * self, PyObject * args)
         {
             if (dtype != aInfo[t].NumpyDType)
             {
-                CONVERT_SAFE convertSafe = GetConversionFunctionSafe(aInfo[t].NumpyDType, dtype);
-                void * pBadInput1 = GetDefaultForType(aInfo[t].NumpyDType);
-                PyArrayObject * pOutput = AllocateLikeNumpyArray(aInfo[t].pObject, dtype);
+                // preserve sentinels
+                PyObject * pOutput = ConvertSafeInternal(aInfo[t].pObject, dtype);
 
-                // TODO: multithread this
-                if (pOutput)
+                if (! pOutput)
                 {
-                    // preserve sentinels
-                    convertSafe(aInfo[t].pData, PyArray_BYTES(pOutput), aInfo[t].ArrayLength, pBadInput1, pBadOutput1,
-                                PyArray_STRIDE(aInfo[t].pObject, 0), PyArray_STRIDE(pOutput, 0));
-
-                    // pylist_append will add a reference count but setitem will not
-                    PyList_Append(returnList, (PyObject *)pOutput);
-                    Py_DecRef((PyObject *)pOutput);
+                    Py_DECREF(returnList);
+                    FreeArrayInfo(aInfo);
+                    return NULL;
                 }
+
+                // pylist_append will add a reference count but setitem will not
+                PyList_Append(returnList, pOutput);
+                Py_DecRef(pOutput);
             }
             else
             {
-- 
2.43.0


From 55f4efe583416bc93111d295a5c5d36c01e4494d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:11 +0000
Subject: [PATCH 41/49] fix: bins compared in the wrong type, empty cuts read
 out of bounds, string bins wrong when threaded, uninitialised output,
 unchecked sort index, reads past the last bin or interpolation point, None
 returned with an error set

---
 src/Bins.cpp | 216 +++++++++++++++++++++++++++++++++++++++++----------
 src/Ema.cpp  |  28 +++++--
 src/Sort.h   |   7 ++
 3 files changed, 202 insertions(+), 49 deletions(-)

diff --git a/src/Bins.cpp b/src/Bins.cpp
index d42f1b9..108d368 100644
--- a/src/Bins.cpp
+++ b/src/Bins.cpp
@@ -5,9 +5,42 @@
 #include "Sort.h"
 #include "MathWorker.h"
 
+#include <type_traits>
+
 #define LOGGING(...)
 //#define LOGGING printf
 
+//--------------------------------------------------------------------------
+// Compares a value with a bin edge of another type, without narrowing either.
+// Integers compare exactly, whatever their sign; anything with a float compares as double.
+template <typename A, typename B>
+static inline bool BinLess(const A a, const B b)
+{
+    if constexpr (std::is_integral_v<A> && std::is_integral_v<B>)
+    {
+        if constexpr (std::is_signed_v<A> == std::is_signed_v<B>)
+        {
+            return a < b;
+        }
+        else if constexpr (std::is_signed_v<A>)
+        {
+            return a < 0 || (uint64_t)a < (uint64_t)b;
+        }
+        else
+        {
+            return b >= 0 && (uint64_t)a < (uint64_t)b;
+        }
+    }
+    else if constexpr (std::is_same_v<A, long double> || std::is_same_v<B, long double>)
+    {
+        return (long double)a < (long double)b;
+    }
+    else
+    {
+        return (double)a < (double)b;
+    }
+}
+
 //--------------------------------------------------------------------------
 typedef void (*REINDEXCALLBACK)(void * pDataOut, void * pDataIn, void * pIndex1, int64_t indexLen, int64_t itemSize);
 
@@ -371,7 +404,7 @@ PyObject * NanInfCount(void * pDataIn1, void * pIndex1, int64_t arraySize1, int
             posInfCount++;
         }
 
-        int j = 0;
+        int64_t j = 0;
 
         while ((j <= i) && pData[pIndex[j]] == -INFINITY)
         {
@@ -389,7 +422,7 @@ PyObject * NanInfCount(void * pDataIn1, void * pIndex1, int64_t arraySize1, int
             // SCAN FORWARD
             // printf("***scan forward\n");
             int64_t i = arraySize1 - 1;
-            int j = 0;
+            int64_t j = 0;
 
             while ((j <= i) && pData[pIndex[j]] == defaultNan)
             {
@@ -465,6 +498,39 @@ NAN_INF_COUNT GetNanInfCount(int numpyInType)
     return result;
 }
 
+//------------------------------------------------------------------------------
+template <typename U>
+static bool SortIndexInRangeT(const U * pIndex, int64_t length, int64_t rows)
+{
+    for (int64_t i = 0; i < length; i++)
+    {
+        if (pIndex[i] < 0 || pIndex[i] >= rows)
+            return false;
+    }
+    return true;
+}
+
+//------------------------------------------------------------------------------
+// Returns false and sets the error when a row of a sort index (contiguous int32 or int64) is out of range
+static bool SortIndexInRange(PyArrayObject * indexArr, int64_t rows)
+{
+    bool inRange = true;
+    switch (PyArray_TYPE(indexArr))
+    {
+    CASE_NPY_INT32:
+        inRange = SortIndexInRangeT((const int32_t *)PyArray_BYTES(indexArr), ArrayLength(indexArr), rows);
+        break;
+    CASE_NPY_INT64:
+        inRange = SortIndexInRangeT((const int64_t *)PyArray_BYTES(indexArr), ArrayLength(indexArr), rows);
+        break;
+    }
+    if (! inRange)
+    {
+        PyErr_Format(PyExc_ValueError, "The sort index is out of range for %lld rows", (long long)rows);
+    }
+    return inRange;
+}
+
 //===============================================================================
 // First argument: values from unsorted array (e.g. array of floats)
 // Second argument: result from lexsort or argsort (integer index)
@@ -480,6 +546,12 @@ PyObject * NanInfCountFromSort(PyObject * self, PyObject * args)
             void * pDataIn1 = mlp.aInfo[0].pData;
             void * pIndex1 = mlp.aInfo[1].pData;
             int64_t arraySize1 = mlp.aInfo[0].ArrayLength;
+
+            // every row is read through the index
+            if (! SortIndexInRange((PyArrayObject *)mlp.aInfo[1].pObject, arraySize1))
+            {
+                return NULL;
+            }
             int numpyInType = mlp.aInfo[0].NumpyDType;
             int numpyIndexType = mlp.aInfo[1].NumpyDType;
 
@@ -512,8 +584,9 @@ PyObject * NanInfCountFromSort(PyObject * self, PyObject * args)
                      "param is the value array");
     }
 
-    Py_INCREF(Py_None);
-    return Py_None;
+    if (! PyErr_Occurred())
+        PyErr_Format(PyExc_ValueError, "NanInfCountFromSort: values or index of an unsupported type");
+    return NULL;
 }
 
 //=================================================================================================
@@ -612,6 +685,10 @@ void MakeBinsSorted(void * pDataIn1, void * pSortIndex1, void * pOut1, int64_t l
             {
                 // move to next bin
                 ++bin;
+                if (bin >= maxbin)
+                {
+                    break;
+                }
                 compare = pBin1[bin];
                 LOGGING("comparing to %lld %lld  %lf  %lf\n", i, (int64_t)bin, (double)pData[index], compare);
             }
@@ -718,6 +795,48 @@ PyObject * BinsToCutsSorted(PyObject * self, PyObject * args)
     {
         PyErr_Format(PyExc_ValueError, "bin array must be float64 -- not %d", PyArray_TYPE(binArr1));
     }
+    else if (ArrayLength(binArr1) < 1)
+    {
+        PyErr_Format(PyExc_ValueError, "bin array must not be empty");
+    }
+    else if (ArrayLength(indexArr1) != ArrayLength(inArr1))
+    {
+        PyErr_Format(PyExc_ValueError, "The sort index must have as many rows as the values");
+    }
+    else if (nancount < 0 || infcount < 0 || neginfcount < 0 || nancount > ArrayLength(inArr1) || infcount > ArrayLength(inArr1) ||
+             neginfcount > ArrayLength(inArr1) || nancount + infcount + neginfcount > ArrayLength(inArr1))
+    {
+        PyErr_Format(PyExc_ValueError, "The counts must not exceed the number of rows");
+    }
+    else if (! PyArray_ISCARRAY_RO(inArr1) || ! PyArray_ISCARRAY_RO(binArr1) || ! PyArray_ISCARRAY_RO(indexArr1))
+    {
+        // the routines read dense arrays in native byte order
+        PyArrayObject * dense[3] = { inArr1, binArr1, indexArr1 };
+        PyObject * result = NULL;
+        for (int i = 0; i < 3; i++)
+        {
+            dense[i] = (PyArrayObject *)PyArray_CheckFromAny((PyObject *)dense[i], NULL, 0, 0,
+                                                             NPY_ARRAY_CARRAY_RO | NPY_ARRAY_NOTSWAPPED, NULL);
+        }
+        if (dense[0] && dense[1] && dense[2])
+        {
+            PyObject * denseArgs = Py_BuildValue("(OOOOi)", dense[0], dense[1], dense[2], counts, binMode);
+            if (denseArgs)
+            {
+                result = BinsToCutsSorted(self, denseArgs);
+                Py_DECREF(denseArgs);
+            }
+        }
+        for (int i = 0; i < 3; i++)
+        {
+            Py_XDECREF((PyObject *)dense[i]);
+        }
+        return result;
+    }
+    else if (! SortIndexInRange(indexArr1, ArrayLength(inArr1)))
+    {
+        return NULL;
+    }
     else
     {
         int numpyInType = PyArray_TYPE(inArr1);
@@ -812,8 +931,9 @@ PyObject * BinsToCutsSorted(PyObject * self, PyObject * args)
         }
     }
 
-    Py_INCREF(Py_None);
-    return Py_None;
+    if (! PyErr_Occurred())
+        PyErr_Format(PyExc_ValueError, "BinsToCutsSorted: values or index of an unsupported type");
+    return NULL;
 }
 
 //=================================================================================================
@@ -838,8 +958,8 @@ void SearchSortedRight(void * pDataIn1, void * pOut1, const int64_t start, const
     V maxbin = (V)maxbin1;
 
     const V lastbin = maxbin - 1;
-    const T verylast = (const T)pBin1[lastbin];
-    const T veryfirst = (const T)pBin1[0];
+    const BINTYPE verylast = pBin1[lastbin];
+    const BINTYPE veryfirst = pBin1[0];
 
     LOGGING("SearchSortedRight Array length %lld   bin length %lld\n", length, (long long)maxbin);
 
@@ -848,25 +968,24 @@ void SearchSortedRight(void * pDataIn1, void * pOut1, const int64_t start, const
     {
         const T value = pData[i];
 
-        if (value >= veryfirst && value < verylast)
+        if (value == value && ! BinLess(value, veryfirst) && BinLess(value, verylast))
         {
             // bin search
             V middle;
             V first = 0;
             V last = lastbin;
-            BINTYPE val = (BINTYPE)value;
 
             // NOTE: this loop can be sped up
             do
             {
                 middle = (first + last) >> 1; // this finds the mid point
-                if (pBin1[middle] > val)      // if it's in the lower half
+                if (BinLess(value, pBin1[middle])) // if it's in the lower half
                 {
                     last = middle - 1;
                     if (first > last)
                         break;
                 }
-                else if (pBin1[middle] <= val)
+                else
                 {
                     first = middle + 1; // if it's in the upper half
                     if (first > last)
@@ -883,7 +1002,7 @@ void SearchSortedRight(void * pDataIn1, void * pOut1, const int64_t start, const
         else
         {
             // First bin for invalid values
-            if (value < veryfirst)
+            if (BinLess(value, veryfirst))
             {
                 pOut[i] = 0;
             }
@@ -918,8 +1037,8 @@ void SearchSortedLeft(void * pDataIn1, void * pOut1, const int64_t start, const
     V maxbin = (V)maxbin1;
 
     const V lastbin = maxbin - 1;
-    const T verylast = (const T)pBin1[lastbin];
-    const T veryfirst = (const T)pBin1[0];
+    const BINTYPE verylast = pBin1[lastbin];
+    const BINTYPE veryfirst = pBin1[0];
 
     LOGGING("SearchSortedLeft Array length %lld   bin length %lld\n", length, (long long)maxbin);
 
@@ -928,25 +1047,24 @@ void SearchSortedLeft(void * pDataIn1, void * pOut1, const int64_t start, const
     {
         const T value = pData[i];
 
-        if (value > veryfirst && value <= verylast)
+        if (BinLess(veryfirst, value) && ! BinLess(verylast, value))
         {
             // bin search
             V middle;
             V first = 0;
             V last = lastbin;
-            BINTYPE val = (BINTYPE)value;
 
             // NOTE: this loop can be sped up
             do
             {
                 middle = (first + last) >> 1; // this finds the mid point
-                if (pBin1[middle] >= val)     // if it's in the lower half
+                if (! BinLess(pBin1[middle], value)) // if it's in the lower half
                 {
                     last = middle - 1;
                     if (first > last)
                         break;
                 }
-                else if (pBin1[middle] < val)
+                else
                 {
                     first = middle + 1; // if it's in the upper half
                     if (first > last)
@@ -963,7 +1081,7 @@ void SearchSortedLeft(void * pDataIn1, void * pOut1, const int64_t start, const
         else
         {
             // First bin for invalid values
-            if (value <= veryfirst)
+            if (value == value && ! BinLess(veryfirst, value))
             {
                 pOut[i] = 0;
             }
@@ -1170,7 +1288,7 @@ void SearchSortedLeftString(void * pDataIn1, void * pOut1, const int64_t start,
                             int64_t maxbin1, int64_t itemSizeValue, int64_t itemSizeBin)
 {
     const char * pData = (const char *)pDataIn1;
-    pData = &pData[start];
+    pData = &pData[start * itemSizeValue];
 
     OUT_TYPE * pOut = (OUT_TYPE *)pOut1;
     pOut = &pOut[start];
@@ -1265,7 +1383,7 @@ void MakeBinsBSearchString(void * pDataIn1, void * pOut1, const int64_t start, c
                            int64_t maxbin1, int64_t itemSizeValue, int64_t itemSizeBin)
 {
     const char * pData = (const char *)pDataIn1;
-    pData = &pData[start];
+    pData = &pData[start * itemSizeValue];
 
     OUT_TYPE * pOut = (OUT_TYPE *)pOut1;
     pOut = &pOut[start];
@@ -1374,8 +1492,8 @@ void MakeBinsBSearchFloat(void * pDataIn1, void * pOut1, const int64_t start, co
     OUT_TYPE maxbin = (OUT_TYPE)maxbin1;
 
     const OUT_TYPE lastbin = maxbin - 1;
-    const T verylast = (const T)pBin1[lastbin];
-    const T veryfirst = (const T)pBin1[0];
+    const BINTYPE verylast = pBin1[lastbin];
+    const BINTYPE veryfirst = pBin1[0];
 
     LOGGING(
         "MakeBinsBSearchFloat Array length %lld   bin length %lld    bintype "
@@ -1386,24 +1504,23 @@ void MakeBinsBSearchFloat(void * pDataIn1, void * pOut1, const int64_t start, co
     for (int64_t i = 0; i < length; i++)
     {
         const T value = pData[i];
-        if (std::isfinite(value) && value >= veryfirst && value <= verylast)
+        if (std::isfinite(value) && ! BinLess(value, veryfirst) && ! BinLess(verylast, value))
         {
             // bin search
             OUT_TYPE middle;
             OUT_TYPE first = 0;
             OUT_TYPE last = lastbin;
-            BINTYPE val = (BINTYPE)value;
 
             do
             {
                 middle = (first + last) >> 1; // this finds the mid point
-                if (pBin1[middle] > val)      // if it's in the lower half
+                if (BinLess(value, pBin1[middle])) // if it's in the lower half
                 {
                     last = middle - 1;
                     if (first >= last)
                         break;
                 }
-                else if (pBin1[middle] < val)
+                else if (BinLess(pBin1[middle], value))
                 {
                     first = middle + 1; // if it's in the upper half
                     if (first >= last)
@@ -1422,7 +1539,7 @@ void MakeBinsBSearchFloat(void * pDataIn1, void * pOut1, const int64_t start, co
 
             if (first > 0)
             {
-                if (val <= pBin1[first])
+                if (! BinLess(pBin1[first], value))
                 {
                     pOut[i] = first;
                 }
@@ -1471,8 +1588,8 @@ void MakeBinsBSearch(void * pDataIn1, void * pOut1, const int64_t start, const i
     void * pDefault = GetDefaultForType(numpyInType);
     const T defaultNan = *(T *)pDefault;
     const OUT_TYPE lastbin = maxbin - 1;
-    const T verylast = (const T)pBin1[lastbin];
-    const T veryfirst = (const T)pBin1[0];
+    const BINTYPE verylast = pBin1[lastbin];
+    const BINTYPE veryfirst = pBin1[0];
 
     LOGGING("MakeBinsBSearch Array length %lld   bin length %lld\n", length, (long long)maxbin);
 
@@ -1481,25 +1598,24 @@ void MakeBinsBSearch(void * pDataIn1, void * pOut1, const int64_t start, const i
     {
         const T value = pData[i];
 
-        if (value != defaultNan && value >= veryfirst && value <= verylast)
+        if (value != defaultNan && ! BinLess(value, veryfirst) && ! BinLess(verylast, value))
         {
             // bin search
             OUT_TYPE middle;
             OUT_TYPE first = 0;
             OUT_TYPE last = lastbin;
-            BINTYPE val = (BINTYPE)value;
 
             // NOTE: this loop can be sped up
             do
             {
                 middle = (first + last) >> 1; // this finds the mid point
-                if (pBin1[middle] > val)      // if it's in the lower half
+                if (BinLess(value, pBin1[middle])) // if it's in the lower half
                 {
                     last = middle - 1;
                     if (first >= last)
                         break;
                 }
-                else if (pBin1[middle] < val)
+                else if (BinLess(pBin1[middle], value))
                 {
                     first = middle + 1; // if it's in the upper half
                     if (first >= last)
@@ -1518,7 +1634,7 @@ void MakeBinsBSearch(void * pDataIn1, void * pOut1, const int64_t start, const i
 
             if (first > 0)
             {
-                if (val <= pBin1[first])
+                if (! BinLess(pBin1[first], value))
                 {
                     pOut[i] = first;
                 }
@@ -1743,6 +1859,26 @@ PyObject * BinsToCutsBSearch(PyObject * self, PyObject * args)
     if (! PyArg_ParseTuple(args, "O!O!i", &PyArray_Type, &inArr1, &PyArray_Type, &binArr1, &searchMode))
         return NULL;
 
+    if (ArrayLength(binArr1) < 1)
+    {
+        PyErr_Format(PyExc_ValueError, "bin array must not be empty");
+        return NULL;
+    }
+
+    if (! PyArray_ISCARRAY_RO(inArr1) || ! PyArray_ISCARRAY_RO(binArr1))
+    {
+        // the routines read dense arrays in native byte order
+        const int flags = NPY_ARRAY_CARRAY_RO | NPY_ARRAY_NOTSWAPPED;
+        PyObject * denseIn = PyArray_CheckFromAny((PyObject *)inArr1, NULL, 0, 0, flags, NULL);
+        PyObject * denseBin = denseIn ? PyArray_CheckFromAny((PyObject *)binArr1, NULL, 0, 0, flags, NULL) : NULL;
+        PyObject * denseArgs = denseBin ? Py_BuildValue("(OOi)", denseIn, denseBin, searchMode) : NULL;
+        PyObject * result = denseArgs ? BinsToCutsBSearch(self, denseArgs) : NULL;
+        Py_XDECREF(denseArgs);
+        Py_XDECREF(denseBin);
+        Py_XDECREF(denseIn);
+        return result;
+    }
+
     int binType = PyArray_TYPE(binArr1);
 
     int numpyInType = PyArray_TYPE(inArr1);
@@ -1767,8 +1903,8 @@ PyObject * BinsToCutsBSearch(PyObject * self, PyObject * args)
 
     if (numpyInType == binType)
     {
-        // string or unicode comparison
-        if (numpyInType == NPY_STRING || numpyInType == NPY_UNICODE)
+        // string comparison, bin cuts only
+        if (numpyInType == NPY_STRING && searchMode == 0)
         {
             isString = true;
         }
@@ -1951,7 +2087,5 @@ PyObject * BinsToCutsBSearch(PyObject * self, PyObject * args)
         }
     }
     PyErr_Format(PyExc_ValueError, "bin array must be int32/int64/float32/float64 -- not %d", PyArray_TYPE(binArr1));
-
-    Py_INCREF(Py_None);
-    return Py_None;
+    return NULL;
 }
diff --git a/src/Ema.cpp b/src/Ema.cpp
index d0d3235..74b56b8 100644
--- a/src/Ema.cpp
+++ b/src/Ema.cpp
@@ -2654,7 +2654,7 @@ void mat_interp_extrap(void * xT, void * xpT, void * ypT, void * outT, int64_t N
                 if (xi > xp[0])
                 {
                     int64_t j = 1;
-                    while (xi > xp[j] && j < M)
+                    while (j < M && xi > xp[j])
                         j++;
                     if (j == M)
                     {
@@ -2689,7 +2689,7 @@ void mat_interp_extrap(void * xT, void * xpT, void * ypT, void * outT, int64_t N
                 if (xi > xp[0])
                 {
                     int64_t j = 1;
-                    while (xi > xp[j] && j < M)
+                    while (j < M && xi > xp[j])
                         j++;
                     if (j == M)
                     {
@@ -2735,7 +2735,7 @@ void mat_interp(void * xT, void * xpT, void * ypT, void * outT, int64_t N, int64
                 if (xi > xp0)
                 {
                     int64_t j = 1;
-                    while (xi > xp[j] && j < M)
+                    while (j < M && xi > xp[j])
                         j++;
                     if (j == M)
                     {
@@ -2769,7 +2769,7 @@ void mat_interp(void * xT, void * xpT, void * ypT, void * outT, int64_t N, int64
                 if (xi > xp0)
                 {
                     int64_t j = 1;
-                    while (xi > xp[j] && j < M)
+                    while (j < M && xi > xp[j])
                         j++;
                     if (j == M)
                     {
@@ -2868,13 +2868,13 @@ PyObject * InterpExtrap2d(PyObject * self, PyObject * args)
         return NULL;
     }
 
-    if (PyArray_NDIM(arr) > 1)
+    if (PyArray_NDIM(arr) != 1)
     {
         PyErr_Format(PyExc_ValueError, "The 1st argument must be 1 dimensional arrays");
         return NULL;
     }
 
-    if ((PyArray_NDIM(xp) != PyArray_NDIM(yp)) || PyArray_NDIM(yp) > 2)
+    if ((PyArray_NDIM(xp) != PyArray_NDIM(yp)) || PyArray_NDIM(yp) > 2 || PyArray_NDIM(yp) < 1)
     {
         PyErr_Format(PyExc_ValueError, "The 2nd and 3rd argument must be the same dimensions");
         return NULL;
@@ -2889,7 +2889,7 @@ PyObject * InterpExtrap2d(PyObject * self, PyObject * args)
         mode = 1;
     }
 
-    if (! (PyArray_FLAGS(xp) & PyArray_FLAGS(yp) & NPY_ARRAY_C_CONTIGUOUS))
+    if (! (PyArray_FLAGS(xp) & PyArray_FLAGS(yp) & NPY_ARRAY_C_CONTIGUOUS) || ! PyArray_ISNOTSWAPPED(xp) || ! PyArray_ISNOTSWAPPED(yp))
     {
         PyErr_Format(PyExc_ValueError,
                      "The 2nd and 3rd argument must be row "
@@ -2945,6 +2945,13 @@ PyObject * InterpExtrap2d(PyObject * self, PyObject * args)
         return NULL;
     }
 
+    // the values are read as one dense block
+    PyArrayObject * dense = EnsureContiguousArray(arr);
+    if (! dense)
+    {
+        return NULL;
+    }
+
     // allocate a float or a double
     returnArray = AllocateLikeNumpyArray(arr, dtype);
 
@@ -2953,7 +2960,7 @@ PyObject * InterpExtrap2d(PyObject * self, PyObject * args)
         // copy params we will use into a struct on the stack
         stInterp interp;
         interp.itemsize = (int)PyArray_ITEMSIZE(xp);
-        interp.x = PyArray_BYTES(arr);
+        interp.x = PyArray_BYTES(dense);
         interp.xp = PyArray_BYTES(xp);
         interp.yp = PyArray_BYTES(yp);
         interp.out = PyArray_BYTES(returnArray);
@@ -2966,6 +2973,11 @@ PyObject * InterpExtrap2d(PyObject * self, PyObject * args)
         g_cMathWorker->DoMultiThreadedChunkWork(N, InterpolateExtrap, &interp);
     }
 
+    if (dense != arr)
+    {
+        Py_DECREF((PyObject *)dense);
+    }
+
     // return the output array by default
     return (PyObject *)returnArray;
 }
diff --git a/src/Sort.h b/src/Sort.h
index 77a0ff8..7fc9e23 100644
--- a/src/Sort.h
+++ b/src/Sort.h
@@ -71,6 +71,13 @@ public:
         int64_t listSize = 0;
         aInfo = BuildArrayInfo(args, &listSize, &totalItemSize);
 
+        if (aInfo && listSize < 1)
+        {
+            // nothing was passed in
+            FreeArrayInfo(aInfo);
+            aInfo = NULL;
+        }
+
         if (aInfo)
         {
             totalRows = aInfo[0].ArrayLength;
-- 
2.43.0


From 2d0f330a5af6a2f0cc0eae2a8bdf1f7880186fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:11 +0000
Subject: [PATCH 42/49] fix: days that do not exist accepted, wide characters
 read by low byte or out of table, strided and byte-swapped input,
 unrepresentable dates plus time gave garbage, %G read past the end

---
 src/DateTime.cpp  | 147 ++++++++++++++++++++++++++++++++++------------
 src/strptime5.cpp |   2 +
 2 files changed, 111 insertions(+), 38 deletions(-)

diff --git a/src/DateTime.cpp b/src/DateTime.cpp
index db40c95..7638960 100644
--- a/src/DateTime.cpp
+++ b/src/DateTime.cpp
@@ -15,6 +15,13 @@ const char * rt_strptime(const char * buf, const char * fmt, struct tm * tm);
 const char COLON = ':';
 const char PERIOD = '.';
 
+// std::isspace is only defined for the values of an unsigned char
+template <typename T>
+static bool is_space(const T c)
+{
+    return c == ' ' || (c >= '\t' && c <= '\r');
+}
+
 template <typename T>
 struct parsing_error
 {
@@ -51,7 +58,7 @@ public:
 
     void consume_leading_whitespace()
     {
-        while (! at_end() && std::isspace(*pStart))
+        while (! at_end() && is_space(*pStart))
             pStart++;
     }
 
@@ -59,7 +66,7 @@ public:
     {
         while (! at_end())
         {
-            if (! std::isspace(*pStart))
+            if (! is_space(*pStart))
                 set_error("Unexpected characters");
 
             pStart++;
@@ -130,7 +137,7 @@ RT_FORCEINLINE int64_t ParseDecimal(const T ** ppStart, const T * pEnd)
 template <typename T>
 bool DateTimeParser<T>::ParseSingleNonNumber(T expected)
 {
-    if (pStart < pEnd && (*pStart < '0' || *pStart > '9'))
+    if (! at_end() && (*pStart < '0' || *pStart > '9'))
     {
         if (*pStart != expected)
             set_error("Unexpected delimiter");
@@ -151,7 +158,7 @@ template <typename T>
 RT_FORCEINLINE int64_t DateTimeParser<T>::ParseNumber(int64_t maxplaces)
 {
     // skip non numbers in front
-    while (pStart < pEnd)
+    while (! at_end())
     {
         if (*pStart < '0' || *pStart > '9')
         {
@@ -284,8 +291,15 @@ int64_t YearToEpochNano(int64_t year, int64_t month, int64_t day)
     // The corresponding lookup tables in rt_datetime are likewise limited to 2099.
     if (year >= 1970 && year <= 2099 && month >= 1 && month <= 12 && day >= 1 && day <= 31)
     {
+        // the day must exist in the month (all of them have 28 days)
+        const bool is_leap = (year % 4) == 0;
+        const int64_t * const splits = is_leap ? MONTH_SPLITS_LEAP : MONTH_SPLITS;
+        const int64_t month_end = month < 12 ? splits[month] : splits[11] + 31;
+        if (day > month_end - splits[month - 1])
+            return -1;
+
         // check for leap.
-        if ((year % 4) == 0)
+        if (is_leap)
         {
             day = MONTH_SPLITS_LEAP[month - 1] + day - 1;
         }
@@ -403,7 +417,7 @@ void DateTimeParser<T>::ParseDateTimeString(int64_t * pOutNanoTime, int64_t arra
         int64_t minute = 0;
         int64_t seconds = 0;
 
-        if (pStart < pEnd && (*pStart < '0' || *pStart > '9'))
+        if (! at_end() && (*pStart < '0' || *pStart > '9'))
         {
             if (*pStart != 'T' && *pStart != ' ')
                 set_error("Unexpected delimiter");
@@ -454,21 +468,24 @@ void DateTimeParser<T>::ParseDateTimeString(int64_t * pOutNanoTime, int64_t arra
 }
 
 template <typename T>
-void parsing_error_to_py_warning(const parsing_error<T> & error);
+int parsing_error_to_py_warning(const parsing_error<T> & error);
 
 template <>
-void parsing_error_to_py_warning<char>(const parsing_error<char> & error)
+int parsing_error_to_py_warning<char>(const parsing_error<char> & error)
 {
     std::string datetime(error.start, error.end);
-    PyErr_WarnFormat(PyExc_RuntimeWarning, 1, "%s in \"%s\" at position %lld", error.message, datetime.c_str(), error.position);
+    return PyErr_WarnFormat(PyExc_RuntimeWarning, 1, "%s in \"%s\" at position %lld", error.message, datetime.c_str(), error.position);
 }
 
 template <>
-void parsing_error_to_py_warning<uint32_t>(const parsing_error<uint32_t> & error)
+int parsing_error_to_py_warning<uint32_t>(const parsing_error<uint32_t> & error)
 {
     PyObject * datetime = PyUnicode_FromKindAndData(PyUnicode_4BYTE_KIND, error.start, error.end - error.start);
-    PyErr_WarnFormat(PyExc_RuntimeWarning, 1, "%s in \"%U\" at position %lld", error.message, datetime, error.position);
-    Py_XDECREF(datetime);
+    if (! datetime)
+        return -1;
+    const int result = PyErr_WarnFormat(PyExc_RuntimeWarning, 1, "%s in \"%U\" at position %lld", error.message, datetime, error.position);
+    Py_DECREF(datetime);
+    return result;
 }
 
 //--------------------------------------------------------------
@@ -500,6 +517,13 @@ PyObject * TimeStringToNanos(PyObject * self, PyObject * args)
         return NULL;
     }
 
+    // the strings are read as one dense block in native byte order
+    inArr = (PyArrayObject *)PyArray_CheckFromAny((PyObject *)inArr, NULL, 0, 0, NPY_ARRAY_CARRAY_RO | NPY_ARRAY_NOTSWAPPED, NULL);
+    if (! inArr)
+    {
+        return NULL;
+    }
+
     // Dont bother allocating if we cannot call the function
     outArray = AllocateNumpyArray(1, (npy_intp *)&arrayLength, NPY_INT64);
 
@@ -515,8 +539,12 @@ PyObject * TimeStringToNanos(PyObject * self, PyObject * args)
             parser.ParseTimeString(pNanoTime, arrayLength, pString, itemSize);
 
             const auto & maybe_error = parser.get_error();
-            if (maybe_error)
-                parsing_error_to_py_warning(*maybe_error);
+            if (maybe_error && parsing_error_to_py_warning(*maybe_error) < 0)
+            {
+                // the warning was turned into an error
+                Py_DECREF(outArray);
+                outArray = NULL;
+            }
         }
         else
         {
@@ -524,14 +552,17 @@ PyObject * TimeStringToNanos(PyObject * self, PyObject * args)
             parser.ParseTimeString(pNanoTime, arrayLength, (uint32_t *)pString, itemSize / 4);
 
             const auto & maybe_error = parser.get_error();
-            if (maybe_error)
-                parsing_error_to_py_warning(*maybe_error);
+            if (maybe_error && parsing_error_to_py_warning(*maybe_error) < 0)
+            {
+                // the warning was turned into an error
+                Py_DECREF(outArray);
+                outArray = NULL;
+            }
         }
-        return (PyObject *)outArray;
     }
 
-    Py_INCREF(Py_None);
-    return Py_None;
+    Py_DECREF(inArr);
+    return (PyObject *)outArray;
 }
 
 //--------------------------------------------------------------
@@ -563,6 +594,13 @@ PyObject * DateStringToNanos(PyObject * self, PyObject * args)
         return NULL;
     }
 
+    // the strings are read as one dense block in native byte order
+    inArr = (PyArrayObject *)PyArray_CheckFromAny((PyObject *)inArr, NULL, 0, 0, NPY_ARRAY_CARRAY_RO | NPY_ARRAY_NOTSWAPPED, NULL);
+    if (! inArr)
+    {
+        return NULL;
+    }
+
     // Dont bother allocating if we cannot call the function
     outArray = AllocateNumpyArray(1, (npy_intp *)&arrayLength, NPY_INT64);
 
@@ -578,8 +616,12 @@ PyObject * DateStringToNanos(PyObject * self, PyObject * args)
             parser.ParseDateString(pNanoTime, arrayLength, pString, itemSize);
 
             const auto & maybe_error = parser.get_error();
-            if (maybe_error)
-                parsing_error_to_py_warning(*maybe_error);
+            if (maybe_error && parsing_error_to_py_warning(*maybe_error) < 0)
+            {
+                // the warning was turned into an error
+                Py_DECREF(outArray);
+                outArray = NULL;
+            }
         }
         else
         {
@@ -587,14 +629,17 @@ PyObject * DateStringToNanos(PyObject * self, PyObject * args)
             parser.ParseDateString(pNanoTime, arrayLength, (uint32_t *)pString, itemSize / 4);
 
             const auto & maybe_error = parser.get_error();
-            if (maybe_error)
-                parsing_error_to_py_warning(*maybe_error);
+            if (maybe_error && parsing_error_to_py_warning(*maybe_error) < 0)
+            {
+                // the warning was turned into an error
+                Py_DECREF(outArray);
+                outArray = NULL;
+            }
         }
-        return (PyObject *)outArray;
     }
 
-    Py_INCREF(Py_None);
-    return Py_None;
+    Py_DECREF(inArr);
+    return (PyObject *)outArray;
 }
 
 //--------------------------------------------------------------
@@ -626,6 +671,13 @@ PyObject * DateTimeStringToNanos(PyObject * self, PyObject * args)
         return NULL;
     }
 
+    // the strings are read as one dense block in native byte order
+    inArr = (PyArrayObject *)PyArray_CheckFromAny((PyObject *)inArr, NULL, 0, 0, NPY_ARRAY_CARRAY_RO | NPY_ARRAY_NOTSWAPPED, NULL);
+    if (! inArr)
+    {
+        return NULL;
+    }
+
     // Dont bother allocating if we cannot call the function
     outArray = AllocateNumpyArray(1, (npy_intp *)&arrayLength, NPY_INT64);
 
@@ -641,8 +693,12 @@ PyObject * DateTimeStringToNanos(PyObject * self, PyObject * args)
             parser.ParseDateTimeString(pNanoTime, arrayLength, pString, itemSize);
 
             const auto & maybe_error = parser.get_error();
-            if (maybe_error)
-                parsing_error_to_py_warning(*maybe_error);
+            if (maybe_error && parsing_error_to_py_warning(*maybe_error) < 0)
+            {
+                // the warning was turned into an error
+                Py_DECREF(outArray);
+                outArray = NULL;
+            }
         }
         else
         {
@@ -650,14 +706,17 @@ PyObject * DateTimeStringToNanos(PyObject * self, PyObject * args)
             parser.ParseDateTimeString(pNanoTime, arrayLength, (uint32_t *)pString, itemSize / 4);
 
             const auto & maybe_error = parser.get_error();
-            if (maybe_error)
-                parsing_error_to_py_warning(*maybe_error);
+            if (maybe_error && parsing_error_to_py_warning(*maybe_error) < 0)
+            {
+                // the warning was turned into an error
+                Py_DECREF(outArray);
+                outArray = NULL;
+            }
         }
-        return (PyObject *)outArray;
     }
 
-    Py_INCREF(Py_None);
-    return Py_None;
+    Py_DECREF(inArr);
+    return (PyObject *)outArray;
 }
 
 //---------------------------------------
@@ -680,7 +739,8 @@ void ParseStrptime(int64_t * pOutNanoTime, int64_t arrayLength, const T * pStrin
         // so we can add a terminating zero
         for (int64_t j = 0; j < itemSize; j++)
         {
-            pTempString[j] = (char)pStart[j];
+            // a wide character must not be taken for the one in its low byte
+            pTempString[j] = (sizeof(T) > 1 && pStart[j] > 127) ? (char)0xFF : (char)pStart[j];
         }
         pTempString[itemSize] = 0;
 
@@ -703,6 +763,8 @@ void ParseStrptime(int64_t * pOutNanoTime, int64_t arrayLength, const T * pStrin
             // 1900 is the strptime base year
             yearresult = YearToEpochNano(timeBack.tm_year + 1900, timeBack.tm_mon + 1, timeBack.tm_mday);
 
+            const bool bSuccess = yearresult >= 0;
+
             // addin hours min secs
             yearresult += (1000000000LL * ((timeBack.tm_hour * 3600LL) + (timeBack.tm_min * 60LL) + timeBack.tm_sec));
 
@@ -714,6 +776,10 @@ void ParseStrptime(int64_t * pOutNanoTime, int64_t arrayLength, const T * pStrin
 
                 yearresult += ParseDecimal<char>(&pStop, pEnd);
             }
+
+            // not a date we can represent, whatever the time
+            if (! bSuccess)
+                yearresult = 0;
         }
         else
         {
@@ -764,6 +830,13 @@ PyObject * StrptimeToNanos(PyObject * self, PyObject * args)
         return NULL;
     }
 
+    // the strings are read as one dense block in native byte order
+    inArr = (PyArrayObject *)PyArray_CheckFromAny((PyObject *)inArr, NULL, 0, 0, NPY_ARRAY_CARRAY_RO | NPY_ARRAY_NOTSWAPPED, NULL);
+    if (! inArr)
+    {
+        return NULL;
+    }
+
     // Dont bother allocating if we cannot call the function
     outArray = AllocateNumpyArray(1, (npy_intp *)&arrayLength, NPY_INT64);
 
@@ -781,10 +854,8 @@ PyObject * StrptimeToNanos(PyObject * self, PyObject * args)
         {
             ParseStrptime<uint32_t>(pNanoTime, arrayLength, (uint32_t *)pString, itemSize / 4, strTimeFormat);
         }
-
-        return (PyObject *)outArray;
     }
 
-    Py_INCREF(Py_None);
-    return Py_None;
+    Py_DECREF(inArr);
+    return (PyObject *)outArray;
 };
diff --git a/src/strptime5.cpp b/src/strptime5.cpp
index 9908264..c07c198 100644
--- a/src/strptime5.cpp
+++ b/src/strptime5.cpp
@@ -296,6 +296,8 @@ const char * rt_strptime(const char * buf, const char * fmt, struct tm * tm)
             /* The year corresponding to the ISO week
              * number with century.
              */
+            if (! isdigit(*bp))
+                return NULL;
             do
                 bp++;
             while (isdigit(*bp));
-- 
2.43.0


From 716c7162af6c44f21d0098de141539b43d4a4384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:11 +0000
Subject: [PATCH 43/49] fix: FindLastMatchCategorical compared the wrong row,
 MergeBinnedAndSorted used the value type for keys, lengths and key range
 unchecked, strided or byte-swapped times, an empty key tuple read freed
 memory

---
 src/HashLinear.cpp | 147 ++++++++++++++++++++++++++++++++-------------
 src/HashLinear.h   |   8 +--
 src/MultiKey.cpp   |  36 +++++++++--
 3 files changed, 139 insertions(+), 52 deletions(-)

diff --git a/src/HashLinear.cpp b/src/HashLinear.cpp
index 7e624ad..5e8760a 100644
--- a/src/HashLinear.cpp
+++ b/src/HashLinear.cpp
@@ -783,16 +783,17 @@ void CHashLinear<T, U>::MakeHashLocationMK(int64_t arraySize, T * pInput, int64_
 //-----------------------------------------------
 // stores the index of the last matching index
 // ASSUMES that pVal1 and pVal2 are SORTED!!
+//  K is the type of the (categorical) keys, all of which are in 0..totalUniqueSize-1
 //  U is int32_t or int64_t
 //  V is int32_t, int64_t, float, or double
-template <typename U, typename V>
-void FindLastMatchCategorical(int64_t arraySize1, int64_t arraySize2, U * pKey1, U * pKey2, V * pVal1, V * pVal2,
+template <typename K, typename U, typename V>
+void FindLastMatchCategorical(int64_t arraySize1, int64_t arraySize2, K * pKey1, K * pKey2, V * pVal1, V * pVal2,
                               U * pLocationOutput, int64_t totalUniqueSize)
 {
     const U BAD_INDEX = (U)(1LL << (sizeof(U) * 8 - 1));
     U * pLocation = (U *)WORKSPACE_ALLOC(totalUniqueSize * sizeof(U));
 
-    for (U k = 0; k < totalUniqueSize; k++)
+    for (int64_t k = 0; k < totalUniqueSize; k++)
     {
         pLocation[k] = -1;
     }
@@ -804,7 +805,7 @@ void FindLastMatchCategorical(int64_t arraySize1, int64_t arraySize2, U * pKey1,
         if (pVal1[i] < pVal2[j])
         {
             // key1 is first
-            U lookup = pKey1[i];
+            K lookup = pKey1[i];
 
             if (pLocation[lookup] != -1)
             {
@@ -821,7 +822,7 @@ void FindLastMatchCategorical(int64_t arraySize1, int64_t arraySize2, U * pKey1,
         else
         {
             // key2 is first
-            U lookup = pKey2[i];
+            K lookup = pKey2[j];
             pLocation[lookup] = j;
             j++;
         }
@@ -829,7 +830,7 @@ void FindLastMatchCategorical(int64_t arraySize1, int64_t arraySize2, U * pKey1,
 
     while (i < arraySize1)
     {
-        U lookup = pKey1[i];
+        K lookup = pKey1[i];
 
         if (pLocation[lookup] != -1)
         {
@@ -4901,10 +4902,10 @@ void IsMemberHashString32(int64_t size1, int64_t strWidth1, const char * pInput1
 }
 
 //-----------------------------------------------------------------------------------------
-// Returns 8/16/32/64 bit indexes
-template <typename KEY_TYPE>
+// Returns 32/64 bit indexes
+template <typename KEY_TYPE, typename INDEX_TYPE>
 bool MergePreBinned(int64_t size1, KEY_TYPE * pKey1, void * pInVal1, int64_t size2, KEY_TYPE * pKey2, void * pInVal2,
-                    KEY_TYPE * pOutput, int64_t totalUniqueSize, HASH_MODE hashMode, int32_t dtype)
+                    INDEX_TYPE * pOutput, int64_t totalUniqueSize, HASH_MODE hashMode, int32_t dtype)
 {
     bool success = true;
 
@@ -4914,19 +4915,19 @@ bool MergePreBinned(int64_t size1, KEY_TYPE * pKey1, void * pInVal1, int64_t siz
     {
     CASE_NPY_INT64:
 
-        FindLastMatchCategorical<KEY_TYPE, int64_t>(size1, size2, pKey1, pKey2, (int64_t *)pInVal1, (int64_t *)pInVal2, pOutput,
+        FindLastMatchCategorical<KEY_TYPE, INDEX_TYPE, int64_t>(size1, size2, pKey1, pKey2, (int64_t *)pInVal1, (int64_t *)pInVal2, pOutput,
                                                     totalUniqueSize);
         break;
     CASE_NPY_INT32:
-        FindLastMatchCategorical<KEY_TYPE, int32_t>(size1, size2, pKey1, pKey2, (int32_t *)pInVal1, (int32_t *)pInVal2, pOutput,
+        FindLastMatchCategorical<KEY_TYPE, INDEX_TYPE, int32_t>(size1, size2, pKey1, pKey2, (int32_t *)pInVal1, (int32_t *)pInVal2, pOutput,
                                                     totalUniqueSize);
         break;
     case NPY_FLOAT64:
-        FindLastMatchCategorical<KEY_TYPE, double>(size1, size2, pKey1, pKey2, (double *)pInVal1, (double *)pInVal2, pOutput,
+        FindLastMatchCategorical<KEY_TYPE, INDEX_TYPE, double>(size1, size2, pKey1, pKey2, (double *)pInVal1, (double *)pInVal2, pOutput,
                                                    totalUniqueSize);
         break;
     case NPY_FLOAT32:
-        FindLastMatchCategorical<KEY_TYPE, float>(size1, size2, pKey1, pKey2, (float *)pInVal1, (float *)pInVal2, pOutput,
+        FindLastMatchCategorical<KEY_TYPE, INDEX_TYPE, float>(size1, size2, pKey1, pKey2, (float *)pInVal1, (float *)pInVal2, pOutput,
                                                   totalUniqueSize);
         break;
     default:
@@ -6308,47 +6309,107 @@ PyObject * MergeBinnedAndSorted(PyObject * self, PyObject * args)
         }
     }
 
-    void * pVal1 = PyArray_BYTES(pvalArray1);
-    void * pVal2 = PyArray_BYTES(pvalArray2);
-    void * pKey1 = PyArray_BYTES(key1);
-    void * pKey2 = PyArray_BYTES(key2);
+    int32_t keyType = ObjectToDtype(key1);
+    const int32_t keyType2 = ObjectToDtype(key2);
 
-    PyArrayObject * indexArray = (PyArrayObject *)Py_None;
-    bool isIndex32 = true;
-    bool success = false;
+    // Check for when numpy has 7==9 or 8==10 on Linux 5==7, 6==8 on Windows
+    if (keyType < 0 || (keyType != keyType2 && (keyType > NPY_ULONGLONG || keyType2 > NPY_ULONGLONG || (keyType & 1) != (keyType2 & 1) ||
+                                                PyArray_ITEMSIZE(key1) != PyArray_ITEMSIZE(key2))))
+    {
+        PyErr_Format(PyExc_ValueError, "MergeBinnedAndSorted keys are not the same dtype.num: %d vs %d", keyType, keyType2);
+        return NULL;
+    }
 
-    indexArray = AllocateLikeNumpyArray(key1, dtype1);
+    const int64_t size1 = ArrayLength(key1);
+    const int64_t size2 = ArrayLength(key2);
+
+    if (size1 != ArrayLength(pvalArray1) || size2 != ArrayLength(pvalArray2))
+    {
+        PyErr_Format(PyExc_ValueError, "MergeBinnedAndSorted keys and values are not the same length");
+        return NULL;
+    }
 
-    if (indexArray)
+    // the routines read dense arrays in native byte order
+    PyArrayObject * inputs[4] = { key1, key2, pvalArray1, pvalArray2 };
+    PyArrayObject * dense[4] = { NULL, NULL, NULL, NULL };
+    bool success = true;
+    for (int i = 0; i < 4; i++)
     {
-        switch (dtype1)
+        dense[i] = (PyArrayObject *)PyArray_CheckFromAny((PyObject *)inputs[i], NULL, 0, 0,
+                                                         NPY_ARRAY_CARRAY_RO | NPY_ARRAY_NOTSWAPPED, NULL);
+        success = success && dense[i];
+    }
+
+    PyArrayObject * indexArray = NULL;
+
+    if (success)
+    {
+        // wide enough for a row of the second array
+        const bool isIndex64 = (PyArray_ITEMSIZE(key1) == 8) || size2 > 2000000000;
+        indexArray = AllocateLikeNumpyArray(dense[0], isIndex64 ? NPY_INT64 : NPY_INT32);
+        success = indexArray != NULL;
+
+        if (success)
         {
-        case NPY_INT8:
-            success = MergePreBinned<int8_t>(ArrayLength(key1), (int8_t *)pKey1, pVal1, ArrayLength(key2), (int8_t *)pKey2, pVal2,
-                                             (int8_t *)PyArray_BYTES(indexArray), totalUniqueSize, HASH_MODE_MASK, dtype1);
-            break;
-        case NPY_INT16:
-            success =
-                MergePreBinned<int16_t>(ArrayLength(key1), (int16_t *)pKey1, pVal1, ArrayLength(key2), (int16_t *)pKey2, pVal2,
-                                        (int16_t *)PyArray_BYTES(indexArray), totalUniqueSize, HASH_MODE_MASK, dtype1);
-            break;
-        CASE_NPY_INT32:
-            success =
-                MergePreBinned<int32_t>(ArrayLength(key1), (int32_t *)pKey1, pVal1, ArrayLength(key2), (int32_t *)pKey2, pVal2,
-                                        (int32_t *)PyArray_BYTES(indexArray), totalUniqueSize, HASH_MODE_MASK, dtype1);
-            break;
-        CASE_NPY_INT64:
+            auto merge = [&](auto keyExample) -> bool
+            {
+                using key_type = decltype(keyExample);
+                key_type * pKey1 = (key_type *)PyArray_BYTES(dense[0]);
+                key_type * pKey2 = (key_type *)PyArray_BYTES(dense[1]);
+                void * pVal1 = PyArray_BYTES(dense[2]);
+                void * pVal2 = PyArray_BYTES(dense[3]);
 
-            success =
-                MergePreBinned<int64_t>(ArrayLength(key1), (int64_t *)pKey1, pVal1, ArrayLength(key2), (int64_t *)pKey2, pVal2,
-                                        (int64_t *)PyArray_BYTES(indexArray), totalUniqueSize, HASH_MODE_MASK, dtype1);
-            break;
+                for (int64_t i = 0; i < size1 + size2; i++)
+                {
+                    const key_type key = i < size1 ? pKey1[i] : pKey2[i - size1];
+                    if (key < 0 || (int64_t)key >= totalUniqueSize)
+                    {
+                        PyErr_Format(PyExc_ValueError, "MergeBinnedAndSorted key %lld is out of range for %lld bins", (long long)key,
+                                     (long long)totalUniqueSize);
+                        return false;
+                    }
+                }
+                if (isIndex64)
+                {
+                    return MergePreBinned<key_type, int64_t>(size1, pKey1, pVal1, size2, pKey2, pVal2,
+                                                             (int64_t *)PyArray_BYTES(indexArray), totalUniqueSize, HASH_MODE_MASK,
+                                                             dtype1);
+                }
+                return MergePreBinned<key_type, int32_t>(size1, pKey1, pVal1, size2, pKey2, pVal2,
+                                                         (int32_t *)PyArray_BYTES(indexArray), totalUniqueSize, HASH_MODE_MASK, dtype1);
+            };
+
+            switch (keyType)
+            {
+            case NPY_INT8:
+                success = merge(int8_t{});
+                break;
+            case NPY_INT16:
+                success = merge(int16_t{});
+                break;
+            CASE_NPY_INT32:
+                success = merge(int32_t{});
+                break;
+            CASE_NPY_INT64:
+                success = merge(int64_t{});
+                break;
+            default:
+                success = false;
+                break;
+            }
         }
     }
 
+    for (int i = 0; i < 4; i++)
+    {
+        Py_XDECREF((PyObject *)dense[i]);
+    }
+
     if (! success)
     {
-        PyErr_Format(PyExc_ValueError, "MultiKeyAlign failed.  Only accepts int32_t,int64_t,float32,float64");
+        Py_XDECREF((PyObject *)indexArray);
+        if (! PyErr_Occurred())
+            PyErr_Format(PyExc_ValueError, "MergeBinnedAndSorted failed.  Only accepts int32_t,int64_t,float32,float64");
         return NULL;
     }
     return (PyObject *)indexArray;
diff --git a/src/HashLinear.h b/src/HashLinear.h
index 560c296..054c629 100644
--- a/src/HashLinear.h
+++ b/src/HashLinear.h
@@ -68,13 +68,13 @@ void IsMemberHashString32Pre(PyArrayObject ** indexArray, PyArrayObject * inArr1
 void IsMemberHashMKPre(PyArrayObject ** indexArray, int64_t size1, void * pInput1, int64_t size2, void * pInput2,
                        int8_t * pBooleanOutput, int64_t totalItemSize, int64_t hintSize, HASH_MODE hashMode);
 
-template <typename U, typename V>
-void FindLastMatchCategorical(int64_t arraySize1, int64_t arraySize2, U * pKey1, U * pKey2, V * pVal1, V * pVal2,
+template <typename K, typename U, typename V>
+void FindLastMatchCategorical(int64_t arraySize1, int64_t arraySize2, K * pKey1, K * pKey2, V * pVal1, V * pVal2,
                               U * pLocationOutput, int64_t totalUniqueSize);
 
-template <typename KEY_TYPE>
+template <typename KEY_TYPE, typename INDEX_TYPE>
 bool MergePreBinned(int64_t size1, KEY_TYPE * pKey1, void * pInVal1, int64_t size2, KEY_TYPE * pKey2, void * pInVal2,
-                    KEY_TYPE * pOutput, int64_t totalUniqueSize, HASH_MODE hashMode, int32_t dtype);
+                    INDEX_TYPE * pOutput, int64_t totalUniqueSize, HASH_MODE hashMode, int32_t dtype);
 
 bool AlignHashMK32(int64_t size1, void * pInput1, void * pInVal1, int64_t size2, void * pInput2, void * pInVal2, int32_t * pOutput,
                    int64_t totalItemSize, HASH_MODE hashMode, int32_t dtype, bool isForward, bool allowExact);
diff --git a/src/MultiKey.cpp b/src/MultiKey.cpp
index cddfe35..8b30ec7 100644
--- a/src/MultiKey.cpp
+++ b/src/MultiKey.cpp
@@ -427,6 +427,13 @@ public:
 
         aInfo = BuildArrayInfo(args, &listSize, &totalItemSize);
 
+        if (aInfo && listSize < 1)
+        {
+            PyErr_Format(PyExc_ValueError, "MultiKeyHash needs at least one array");
+            FreeArrayInfo(aInfo);
+            aInfo = NULL;
+        }
+
         if (aInfo)
         {
             totalRows = aInfo[0].ArrayLength;
@@ -1783,6 +1790,16 @@ PyObject * MultiKeyIsMember32(PyObject * self, PyObject * args)
     return Py_None;
 }
 
+// Releases its reference when it goes out of scope
+struct pyobject_holder
+{
+    PyObject * p;
+    ~pyobject_holder()
+    {
+        Py_XDECREF(p);
+    }
+};
+
 //-----------------------------------------------------------------------------------
 // Called when 4 arrays are used as input params
 // Arg 1: a tuple of numpy arrays representing the keys of the target ((key1,key2), hashmode, filter)
@@ -1888,9 +1905,15 @@ PyObject * MultiKeyAlign32(PyObject * self, PyObject * args)
 
     if (mkp1.pSuperArray && mkp2.pSuperArray)
     {
-        void * pVal1 = PyArray_BYTES(pvalArray1);
-        void * pVal2 = PyArray_BYTES(pvalArray2);
-        PyArrayObject * indexArray = (PyArrayObject *)Py_None;
+        // the values are read as dense blocks in native byte order
+        const int denseFlags = NPY_ARRAY_CARRAY_RO | NPY_ARRAY_NOTSWAPPED;
+        pyobject_holder dense1{ PyArray_CheckFromAny((PyObject *)pvalArray1, NULL, 0, 0, denseFlags, NULL) };
+        pyobject_holder dense2{ PyArray_CheckFromAny((PyObject *)pvalArray2, NULL, 0, 0, denseFlags, NULL) };
+        if (! dense1.p || ! dense2.p)
+            return NULL;
+        void * pVal1 = PyArray_BYTES((PyArrayObject *)dense1.p);
+        void * pVal2 = PyArray_BYTES((PyArrayObject *)dense2.p);
+        PyArrayObject * indexArray = NULL;
         bool isIndex32 = true;
         bool success = false;
         if (mkp1.totalRows > 2000000000 || mkp2.totalRows > 2000000000)
@@ -1921,6 +1944,7 @@ PyObject * MultiKeyAlign32(PyObject * self, PyObject * args)
 
             if (! success)
             {
+                Py_DECREF((PyObject *)indexArray);
                 return PyErr_Format(PyExc_ValueError,
                                     "MultiKeyAlign failed.  Only accepts "
                                     "int32,int64,uint32,uint64,FLOAT32,FLOAT64");
@@ -1929,6 +1953,7 @@ PyObject * MultiKeyAlign32(PyObject * self, PyObject * args)
         catch (const std::exception & e)
         {
             LogError("Exception thrown %s\n", e.what());
+            Py_XDECREF((PyObject *)indexArray);
             return PyErr_Format(PyExc_ValueError, "MultiKeyAlign failed. Exception: %s", e.what());
         }
 
@@ -1936,8 +1961,9 @@ PyObject * MultiKeyAlign32(PyObject * self, PyObject * args)
     }
 
     // error path
-    Py_INCREF(Py_None);
-    return Py_None;
+    if (! PyErr_Occurred())
+        PyErr_Format(PyExc_ValueError, "MultiKeyAlign32 keys are not understood");
+    return NULL;
 }
 
 //==================================================================
-- 
2.43.0


From 55c03bc65d57d29e4e9030f4ea9560d5a8cd4139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:11 +0000
Subject: [PATCH 44/49] fix: compressed empty string was uninitialised memory,
 empty arrays crashed a worker thread, None or objects crashed, headers of
 damaged data trusted, source printed to stdout

---
 src/Compress.cpp | 210 ++++++++++++++++++++++++++++-------------------
 1 file changed, 125 insertions(+), 85 deletions(-)

diff --git a/src/Compress.cpp b/src/Compress.cpp
index 0330788..aa0769e 100644
--- a/src/Compress.cpp
+++ b/src/Compress.cpp
@@ -75,34 +75,15 @@ bool DecompressOneArray(void * pstCompressArraysV, int core, int64_t t)
         void * source = &pNumpyHeader[1];
         uint64_t dest_size = (uint64_t)ZSTD_getFrameContentSize(source, pNumpyHeader->compressedSize);
 
-        switch (dest_size)
-        {
-        case ZSTD_CONTENTSIZE_UNKNOWN:
-        case ZSTD_CONTENTSIZE_ERROR:
-        case 0:
-            PyErr_Format(PyExc_ValueError, "input data invalid or missing content size in frame header");
-            return false;
-
-        default:
-            break;
-        }
-
         PyArrayObject * pArrayObject = pstCompressArrays->pNumpyArray[t];
         void * dest = PyArray_BYTES(pArrayObject);
 
         size_t cSize = ZSTD_decompress(dest, dest_size, source, pNumpyHeader->compressedSize);
 
-        if (ZSTD_isError(cSize))
-        {
-            PyErr_Format(PyExc_ValueError, "Decompression error: %s", ZSTD_getErrorName(cSize));
-            return false;
-        }
-        else if (cSize != dest_size)
+        // This may be a worker thread, which cannot raise: leave a mark for the caller
+        if (ZSTD_isError(cSize) || cSize != dest_size)
         {
-            PyErr_Format(PyExc_ValueError,
-                         "Decompression error: length mismatch -> decomp %llu != "
-                         "%llu [header]",
-                         (uint64_t)cSize, dest_size);
+            aInfo[t].pData = NULL;
             return false;
         }
     }
@@ -161,6 +142,60 @@ PyObject * SetZstdChecksumming(PyObject * self, PyObject * args)
     Py_RETURN_NONE;
 }
 
+//----------------------------------------------------
+// Checks the header in front of compressed data and allocates the array to decompress into.
+// Returns NULL with an exception set if the data was not made by CompressDecompressArrays.
+static PyArrayObject * AllocateFromHeader(const ArrayInfo & info)
+{
+    const NUMPY_HEADERSIZE * pNumpyHeader = (const NUMPY_HEADERSIZE *)info.pData;
+
+    if (! info.pData || info.NumBytes < (int64_t)sizeof(NUMPY_HEADERSIZE) || pNumpyHeader->magic != COMPRESSION_MAGIC ||
+        pNumpyHeader->compressiontype != COMPRESSION_TYPE_ZSTD || pNumpyHeader->ndim < 0 || pNumpyHeader->ndim > 3 ||
+        pNumpyHeader->itemsize < 0 || pNumpyHeader->dtype < 0 || pNumpyHeader->dtype > NPY_VOID ||
+        pNumpyHeader->dtype == NPY_OBJECT || pNumpyHeader->compressedSize > info.NumBytes - sizeof(NUMPY_HEADERSIZE))
+    {
+        PyErr_Format(PyExc_ValueError, "input data was not compressed by CompressDecompressArrays");
+        return NULL;
+    }
+
+    uint64_t dest_size = (uint64_t)ZSTD_getFrameContentSize(&pNumpyHeader[1], pNumpyHeader->compressedSize);
+    if (dest_size == ZSTD_CONTENTSIZE_UNKNOWN || dest_size == ZSTD_CONTENTSIZE_ERROR)
+    {
+        PyErr_Format(PyExc_ValueError, "input data invalid or missing content size in frame header");
+        return NULL;
+    }
+
+    // the shape must account for exactly the bytes to come
+    uint64_t expected = pNumpyHeader->itemsize;
+    npy_intp dims[3];
+    for (int i = 0; i < pNumpyHeader->ndim; i++)
+    {
+        dims[i] = (npy_intp)pNumpyHeader->dimensions[i];
+        if (dims[i] < 0 || (expected != 0 && (uint64_t)dims[i] > dest_size / expected))
+        {
+            expected = ~dest_size;
+            break;
+        }
+        expected *= dims[i];
+    }
+
+    PyArrayObject * pArray = NULL;
+    if (expected == dest_size)
+    {
+        // NOTE: do we care about flags -- what if Fortran mode when saved?
+        pArray = AllocateNumpyArray(pNumpyHeader->ndim, dims, pNumpyHeader->dtype, pNumpyHeader->itemsize);
+        CHECK_MEMORY_ERROR(pArray);
+    }
+    if (! pArray || (uint64_t)PyArray_NBYTES(pArray) != dest_size)
+    {
+        Py_XDECREF((PyObject *)pArray);
+        if (! PyErr_Occurred())
+            PyErr_Format(PyExc_ValueError, "input data does not match the shape in its header");
+        return NULL;
+    }
+    return pArray;
+}
+
 //----------------------------------------------------
 // Arg1: Pass in list of arrays
 // Arg2: Mode == compress or decompress
@@ -178,10 +213,26 @@ PyObject * CompressDecompressArrays(PyObject * self, PyObject * args)
         return NULL;
     }
 
+    if (mode != COMPRESSION_MODE_COMPRESS && mode != COMPRESSION_MODE_DECOMPRESS)
+    {
+        PyErr_Format(PyExc_ValueError, "CompressDecompressArrays mode must be compress or decompress, not %d", mode);
+        return NULL;
+    }
+
     int64_t totalItemSize = 0;
     int64_t tupleSize = 0;
     ArrayInfo * aInfo = BuildArrayInfo(inList1, &tupleSize, &totalItemSize, mode == COMPRESSION_MODE_COMPRESS);
 
+    for (int64_t t = 0; aInfo && t < tupleSize; t++)
+    {
+        if (mode == COMPRESSION_MODE_COMPRESS && aInfo[t].pObject && PyDataType_REFCHK(PyArray_DESCR(aInfo[t].pObject)))
+        {
+            PyErr_Format(PyExc_ValueError, "CompressDecompressArrays cannot compress arrays of objects");
+            FreeArrayInfo(aInfo);
+            return NULL;
+        }
+    }
+
     if (aInfo)
     {
         COMPRESS_NUMPY_TO_NUMPY * pstCompressArrays =
@@ -200,7 +251,7 @@ PyObject * CompressDecompressArrays(PyObject * self, PyObject * args)
         // pstCompressArrays->pBlockInfo = NULL;
         pstCompressArrays->aInfo = aInfo;
 
-        int32_t numCores = g_cMathWorker->WorkerThreadCount + 1;
+        bool failed = false;
 
         switch (mode)
         {
@@ -210,6 +261,11 @@ PyObject * CompressDecompressArrays(PyObject * self, PyObject * args)
                 // Allocate worst care
                 for (int t = 0; t < tupleSize; t++)
                 {
+                    pstCompressArrays->pNumpyHeaders[t] = NULL;
+                    if (! aInfo[t].pObject)
+                    {
+                        continue;
+                    }
                     pstCompressArrays->pNumpyHeaders[t] =
                         AllocCompressedMemory(aInfo[t].ArrayLength, aInfo[t].NumpyDType, aInfo[t].NDim,
                                               (int64_t *)(((PyArrayObject_fields *)aInfo[t].pObject)->dimensions),
@@ -226,28 +282,38 @@ PyObject * CompressDecompressArrays(PyObject * self, PyObject * args)
             {
                 for (int t = 0; t < tupleSize; t++)
                 {
-                    NUMPY_HEADERSIZE * pNumpyHeader = (NUMPY_HEADERSIZE *)aInfo[t].pData;
-                    uint64_t dest_size = (uint64_t)ZSTD_getFrameContentSize(&pNumpyHeader[1], pNumpyHeader->compressedSize);
-                    switch (dest_size)
+                    // Allocate all the arrays before multithreading
+                    pstCompressArrays->pNumpyArray[t] = aInfo[t].pObject ? AllocateFromHeader(aInfo[t]) : NULL;
+                    if (aInfo[t].pObject && ! pstCompressArrays->pNumpyArray[t])
                     {
-                    case ZSTD_CONTENTSIZE_UNKNOWN:
-                    case ZSTD_CONTENTSIZE_ERROR:
-                        PyErr_Format(PyExc_ValueError, "input data invalid or missing content size in frame header");
-                        return NULL;
-
-                    case 0: // empty is allowed
-                    default:
-                        break;
+                        failed = true;
                     }
+                }
 
-                    // Allocate all the arrays before multithreading
-                    // NOTE: do we care about flags -- what if Fortran mode when saved?
-                    pstCompressArrays->pNumpyArray[t] = AllocateNumpyArray(
-                        pNumpyHeader->ndim, (npy_intp *)pNumpyHeader->dimensions, pNumpyHeader->dtype, pNumpyHeader->itemsize);
-                    CHECK_MEMORY_ERROR(pstCompressArrays->pNumpyArray[t]);
+                if (! failed)
+                {
+                    g_cMathWorker->DoMultiThreadedWork((int)tupleSize, DecompressOneArray, pstCompressArrays);
+
+                    for (int t = 0; t < tupleSize && ! failed; t++)
+                    {
+                        if (pstCompressArrays->pNumpyArray[t] && ! aInfo[t].pData)
+                        {
+                            PyErr_Format(PyExc_ValueError, "Decompression error: the data is damaged");
+                            failed = true;
+                        }
+                    }
                 }
 
-                g_cMathWorker->DoMultiThreadedWork((int)tupleSize, DecompressOneArray, pstCompressArrays);
+                if (failed)
+                {
+                    for (int t = 0; t < tupleSize; t++)
+                    {
+                        Py_XDECREF((PyObject *)pstCompressArrays->pNumpyArray[t]);
+                    }
+                    WORKSPACE_FREE(pstCompressArrays);
+                    FreeArrayInfo(aInfo);
+                    return NULL;
+                }
             }
             break;
         }
@@ -258,17 +324,6 @@ PyObject * CompressDecompressArrays(PyObject * self, PyObject * args)
         // New reference
         PyObject * returnTuple = Py_None;
 
-        if (mode == COMPRESSION_MODE_COMPRESS_FILE)
-        {
-            for (int j = 0; j < numCores; j++)
-            {
-                if (pstCompressArrays->pCoreMemory[j])
-                {
-                    WORKSPACE_FREE(pstCompressArrays->pCoreMemory[j]);
-                }
-            }
-        }
-
         if (mode == COMPRESSION_MODE_COMPRESS)
         {
             returnTuple = PyTuple_New(tupleSize);
@@ -291,20 +346,7 @@ PyObject * CompressDecompressArrays(PyObject * self, PyObject * args)
                     char * pCompressedData = (char *)(&pstNumpyHeader[1]);
 
                     int64_t totalCompressedBytes = pstNumpyHeader->compressedSize + sizeof(NUMPY_HEADERSIZE);
-                    auto const uncomp = ZSTD_getFrameContentSize(pCompressedData, (size_t)totalCompressedBytes);
-                    switch (uncomp)
-                    {
-                    case ZSTD_CONTENTSIZE_UNKNOWN:
-                    case ZSTD_CONTENTSIZE_ERROR:
-                        PyErr_Format(PyExc_ValueError, "input data invalid or missing content size in frame header");
-                        return NULL;
-
-                    case 0: // empty is allowed
-                    default:
-                        break;
-                    }
-
-                    uncompressedSize += uncomp;
+                    uncompressedSize += aInfo[t].NumBytes;
                     compressedSize += totalCompressedBytes;
 
                     item = (PyObject *)AllocateNumpyArray(1, (npy_intp *)&totalCompressedBytes, NPY_UINT8);
@@ -405,30 +447,23 @@ PyObject * CompressString(PyObject * self, PyObject * args)
         return NULL;
     }
 
-    if (source_size > 0)
-    {
-        dest = PyBytes_AS_STRING(result);
+    dest = PyBytes_AS_STRING(result);
 
-        printf("trying to compress %s  size:%zu  dest_size:%zu %d\n", source, source_size, dest_size, level);
+    LOGGING("trying to compress size:%zu  dest_size:%zu %d\n", source_size, dest_size, level);
 
-        cSize = ZstdCompressData(dest, dest_size, source, source_size, level);
+    cSize = ZstdCompressData(dest, dest_size, source, source_size, level);
 
-        printf("compressed to %zu\n", cSize);
+    LOGGING("compressed to %zu\n", cSize);
 
-        if (ZSTD_isError(cSize))
-        {
-            PyErr_Format(PyExc_ValueError, "Compression error: %s", ZSTD_getErrorName(cSize));
-            Py_CLEAR(result);
-            return NULL;
-        }
-
-// Py3.9 intoduced Py_SET_SIZE(), and it's preferred over using Py_SIZE() as an l-value.
-#if defined(Py_SET_SIZE)
-        Py_SET_SIZE(result, cSize);
-#else
-        Py_SIZE(result) = cSize;
-#endif // defined(Py_SET_SIZE)
+    if (ZSTD_isError(cSize))
+    {
+        PyErr_Format(PyExc_ValueError, "Compression error: %s", ZSTD_getErrorName(cSize));
+        Py_CLEAR(result);
+        return NULL;
     }
+
+    // on failure this sets result to NULL and raises
+    _PyBytes_Resize(&result, (Py_ssize_t)cSize);
     return result;
 }
 
@@ -457,13 +492,18 @@ PyObject * DecompressString(PyObject * self, PyObject * args)
     {
     case ZSTD_CONTENTSIZE_UNKNOWN:
     case ZSTD_CONTENTSIZE_ERROR:
-    case 0:
         PyErr_Format(PyExc_ValueError, "input data invalid or missing content size in frame header");
         return NULL;
 
+    case 0: // empty is allowed
     default:
         break;
     }
+    if (dest_size > (uint64_t)PY_SSIZE_T_MAX)
+    {
+        PyErr_Format(PyExc_ValueError, "input data invalid: the content size in the frame header is too large");
+        return NULL;
+    }
     result = PyBytes_FromStringAndSize(NULL, dest_size);
 
     if (result != NULL)
-- 
2.43.0


From dda3f1ce28f78f44ef702f537b632fb86cba7c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:21 +0000
Subject: [PATCH 45/49] fix: the pool's BlocksCompleted and ThreadWakeup are
 read and written by several threads, but were plain fields

---
 src/MathThreads.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MathThreads.h b/src/MathThreads.h
index 11fb71b..2d03fce 100644
--- a/src/MathThreads.h
+++ b/src/MathThreads.h
@@ -196,7 +196,7 @@ struct stMATH_WORKER_ITEM
     //-----------------------------------------------
     // Atomic access
     // When BlocksCompleted == BlockLast , the job is completed
-    int64_t BlocksCompleted;
+    volatile int64_t BlocksCompleted;
 
     // Get rid of this
     OLD_CALLBACK OldCallback;
@@ -301,7 +301,7 @@ struct stWorkerRing
     int32_t FutexWakeCount;
 
     // How many threads to wake up (atomic decrement)
-    int64_t ThreadWakeup;
+    volatile int64_t ThreadWakeup;
 
     std::atomic<int64_t> ThreadsAwakened{ 0 };
 
-- 
2.43.0


From b8f588a99749c1817fc5fc6f288cef86ed6e7022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:33 +0000
Subject: [PATCH 46/49] fix: logging lost wake-ups, accepted messages before
 its configuration was set, and raced on the level, timer, queue size and
 registry

---
 src/logging/logger.h          | 3 ++-
 src/logging/logging.h         | 4 ++++
 src/logging/logging_service.h | 4 +++-
 src/logging/timer.h           | 9 +++++++--
 src/logging/waiting_deque.h   | 8 ++++++--
 5 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/logging/logger.h b/src/logging/logger.h
index 8ba3083..017442a 100644
--- a/src/logging/logger.h
+++ b/src/logging/logger.h
@@ -2,6 +2,7 @@
 
 #include "logging_service.h"
 
+#include <atomic>
 #include <memory>
 
 namespace riptide::logging
@@ -67,6 +68,6 @@ namespace riptide::logging
     private:
         std::string name_;
         std::shared_ptr<logging_service> logger_;
-        loglevel logLevel_ = loglevel::notset;
+        std::atomic<loglevel> logLevel_ = loglevel::notset;
     };
 }
diff --git a/src/logging/logging.h b/src/logging/logging.h
index f964713..7a4b297 100644
--- a/src/logging/logging.h
+++ b/src/logging/logging.h
@@ -3,6 +3,7 @@
 #include "logger.h"
 #include "../Defs.h"
 
+#include <mutex>
 #include <unordered_map>
 
 namespace riptide::logging
@@ -12,6 +13,7 @@ namespace riptide::logging
     public:
         auto get_logger(const std::string & name)
         {
+            std::lock_guard guard{ lock_ };
             if (not loggers_.contains(name))
                 loggers_[name] = std::make_shared<logger>(name, service_);
             return loggers_[name];
@@ -19,6 +21,7 @@ namespace riptide::logging
 
         auto get_logger_names()
         {
+            std::lock_guard guard{ lock_ };
             std::vector<std::string> res(loggers_.size());
             std::transform(loggers_.begin(), loggers_.end(), res.begin(),
                            [](auto p)
@@ -47,6 +50,7 @@ namespace riptide::logging
 
         registry(const registry &) = delete;
 
+        std::mutex lock_;
         std::shared_ptr<logging_service> service_;
         std::unordered_map<std::string, std::shared_ptr<logger>> loggers_;
     };
diff --git a/src/logging/logging_service.h b/src/logging/logging_service.h
index 8128974..65bc11c 100644
--- a/src/logging/logging_service.h
+++ b/src/logging/logging_service.h
@@ -112,13 +112,15 @@ namespace riptide::logging
             if (not shutdown_)
                 return;
 
-            shutdown_ = false;
             interval_ = config.flush_interval;
             batch_size_ = config.batch_size;
             max_size_ = config.max_size;
 
             logs_.set_max_size(max_size_);
 
+            // producers may log from here on
+            shutdown_ = false;
+
             flusher_.set_interval(
                 [this]
                 {
diff --git a/src/logging/timer.h b/src/logging/timer.h
index 6e29ab6..fd4b6b9 100644
--- a/src/logging/timer.h
+++ b/src/logging/timer.h
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <atomic>
 #include <chrono>
 #include <thread>
 #include <mutex>
@@ -35,7 +36,11 @@ namespace riptide::logging::details
                 {
                     {
                         std::unique_lock lk{ lock_ };
-                        wake_.wait_for(lk, delay);
+                        wake_.wait_for(lk, delay,
+                                       [this]
+                                       {
+                                           return ! active_;
+                                       });
                     }
 
                     if (! active_)
@@ -64,7 +69,7 @@ namespace riptide::logging::details
     private:
         std::mutex lock_;
         std::condition_variable wake_;
-        bool active_ = false;
+        std::atomic<bool> active_ = false;
         std::thread runner_;
     };
 }
\ No newline at end of file
diff --git a/src/logging/waiting_deque.h b/src/logging/waiting_deque.h
index 128f2cc..4bf3471 100644
--- a/src/logging/waiting_deque.h
+++ b/src/logging/waiting_deque.h
@@ -57,18 +57,22 @@ namespace riptide::logging::details
 
         void cancel_wait() noexcept
         {
-            wait_ = false;
+            {
+                std::lock_guard guard{ lock_ };
+                wait_ = false;
+            }
             notify_.notify_one();
         }
 
         void set_max_size(const uint32_t size) noexcept
         {
+            std::lock_guard guard{ lock_ };
             max_size_ = size;
         }
 
     private:
         bool wait_ = true;
-        uint32_t max_size_;
+        uint32_t max_size_ = 0;
         std::mutex lock_;
         std::condition_variable notify_;
         std::deque<T, Allocator> deque_;
-- 
2.43.0


From 18f32717140080cfba0e46aea14731f05ed2f13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:18 +0000
Subject: [PATCH 47/49] fix: log records lost messages after a handler raised,
 truncated the timestamp, leaked their arguments, a dead callback was called,
 and logging could not be enabled again after a late message

---
 src/Logger.cpp | 36 ++++++++++++++++++++++++++++++------
 1 file changed, 30 insertions(+), 6 deletions(-)

diff --git a/src/Logger.cpp b/src/Logger.cpp
index 237a6d1..8fabf87 100644
--- a/src/Logger.cpp
+++ b/src/Logger.cpp
@@ -23,12 +23,12 @@ namespace
     {
         for (const auto & [name, sink] : sinks)
         {
-            auto level_attr = PyObject_GetAttrString(sink, "level");
-            if (! PyLong_Check(level_attr))
+            auto level_attr = sink ? PyObject_GetAttrString(sink, "level") : NULL;
+            if (! level_attr || ! PyLong_Check(level_attr))
             {
                 Py_XDECREF(level_attr);
+                PyErr_Clear();
                 continue;
-                ;
             }
 
             int32_t level = PyLong_AsLong(level_attr);
@@ -102,9 +102,15 @@ namespace
                 {
                     auto sink{ sinks[msg.name] };
 
+                    if (not sink)
+                        continue;
+
                     auto log_method{ PyObject_GetAttrString(sink, "log") };
                     if (not log_method)
+                    {
+                        PyErr_Clear();
                         continue;
+                    }
 
                     auto source_loc{ msg.loc };
 
@@ -114,17 +120,23 @@ namespace
 
                     auto timestamp_ns{ msg.time.time_since_epoch().count() };
 
-                    auto extra{ Py_BuildValue("{s:O, s:I}", "source_info", source_info, "timestamp", timestamp_ns) };
+                    auto extra{ Py_BuildValue("{s:N, s:L}", "source_info", source_info, "timestamp",
+                                              static_cast<long long>(timestamp_ns)) };
 
                     auto args{ Py_BuildValue("(iN)", static_cast<int>(msg.level),
                                              PyUnicode_Decode(msg.message.c_str(), msg.message.size(), NULL, "replace")) };
-                    auto kwargs{ Py_BuildValue("{s:O}", "extra", extra) };
+                    auto kwargs{ Py_BuildValue("{s:N}", "extra", extra) };
 
                     if (args and kwargs)
                     {
                         auto res{ PyObject_Call(log_method, args, kwargs) };
                         Py_XDECREF(res);
                     }
+                    // a handler that raises must not affect the messages that follow
+                    if (PyErr_Occurred())
+                        PyErr_WriteUnraisable(log_method);
+                    Py_XDECREF(args);
+                    Py_XDECREF(kwargs);
                     Py_DECREF(log_method);
                 }
 
@@ -165,7 +177,7 @@ void CleanupLogging()
 
 PyObject * EnableLogging(PyObject * self, PyObject * args)
 {
-    if (service->active())
+    if (service->enabled())
     {
         Py_INCREF(Py_None);
         return Py_None;
@@ -182,12 +194,24 @@ PyObject * EnableLogging(PyObject * self, PyObject * args)
         return NULL;
     }
 
+    // nothing would ever be delivered
+    if (interval <= 0 || bsize == 0)
+    {
+        PyErr_Format(PyExc_ValueError, "The flush interval and the batch size must be positive");
+        return NULL;
+    }
+
     // reset previous exception or callbacks
     exception_message = std::nullopt;
+    if (exception_callback)
+        Py_DECREF(exception_callback.value());
     exception_callback = std::nullopt;
 
     if (PyFunction_Check(callback))
+    {
+        Py_INCREF(callback);
         exception_callback = callback;
+    }
 
     service->enable({ .batch_size = bsize, .flush_interval = std::chrono::milliseconds(interval), .max_size = msize });
     UpdateLogLevel();
-- 
2.43.0


From c4a41de8cbda4df41828010b8be2ce19e855a47e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:04 +0000
Subject: [PATCH 48/49] fix: do not recycle byte-swapped arrays as native ones

---
 src/Recycler.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Recycler.cpp b/src/Recycler.cpp
index a545ba4..afeae3d 100644
--- a/src/Recycler.cpp
+++ b/src/Recycler.cpp
@@ -658,7 +658,9 @@ static bool FinalizeNumpyArray(PyArrayObject * inArr)
         // Multiple checks have to clear before we consider recycling this array
         if (totalSize >= RECYCLE_MIN_SIZE && type < RECYCLE_MAXIMUM_TYPE &&
             // refCount < 3 &&
-            ndim == 1 && strides != NULL && itemSize == strides[0])
+            ndim == 1 && strides != NULL && itemSize == strides[0] &&
+            // it will be handed out as an array of the native type
+            PyArray_ISNOTSWAPPED(inArr))
         {
             // Based on size and type, lookup
             int32_t log2 = (int32_t)lzcnt_64(totalSize);
-- 
2.43.0


From 23dac5ceb24e66e712abe0968f93954e5a1a7609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:04 +0000
Subject: [PATCH 49/49] fix: RecycleGarbageCollectNow leaked the values of the
 dictionary it returns

---
 src/Recycler.cpp | 38 +++++++++++++++++++++++++-------------
 1 file changed, 25 insertions(+), 13 deletions(-)

diff --git a/src/Recycler.cpp b/src/Recycler.cpp
index afeae3d..71642a4 100644
--- a/src/Recycler.cpp
+++ b/src/Recycler.cpp
@@ -951,27 +951,39 @@ PyObject * RecycleGarbageCollectNow(PyObject * self, PyObject * args)
         return NULL;
 
     PyObject * pDict = PyDict_New();
+    if (! pDict)
+        return NULL;
+
+    // the dictionary takes its own reference
+    auto const set = [pDict](char const * const name, long long const value)
+    {
+        PyObject * const item = PyLong_FromLongLong(value);
+        if (item)
+        {
+            PyDict_SetItemString(pDict, name, item);
+            Py_DECREF(item);
+        }
+    };
 
-    PyDict_SetItemString(pDict, "Hits", (PyObject *)PyLong_FromLongLong((long long)(g_FoundRecycled)));
-    PyDict_SetItemString(pDict, "Misses", (PyObject *)PyLong_FromLongLong((long long)(g_DidNotFindRecycled)));
-    PyDict_SetItemString(pDict, "Heads", (PyObject *)PyLong_FromLongLong((long long)(g_TotalHeads)));
-    PyDict_SetItemString(pDict, "Tails", (PyObject *)PyLong_FromLongLong((long long)(g_TotalTails)));
-    PyDict_SetItemString(pDict, "BitSz", (PyObject *)PyLong_FromLongLong((g_CurrentAllocBitSize)));
-    PyDict_SetItemString(pDict, "HashSz", (PyObject *)PyLong_FromLongLong((g_CurrentAllocHashTable)));
+    set("Hits", (long long)(g_FoundRecycled));
+    set("Misses", (long long)(g_DidNotFindRecycled));
+    set("Heads", (long long)(g_TotalHeads));
+    set("Tails", (long long)(g_TotalTails));
+    set("BitSz", (g_CurrentAllocBitSize));
+    set("HashSz", (g_CurrentAllocHashTable));
 
-    PyDict_SetItemString(pDict, "Alloc", (PyObject *)PyLong_FromLongLong((long long)(g_TotalAllocs)));
-    PyDict_SetItemString(pDict, "Free", (PyObject *)PyLong_FromLongLong((long long)(g_TotalFree)));
-    PyDict_SetItemString(pDict, "AllocSz", (PyObject *)PyLong_FromLongLong((long long)(g_TotalMemoryAllocated)));
-    PyDict_SetItemString(pDict, "FreeSz", (PyObject *)PyLong_FromLongLong((long long)(g_TotalMemoryFreed)));
-    PyDict_SetItemString(pDict, "Delta",
-                         (PyObject *)PyLong_FromLongLong((long long)g_TotalMemoryAllocated - (long long)g_TotalMemoryFreed));
+    set("Alloc", (long long)(g_TotalAllocs));
+    set("Free", (long long)(g_TotalFree));
+    set("AllocSz", (long long)(g_TotalMemoryAllocated));
+    set("FreeSz", (long long)(g_TotalMemoryFreed));
+    set("Delta", (long long)g_TotalMemoryAllocated - (long long)g_TotalMemoryFreed);
 
     FreeWorkSpaceAllocLarge(g_pHashTableAny);
     FreeWorkSpaceAllocSmall(g_pBitFields);
 
     int64_t totalDeleted = GarbageCollect(timespan, true);
 
-    PyDict_SetItemString(pDict, "TotalDeleted", (PyObject *)PyLong_FromLongLong(totalDeleted));
+    set("TotalDeleted", totalDeleted);
     // return PyLong_FromLongLong(totalDeleted);
     return pDict;
 }
-- 
2.43.0

