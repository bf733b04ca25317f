From 27bc729290f50de47a55cf3122d1ce5bf5f92640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:05 +0000
Subject: [PATCH 01/84] fix: integer modulo by zero and lowest value // -1 or %
 -1 trap with SIGFPE

---
 src/BasicMath.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/BasicMath.cpp b/src/BasicMath.cpp
index d3271b3..52d1460 100644
--- a/src/BasicMath.cpp
+++ b/src/BasicMath.cpp
@@ -297,6 +297,13 @@ static const inline T FloorDivOp(T x, T y)
 {
     if (y != 0)
     {
+        // The quotient of the lowest value and -1 is not representable and would trap: negate with wrap around.
+        if constexpr (std::is_signed_v<T>)
+        {
+            if (y == static_cast<T>(-1))
+                return static_cast<T>(0 - static_cast<std::make_unsigned_t<T>>(x));
+        }
+
         if ((x < 0) == (y < 0))
             return x / y;
 
@@ -337,6 +344,14 @@ static const inline float FloorDivOp(float x, float y)
 template <typename T>
 static const inline T ModOp(T x, T y)
 {
+    // As for floor division, a zero divisor gives zero. Neither it nor (lowest value % -1) may reach the hardware, which traps.
+    if (y == 0)
+        return 0;
+    if constexpr (std::is_signed_v<T>)
+    {
+        if (y == static_cast<T>(-1))
+            return 0;
+    }
     return x % y;
 }
 template <typename T>
-- 
2.43.0


From 160b55e069ba68a84382bbfc248f82ce772d5dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:17 +0000
Subject: [PATCH 02/84] fix: in-place vector math on an array not aligned to
 its item size crashes

---
 src/BasicMath.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/BasicMath.cpp b/src/BasicMath.cpp
index 52d1460..391c110 100644
--- a/src/BasicMath.cpp
+++ b/src/BasicMath.cpp
@@ -862,10 +862,10 @@ inline void SimpleMathOpFast(void * pDataIn1X, void * pDataIn2X, void * pDataOut
 
                     const U256 m1 = LOADU(pIn2_256);
 
-                    // apply 256bit aligned operations
+                    // apply 256bit operations (the array may not even be aligned to its item size)
                     while (pIn1_256 < pEnd_256)
                     {
-                        STOREA(pIn1_256, MATH_OP256(LOADA(pIn1_256), m1));
+                        STOREU(pIn1_256, MATH_OP256(LOADU(pIn1_256), m1));
                         pIn1_256++;
                     }
 
@@ -1053,11 +1053,10 @@ inline void SimpleMathOpFastSymmetric(void * pDataIn1X, void * pDataIn2X, void *
 
                     const U256 m1 = LOADU(pIn2_256);
 
-                    // apply 256bit aligned operations
+                    // apply 256bit operations (the array may not even be aligned to its item size)
                     while (pIn1_256 < pEnd_256)
                     {
-                        // pin1_256 is aligned
-                        STOREA(pIn1_256, MATH_OP256(m1, *pIn1_256));
+                        STOREU(pIn1_256, MATH_OP256(m1, LOADU(pIn1_256)));
                         pIn1_256++;
                     }
 
-- 
2.43.0


From ae44961a6467b30ed6eeb81a93b9fe804b4a62cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:06 +0000
Subject: [PATCH 03/84] fix: two-input math pairs up wrong elements of
 multi-dimensional arrays with gaps or different memory orders

---
 src/BasicMath.cpp | 44 ++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 44 insertions(+)

diff --git a/src/BasicMath.cpp b/src/BasicMath.cpp
index 391c110..7a7f761 100644
--- a/src/BasicMath.cpp
+++ b/src/BasicMath.cpp
@@ -2371,6 +2371,44 @@ public:
         return CheckInputsInternal(0, funcNumber);
     }
 
+    //----------------------------------------
+    // The data is processed in memory order as one contiguous block.
+    // Returns false if that does not pair up the elements of the operands (different shapes or memory orders)
+    // or if an operand has gaps.
+    //
+    bool CheckLayout()
+    {
+        const bool useArray1 = scalarMode != SCALAR_MODE::FIRST_ARG_SCALAR;
+        const bool useArray2 = scalarMode != SCALAR_MODE::SECOND_ARG_SCALAR;
+        int order = NPY_ARRAY_C_CONTIGUOUS | NPY_ARRAY_F_CONTIGUOUS;
+
+        if (useArray1 && ndim1 > 1)
+            order &= flags1;
+        if (useArray2 && ndim2 > 1)
+            order &= flags2;
+        if (order == 0)
+            return false;
+
+        if (useArray1 && useArray2 && (ndim1 > 1 || ndim2 > 1))
+        {
+            if (ndim1 != ndim2)
+                return false;
+            for (int i = 0; i < ndim1; i++)
+            {
+                if (dims1[i] != dims2[i])
+                    return false;
+            }
+        }
+
+        if (outputObject && PyArray_Check(outputObject))
+        {
+            PyArrayObject * outArr = (PyArrayObject *)outputObject;
+            if (PyArray_NDIM(outArr) > 1 && (order & PyArray_FLAGS(outArr)) == 0)
+                return false;
+        }
+        return true;
+    }
+
     //----------------------------------------
     // Input: numpyInType1 and numpyInType2 must be set
     // Returns false on error
@@ -2802,6 +2840,12 @@ public:
             }
         }
 
+        if (scalarMode != SCALAR_MODE::BOTH_SCALAR && ! CheckLayout())
+        {
+            LOGGING("Punting because of the memory layout\n");
+            return false;
+        }
+
         return true;
     }
 
-- 
2.43.0


From 2f66d21e7ca5b7a4b750636c5c2133cf34351bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:43 +0000
Subject: [PATCH 04/84] fix: conversions and one-input math misplace elements
 of multi-dimensional arrays with gaps

---
 src/Convert.cpp  | 77 +++++++++++++++++++++++++++++++++---------------
 src/RipTide.cpp  | 28 ++++++++++++++++--
 src/UnaryOps.cpp | 23 +++++++++++++--
 3 files changed, 101 insertions(+), 27 deletions(-)

diff --git a/src/Convert.cpp b/src/Convert.cpp
index d8df26c..e5cc2fe 100644
--- a/src/Convert.cpp
+++ b/src/Convert.cpp
@@ -1037,6 +1037,23 @@ void * GetInvalid(int dtype)
     return pBadInput;
 }
 
+//=====================================================================================
+// Returns true if walking the array in memory order walks the first dimension fastest
+// direction: as returned by GetStridesAndContig
+static bool IsColumnMajor(PyArrayObject * const inArr1, const int ndim, const int direction)
+{
+    if (PyArray_IS_F_CONTIGUOUS(inArr1) || direction < 0)
+    {
+        return true;
+    }
+    if (direction > 0 || ndim < 2 || PyArray_IS_C_CONTIGUOUS(inArr1))
+    {
+        return false;
+    }
+    // evenly spaced in one of the two orders
+    return std::abs(PyArray_STRIDE(inArr1, 0)) < std::abs(PyArray_STRIDE(inArr1, ndim - 1));
+}
+
 //=====================================================================================
 // Input: Two parameters
 // Arg1: array to convert
@@ -1077,9 +1094,13 @@ PyObject * ConvertSafeInternal(PyArrayObject * const inArr1, const int64_t out_d
     const int64_t arraySize1 = CalcArrayLength(ndim, dims);
     const int64_t len = arraySize1;
 
-    // Allocate the output array.
+    // Check the strides of the input to make sure we can handle
+    int64_t strideIn;
+    int directionIn = GetStridesAndContig(inArr1, ndim, strideIn);
+
+    // Allocate the output array in the memory order of the input.
     // TODO: Consider using AllocateLikeNumpyArray here instead for simplicity.
-    PyArrayObject * outArray = AllocateNumpyArray(ndim, dims, numpyOutType, 0, PyArray_IS_F_CONTIGUOUS(inArr1));
+    PyArrayObject * outArray = AllocateNumpyArray(ndim, dims, numpyOutType, 0, IsColumnMajor(inArr1, ndim, directionIn));
     CHECK_MEMORY_ERROR(outArray);
 
     // Check if we're out of memory.
@@ -1094,10 +1115,7 @@ PyObject * ConvertSafeInternal(PyArrayObject * const inArr1, const int64_t out_d
     // if output is boolean, bad means false
     void * pBadOutput1 = GetDefaultForType(numpyOutType);
 
-    // Check the strides of both the input and output to make sure we can handle
-    int64_t strideIn;
-    int directionIn = GetStridesAndContig(inArr1, ndim, strideIn);
-
+    // Check the strides of the output to make sure we can handle
     int ndimOut;
     int64_t strideOut;
     int directionOut = GetStridesAndContig(outArray, ndimOut, strideOut);
@@ -1134,8 +1152,7 @@ PyObject * ConvertSafeInternal(PyArrayObject * const inArr1, const int64_t out_d
         {
             // Col Major 2dim like array with output being fully contiguous
             int64_t innerLen = 1;
-            directionIn = -directionIn;
-            for (int i = 0; i < directionIn; i++)
+            for (int i = 0; i < ndim - 1; i++)
             {
                 innerLen *= PyArray_DIM(inArr1, i);
             }
@@ -1157,12 +1174,15 @@ PyObject * ConvertSafeInternal(PyArrayObject * const inArr1, const int64_t out_d
             // Don't leak the memory we allocated -- free it before raising the Python
             // error and returning.
             Py_DECREF(outArray);
-            // have numpy do the work
-            outArray = (PyArrayObject *)PyArray_FROM_OT((PyObject *)inArr1, numpyOutType);
-            // return PyErr_Format(PyExc_RuntimeError, "ConvertSafe allocated an
-            // output array whose *_CONTIGUOUS flags were not set even though the input
-            // array was contiguous. %d %d   out:%d %d  strideIn:%lld  strideOut:%lld",
-            // contigIn, ndim, contigOut, ndimOut, strideIn, strideOut);
+            // convert a copy without gaps
+            PyObject * const contigArray = PyArray_NewCopy(inArr1, NPY_ANYORDER);
+            if (! contigArray)
+            {
+                return nullptr;
+            }
+            PyObject * const result = ConvertSafeInternal((PyArrayObject *)contigArray, out_dtype);
+            Py_DECREF(contigArray);
+            return result;
         }
     }
     else
@@ -1271,19 +1291,30 @@ PyObject * ConvertUnsafeInternal(PyArrayObject * inArr1, int64_t out_dtype)
 
     LOGGING("ConvertUnsafe converting type %d to type %d\n", numpyInType, numpyOutType);
 
-    void * pDataIn = PyArray_BYTES(inArr1);
+    int ndim;
+    int64_t strideIn;
+    const int directionIn = GetStridesAndContig(inArr1, ndim, strideIn);
+    if (directionIn != 0)
+    {
+        // one loop cannot process all data: convert a copy without gaps
+        PyObject * const contigArray = PyArray_NewCopy(inArr1, NPY_ANYORDER);
+        if (! contigArray)
+        {
+            return nullptr;
+        }
+        PyObject * const result = ConvertUnsafeInternal((PyArrayObject *)contigArray, out_dtype);
+        Py_DECREF(contigArray);
+        return result;
+    }
 
-    const int ndim = PyArray_NDIM(inArr1);
+    void * pDataIn = PyArray_BYTES(inArr1);
     npy_intp * const dims = PyArray_DIMS(inArr1);
-    // auto* const inArr1_strides = PyArray_STRIDES(inArr1);
-    // TODO: CalcArrayLength probably needs to be fixed to account for any
-    // non-default striding
     const int64_t arraySize1 = CalcArrayLength(ndim, dims);
     const int64_t len = arraySize1;
 
     // Allocate the output array.
     // TODO: Consider using AllocateLikeNumpyArray here instead for simplicity.
-    PyArrayObject * outArray = AllocateNumpyArray(ndim, dims, numpyOutType, 0, PyArray_IS_F_CONTIGUOUS(inArr1));
+    PyArrayObject * outArray = AllocateNumpyArray(ndim, dims, numpyOutType, 0, IsColumnMajor(inArr1, ndim, directionIn));
     CHECK_MEMORY_ERROR(outArray);
     if (! outArray)
     {
@@ -1303,7 +1334,7 @@ PyObject * ConvertUnsafeInternal(PyArrayObject * inArr1, int64_t out_dtype)
     {
         // Threading not allowed for this work item, call it directly from main
         // thread
-        pFunction(pDataIn, pDataOut, len, pBadInput1, pBadOutput1, PyArray_STRIDE(inArr1, 0), PyArray_STRIDE(outArray, 0));
+        pFunction(pDataIn, pDataOut, len, pBadInput1, pBadOutput1, strideIn, PyArray_ITEMSIZE(outArray));
     }
     else
     {
@@ -1317,8 +1348,8 @@ PyObject * ConvertUnsafeInternal(PyArrayObject * inArr1, int64_t out_dtype)
         stConvertCallback.pBadInput1 = pBadInput1;
         stConvertCallback.pBadOutput1 = pBadOutput1;
 
-        stConvertCallback.typeSizeIn = PyArray_STRIDE(inArr1, 0);
-        stConvertCallback.typeSizeOut = PyArray_STRIDE(outArray, 0);
+        stConvertCallback.typeSizeIn = strideIn;
+        stConvertCallback.typeSizeOut = PyArray_ITEMSIZE(outArray);
 
         // This will notify the worker threads of a new work item
         g_cMathWorker->WorkMain(pWorkItem, len, 0);
diff --git a/src/RipTide.cpp b/src/RipTide.cpp
index dd43761..005b328 100644
--- a/src/RipTide.cpp
+++ b/src/RipTide.cpp
@@ -2327,9 +2327,33 @@ int GetStridesAndContig(PyArrayObject const * inArray, int & ndim, int64_t & str
             {
                 lastStride = PyArray_STRIDE(inArray, ndims - 1);
             }
-            if (lastStride == stride)
+
+            // dimensions of length 1 do not matter: find the others
+            int longDims = 0;
+            int longDim = 0;
+            for (int i = 0; i < ndims; i++)
+            {
+                if (PyArray_DIM(inArray, i) > 1)
+                {
+                    longDims++;
+                    longDim = i;
+                }
+            }
+
+            if (PyArray_FLAGS(inArray) & (NPY_ARRAY_C_CONTIGUOUS | NPY_ARRAY_F_CONTIGUOUS))
+            {
+                // one loop without gaps
+                stride = PyArray_ITEMSIZE(inArray);
+            }
+            else if (longDims <= 1)
+            {
+                // one loop along the only dimension having more than one element
+                stride = PyArray_STRIDE(inArray, longDim);
+            }
+            else if (lastStride == stride)
             {
-                // contiguous with one of the dimensions having length 1
+                // neither row nor column major
+                direction = ndims;
             }
             else if (std::abs(lastStride) < std::abs(stride))
             {
diff --git a/src/UnaryOps.cpp b/src/UnaryOps.cpp
index f552b38..5240b8a 100644
--- a/src/UnaryOps.cpp
+++ b/src/UnaryOps.cpp
@@ -2598,6 +2598,26 @@ PyObject * ProcessOneInput(PyArrayObject * inArray, PyArrayObject * outObject1,
                 RETURN_NONE;
             }
 
+            // both are walked in the memory order of the input
+            if (ndim > 1 || PyArray_NDIM(outputArray) > 1)
+            {
+                int order = NPY_ARRAY_C_CONTIGUOUS | NPY_ARRAY_F_CONTIGUOUS;
+                if (directionIn == 0 && ndim > 1)
+                    order = PyArray_FLAGS(inArray);
+                else if (directionIn == 1)
+                    order = NPY_ARRAY_C_CONTIGUOUS;
+                else if (directionIn == -1)
+                    order = NPY_ARRAY_F_CONTIGUOUS;
+
+                if (! PyArray_SAMESHAPE(inArray, outputArray) ||
+                    ! (order & PyArray_FLAGS(outputArray) & (NPY_ARRAY_C_CONTIGUOUS | NPY_ARRAY_F_CONTIGUOUS)))
+                {
+                    LOGGING("Wanted output does not have the memory order of the input\n");
+                    // punt to numpy
+                    RETURN_NONE;
+                }
+            }
+
             Py_INCREF(outObject1);
         }
 
@@ -2669,8 +2689,7 @@ PyObject * ProcessOneInput(PyArrayObject * inArray, PyArrayObject * outObject1,
             {
                 // Col Major 2dim like array with output being fully contiguous
                 int64_t innerLen = 1;
-                directionIn = -directionIn;
-                for (int i = 0; i < directionIn; i++)
+                for (int i = 0; i < ndim - 1; i++)
                 {
                     innerLen *= PyArray_DIM(inArray, i);
                 }
-- 
2.43.0


From 872554a294946771d8c0756a4f8c70e306a624c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:55 +0000
Subject: [PATCH 05/84] fix: a signed integer with uint64 of type long upcasts
 to float32

---
 src/RipTide.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/RipTide.cpp b/src/RipTide.cpp
index 005b328..e43f671 100644
--- a/src/RipTide.cpp
+++ b/src/RipTide.cpp
@@ -1965,8 +1965,8 @@ PyMODINIT_FUNC PyInit_riptide_cpp()
                             {
                                 if (convertType1 == NPY_LONG || convertType1 == NPY_ULONG)
                                 {
-                                    pRow->dtype1 = convertType1 + 3;
-                                    pRow->dtype2 = convertType1 + 3;
+                                    pRow->dtype1 = NPY_FLOAT64;
+                                    pRow->dtype2 = NPY_FLOAT64;
                                 }
                             }
                         }
@@ -2024,8 +2024,8 @@ PyMODINIT_FUNC PyInit_riptide_cpp()
                                 {
                                     if (convertType2 == NPY_LONG || convertType2 == NPY_ULONG)
                                     {
-                                        pRow->dtype1 = convertType2 + 3;
-                                        pRow->dtype2 = convertType2 + 3;
+                                        pRow->dtype1 = NPY_FLOAT64;
+                                        pRow->dtype2 = NPY_FLOAT64;
                                     }
                                 }
                             }
-- 
2.43.0


From 13d0983883d13343d1eca6b30e57656fe705bab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:55 +0000
Subject: [PATCH 06/84] fix: large integer scalars are misread as negative in
 two-input math

---
 src/RipTide.cpp | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/RipTide.cpp b/src/RipTide.cpp
index e43f671..27ec12a 100644
--- a/src/RipTide.cpp
+++ b/src/RipTide.cpp
@@ -1009,7 +1009,7 @@ bool ConvertSingleItemArray(void * pInput, int16_t numpyInType, _m256all * pDest
     CASE_NPY_UINT64:
 
         value = (int64_t) * (uint64_t *)pInput;
-        fvalue = (double)value;
+        fvalue = (double)*(uint64_t *)pInput;
         break;
     CASE_NPY_INT64:
 
@@ -1145,10 +1145,28 @@ bool ConvertScalarObject(PyObject * inObject1, _m256all * pDest, int16_t numpyOu
             int overflow = 0;
             int64_t value;
             uint64_t value2;
+            double fvalue;
 
             if (! isNumpyScalarInteger)
             {
                 value = PyLong_AsLongLongAndOverflow(inObject1, &overflow);
+                fvalue = (double)value;
+
+                if (overflow != 0)
+                {
+                    // not an int64: a floating point type or uint64 may still hold it
+                    fvalue = PyLong_AsDouble(inObject1);
+                    if (PyErr_Occurred())
+                    {
+                        PyErr_Clear();
+                        return false;
+                    }
+                    if (numpyOutType < NPY_FLOAT32 && ! (overflow == 1 && fvalue < 18446744073709551616.0 &&
+                                                         (numpyOutType == NPY_ULONGLONG || (numpyOutType == NPY_ULONG && sizeof(long) == 8))))
+                    {
+                        return false;
+                    }
+                }
 
                 // overflow of 1 indicates past LONG_MAX
                 // overflow of -1 indicate past LONG_MIN which we do not handle
@@ -1178,6 +1196,7 @@ bool ConvertScalarObject(PyObject * inObject1, _m256all * pDest, int16_t numpyOu
 
                     PyArray_CastScalarToCtype(inObject1, &value, g_pDescrLongLong);
                     PyArray_CastScalarToCtype(inObject1, &value2, g_pDescrULongLong);
+                    fvalue = PyArray_IsScalar(inObject1, UnsignedInteger) ? (double)value2 : (double)value;
                 }
                 else
                 {
@@ -1219,10 +1238,10 @@ bool ConvertScalarObject(PyObject * inObject1, _m256all * pDest, int16_t numpyOu
                 pDest->ci.i2 = _mm_set1_epi64x(value2);
                 break;
             case NPY_FLOAT32:
-                pDest->s = _mm256_set1_ps((float)value);
+                pDest->s = _mm256_set1_ps((float)fvalue);
                 break;
             case NPY_FLOAT64:
-                pDest->d = _mm256_set1_pd((double)value);
+                pDest->d = _mm256_set1_pd(fvalue);
                 break;
             default:
                 printf("unknown long scalar type in convertScalarObject %d\n", numpyOutType);
-- 
2.43.0


From 0111f1dbba5b0fcdfbc6e459845d7365ef095f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:20 +0000
Subject: [PATCH 07/84] fix: and-not with a scalar operand reads past the
 scalar

---
 src/BasicMath.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/BasicMath.cpp b/src/BasicMath.cpp
index 7a7f761..e05fa9c 100644
--- a/src/BasicMath.cpp
+++ b/src/BasicMath.cpp
@@ -922,6 +922,12 @@ inline void SimpleMathOpFast(void * pDataIn1X, void * pDataIn2X, void * pDataOut
 template <typename T, typename U256, const T MATH_OP(T, T), const U256 MATH_OP256(U256, U256)>
 inline void SimpleMathOpFastReverse(void * pDataIn1X, void * pDataIn2X, void * pDataOutX, int64_t datalen, int32_t scalarMode)
 {
+    // the scalar changes side as well
+    if (scalarMode == SCALAR_MODE::FIRST_ARG_SCALAR)
+        scalarMode = SCALAR_MODE::SECOND_ARG_SCALAR;
+    else if (scalarMode == SCALAR_MODE::SECOND_ARG_SCALAR)
+        scalarMode = SCALAR_MODE::FIRST_ARG_SCALAR;
+
     return SimpleMathOpFast<T, U256, MATH_OP, MATH_OP256>(pDataIn2X, pDataIn1X, pDataOutX, datalen, scalarMode);
 }
 
-- 
2.43.0


From e3a5195c79a305d57210e40362ee0bc891efcefc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:51 +0000
Subject: [PATCH 08/84] fix: an interrupt right after the handler is installed
 is lost

---
 src/interrupt.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/interrupt.cpp b/src/interrupt.cpp
index 389e562..bddbab1 100644
--- a/src/interrupt.cpp
+++ b/src/interrupt.cpp
@@ -16,9 +16,11 @@ namespace riptide
 
     bool interruptible_section(std::function<void(void)> function)
     {
+        // Clear the flag before our handler can set it, otherwise an early signal is lost
+        internal::interrupted_.store(false);
+
         // Install our handler and save the previous handler
         auto previous_handler = std::signal(SIGINT, internal::signal_handler);
-        internal::interrupted_.store(false);
 
         // Invoke the user-defined code
         function();
-- 
2.43.0


From 79d8c155d68410d7160e01a19fac72fcdf836ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:28 +0000
Subject: [PATCH 09/84] fix: a message logged just before the log service is
 disabled is lost

---
 src/logging/logging_service.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/logging/logging_service.h b/src/logging/logging_service.h
index 8128974..092f9b5 100644
--- a/src/logging/logging_service.h
+++ b/src/logging/logging_service.h
@@ -89,7 +89,8 @@ namespace riptide::logging
 
         bool active() noexcept
         {
-            return ! logs_.empty() or ! shutdown_;
+            // shutdown first: what was logged before it must be seen in the queue
+            return ! shutdown_ or ! logs_.empty();
         }
 
         bool enabled() noexcept
-- 
2.43.0


From 7602242d4dc83bd04b6d51841dd3d3c5cde880d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:24 +0000
Subject: [PATCH 10/84] fix: logging can never be enabled again when a message
 was queued while it was being disabled

---
 src/Logger.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Logger.cpp b/src/Logger.cpp
index 237a6d1..9654d39 100644
--- a/src/Logger.cpp
+++ b/src/Logger.cpp
@@ -165,7 +165,7 @@ void CleanupLogging()
 
 PyObject * EnableLogging(PyObject * self, PyObject * args)
 {
-    if (service->active())
+    if (service->enabled())
     {
         Py_INCREF(Py_None);
         return Py_None;
-- 
2.43.0


From 14897c96e60910b09da23d80b4e25ab2cbc51b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:26 +0000
Subject: [PATCH 11/84] fix: uint64 == int64 ignores the sign, one-element
 int64 arrays compare wrongly with uint64

---
 src/Compare.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Compare.cpp b/src/Compare.cpp
index d9c0626..c8c5d0a 100644
--- a/src/Compare.cpp
+++ b/src/Compare.cpp
@@ -951,7 +951,8 @@ ANY_TWO_FUNC GetComparisonOpFast(int func, int scalarMode, int numpyInType1, int
     }
 
     *wantedOutType = NPY_BOOL;
-    int mainType = scalarMode == SCALAR_MODE::FIRST_ARG_SCALAR ? numpyInType2 : numpyInType1;
+    // scalars were converted to the type of the array, only 64-bit integers may still differ: the first type decides
+    int mainType = numpyInType1;
 
     LOGGING("Comparison maintype %d for func %d  inputs: %d %d\n", mainType, func, numpyInType1, numpyInType2);
 
@@ -1091,11 +1092,10 @@ ANY_TWO_FUNC GetComparisonOpFast(int func, int scalarMode, int numpyInType1, int
         {
             switch (func)
             {
-                // For equal, not equal the sign does not matter
             case MATH_OPERATION::CMP_EQ:
-                return CompareAny<int64_t, COMP_EQ>;
+                return CompareAny<int64_t, COMP_EQ_uint64_t>;
             case MATH_OPERATION::CMP_NE:
-                return CompareAny<int64_t, COMP_NE>;
+                return CompareAny<int64_t, COMP_NE_uint64_t>;
             case MATH_OPERATION::CMP_GT:
                 return CompareAny<uint64_t, COMP_GT_uint64_t>;
             case MATH_OPERATION::CMP_GTE:
-- 
2.43.0


From cae7412e757929f033251ab53044089a1f6fdc45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:26 +0000
Subject: [PATCH 12/84] fix: comparing 64-bit integers with a scalar that their
 type cannot hold

---
 src/BasicMath.cpp | 41 +++++++++++++++++++++++++++++++++++++++++
 1 file changed, 41 insertions(+)

diff --git a/src/BasicMath.cpp b/src/BasicMath.cpp
index e05fa9c..6011cd3 100644
--- a/src/BasicMath.cpp
+++ b/src/BasicMath.cpp
@@ -2265,6 +2265,38 @@ public:
         return dtype;
     }
 
+    //-------------------------------------------------------------------
+    // 64-bit integers are compared without upcasting to float64
+    // Returns false if the scalar cannot be represented in the type of the array
+    bool CanCompareScalar(PyObject * scalarObject, int dtype, int64_t funcNumber)
+    {
+        if (funcNumber < MATH_OPERATION::CMP_EQ || funcNumber > MATH_OPERATION::CMP_GTE)
+            return true;
+
+        const int arrayType = GetNonAmbiguousDtype(dtype);
+        if (arrayType != NPY_LONGLONG && arrayType != NPY_ULONGLONG)
+            return true;
+
+        if (! PyLong_Check(scalarObject) && ! PyArray_IsScalar(scalarObject, Integer))
+            return true;
+
+        bool fits = true;
+        PyObject * number = PyNumber_Index(scalarObject);
+        if (number)
+        {
+            int overflow = 0;
+            int64_t val = PyLong_AsLongLongAndOverflow(number, &overflow);
+            fits = arrayType == NPY_LONGLONG ? overflow == 0 : overflow > 0 || (overflow == 0 && val >= 0);
+            if (fits && overflow > 0)
+            {
+                fits = PyLong_AsUnsignedLongLong(number) != (unsigned long long)-1 || ! PyErr_Occurred();
+            }
+            Py_DECREF(number);
+        }
+        PyErr_Clear();
+        return fits;
+    }
+
     //-------------------------------------------------------------------
     //
     // returns nullptr on failure
@@ -2604,6 +2636,15 @@ public:
 
         LOGGING("scalar: %d %d\n", isScalar1, isScalar2);
 
+        if (isScalar1 && isArray2 && ! CanCompareScalar(inObject1, PyArray_TYPE((PyArrayObject *)inObject2), funcNumber))
+        {
+            return false;
+        }
+        if (isScalar2 && isArray1 && ! CanCompareScalar(inObject2, PyArray_TYPE((PyArrayObject *)inObject1), funcNumber))
+        {
+            return false;
+        }
+
         if (isScalar1)
         {
             scalarMode = SCALAR_MODE::FIRST_ARG_SCALAR;
-- 
2.43.0


From 1c8ec3bd8aa7a62d51a88907b71de2b17e5fb65c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:05 +0000
Subject: [PATCH 13/84] fix: sqrt, log, exp and cbrt of uint64 read the values
 as signed

---
 src/UnaryOps.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/UnaryOps.cpp b/src/UnaryOps.cpp
index 5240b8a..4745c9e 100644
--- a/src/UnaryOps.cpp
+++ b/src/UnaryOps.cpp
@@ -2060,7 +2060,7 @@ UNARY_FUNC GetUnaryOpSlow(int func, int numpyInType1, int numpyOutType, int * wa
         CASE_NPY_INT64:
             return UnaryOpSlowDouble_SQRT<int64_t>;
         CASE_NPY_UINT64:
-            return UnaryOpSlowDouble_SQRT<int64_t>;
+            return UnaryOpSlowDouble_SQRT<uint64_t>;
         case NPY_DOUBLE:
             return UnaryOpSlow_SQRT<double>;
         case NPY_LONGDOUBLE:
@@ -2087,7 +2087,7 @@ UNARY_FUNC GetUnaryOpSlow(int func, int numpyInType1, int numpyOutType, int * wa
         CASE_NPY_INT64:
             return UnaryOpSlowDouble_CBRT<int64_t>;
         CASE_NPY_UINT64:
-            return UnaryOpSlowDouble_CBRT<int64_t>;
+            return UnaryOpSlowDouble_CBRT<uint64_t>;
         }
         break;
 
@@ -2116,7 +2116,7 @@ UNARY_FUNC GetUnaryOpSlow(int func, int numpyInType1, int numpyOutType, int * wa
         CASE_NPY_INT64:
             return UnaryOpSlowDouble_LOG<int64_t>;
         CASE_NPY_UINT64:
-            return UnaryOpSlowDouble_LOG<int64_t>;
+            return UnaryOpSlowDouble_LOG<uint64_t>;
         }
         break;
 
@@ -2145,7 +2145,7 @@ UNARY_FUNC GetUnaryOpSlow(int func, int numpyInType1, int numpyOutType, int * wa
         CASE_NPY_INT64:
             return UnaryOpSlowDouble_LOG10<int64_t>;
         CASE_NPY_UINT64:
-            return UnaryOpSlowDouble_LOG10<int64_t>;
+            return UnaryOpSlowDouble_LOG10<uint64_t>;
         }
         break;
 
@@ -2174,7 +2174,7 @@ UNARY_FUNC GetUnaryOpSlow(int func, int numpyInType1, int numpyOutType, int * wa
         CASE_NPY_INT64:
             return UnaryOpSlowDouble_EXP<int64_t>;
         CASE_NPY_UINT64:
-            return UnaryOpSlowDouble_EXP<int64_t>;
+            return UnaryOpSlowDouble_EXP<uint64_t>;
         }
         break;
 
@@ -2203,7 +2203,7 @@ UNARY_FUNC GetUnaryOpSlow(int func, int numpyInType1, int numpyOutType, int * wa
         CASE_NPY_INT64:
             return UnaryOpSlowDouble_EXP2<int64_t>;
         CASE_NPY_UINT64:
-            return UnaryOpSlowDouble_EXP2<int64_t>;
+            return UnaryOpSlowDouble_EXP2<uint64_t>;
         }
         break;
 
-- 
2.43.0


From d51a05c868999795910fbe40ade5b08b180519bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:15 +0000
Subject: [PATCH 14/84] fix: abs, negative and round of floats differ between
 the vector and the remainder loop

---
 src/UnaryOps.cpp | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/UnaryOps.cpp b/src/UnaryOps.cpp
index 4745c9e..20a9a70 100644
--- a/src/UnaryOps.cpp
+++ b/src/UnaryOps.cpp
@@ -192,6 +192,8 @@ const union
 template <typename T>
 static const inline T ABS_OP(T x)
 {
+    if constexpr (std::is_floating_point_v<T>)
+        return std::abs(x); // clears the sign of -0.0 and NaN as well, as the vector form does
     return x < 0 ? -x : x;
 }
 template <typename T>
@@ -289,20 +291,21 @@ static const inline bool ISNANORZERO_OP(T x)
     return x == 0.0 || std::isnan(x);
 }
 
+// Halfway cases go to the even neighbor, as in the vector form
 template <typename T>
 static const inline long double ROUND_OP(long double x)
 {
-    return roundl(x);
+    return rintl(x);
 }
 template <typename T>
 static const inline double ROUND_OP(double x)
 {
-    return round(x);
+    return rint(x);
 }
 template <typename T>
 static const inline float ROUND_OP(float x)
 {
-    return roundf(x);
+    return rintf(x);
 }
 
 template <typename T>
@@ -587,17 +590,19 @@ static const inline __m256i NEG_OP_256i8(__m256i x)
 template <typename T>
 static const inline __m256 NEG_OP_256(__m256 x)
 {
-    const __m256 m8 = _mm256_setzero_ps();
+    // flip the sign bit: 0.0 - x would lose the sign of a zero
+    const __m256 m8 = _mm256_set1_ps(-0.0f);
     // The second operand does not need to be unaligned loaded
-    return _mm256_sub_ps(m8, x);
+    return _mm256_xor_ps(m8, x);
 }
 
 template <typename T>
 static const inline __m256d NEG_OP_256(__m256d x)
 {
-    const __m256d m8 = _mm256_setzero_pd();
+    // flip the sign bit: 0.0 - x would lose the sign of a zero
+    const __m256d m8 = _mm256_set1_pd(-0.0);
     // The second operand does not need to be unaligned loaded
-    return _mm256_sub_pd(m8, x);
+    return _mm256_xor_pd(m8, x);
 }
 
 template <typename T>
-- 
2.43.0


From 10ab60c1bcf762774a905f92929804c9a05557fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:43 +0000
Subject: [PATCH 15/84] fix: converting an infinite float to another float type
 made it NaN

---
 src/Convert.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Convert.cpp b/src/Convert.cpp
index e5cc2fe..abf4dd0 100644
--- a/src/Convert.cpp
+++ b/src/Convert.cpp
@@ -415,7 +415,7 @@ public:
         {
             for (int64_t i = 0; i < len; i++)
             {
-                if (std::isfinite(pIn[i]) && (pIn[i] != pBadValueIn))
+                if ((std::is_floating_point_v<U> || std::isfinite(pIn[i])) && (pIn[i] != pBadValueIn))
                 {
                     pOut[i] = (U)pIn[i];
                 }
@@ -431,7 +431,7 @@ public:
             U * pEndOut = (U *)((char *)pOut + (len * strideOut));
             while (pOut != pEndOut)
             {
-                if (std::isfinite(*pIn) && (*pIn != pBadValueIn))
+                if ((std::is_floating_point_v<U> || std::isfinite(*pIn)) && (*pIn != pBadValueIn))
                 {
                     *pOut = (U)*pIn;
                 }
-- 
2.43.0


From 4ba3c6e267bd54966d6e02d1ddb8ff48b414a15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:46 +0000
Subject: [PATCH 16/84] fix: threaded sum, mean and variance of large floats
 returned NaN

---
 src/Reduce.cpp | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/Reduce.cpp b/src/Reduce.cpp
index 2ff168c..139d1a0 100644
--- a/src/Reduce.cpp
+++ b/src/Reduce.cpp
@@ -545,17 +545,12 @@ void CMathWorker::WorkScatterGatherCall(FUNCTION_LIST * anyScatterGatherCall, vo
             {
                 pstScatterGatherFunc->lenOut += pZeroArray[i].lenOut;
                 pstScatterGatherFunc->resultOut = riptide::add(pstScatterGatherFunc->resultOut, pZeroArray[i].resultOut);
-                pstScatterGatherFunc->resultOutInt64 =
-                    riptide::add(pstScatterGatherFunc->resultOutInt64, pZeroArray[i].resultOutInt64);
 
-                if (! invalid_for_type<double>::is_valid(pstScatterGatherFunc->resultOut))
-                {
-                    pstScatterGatherFunc->resultOutInt64 = invalid_for_type<int64_t>::value;
-                }
-                else if (! invalid_for_type<int64_t>::is_valid(pstScatterGatherFunc->resultOutInt64))
-                {
-                    pstScatterGatherFunc->resultOut = invalid_for_type<double>::value;
-                }
+                // the integer result of floats or of an overflow means nothing, only the double tells what is invalid
+                pstScatterGatherFunc->resultOutInt64 =
+                    invalid_for_type<double>::is_valid(pstScatterGatherFunc->resultOut) ?
+                        (int64_t)((uint64_t)pstScatterGatherFunc->resultOutInt64 + (uint64_t)pZeroArray[i].resultOutInt64) :
+                        invalid_for_type<int64_t>::value;
             }
         }
         WORKSPACE_FREE(pWorkSpace);
-- 
2.43.0


From 121ad54d74807ab738ed240b5580e55dd2bf4a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:58 +0000
Subject: [PATCH 17/84] fix: sums of 64-bit integers lost their low bits

---
 src/Reduce.cpp | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/Reduce.cpp b/src/Reduce.cpp
index 139d1a0..c588e5f 100644
--- a/src/Reduce.cpp
+++ b/src/Reduce.cpp
@@ -2173,6 +2173,7 @@ class ReduceSum final
         T * pIn = (T *)pDataIn;
         T * pEnd;
         double result = 0;
+        [[maybe_unused]] uint64_t resultInt = 0;
 
         if (pstScatterGatherFunc->inputType == NPY_BOOL)
         {
@@ -2191,12 +2192,25 @@ class ReduceSum final
                     break;
                 }
                 result += static_cast<double>(value);
+                if constexpr (std::is_integral_v<T>)
+                    resultInt += static_cast<uint64_t>(value);
             }
         }
 
         pstScatterGatherFunc->lenOut += length;
         pstScatterGatherFunc->resultOut = riptide::add(pstScatterGatherFunc->resultOut, result);
-        pstScatterGatherFunc->resultOutInt64 = riptide::cast<int64_t>(pstScatterGatherFunc->resultOut);
+        if constexpr (std::is_integral_v<T> && sizeof(T) == sizeof(int64_t))
+        {
+            // the double cannot hold every sum of 64-bit integers
+            pstScatterGatherFunc->resultOutInt64 =
+                riptide::invalid_for_type<double>::is_valid(pstScatterGatherFunc->resultOut) ?
+                    static_cast<int64_t>(static_cast<uint64_t>(pstScatterGatherFunc->resultOutInt64) + resultInt) :
+                    riptide::invalid_for_type<int64_t>::value;
+        }
+        else
+        {
+            pstScatterGatherFunc->resultOutInt64 = riptide::cast<int64_t>(pstScatterGatherFunc->resultOut);
+        }
         return result;
     }
 
@@ -2613,6 +2627,7 @@ class ReduceNanSum final
     static double non_vector(void * pDataIn, int64_t len, stScatterGatherFunc * pstScatterGatherFunc)
     {
         double result = 0;
+        [[maybe_unused]] uint64_t resultInt = 0;
         int64_t count = 0;
         T * pIn = (T *)pDataIn;
 
@@ -2621,12 +2636,16 @@ class ReduceNanSum final
             if (invalid_for_type<T>::is_valid(pIn[i]))
             {
                 result += pIn[i];
+                if constexpr (std::is_integral_v<T>)
+                    resultInt += static_cast<uint64_t>(pIn[i]);
                 count += 1;
             }
         }
         pstScatterGatherFunc->lenOut += count;
         pstScatterGatherFunc->resultOut += result;
-        pstScatterGatherFunc->resultOutInt64 += (int64_t)result;
+        if constexpr (std::is_integral_v<T>)
+            pstScatterGatherFunc->resultOutInt64 =
+                static_cast<int64_t>(static_cast<uint64_t>(pstScatterGatherFunc->resultOutInt64) + resultInt);
         return result;
     }
 
@@ -3275,7 +3294,9 @@ static PyObject * ReduceInternal(PyArrayObject * inArr1, REDUCE_FUNCTIONS func,
                     LOGGING("Returning overflow %lf  for func %lld\n", sgFunc.resultOut, func);
                     return PyFloat_FromDouble(sgFunc.resultOut);
                 }
-                return PyLong_FromUnsignedLongLong(riptide::cast<uint64_t>(sgFunc.resultOutInt64));
+                return PyLong_FromUnsignedLongLong(riptide::invalid_for_type<double>::is_valid(sgFunc.resultOut) ?
+                                                       (uint64_t)sgFunc.resultOutInt64 :
+                                                       riptide::invalid_for_type<uint64_t>::value);
             case NPY_FLOAT:
             case NPY_DOUBLE:
             case NPY_LONGDOUBLE:
-- 
2.43.0


From 435e13d1c49a6278616e4ed923c4be0a511170ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:13 +0000
Subject: [PATCH 18/84] fix: Reduce read the wrong memory of arrays with gaps,
 crashed for 0-d arrays and the mean of strings

---
 src/Reduce.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/Reduce.cpp b/src/Reduce.cpp
index c588e5f..3e0c759 100644
--- a/src/Reduce.cpp
+++ b/src/Reduce.cpp
@@ -3170,6 +3170,12 @@ static PyObject * ReduceInternal(PyArrayObject * inArr1, REDUCE_FUNCTIONS func,
     // Handle Arg style functions here
     if (func >= REDUCE_FUNCTIONS::REDUCE_ARGMIN && func <= REDUCE_FUNCTIONS::REDUCE_NANARGMAX)
     {
+        if (! PyArray_IS_C_CONTIGUOUS(inArr1))
+        {
+            // the position would be counted in memory order
+            Py_RETURN_NONE;
+        }
+
         stArgScatterGatherFunc sgFunc = { numpyInType, 0, 0, 0, -1 };
         ARG_SCATTER_GATHER_FUNC pFunction = GetArgReduceFuncPtr(numpyInType, func);
 
@@ -3215,6 +3221,12 @@ static PyObject * ReduceInternal(PyArrayObject * inArr1, REDUCE_FUNCTIONS func,
         REDUCE_FUNCTIONS newFunc = (REDUCE_FUNCTIONS)(REDUCE_SUM + (func & 1));
         fl.AnyScatterGatherCall = GetReduceFuncPtr(numpyInType, newFunc);
 
+        if (! fl.AnyScatterGatherCall)
+        {
+            // strings and other types that cannot be added
+            Py_RETURN_NONE;
+        }
+
         // First call add
         g_cMathWorker->WorkScatterGatherCall(&fl, pDataIn, len, newFunc, &sgFunc);
 
@@ -3411,7 +3423,8 @@ PyObject * Reduce(PyObject * self, PyObject * args)
     if (IsFastArrayOrNumpy(inArr1))
     {
         // make sure not strided -- we don't currently handle those
-        if (PyArray_DIM(inArr1, 0) <= 1 || PyArray_STRIDE(inArr1, 0) == PyArray_ITEMSIZE(inArr1))
+        // (with any number of dimensions)
+        if (PyArray_IS_C_CONTIGUOUS(inArr1) || PyArray_IS_F_CONTIGUOUS(inArr1))
         {
             PyObject * object2 = PyTuple_GET_ITEM(args, 1);
             if (PyLong_Check(object2))
-- 
2.43.0


From 6fa071d0a3562919ade3ac3ab6f7bd2cf0dcf6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:46 +0000
Subject: [PATCH 19/84] fix: sums of 64-bit integers just beyond their range
 wrapped around instead of becoming float

---
 src/Reduce.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Reduce.cpp b/src/Reduce.cpp
index 3e0c759..b4d5543 100644
--- a/src/Reduce.cpp
+++ b/src/Reduce.cpp
@@ -3294,14 +3294,14 @@ static PyObject * ReduceInternal(PyArrayObject * inArr1, REDUCE_FUNCTIONS func,
             switch (numpyInType)
             {
             CASE_NPY_INT64:
-                if (sgFunc.resultOut > 9223372036854775807.0 || sgFunc.resultOut < -9223372036854775808.0)
+                if (std::abs(sgFunc.resultOut - (double)sgFunc.resultOutInt64) > 9223372036854775808.0) // wrapped around
                 {
                     LOGGING("Returning overflow %lf  for func %lld\n", sgFunc.resultOut, func);
                     return PyFloat_FromDouble(sgFunc.resultOut);
                 }
                 return PyLong_FromLongLong(sgFunc.resultOutInt64);
             CASE_NPY_UINT64:
-                if (sgFunc.resultOut > 18446744073709551615.0)
+                if (std::abs(sgFunc.resultOut - (double)(uint64_t)sgFunc.resultOutInt64) > 9223372036854775808.0) // wrapped around
                 {
                     LOGGING("Returning overflow %lf  for func %lld\n", sgFunc.resultOut, func);
                     return PyFloat_FromDouble(sgFunc.resultOut);
-- 
2.43.0


From 51582e3741b77f44857895773e096a5686d0ac1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:59 +0000
Subject: [PATCH 20/84] fix: descending sort of records ignores the direction
 in the last odd byte

---
 src/Sort.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/Sort.cpp b/src/Sort.cpp
index 433027a..d37a1ee 100644
--- a/src/Sort.cpp
+++ b/src/Sort.cpp
@@ -162,7 +162,7 @@ NPY_INLINE static int VOID_LT(const char * s1, const char * s2, size_t len)
         c2 += 2;
         if (*c1 != *c2)
         {
-            return *c1 < *c2;
+            return COMPARE_LT<unsigned char, Ascending>(*c1, *c2);
         }
         return 0;
     case 4:
@@ -180,7 +180,7 @@ NPY_INLINE static int VOID_LT(const char * s1, const char * s2, size_t len)
         c2 += 4;
         if (*c1 != *c2)
         {
-            return *c1 < *c2;
+            return COMPARE_LT<unsigned char, Ascending>(*c1, *c2);
         }
         return 0;
     case 6:
@@ -210,7 +210,7 @@ NPY_INLINE static int VOID_LT(const char * s1, const char * s2, size_t len)
         c2 += 2;
         if (*c1 != *c2)
         {
-            return *c1 < *c2;
+            return COMPARE_LT<unsigned char, Ascending>(*c1, *c2);
         }
         return 0;
     case 8:
@@ -237,7 +237,7 @@ NPY_INLINE static int VOID_LT(const char * s1, const char * s2, size_t len)
             case 1:
                 if (*c1 != *c2)
                 {
-                    return *c1 < *c2;
+                    return COMPARE_LT<unsigned char, Ascending>(*c1, *c2);
                 }
                 return 0;
             case 2:
@@ -255,7 +255,7 @@ NPY_INLINE static int VOID_LT(const char * s1, const char * s2, size_t len)
                 c2 += 2;
                 if (*c1 != *c2)
                 {
-                    return *c1 < *c2;
+                    return COMPARE_LT<unsigned char, Ascending>(*c1, *c2);
                 }
                 return 0;
             case 4:
@@ -273,7 +273,7 @@ NPY_INLINE static int VOID_LT(const char * s1, const char * s2, size_t len)
                 c2 += 4;
                 if (*c1 != *c2)
                 {
-                    return *c1 < *c2;
+                    return COMPARE_LT<unsigned char, Ascending>(*c1, *c2);
                 }
                 return 0;
             case 6:
@@ -303,7 +303,7 @@ NPY_INLINE static int VOID_LT(const char * s1, const char * s2, size_t len)
                 c2 += 2;
                 if (*c1 != *c2)
                 {
-                    return *c1 < *c2;
+                    return COMPARE_LT<unsigned char, Ascending>(*c1, *c2);
                 }
                 return 0;
             case 8:
-- 
2.43.0


From f99af79ba687a959f8a9a67840cd6a82f3e35dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:12 +0000
Subject: [PATCH 21/84] fix: grouping sorted strings by partition miscounts and
 writes past its partition

The counts are expected without the zero bin there (base index 0), as the
numeric version does. 7-byte strings compare for equality, not order.
---
 src/Sort.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Sort.cpp b/src/Sort.cpp
index d37a1ee..fbcd283 100644
--- a/src/Sort.cpp
+++ b/src/Sort.cpp
@@ -396,7 +396,7 @@ NPY_INLINE static int BINARY_LT(const char * s1, const char * s2, size_t len)
         c2 += 2;
         if (*c1 != *c2)
         {
-            return *c1 < *c2;
+            return 1;
         }
         return 0;
     case 8:
@@ -3831,7 +3831,7 @@ static int64_t GroupIndexStep2String(void * pDataIn1, UINDEX arraySize1, UINDEX
     UINDEX baseIndex = (UINDEX)base_index;
     UINDEX curGroup = 0;
 
-    // Invalid bin init when base_index is 1
+    // when base_index is 1 the first count is the invalid bin, otherwise the counts are shifted
     pCountOut[0] = 0;
 
     pFirstOut[0] = curIndex;
@@ -3849,16 +3849,16 @@ static int64_t GroupIndexStep2String(void * pDataIn1, UINDEX arraySize1, UINDEX
         }
         else
         {
+            pCountOut[curGroup + baseIndex] = curCount;
             curGroup++;
-            pCountOut[curGroup] = curCount;
             pFirstOut[curGroup] = curIndex;
             pGroupOut[curIndex] = curGroup + baseIndex;
             val1 = val2;
             curCount = 1;
         }
     }
+    pCountOut[curGroup + baseIndex] = curCount;
     curGroup++;
-    pCountOut[curGroup] = curCount;
     return curGroup;
 }
 
-- 
2.43.0


From bbf61699a077a7661e165181b0b25d7eb185197a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:12 +0000
Subject: [PATCH 22/84] fix: GroupFromLexSort returns an uninitialized count
 for base index 0 or no rows

---
 src/Sort.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/Sort.cpp b/src/Sort.cpp
index fbcd283..8b70504 100644
--- a/src/Sort.cpp
+++ b/src/Sort.cpp
@@ -4305,9 +4305,10 @@ static PyObject * GroupFromLexSortInternal(PyObject * kwargs, UINDEX * pIndex, n
         uniqueCount++;
         PyArrayObject * countReduced =
             AllocateNumpyArray(1, (npy_intp *)&uniqueCount, sizeof(UINDEX) == 4 ? NPY_INT32 : NPY_INT64);
-        copySize = sizeof(UINDEX) * uniqueCount;
-        // reduced
-        memcpy(PyArray_BYTES(countReduced), pCountOut, copySize);
+        // the first count is the zero bin (the counts start at 0 when base_index is 0)
+        UINDEX * pCountReduced = (UINDEX *)PyArray_BYTES(countReduced);
+        pCountReduced[0] = 0;
+        memcpy(pCountReduced + 1, pCountOut + base_index, copySize);
 
         Py_DecRef((PyObject *)first);
         Py_DecRef((PyObject *)count);
-- 
2.43.0


From cb3529fd22117f1cccdd4d9d9284cf9fc281cac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:46 +0000
Subject: [PATCH 23/84] fix: binning compared values with cuts that were
 truncated to the type of the values

---
 src/Bins.cpp | 75 ++++++++++++++++++++++++++++++++--------------------
 1 file changed, 47 insertions(+), 28 deletions(-)

diff --git a/src/Bins.cpp b/src/Bins.cpp
index 0959de3..a277f1b 100644
--- a/src/Bins.cpp
+++ b/src/Bins.cpp
@@ -814,6 +814,21 @@ PyObject * BinsToCutsSorted(PyObject * self, PyObject * args)
     return Py_None;
 }
 
+//=================================================================================================
+// The type in which a value of type T is compared with a cut of type BINTYPE: neither may lose its range.
+template <typename T, typename BINTYPE>
+struct BIN_COMPARE
+{
+    static constexpr bool anyFloat = std::is_floating_point_v<T> || std::is_floating_point_v<BINTYPE>;
+    static constexpr bool fitsFloat = (std::is_same_v<T, float> || sizeof(T) < 4) && (std::is_same_v<BINTYPE, float> || sizeof(BINTYPE) < 4);
+    static constexpr bool mixedSign64 = (std::is_same_v<T, uint64_t> && std::is_signed_v<BINTYPE>) ||
+                                        (std::is_same_v<BINTYPE, uint64_t> && std::is_signed_v<T>);
+
+    using float_type = std::conditional_t<std::is_same_v<T, long double>, long double, std::conditional_t<fitsFloat, float, double>>;
+    using int_type = std::conditional_t<mixedSign64, long double, std::common_type_t<T, BINTYPE, int64_t>>;
+    using type = std::conditional_t<anyFloat, float_type, int_type>;
+};
+
 //=================================================================================================
 // T is the value type
 // U is the index type (often INT32)
@@ -836,8 +851,9 @@ void SearchSortedRight(void * pDataIn1, void * pOut1, const int64_t start, const
     V maxbin = (V)maxbin1;
 
     const V lastbin = maxbin - 1;
-    const T verylast = (const T)pBin1[lastbin];
-    const T veryfirst = (const T)pBin1[0];
+    using COMPARE = typename BIN_COMPARE<T, BINTYPE>::type;
+    const COMPARE verylast = (COMPARE)pBin1[lastbin];
+    const COMPARE veryfirst = (COMPARE)pBin1[0];
 
     LOGGING("SearchSortedRight Array length %lld   bin length %lld\n", length, (long long)maxbin);
 
@@ -845,26 +861,26 @@ void SearchSortedRight(void * pDataIn1, void * pOut1, const int64_t start, const
     for (int64_t i = 0; i < length; i++)
     {
         const T value = pData[i];
+        const COMPARE val = (COMPARE)value;
 
-        if (value >= veryfirst && value < verylast)
+        if (val >= veryfirst && val < verylast)
         {
             // bin search
             V middle;
             V first = 0;
             V last = lastbin;
-            BINTYPE val = (BINTYPE)value;
 
             // NOTE: this loop can be sped up
             do
             {
                 middle = (first + last) >> 1; // this finds the mid point
-                if (pBin1[middle] > val)      // if it's in the lower half
+                if ((COMPARE)pBin1[middle] > val)      // if it's in the lower half
                 {
                     last = middle - 1;
                     if (first > last)
                         break;
                 }
-                else if (pBin1[middle] <= val)
+                else if ((COMPARE)pBin1[middle] <= val)
                 {
                     first = middle + 1; // if it's in the upper half
                     if (first > last)
@@ -881,7 +897,7 @@ void SearchSortedRight(void * pDataIn1, void * pOut1, const int64_t start, const
         else
         {
             // First bin for invalid values
-            if (value < veryfirst)
+            if (val < veryfirst)
             {
                 pOut[i] = 0;
             }
@@ -916,8 +932,9 @@ void SearchSortedLeft(void * pDataIn1, void * pOut1, const int64_t start, const
     V maxbin = (V)maxbin1;
 
     const V lastbin = maxbin - 1;
-    const T verylast = (const T)pBin1[lastbin];
-    const T veryfirst = (const T)pBin1[0];
+    using COMPARE = typename BIN_COMPARE<T, BINTYPE>::type;
+    const COMPARE verylast = (COMPARE)pBin1[lastbin];
+    const COMPARE veryfirst = (COMPARE)pBin1[0];
 
     LOGGING("SearchSortedLeft Array length %lld   bin length %lld\n", length, (long long)maxbin);
 
@@ -925,26 +942,26 @@ void SearchSortedLeft(void * pDataIn1, void * pOut1, const int64_t start, const
     for (int64_t i = 0; i < length; i++)
     {
         const T value = pData[i];
+        const COMPARE val = (COMPARE)value;
 
-        if (value > veryfirst && value <= verylast)
+        if (val > veryfirst && val <= verylast)
         {
             // bin search
             V middle;
             V first = 0;
             V last = lastbin;
-            BINTYPE val = (BINTYPE)value;
 
             // NOTE: this loop can be sped up
             do
             {
                 middle = (first + last) >> 1; // this finds the mid point
-                if (pBin1[middle] >= val)     // if it's in the lower half
+                if ((COMPARE)pBin1[middle] >= val)     // if it's in the lower half
                 {
                     last = middle - 1;
                     if (first > last)
                         break;
                 }
-                else if (pBin1[middle] < val)
+                else if ((COMPARE)pBin1[middle] < val)
                 {
                     first = middle + 1; // if it's in the upper half
                     if (first > last)
@@ -961,7 +978,7 @@ void SearchSortedLeft(void * pDataIn1, void * pOut1, const int64_t start, const
         else
         {
             // First bin for invalid values
-            if (value <= veryfirst)
+            if (val <= veryfirst)
             {
                 pOut[i] = 0;
             }
@@ -1372,8 +1389,9 @@ void MakeBinsBSearchFloat(void * pDataIn1, void * pOut1, const int64_t start, co
     OUT_TYPE maxbin = (OUT_TYPE)maxbin1;
 
     const OUT_TYPE lastbin = maxbin - 1;
-    const T verylast = (const T)pBin1[lastbin];
-    const T veryfirst = (const T)pBin1[0];
+    using COMPARE = typename BIN_COMPARE<T, BINTYPE>::type;
+    const COMPARE verylast = (COMPARE)pBin1[lastbin];
+    const COMPARE veryfirst = (COMPARE)pBin1[0];
 
     LOGGING(
         "MakeBinsBSearchFloat Array length %lld   bin length %lld    bintype "
@@ -1384,24 +1402,24 @@ void MakeBinsBSearchFloat(void * pDataIn1, void * pOut1, const int64_t start, co
     for (int64_t i = 0; i < length; i++)
     {
         const T value = pData[i];
-        if (std::isfinite(value) && value >= veryfirst && value <= verylast)
+        const COMPARE val = (COMPARE)value;
+        if (std::isfinite(value) && val >= veryfirst && val <= verylast)
         {
             // bin search
             OUT_TYPE middle;
             OUT_TYPE first = 0;
             OUT_TYPE last = lastbin;
-            BINTYPE val = (BINTYPE)value;
 
             do
             {
                 middle = (first + last) >> 1; // this finds the mid point
-                if (pBin1[middle] > val)      // if it's in the lower half
+                if ((COMPARE)pBin1[middle] > val)      // if it's in the lower half
                 {
                     last = middle - 1;
                     if (first >= last)
                         break;
                 }
-                else if (pBin1[middle] < val)
+                else if ((COMPARE)pBin1[middle] < val)
                 {
                     first = middle + 1; // if it's in the upper half
                     if (first >= last)
@@ -1420,7 +1438,7 @@ void MakeBinsBSearchFloat(void * pDataIn1, void * pOut1, const int64_t start, co
 
             if (first > 0)
             {
-                if (val <= pBin1[first])
+                if (val <= (COMPARE)pBin1[first])
                 {
                     pOut[i] = first;
                 }
@@ -1469,8 +1487,9 @@ void MakeBinsBSearch(void * pDataIn1, void * pOut1, const int64_t start, const i
     void * pDefault = GetDefaultForType(numpyInType);
     const T defaultNan = *(T *)pDefault;
     const OUT_TYPE lastbin = maxbin - 1;
-    const T verylast = (const T)pBin1[lastbin];
-    const T veryfirst = (const T)pBin1[0];
+    using COMPARE = typename BIN_COMPARE<T, BINTYPE>::type;
+    const COMPARE verylast = (COMPARE)pBin1[lastbin];
+    const COMPARE veryfirst = (COMPARE)pBin1[0];
 
     LOGGING("MakeBinsBSearch Array length %lld   bin length %lld\n", length, (long long)maxbin);
 
@@ -1478,26 +1497,26 @@ void MakeBinsBSearch(void * pDataIn1, void * pOut1, const int64_t start, const i
     for (int64_t i = 0; i < length; i++)
     {
         const T value = pData[i];
+        const COMPARE val = (COMPARE)value;
 
-        if (value != defaultNan && value >= veryfirst && value <= verylast)
+        if (value != defaultNan && val >= veryfirst && val <= verylast)
         {
             // bin search
             OUT_TYPE middle;
             OUT_TYPE first = 0;
             OUT_TYPE last = lastbin;
-            BINTYPE val = (BINTYPE)value;
 
             // NOTE: this loop can be sped up
             do
             {
                 middle = (first + last) >> 1; // this finds the mid point
-                if (pBin1[middle] > val)      // if it's in the lower half
+                if ((COMPARE)pBin1[middle] > val)      // if it's in the lower half
                 {
                     last = middle - 1;
                     if (first >= last)
                         break;
                 }
-                else if (pBin1[middle] < val)
+                else if ((COMPARE)pBin1[middle] < val)
                 {
                     first = middle + 1; // if it's in the upper half
                     if (first >= last)
@@ -1516,7 +1535,7 @@ void MakeBinsBSearch(void * pDataIn1, void * pOut1, const int64_t start, const i
 
             if (first > 0)
             {
-                if (val <= pBin1[first])
+                if (val <= (COMPARE)pBin1[first])
                 {
                     pOut[i] = first;
                 }
-- 
2.43.0


From 2e57c01ee0de590c60f6dc9517700969eedfb810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:06 +0000
Subject: [PATCH 24/84] fix: binning returned uninitialized bins for unicode
 and read past the cuts when a value is above them

---
 src/Bins.cpp | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/Bins.cpp b/src/Bins.cpp
index a277f1b..4b5e759 100644
--- a/src/Bins.cpp
+++ b/src/Bins.cpp
@@ -609,7 +609,8 @@ void MakeBinsSorted(void * pDataIn1, void * pSortIndex1, void * pOut1, int64_t l
             while (bin < maxbin && (double)pData[index] > compare)
             {
                 // move to next bin
-                ++bin;
+                if (++bin >= maxbin)
+                    break;
                 compare = pBin1[bin];
                 LOGGING("comparing to %lld %lld  %lf  %lf\n", i, (int64_t)bin, (double)pData[index], compare);
             }
@@ -715,6 +716,12 @@ PyObject * BinsToCutsSorted(PyObject * self, PyObject * args)
     if (PyArray_TYPE(binArr1) != NPY_DOUBLE)
     {
         PyErr_Format(PyExc_ValueError, "bin array must be float64 -- not %d", PyArray_TYPE(binArr1));
+        return NULL;
+    }
+    else if (ArrayLength(binArr1) == 0)
+    {
+        PyErr_Format(PyExc_ValueError, "bin array must not be empty");
+        return NULL;
     }
     else
     {
@@ -1765,6 +1772,12 @@ PyObject * BinsToCutsBSearch(PyObject * self, PyObject * args)
     int numpyInType = PyArray_TYPE(inArr1);
     int64_t binSize = ArrayLength(binArr1);
 
+    if (binSize == 0)
+    {
+        PyErr_Format(PyExc_ValueError, "bin array must not be empty");
+        return NULL;
+    }
+
     // Choose INT8,INT16,int32_t for bin mode
     int binmode = 0;
     if (binSize > 100)
@@ -1784,8 +1797,8 @@ PyObject * BinsToCutsBSearch(PyObject * self, PyObject * args)
 
     if (numpyInType == binType)
     {
-        // string or unicode comparison
-        if (numpyInType == NPY_STRING || numpyInType == NPY_UNICODE)
+        // string comparison
+        if (numpyInType == NPY_STRING)
         {
             isString = true;
         }
@@ -1968,7 +1981,5 @@ PyObject * BinsToCutsBSearch(PyObject * self, PyObject * args)
         }
     }
     PyErr_Format(PyExc_ValueError, "bin array must be int32/int64/float32/float64 -- not %d", PyArray_TYPE(binArr1));
-
-    Py_INCREF(Py_None);
-    return Py_None;
+    return NULL;
 }
-- 
2.43.0


From eb3aa01f042748051e3bda7a73265c6d592ee657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:32 +0000
Subject: [PATCH 25/84] fix: boolean index of strided strings left gaps in (and
 wrote past) the result

---
 src/Merge.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Merge.cpp b/src/Merge.cpp
index 1e9c356..15bdea7 100644
--- a/src/Merge.cpp
+++ b/src/Merge.cpp
@@ -583,7 +583,7 @@ PyObject * BooleanIndexInternal(PyArrayObject * aValues, PyArrayObject * aIndex)
                                 if (*pBooleanMask++)
                                 {
                                     memcpy(pValuesOut, pValuesIn, itemSize);
-                                    pValuesOut += strideValues;
+                                    pValuesOut += itemSize;
                                 }
                                 pValuesIn += strideValues;
                             }
-- 
2.43.0


From 41f1e8205ee95b15eb6eab95ce8703bc81f8f36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:56 +0000
Subject: [PATCH 26/84] fix: gather with unsigned indices (8/16/32 bit above
 half range, strings), of unaligned 16 byte items, and threaded gather of
 strided values

---
 src/Merge.cpp | 84 +++++++++++++++++++++++++++------------------------
 1 file changed, 44 insertions(+), 40 deletions(-)

diff --git a/src/Merge.cpp b/src/Merge.cpp
index 15bdea7..a6e97c8 100644
--- a/src/Merge.cpp
+++ b/src/Merge.cpp
@@ -758,6 +758,12 @@ PyObject * BooleanSum(PyObject * self, PyObject * args)
     return PyLong_FromSize_t(totalTrue);
 }
 
+// 16 byte items (long double, strings) may be at any address
+struct ITEM16
+{
+    char bytes[16];
+};
+
 //----------------------------------------------------
 // Consider:  C=A[B]   where A is a value array
 // C must be the same type as A (and is also a value array)
@@ -855,7 +861,7 @@ static void GetItemUInt(void * aValues, void * aIndex, void * aDataOut, int64_t
             const INDEX index = *pIndex;
             *pDataOut =
                 // Make sure the item is in range
-                index >= 0 && index < valLength ? pValues[index] : defaultVal;
+                (uint64_t)index < (uint64_t)valLength ? pValues[index] : defaultVal;
             pIndex++;
             pDataOut++;
         }
@@ -866,11 +872,10 @@ static void GetItemUInt(void * aValues, void * aIndex, void * aDataOut, int64_t
         while (pDataOut != pDataOutEnd)
         {
             const INDEX index = *pIndex;
-            // Make sure the item is in range; if the index is negative -- but
-            // otherwise still in range -- mimic Python's negative-indexing support.
-            if (index >= 0 && index < valLength)
+            // Make sure the item is in range
+            if ((uint64_t)index < (uint64_t)valLength)
             {
-                *pDataOut = *(VALUE *)((char *)pValues + (strideValue * index));
+                *pDataOut = *(VALUE *)((char *)pValues + (strideValue * (int64_t)index));
             }
             else
             {
@@ -990,9 +995,9 @@ static void GetItemUIntVariable(void * aValues, void * aIndex, void * aDataOut,
         {
             const INDEX index = *pIndex;
             const char * pSrc;
-            if (index < valLength)
+            if ((uint64_t)index < (uint64_t)valLength)
             {
-                pSrc = pValues + (itemSize * index);
+                pSrc = pValues + (itemSize * (int64_t)index);
             }
             else
             {
@@ -1014,7 +1019,6 @@ static void GetItemUIntVariable(void * aValues, void * aIndex, void * aDataOut,
             //    memcpy(pDataOut, pSrc, itemSize);
 
             pIndex++;
-            pDataOut += itemSize;
         }
     }
     else
@@ -1024,9 +1028,9 @@ static void GetItemUIntVariable(void * aValues, void * aIndex, void * aDataOut,
         {
             const INDEX index = *pIndex;
             const char * pSrc;
-            if (index < valLength)
+            if ((uint64_t)index < (uint64_t)valLength)
             {
-                pSrc = pValues + (strideValue * index);
+                pSrc = pValues + (strideValue * (int64_t)index);
             }
             else
             {
@@ -1046,7 +1050,6 @@ static void GetItemUIntVariable(void * aValues, void * aIndex, void * aDataOut,
                 *pDataOut++ = *pSrc++;
             }
             pIndex = STRIDE_NEXT(const INDEX, pIndex, strideIndex);
-            pDataOut += itemSize;
         }
     }
 }
@@ -1102,7 +1105,8 @@ static bool GetItemCallback(struct stMATH_WORKER_ITEM * pstWorkerItem, int core,
         // work block
         int64_t blockStart = workBlock * pstWorkerItem->BlockSize;
 
-        int64_t valueAdj = blockStart * strideValue;
+        // the output is contiguous whatever the stride of the values
+        int64_t valueAdj = blockStart * valueItemSize;
         int64_t indexAdj = blockStart * strideIndex;
 
         LOGGING(
@@ -1142,7 +1146,7 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType)
         case 8:
             return GetItemInt<int64_t, int8_t>;
         case 16:
-            return GetItemInt<__m128, int8_t>;
+            return GetItemInt<ITEM16, int8_t>;
         default:
             return GetItemIntVariable<int8_t>;
         }
@@ -1151,17 +1155,17 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType)
         switch (itemSize)
         {
         case 1:
-            return GetItemUInt<int8_t, int8_t>;
+            return GetItemUInt<int8_t, uint8_t>;
         case 2:
-            return GetItemUInt<int16_t, int8_t>;
+            return GetItemUInt<int16_t, uint8_t>;
         case 4:
-            return GetItemUInt<int32_t, int8_t>;
+            return GetItemUInt<int32_t, uint8_t>;
         case 8:
-            return GetItemUInt<int64_t, int8_t>;
+            return GetItemUInt<int64_t, uint8_t>;
         case 16:
-            return GetItemUInt<__m128, int8_t>;
+            return GetItemUInt<ITEM16, uint8_t>;
         default:
-            return GetItemUIntVariable<int8_t>;
+            return GetItemUIntVariable<uint8_t>;
         }
         break;
 
@@ -1177,7 +1181,7 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType)
         case 8:
             return GetItemInt<int64_t, int16_t>;
         case 16:
-            return GetItemInt<__m128, int16_t>;
+            return GetItemInt<ITEM16, int16_t>;
         default:
             return GetItemIntVariable<int16_t>;
         }
@@ -1186,17 +1190,17 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType)
         switch (itemSize)
         {
         case 1:
-            return GetItemUInt<int8_t, int16_t>;
+            return GetItemUInt<int8_t, uint16_t>;
         case 2:
-            return GetItemUInt<int16_t, int16_t>;
+            return GetItemUInt<int16_t, uint16_t>;
         case 4:
-            return GetItemUInt<int32_t, int16_t>;
+            return GetItemUInt<int32_t, uint16_t>;
         case 8:
-            return GetItemUInt<int64_t, int16_t>;
+            return GetItemUInt<int64_t, uint16_t>;
         case 16:
-            return GetItemUInt<__m128, int16_t>;
+            return GetItemUInt<ITEM16, uint16_t>;
         default:
-            return GetItemUIntVariable<int16_t>;
+            return GetItemUIntVariable<uint16_t>;
         }
         break;
 
@@ -1212,7 +1216,7 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType)
         case 8:
             return GetItemInt<int64_t, int32_t>;
         case 16:
-            return GetItemInt<__m128, int32_t>;
+            return GetItemInt<ITEM16, int32_t>;
         default:
             return GetItemIntVariable<int32_t>;
         }
@@ -1221,17 +1225,17 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType)
         switch (itemSize)
         {
         case 1:
-            return GetItemUInt<int8_t, int32_t>;
+            return GetItemUInt<int8_t, uint32_t>;
         case 2:
-            return GetItemUInt<int16_t, int32_t>;
+            return GetItemUInt<int16_t, uint32_t>;
         case 4:
-            return GetItemUInt<int32_t, int32_t>;
+            return GetItemUInt<int32_t, uint32_t>;
         case 8:
-            return GetItemUInt<int64_t, int32_t>;
+            return GetItemUInt<int64_t, uint32_t>;
         case 16:
-            return GetItemUInt<__m128, int32_t>;
+            return GetItemUInt<ITEM16, uint32_t>;
         default:
-            return GetItemUIntVariable<int32_t>;
+            return GetItemUIntVariable<uint32_t>;
         }
         break;
 
@@ -1247,7 +1251,7 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType)
         case 8:
             return GetItemInt<int64_t, int64_t>;
         case 16:
-            return GetItemInt<__m128, int64_t>;
+            return GetItemInt<ITEM16, int64_t>;
         default:
             return GetItemIntVariable<int64_t>;
         }
@@ -1256,17 +1260,17 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType)
         switch (itemSize)
         {
         case 1:
-            return GetItemUInt<int8_t, int64_t>;
+            return GetItemUInt<int8_t, uint64_t>;
         case 2:
-            return GetItemUInt<int16_t, int64_t>;
+            return GetItemUInt<int16_t, uint64_t>;
         case 4:
-            return GetItemUInt<int32_t, int64_t>;
+            return GetItemUInt<int32_t, uint64_t>;
         case 8:
-            return GetItemUInt<int64_t, int64_t>;
+            return GetItemUInt<int64_t, uint64_t>;
         case 16:
-            return GetItemUInt<__m128, int64_t>;
+            return GetItemUInt<ITEM16, uint64_t>;
         default:
-            return GetItemUIntVariable<int64_t>;
+            return GetItemUIntVariable<uint64_t>;
         }
         break;
     }
-- 
2.43.0


From bb04dc465163255eb2f7a8ddeeb37b345bace149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:47 +0000
Subject: [PATCH 27/84] fix: gather used a default of the wrong size for wide
 strings, garbage for given string and long double defaults, and aborted on
 other types

---
 src/Merge.cpp   | 56 ++++++++++++++++++++++++++++++++++++++++++-------
 src/RipTide.cpp |  2 +-
 2 files changed, 49 insertions(+), 9 deletions(-)

diff --git a/src/Merge.cpp b/src/Merge.cpp
index a6e97c8..9b9db7e 100644
--- a/src/Merge.cpp
+++ b/src/Merge.cpp
@@ -5,6 +5,7 @@
 #include "Convert.h"
 
 #include <algorithm>
+#include <vector>
 
 // for _pext_u64
 #if defined(__GNUC__) || defined(__clang__)
@@ -1331,6 +1332,15 @@ PyObject * MBGet(PyObject * self, PyObject * args)
         return BooleanIndexInternal(aValues, aIndex);
     }
 
+    const bool isString = numpyValuesType == NPY_STRING || numpyValuesType == NPY_UNICODE;
+
+    if (numpyValuesType > NPY_LONGDOUBLE && ! isString)
+    {
+        // there is no default for other types
+        PyErr_Format(PyExc_ValueError, "Dont know how to get items of type %d", numpyValuesType);
+        return NULL;
+    }
+
     int ndimValue;
     int ndimIndex;
     int64_t strideValue = 0;
@@ -1393,18 +1403,48 @@ PyObject * MBGet(PyObject * self, PyObject * args)
                 // reserve a full 16 bytes for default in case we have oneS
                 _m256all tempDefault;
 
+                // a default string is as wide as the items
+                std::vector<char> stringDefault;
+                if (isString)
+                {
+                    stringDefault.resize(aValueItemSize);
+                    pDefault = stringDefault.data();
+                }
+
                 // Check if a default value was passed in as third parameter
                 if (defaultValue != Py_None)
                 {
-                    bool result;
-                    int64_t itemSize;
-                    void * pTempData = NULL;
-                    // Try to convert the scalar
-                    result = ConvertScalarObject(defaultValue, &tempDefault, numpyValuesType, &pTempData, &itemSize);
-                    if (result)
+                    if (isString)
                     {
-                        // Assign the new default for out of range indexes
-                        pDefault = &tempDefault;
+                        PyObject * pString = PyBytes_Check(defaultValue) || PyUnicode_Check(defaultValue) ?
+                                                 PyArray_FromAny(defaultValue, PyArray_DescrFromType(numpyValuesType), 0, 0, NPY_ARRAY_CARRAY, NULL) :
+                                                 NULL;
+                        if (pString)
+                        {
+                            memcpy(pDefault, PyArray_BYTES((PyArrayObject *)pString),
+                                   std::min((int64_t)PyArray_ITEMSIZE((PyArrayObject *)pString), aValueItemSize));
+                            Py_DECREF(pString);
+                        }
+                        else
+                        {
+                            PyErr_Clear();
+                        }
+                    }
+                    else
+                    {
+                        bool result = false;
+                        int64_t itemSize;
+                        void * pTempData = NULL;
+                        // Try to convert the scalar
+                        if (! PyBytes_Check(defaultValue) && ! PyUnicode_Check(defaultValue))
+                        {
+                            result = ConvertScalarObject(defaultValue, &tempDefault, numpyValuesType, &pTempData, &itemSize);
+                        }
+                        if (result)
+                        {
+                            // Assign the new default for out of range indexes
+                            pDefault = &tempDefault;
+                        }
                     }
                 }
 
diff --git a/src/RipTide.cpp b/src/RipTide.cpp
index 27ec12a..608799e 100644
--- a/src/RipTide.cpp
+++ b/src/RipTide.cpp
@@ -1290,7 +1290,7 @@ bool ConvertScalarObject(PyObject * inObject1, _m256all * pDest, int16_t numpyOu
                 pDest->d = _mm256_set1_pd((double)value);
                 break;
             case NPY_LONGDOUBLE:
-                pDest->d = _mm256_set1_pd((double)(long double)value);
+                *(long double *)pDest = (long double)value;
                 break;
             default:
                 printf("unknown float scalar type in convertScalarObject %d\n", numpyOutType);
-- 
2.43.0


From 2876908be4174bcba1cbc644dfce41229b51c00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:47 +0000
Subject: [PATCH 28/84] fix: BooleanToFancy ignored the stride of the mask
 (wrong result, write out of bounds); ReverseShuffle and ReIndexGroups that of
 their arrays

---
 src/Merge.cpp | 36 ++++++++++++++++++++++++++++++++----
 1 file changed, 32 insertions(+), 4 deletions(-)

diff --git a/src/Merge.cpp b/src/Merge.cpp
index 9b9db7e..df1eddc 100644
--- a/src/Merge.cpp
+++ b/src/Merge.cpp
@@ -746,6 +746,12 @@ PyObject * BooleanSum(PyObject * self, PyObject * args)
 
     int result1 = GetStridesAndContig(aIndex, ndimBoolean, strideBoolean);
 
+    if (result1 != 0)
+    {
+        PyErr_Format(PyExc_ValueError, "Dont know how to handle multidimensional array used as boolean index.");
+        return NULL;
+    }
+
     int64_t * pChunkCount = NULL;
     int64_t chunks = BooleanCount(aIndex, &pChunkCount, strideBoolean);
 
@@ -1553,6 +1559,12 @@ PyObject * BooleanToFancy(PyObject * self, PyObject * args, PyObject * kwargs)
 
     int result1 = GetStridesAndContig(aIndex, ndimBoolean, strideBoolean);
 
+    if (result1 != 0)
+    {
+        PyErr_Format(PyExc_ValueError, "Dont know how to handle multidimensional array used as boolean index.");
+        return NULL;
+    }
+
     // if bothMode is set, will return fancy index for both True and False
     bool bothMode = GetKwargBoth(kwargs);
 
@@ -1630,6 +1642,7 @@ PyObject * BooleanToFancy(PyObject * self, PyObject * args, PyObject * kwargs)
             int64_t * pChunkCount;
             int64_t * pChunkCountFalse;
             int8_t * pBooleanMask;
+            int64_t strideBoolean;
             void * pValuesOut;
             int64_t totalTrue;
             int dtype;
@@ -1643,6 +1656,7 @@ PyObject * BooleanToFancy(PyObject * self, PyObject * args, PyObject * kwargs)
 
             int64_t chunkCount = callbackArg->pChunkCount[start / g_cMathWorker->WORK_ITEM_CHUNK];
             int8_t * pBooleanMask = callbackArg->pBooleanMask;
+            int64_t strideBoolean = callbackArg->strideBoolean;
             bool bothMode = callbackArg->bothMode;
 
             if (bothMode)
@@ -1661,7 +1675,7 @@ PyObject * BooleanToFancy(PyObject * self, PyObject * args, PyObject * kwargs)
 
                     for (int64_t i = start; i < (start + length); i++)
                     {
-                        if (pBooleanMask[i])
+                        if (pBooleanMask[i * strideBoolean])
                         {
                             *pOut++ = i;
                         }
@@ -1681,7 +1695,7 @@ PyObject * BooleanToFancy(PyObject * self, PyObject * args, PyObject * kwargs)
 
                     for (int64_t i = start; i < (start + length); i++)
                     {
-                        if (pBooleanMask[i])
+                        if (pBooleanMask[i * strideBoolean])
                         {
                             *pOut++ = (int32_t)i;
                         }
@@ -1701,7 +1715,7 @@ PyObject * BooleanToFancy(PyObject * self, PyObject * args, PyObject * kwargs)
 
                     for (int64_t i = start; i < (start + length); i++)
                     {
-                        if (pBooleanMask[i])
+                        if (pBooleanMask[i * strideBoolean])
                         {
                             *pOut++ = i;
                         }
@@ -1714,7 +1728,7 @@ PyObject * BooleanToFancy(PyObject * self, PyObject * args, PyObject * kwargs)
 
                     for (int64_t i = start; i < (start + length); i++)
                     {
-                        if (pBooleanMask[i])
+                        if (pBooleanMask[i * strideBoolean])
                         {
                             *pOut++ = (int32_t)i;
                         }
@@ -1729,6 +1743,7 @@ PyObject * BooleanToFancy(PyObject * self, PyObject * args, PyObject * kwargs)
         stBTFCallback.pChunkCount = pChunkCount;
         stBTFCallback.pChunkCountFalse = pChunkCountFalse;
         stBTFCallback.pBooleanMask = (int8_t *)PyArray_BYTES(aIndex);
+        stBTFCallback.strideBoolean = strideBoolean;
         stBTFCallback.pValuesOut = (int64_t *)PyArray_BYTES(returnArray);
         stBTFCallback.dtype = dtype;
         stBTFCallback.totalTrue = totalTrue;
@@ -1897,6 +1912,13 @@ PyObject * ReIndexGroups(PyObject * self, PyObject * args)
         return NULL;
     }
 
+    if (! PyArray_ISCONTIGUOUS(ikey) || ! PyArray_ISCONTIGUOUS(uikey) || ! PyArray_ISCONTIGUOUS(u_cutoffs) ||
+        ! PyArray_ISCONTIGUOUS(i_cutoffs))
+    {
+        PyErr_Format(PyExc_ValueError, "ReIndexGroups: arrays must be contiguous");
+        return NULL;
+    }
+
     int64_t u_cutoffs_length = ArrayLength(u_cutoffs);
 
     stReIndex preindex;
@@ -1993,6 +2015,12 @@ PyObject * ReverseShuffle(PyObject * self, PyObject * args)
         return NULL;
     }
 
+    if (! PyArray_ISCONTIGUOUS(ikey))
+    {
+        PyErr_Format(PyExc_ValueError, "ReverseShuffle: ikey must be contiguous");
+        return NULL;
+    }
+
     PyArrayObject * pReturnArray = AllocateLikeNumpyArray(ikey, dtype);
 
     if (pReturnArray)
-- 
2.43.0


From 8d39efc6ea4b8625cf2e9dec720c357bc817d367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:11 +0000
Subject: [PATCH 29/84] fix: SetItem and PutMask ignored the strides of their
 arrays; PutMask stored invalid for False, crashed on values that are no array

---
 src/Convert.cpp | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/Convert.cpp b/src/Convert.cpp
index abf4dd0..1a33a17 100644
--- a/src/Convert.cpp
+++ b/src/Convert.cpp
@@ -3857,7 +3857,8 @@ PyObject * SetItem(PyObject * self, PyObject * args)
                 {
                     int64_t arrayLength = ArrayLength(arr);
 
-                    if (arrayLength == ArrayLength(mask))
+                    if (arrayLength == ArrayLength(mask) && PyArray_ISCONTIGUOUS(arr) && PyArray_ISCONTIGUOUS(mask) &&
+                        PyArray_ISCONTIGUOUS(inValues))
                     {
                         PyObject * returnValue{ nullptr };
 
@@ -3892,6 +3893,7 @@ PyObject * SetItem(PyObject * self, PyObject * args)
     else
     {
         LOGGING("SetItem Could not convert value to array\n");
+        PyErr_Clear();
     }
     // punt to numpy
     Py_IncRef(Py_False);
@@ -3918,11 +3920,19 @@ PyObject * PutMask(PyObject * self, PyObject * args)
 
     // Try to convert value if we have to
     PyObject * value = PyTuple_GetItem(args, 2);
+    bool newValue{ false };
     if (! PyArray_Check(value))
     {
         value = PyArray_FromAny(value, NULL, 0, 0, NPY_ARRAY_ENSUREARRAY, NULL);
+        if (! value)
+        {
+            return NULL;
+        }
+        newValue = true;
     }
 
+    bool result = false;
+
     if (PyArray_Check(arr) && PyArray_Check(mask) && PyArray_Check(value))
     {
         PyArrayObject * inValues = (PyArrayObject *)value;
@@ -3934,7 +3944,8 @@ PyObject * PutMask(PyObject * self, PyObject * args)
 
             // check for strides... ?
             int64_t arrayLength = ArrayLength(arr);
-            if (arrayLength == ArrayLength(mask) && (arrayLength <= 1 || itemSizeOut == PyArray_STRIDE(arr, 0)))
+            if (arrayLength == ArrayLength(mask) && PyArray_ISCONTIGUOUS(arr) && PyArray_ISCONTIGUOUS(mask) &&
+                PyArray_ISCONTIGUOUS(inValues))
             {
                 int64_t valLength = ArrayLength(inValues);
 
@@ -3981,7 +3992,7 @@ PyObject * PutMask(PyObject * self, PyObject * args)
 
                         stMask.itemSizeIn = itemSizeIn;
                         stMask.itemSizeOut = itemSizeOut;
-                        stMask.pBadInput1 = GetDefaultForType(inDType);
+                        stMask.pBadInput1 = GetInvalid(inDType);
                         stMask.pBadOutput1 = GetDefaultForType(outDType);
 
                         stMask.pIn = (char *)PyArray_BYTES(inValues);
@@ -3991,17 +4002,20 @@ PyObject * PutMask(PyObject * self, PyObject * args)
 
                         g_cMathWorker->DoMultiThreadedChunkWork(arrayLength, lambdaMaskCallback, &stMask);
 
-                        Py_IncRef(Py_True);
-                        return Py_True;
+                        result = true;
                     }
                 }
             }
         }
     }
 
-    // punt to numpy
-    Py_IncRef(Py_False);
-    return Py_False;
+    if (newValue)
+    {
+        Py_DECREF(value);
+    }
+
+    // false punts to numpy
+    return PyBool_FromLong(result);
 }
 
 //-----------------------
-- 
2.43.0


From aefa7bbf0eb6dd36fcfb6c158eb6418b471f59cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:51 +0000
Subject: [PATCH 30/84] fix: Where ignored the stride of the condition and item
 sizes unlike the output, mixed up choices at unaligned addresses, leaked
 scalar strings

---
 src/BasicMath.cpp | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/src/BasicMath.cpp b/src/BasicMath.cpp
index 6011cd3..e1e2154 100644
--- a/src/BasicMath.cpp
+++ b/src/BasicMath.cpp
@@ -3719,9 +3719,9 @@ bool WhereCallback(void * callbackArgT, int core, int64_t start, int64_t length)
                 //__m128i* pCondition128 = (__m128i*)pCondition;
                 //__m128i condition = _mm_min_epu8(*pCondition128, allones);
 
-                // calculate the address delta since we know input1 and input2 are the
-                // same itemsize assumes 64bit addressing
-                uint64_t delta = pInput2 - pInput1;
+                // calculate the address delta in bytes (the arrays may not be aligned to
+                // the itemsize), assumes 64bit addressing
+                uint64_t delta = (char *)pInput2 - (char *)pInput1;
                 uint64_t ulength = (uint64_t)length;
 
                 for (uint64_t i = 0; i < ulength; i++)
@@ -3729,7 +3729,7 @@ bool WhereCallback(void * callbackArgT, int core, int64_t start, int64_t length)
                     // The condition is either 1 or 0.  if 1 we use the address delta to get
                     // from input2 to input1
                     uint64_t test = pCondition[i] == 0;
-                    pOutput[i] = pInput1[i + delta * test];
+                    pOutput[i] = *(T *)((char *)&pInput1[i] + delta * test);
                 }
 
                 // This is slower on msft windows compiler
@@ -3965,6 +3965,25 @@ PyObject * Where(PyObject * self, PyObject * args)
 
     result = twoInputs.CheckInputs(tuple, 0, MATH_OPERATION::WHERE);
 
+    if (result)
+    {
+        // the loops below expect a plain condition and choices that are as wide as the output
+        const bool isString = numpyOutputType == NPY_STRING || numpyOutputType == NPY_UNICODE;
+        const bool scalar1 =
+            twoInputs.scalarMode == SCALAR_MODE::BOTH_SCALAR || twoInputs.scalarMode == SCALAR_MODE::FIRST_ARG_SCALAR;
+        const bool scalar2 =
+            twoInputs.scalarMode == SCALAR_MODE::BOTH_SCALAR || twoInputs.scalarMode == SCALAR_MODE::SECOND_ARG_SCALAR;
+
+        if (! PyArray_ISCONTIGUOUS(inBool1))
+            result = false;
+        if (scalar1 ? (isString && twoInputs.itemSize1 > numpyItemSize) :
+                      (twoInputs.itemSize1 != numpyItemSize || ! PyArray_ISCONTIGUOUS(twoInputs.inArr)))
+            result = false;
+        if (scalar2 ? (isString && twoInputs.itemSize2 > numpyItemSize) :
+                      (twoInputs.itemSize2 != numpyItemSize || ! PyArray_ISCONTIGUOUS(twoInputs.inArr2)))
+            result = false;
+    }
+
     if (result)
     {
         LOGGING(
@@ -4062,7 +4081,7 @@ PyObject * Where(PyObject * self, PyObject * args)
             {
                 free(extraAlloc1);
             }
-            if (extraAlloc2 == nullptr)
+            if (extraAlloc2 != nullptr)
             {
                 free(extraAlloc2);
             }
-- 
2.43.0


From 121408db6b3e0acf77eefbded1a7489dceb944f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:56 +0000
Subject: [PATCH 31/84] fix: MergeBinnedAndSorted looked up the key of the
 wrong row and took the type of the values for that of the keys; index
 functions failed without an exception

---
 src/Convert.cpp    |  8 ++++++++
 src/HashLinear.cpp | 29 +++++++++++++----------------
 2 files changed, 21 insertions(+), 16 deletions(-)

diff --git a/src/Convert.cpp b/src/Convert.cpp
index 1a33a17..583ed16 100644
--- a/src/Convert.cpp
+++ b/src/Convert.cpp
@@ -2317,6 +2317,10 @@ PyObject * CombineAccum1Filter(PyObject * self, PyObject * args)
             return returnObject;
         }
     }
+    else
+    {
+        PyErr_Format(PyExc_ValueError, "CombineAccum1Filter: index must be int8, int16, int32 or int64, not %d", dtype);
+    }
 
     return NULL;
 }
@@ -2552,6 +2556,10 @@ PyObject * MakeiFirst(PyObject * self, PyObject * args)
             return (PyObject *)firstArray;
         }
     }
+    else
+    {
+        PyErr_Format(PyExc_ValueError, "MakeiFirst: index must be int8, int16, int32 or int64, not %d", dtype);
+    }
     return NULL;
 }
 
diff --git a/src/HashLinear.cpp b/src/HashLinear.cpp
index 033a06d..1195f9e 100644
--- a/src/HashLinear.cpp
+++ b/src/HashLinear.cpp
@@ -819,7 +819,7 @@ void FindLastMatchCategorical(int64_t arraySize1, int64_t arraySize2, U * pKey1,
         else
         {
             // key2 is first
-            U lookup = pKey2[i];
+            U lookup = pKey2[j];
             pLocation[lookup] = j;
             j++;
         }
@@ -6195,25 +6195,20 @@ PyObject * MergeBinnedAndSorted(PyObject * self, PyObject * args)
     void * pKey1 = PyArray_BYTES(key1);
     void * pKey2 = PyArray_BYTES(key2);
 
-    PyArrayObject * indexArray = (PyArrayObject *)Py_None;
-    bool isIndex32 = true;
-    bool success = false;
+    // the keys are bins of one integer type, the values may be of another type
+    if (PyArray_TYPE(key1) != PyArray_TYPE(key2))
+    {
+        PyErr_Format(PyExc_ValueError, "MergeBinnedAndSorted keys are not of the same type");
+        return NULL;
+    }
 
-    indexArray = AllocateLikeNumpyArray(key1, dtype1);
+    PyArrayObject * indexArray = AllocateLikeNumpyArray(key1, PyArray_TYPE(key1));
+    bool success = false;
 
     if (indexArray)
     {
-        switch (dtype1)
+        switch (PyArray_TYPE(key1))
         {
-        case NPY_INT8:
-            success = MergePreBinned<int8_t>(ArrayLength(key1), (int8_t *)pKey1, pVal1, ArrayLength(key2), (int8_t *)pKey2, pVal2,
-                                             (int8_t *)PyArray_BYTES(indexArray), totalUniqueSize, HASH_MODE_MASK, dtype1);
-            break;
-        case NPY_INT16:
-            success =
-                MergePreBinned<int16_t>(ArrayLength(key1), (int16_t *)pKey1, pVal1, ArrayLength(key2), (int16_t *)pKey2, pVal2,
-                                        (int16_t *)PyArray_BYTES(indexArray), totalUniqueSize, HASH_MODE_MASK, dtype1);
-            break;
         CASE_NPY_INT32:
             success =
                 MergePreBinned<int32_t>(ArrayLength(key1), (int32_t *)pKey1, pVal1, ArrayLength(key2), (int32_t *)pKey2, pVal2,
@@ -6230,7 +6225,9 @@ PyObject * MergeBinnedAndSorted(PyObject * self, PyObject * args)
 
     if (! success)
     {
-        PyErr_Format(PyExc_ValueError, "MultiKeyAlign failed.  Only accepts int32_t,int64_t,float32,float64");
+        Py_XDECREF(indexArray);
+        PyErr_Format(PyExc_ValueError,
+                     "MergeBinnedAndSorted failed.  Only accepts keys int32_t,int64_t and values int32_t,int64_t,float32,float64");
         return NULL;
     }
     return (PyObject *)indexArray;
-- 
2.43.0


From 00fda08062b3c25b00d8180edf7afb3d4dbfb5e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:21 +0000
Subject: [PATCH 32/84] fix: the common type of uint64 and long long was long
 long

---
 src/Convert.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Convert.cpp b/src/Convert.cpp
index 583ed16..8ff1ffe 100644
--- a/src/Convert.cpp
+++ b/src/Convert.cpp
@@ -2740,7 +2740,8 @@ int GetUpcastDtype(ArrayInfo * aInfo, int64_t tupleSize)
         if (maxuint > 0)
         {
             // Do we have a uint and no floats?
-            if (maxint > maxuint)
+            // (NPY_LONGLONG > NPY_ULONG but does not hold its values)
+            if (maxint > maxuint && ! (sizeof(long) == 8 && maxuint == NPY_ULONG))
             {
                 // we can safely upcast the uint to maxint
                 return maxint;
-- 
2.43.0


From 01a3dd449c0178c9bd56ab8e58725c6dfbbb359b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:21 +0000
Subject: [PATCH 33/84] fix: one-element views with a larger stride were
 rejected although they are contiguous

---
 src/MultiKey.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MultiKey.cpp b/src/MultiKey.cpp
index d2bd21d..ce12281 100644
--- a/src/MultiKey.cpp
+++ b/src/MultiKey.cpp
@@ -252,7 +252,7 @@ ArrayInfo * BuildArrayInfo(PyObject * listObject, int64_t * pTupleSize, int64_t
                     goto EXIT_ROUTINE;
                 }
 
-                if (itemSize != stride0 && aInfo[i].ArrayLength > 0)
+                if (itemSize != stride0 && aInfo[i].ArrayLength > 1)
                 {
                     PyErr_Format(PyExc_ValueError, "BuildArrayInfo array strides must match itemsize -- %lld %lld", itemSize,
                                  stride0);
@@ -261,7 +261,7 @@ ArrayInfo * BuildArrayInfo(PyObject * listObject, int64_t * pTupleSize, int64_t
             }
             else
             {
-                if (itemSize != stride0 && aInfo[i].ArrayLength > 0)
+                if (itemSize != stride0 && aInfo[i].ArrayLength > 1)
                 {
                     // If 2 dims and Fortran, then strides will not match
                     // TODO: better check
-- 
2.43.0


From a399b07d10ada11e417b24c3a2344d9f2db22c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:50 +0000
Subject: [PATCH 34/84] fix: homogenizing arrays turned False into an invalid
 value

---
 src/Convert.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Convert.cpp b/src/Convert.cpp
index 8ff1ffe..c15d36f 100644
--- a/src/Convert.cpp
+++ b/src/Convert.cpp
@@ -3318,7 +3318,7 @@ PyObject * HomogenizeArrays(PyObject * self, PyObject * args)
             if (dtype != aInfo[t].NumpyDType)
             {
                 CONVERT_SAFE convertSafe = GetConversionFunctionSafe(aInfo[t].NumpyDType, dtype);
-                void * pBadInput1 = GetDefaultForType(aInfo[t].NumpyDType);
+                void * pBadInput1 = GetInvalid(aInfo[t].NumpyDType);
                 PyArrayObject * pOutput = AllocateLikeNumpyArray(aInfo[t].pObject, dtype);
 
                 // TODO: multithread this
-- 
2.43.0


From 7d87dedd6781ce8981fbe02a9e4f7167f186989a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:21 +0000
Subject: [PATCH 35/84] fix: homogenizing numbers and strings crashed

---
 src/Convert.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/Convert.cpp b/src/Convert.cpp
index c15d36f..822e050 100644
--- a/src/Convert.cpp
+++ b/src/Convert.cpp
@@ -3302,6 +3302,19 @@ PyObject * HomogenizeArrays(PyObject * self, PyObject * args)
             dtype = GetUpcastDtype(aInfo, tupleSize);
             if (dtype == -1)
             {
+                FreeArrayInfo(aInfo);
+                PyErr_Format(PyExc_ValueError, "HomogenizeArrays: the arrays have no common type");
+                return NULL;
+            }
+        }
+
+        // strings and other types are not converted
+        for (int t = 0; t < tupleSize; t++)
+        {
+            if (dtype != aInfo[t].NumpyDType && (dtype > NPY_LONGDOUBLE || aInfo[t].NumpyDType > NPY_LONGDOUBLE))
+            {
+                FreeArrayInfo(aInfo);
+                PyErr_Format(PyExc_ValueError, "HomogenizeArrays: Please make sure all arrays are ints or floats.");
                 return NULL;
             }
         }
-- 
2.43.0


From 5eefe9100004da835aa01e27683cec63633f8bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:26 +0000
Subject: [PATCH 36/84] fix: grouping 8 and 16 bit keys with another hash mode
 merged different keys

---
 src/HashLinear.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/HashLinear.cpp b/src/HashLinear.cpp
index 1195f9e..b695a51 100644
--- a/src/HashLinear.cpp
+++ b/src/HashLinear.cpp
@@ -5119,6 +5119,12 @@ uint64_t DoLinearHashItemSize(int64_t totalRows, int64_t totalItemSize, const ch
 {
     uint64_t numUnique = 0;
 
+    if (sizeof(HASH_TYPE) <= 2)
+    {
+        // the perfect hash of 8 and 16 bit items needs a slot for every item
+        hashMode = HASH_MODE_MASK;
+    }
+
     CHashLinear<HASH_TYPE, INDEX_TYPE> * pHashLinear = new CHashLinear<HASH_TYPE, INDEX_TYPE>(hashMode, false);
     INDEX_TYPE * pFirstArray = (INDEX_TYPE *)pHashLinear->AllocMemory(hintSize, -1, sizeof(INDEX_TYPE) * (totalRows + 1), false);
 
-- 
2.43.0


From a8aa88a881a4dd0208eb2636c7536c2b45210fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:03 +0000
Subject: [PATCH 37/84] fix: strided filters of the hash functions were read as
 if contiguous

---
 src/MultiKey.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/MultiKey.cpp b/src/MultiKey.cpp
index ce12281..c12ed3d 100644
--- a/src/MultiKey.cpp
+++ b/src/MultiKey.cpp
@@ -392,7 +392,13 @@ public:
                     }
                     else
                     {
-                        pBoolFilterObject = (PyArrayObject *)filterArray;
+                        // Copies a strided filter, which is then ours to release.
+                        pBoolFilterObject = EnsureContiguousArray((PyArrayObject *)filterArray);
+                        if (! pBoolFilterObject)
+                        {
+                            return;
+                        }
+                        filterObjAllocated = (PyObject *)pBoolFilterObject != filterArray;
                     }
                     pBoolFilter = (bool *)PyArray_BYTES(pBoolFilterObject);
                     LOGGING("Bool array is at %p\n", pBoolFilter);
-- 
2.43.0


From d22449548f43d81bd16fc12879b2eba4b3e390d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:03 +0000
Subject: [PATCH 38/84] fix: an empty list of keys crashed the hash functions

---
 src/MultiKey.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/MultiKey.cpp b/src/MultiKey.cpp
index c12ed3d..e10952f 100644
--- a/src/MultiKey.cpp
+++ b/src/MultiKey.cpp
@@ -417,7 +417,11 @@ public:
 
         aInfo = BuildArrayInfo(args, &listSize, &totalItemSize);
 
-        if (aInfo)
+        if (aInfo && listSize == 0)
+        {
+            PyErr_Format(PyExc_ValueError, "MultiKeyHash requires at least one array");
+        }
+        else if (aInfo)
         {
             totalRows = aInfo[0].ArrayLength;
             bool ok{ true };
-- 
2.43.0


From caeea4b8cb5b00d04a37850b14a0526b3ba4bc85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:13 +0000
Subject: [PATCH 39/84] fix: a too small hint ended the process or lost the
 error in the hash functions

---
 src/HashLinear.cpp | 13 +++++++-
 src/MultiKey.cpp   | 83 ++++++++++++++++++++++++++++++++++++++--------
 2 files changed, 82 insertions(+), 14 deletions(-)

diff --git a/src/HashLinear.cpp b/src/HashLinear.cpp
index b695a51..28e102c 100644
--- a/src/HashLinear.cpp
+++ b/src/HashLinear.cpp
@@ -5329,7 +5329,18 @@ void * MultiKeyRollingStep2(int64_t totalRows, int64_t totalItemSize, const char
         pHashLinear = new CHashLinear<uint64_t, int64_t>(hashMode);
     }
 
-    pHashLinear->MultiKeyRolling(totalRows, totalItemSize, pInput1, pIndexArray, pRunningCountArray, hashMode, hintSize);
+    try
+    {
+        pHashLinear->MultiKeyRolling(totalRows, totalItemSize, pInput1, pIndexArray, pRunningCountArray, hashMode, hintSize);
+    }
+    catch (...)
+    {
+        if (! pHashLinearLast)
+        {
+            delete pHashLinear;
+        }
+        throw;
+    }
     *numUnique = pHashLinear->NumUnique;
 
     // Allow to keep rolling
diff --git a/src/MultiKey.cpp b/src/MultiKey.cpp
index e10952f..f11fbf8 100644
--- a/src/MultiKey.cpp
+++ b/src/MultiKey.cpp
@@ -1206,14 +1206,34 @@ PyObject * MultiKeyGroupBy32Super(PyObject * self, PyObject * args)
                     "hintsize: %lld  filter: %p  coreType:%d\n",
                     numpyIndexType, mkp.totalRows, mkp.totalItemSize, mkp.hintSize, mkp.pBoolFilter, coreType);
 
+                bool failed = false;
+
                 Py_BEGIN_ALLOW_THREADS
 
-                    numUnique = (int64_t)GroupBy32Super(mkp.totalRows, mkp.totalItemSize, (const char *)mkp.pSuperArray, coreType,
-                                                        pIndexArray, pNextArray, pUniqueArray, pUniqueCountArray,
-                                                        HASH_MODE(hashMode), mkp.hintSize, mkp.pBoolFilter);
+                    // an exception must not leave this block without the GIL
+                    try
+                    {
+                        numUnique = (int64_t)GroupBy32Super(mkp.totalRows, mkp.totalItemSize, (const char *)mkp.pSuperArray, coreType,
+                                                            pIndexArray, pNextArray, pUniqueArray, pUniqueCountArray,
+                                                            HASH_MODE(hashMode), mkp.hintSize, mkp.pBoolFilter);
+                    }
+                    catch (std::exception const &)
+                    {
+                        failed = true;
+                    }
 
                 Py_END_ALLOW_THREADS
 
+                    if (failed)
+                    {
+                        WORKSPACE_FREE(pUniqueArray);
+                        WORKSPACE_FREE(pUniqueCountArray);
+                        Py_DECREF((PyObject *)indexArray);
+                        Py_DECREF((PyObject *)nextArray);
+                        PyErr_Format(PyExc_ValueError, "MultiKeySuper failed, the hint size may be too small");
+                        return NULL;
+                    }
+
                     // now one based, so zero reserved
                     //++numUnique;
 
@@ -1407,8 +1427,11 @@ PyObject * MultiKeyUnique32(PyObject * self, PyObject * args)
     {
     }
 
-    Py_INCREF(Py_None);
-    return Py_None;
+    if (! PyErr_Occurred())
+    {
+        PyErr_Format(PyExc_ValueError, "MultiKeyUnique32 failed, the hint size may be too small");
+    }
+    return NULL;
 }
 
 //-----------------------------------------------------------------------------------
@@ -1483,9 +1506,21 @@ PyObject * MultiKeyRolling(PyObject * self, PyObject * args)
         bool prevValue = g_cMathWorker->NoCaching;
         g_cMathWorker->NoCaching = true;
 
-        void * pKeepRolling =
-            MultiKeyRollingStep2(mkp.totalRows, mkp.totalItemSize, (const char *)mkp.pSuperArray, pIndexArray, pRunningCountArray,
-                                 HASH_MODE::HASH_MODE_MASK, hintSize, &numUnique, (void *)memPointer);
+        void * pKeepRolling = NULL;
+        try
+        {
+            pKeepRolling = MultiKeyRollingStep2(mkp.totalRows, mkp.totalItemSize, (const char *)mkp.pSuperArray, pIndexArray,
+                                                pRunningCountArray, HASH_MODE::HASH_MODE_MASK, hintSize, &numUnique,
+                                                (void *)memPointer);
+        }
+        catch (std::exception const & ex)
+        {
+            g_cMathWorker->NoCaching = prevValue;
+            Py_DECREF((PyObject *)indexArray);
+            Py_DECREF((PyObject *)runningCountArray);
+            PyErr_Format(PyExc_ValueError, "MultiKeyRolling failed: %s", ex.what());
+            return NULL;
+        }
 
         g_cMathWorker->NoCaching = prevValue;
 
@@ -1497,7 +1532,11 @@ PyObject * MultiKeyRolling(PyObject * self, PyObject * args)
         return (PyObject *)retObject;
     }
 
-    RETURN_NONE;
+    if (! PyErr_Occurred())
+    {
+        PyErr_Format(PyExc_ValueError, "MultiKeyRolling failed to prepare the keys");
+    }
+    return NULL;
 }
 
 //-----------------------------------------------------------------------------------
@@ -1546,8 +1585,23 @@ PyObject * MultiKeyHash(PyObject * self, PyObject * args)
             int32_t * pBktSize = (int32_t *)PyArray_BYTES(bktSizeArray);
             int32_t * pLastArray = (int32_t *)PyArray_BYTES(lastArray);
 
-            MultiKeyHash32(mkp.totalRows, mkp.totalItemSize, (const char *)mkp.pSuperArray, pIndexArray, pRunningCountArray,
-                           pPrevArray, pNextArray, pFirstArray, HASH_MODE::HASH_MODE_MASK, mkp.hintSize, mkp.pBoolFilter);
+            try
+            {
+                MultiKeyHash32(mkp.totalRows, mkp.totalItemSize, (const char *)mkp.pSuperArray, pIndexArray, pRunningCountArray,
+                               pPrevArray, pNextArray, pFirstArray, HASH_MODE::HASH_MODE_MASK, mkp.hintSize, mkp.pBoolFilter);
+            }
+            catch (std::exception const & ex)
+            {
+                Py_DECREF((PyObject *)indexArray);
+                Py_DECREF((PyObject *)runningCountArray);
+                Py_DECREF((PyObject *)bktSizeArray);
+                Py_DECREF((PyObject *)prevArray);
+                Py_DECREF((PyObject *)nextArray);
+                Py_DECREF((PyObject *)firstArray);
+                Py_DECREF((PyObject *)lastArray);
+                PyErr_Format(PyExc_ValueError, "MultiKeyHash failed: %s", ex.what());
+                return NULL;
+            }
 
             assert(mkp.totalRows < 2100000000);
 
@@ -1592,8 +1646,11 @@ PyObject * MultiKeyHash(PyObject * self, PyObject * args)
 
         return (PyObject *)retObject;
     }
-    Py_INCREF(Py_None);
-    return Py_None;
+    if (! PyErr_Occurred())
+    {
+        PyErr_Format(PyExc_ValueError, "MultiKeyHash failed to prepare the keys");
+    }
+    return NULL;
 }
 
 //-----------------------------------------------------------------------------------
-- 
2.43.0


From 8ec4575111516507b6c7ae33900aff0015691ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:15 +0000
Subject: [PATCH 40/84] fix: 0.0 and -0.0 had different hashes in the
 membership functions

---
 src/HashLinear.cpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/HashLinear.cpp b/src/HashLinear.cpp
index 28e102c..62f44cb 100644
--- a/src/HashLinear.cpp
+++ b/src/HashLinear.cpp
@@ -2027,7 +2027,7 @@ void CHashLinear<T, U>::MakeHashLocationFloat(int64_t arraySize, T * pHashList,
                 if (item == item)
                 {
                     uint64_t * pHashList2 = (uint64_t *)pHashList;
-                    uint64_t h = pHashList2[i];
+                    uint64_t h = (item == 0) ? 0 : pHashList2[i]; // 0.0 and -0.0 are the same value
                     HASH_FLOAT3;
                     uint64_t hash = h;
                     while (1)
@@ -2075,7 +2075,7 @@ void CHashLinear<T, U>::MakeHashLocationFloat(int64_t arraySize, T * pHashList,
                 if (item == item)
                 {
                     uint64_t * pHashList2 = (uint64_t *)pHashList;
-                    uint64_t h = pHashList2[i];
+                    uint64_t h = (item == 0) ? 0 : pHashList2[i]; // 0.0 and -0.0 are the same value
                     HASH_FLOAT4;
                     uint64_t hash = h;
                     while (1)
@@ -2129,7 +2129,7 @@ void CHashLinear<T, U>::MakeHashLocationFloat(int64_t arraySize, T * pHashList,
                 if (item == item)
                 {
                     uint32_t * pHashList2 = (uint32_t *)pHashList;
-                    uint64_t h = pHashList2[i];
+                    uint64_t h = (item == 0) ? 0 : pHashList2[i]; // 0.0 and -0.0 are the same value
                     HASH_FLOAT1;
                     uint64_t hash = h;
                     while (1)
@@ -2177,7 +2177,7 @@ void CHashLinear<T, U>::MakeHashLocationFloat(int64_t arraySize, T * pHashList,
                 if (item == item)
                 {
                     uint32_t * pHashList2 = (uint32_t *)pHashList;
-                    uint64_t h = pHashList2[i];
+                    uint64_t h = (item == 0) ? 0 : pHashList2[i]; // 0.0 and -0.0 are the same value
                     HASH_FLOAT2;
                     uint64_t hash = h;
                     while (1)
@@ -2260,7 +2260,7 @@ void IsMemberFloat(void * pHashLinearVoid, int64_t arraySize, void * pHashListT,
                 if (item == item)
                 {
                     uint64_t * pHashList2 = (uint64_t *)pHashList;
-                    uint64_t h = pHashList2[i];
+                    uint64_t h = (item == 0) ? 0 : pHashList2[i]; // 0.0 and -0.0 are the same value
                     HASH_FLOAT3;
                     uint64_t hash = (uint64_t)h;
                     while (1)
@@ -2313,7 +2313,7 @@ void IsMemberFloat(void * pHashLinearVoid, int64_t arraySize, void * pHashListT,
                 if (item == item)
                 {
                     uint64_t * pHashList2 = (uint64_t *)pHashList;
-                    uint64_t h = pHashList2[i];
+                    uint64_t h = (item == 0) ? 0 : pHashList2[i]; // 0.0 and -0.0 are the same value
                     HASH_FLOAT4;
                     uint64_t hash = (uint64_t)h;
                     while (1)
@@ -2369,7 +2369,7 @@ void IsMemberFloat(void * pHashLinearVoid, int64_t arraySize, void * pHashListT,
                 if (item == item)
                 {
                     uint32_t * pHashList2 = (uint32_t *)pHashList;
-                    uint64_t h = pHashList2[i];
+                    uint64_t h = (item == 0) ? 0 : pHashList2[i]; // 0.0 and -0.0 are the same value
                     HASH_FLOAT1;
                     uint64_t hash = (uint64_t)h;
                     while (1)
@@ -2422,7 +2422,7 @@ void IsMemberFloat(void * pHashLinearVoid, int64_t arraySize, void * pHashListT,
                 if (item == item)
                 {
                     uint32_t * pHashList2 = (uint32_t *)pHashList;
-                    uint64_t h = pHashList2[i];
+                    uint64_t h = (item == 0) ? 0 : pHashList2[i]; // 0.0 and -0.0 are the same value
                     HASH_FLOAT2;
                     uint64_t hash = (uint64_t)h;
                     while (1)
@@ -2492,7 +2492,7 @@ int64_t CHashLinear<T, U>::IsMemberFloatCategorical(int64_t arraySize, T * pHash
                 if (item == item)
                 {
                     uint64_t * pHashList2 = (uint64_t *)pHashList;
-                    uint64_t h = pHashList2[i];
+                    uint64_t h = (item == 0) ? 0 : pHashList2[i]; // 0.0 and -0.0 are the same value
                     HASH_FLOAT3;
                     InternalGetLocationCategorical(i, pLocation, pLocationOutput, item, h, &missed);
                 }
@@ -2512,7 +2512,7 @@ int64_t CHashLinear<T, U>::IsMemberFloatCategorical(int64_t arraySize, T * pHash
                 if (item == item)
                 {
                     uint64_t * pHashList2 = (uint64_t *)pHashList;
-                    uint64_t h = pHashList2[i];
+                    uint64_t h = (item == 0) ? 0 : pHashList2[i]; // 0.0 and -0.0 are the same value
                     HASH_FLOAT4;
                     InternalGetLocationCategorical(i, pLocation, pLocationOutput, item, h, &missed);
                 }
@@ -2535,7 +2535,7 @@ int64_t CHashLinear<T, U>::IsMemberFloatCategorical(int64_t arraySize, T * pHash
                 if (item == item)
                 {
                     uint32_t * pHashList2 = (uint32_t *)pHashList;
-                    uint64_t h = pHashList2[i];
+                    uint64_t h = (item == 0) ? 0 : pHashList2[i]; // 0.0 and -0.0 are the same value
                     HASH_FLOAT1;
                     InternalGetLocationCategorical(i, pLocation, pLocationOutput, item, h, &missed);
                 }
@@ -2555,7 +2555,7 @@ int64_t CHashLinear<T, U>::IsMemberFloatCategorical(int64_t arraySize, T * pHash
                 if (item == item)
                 {
                     uint32_t * pHashList2 = (uint32_t *)pHashList;
-                    uint64_t h = pHashList2[i];
+                    uint64_t h = (item == 0) ? 0 : pHashList2[i]; // 0.0 and -0.0 are the same value
                     HASH_FLOAT2;
                     InternalGetLocationCategorical(i, pLocation, pLocationOutput, item, h, &missed);
                 }
-- 
2.43.0


From 0c8fb4181c81b8de1b74597cb168590e18c3939d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:15 +0000
Subject: [PATCH 41/84] fix: 8/16-bit membership in categorical form with
 another hash mode read beyond the table

---
 src/HashLinear.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/HashLinear.cpp b/src/HashLinear.cpp
index 62f44cb..85ad39d 100644
--- a/src/HashLinear.cpp
+++ b/src/HashLinear.cpp
@@ -4540,8 +4540,8 @@ int64_t IsMemberHashCategorical(int64_t size1, void * pInput1, int64_t size2, vo
     {
     case 1:
         {
-            CHashLinear<uint8_t, int32_t> * pHashLinear = new CHashLinear<uint8_t, int32_t>(hashMode);
-            pHashLinear->MakeHashLocation(size2, (uint8_t *)pInput2, hintSize);
+            CHashLinear<uint8_t, int32_t> * pHashLinear = new CHashLinear<uint8_t, int32_t>(HASH_MODE_MASK);
+            pHashLinear->MakeHashLocation(size2, (uint8_t *)pInput2, 256 / 2);
             missed = pHashLinear->IsMemberCategorical(size1, (uint8_t *)pInput1, pOutput);
             delete pHashLinear;
             return missed;
@@ -4550,8 +4550,8 @@ int64_t IsMemberHashCategorical(int64_t size1, void * pInput1, int64_t size2, vo
 
     case 2:
         {
-            CHashLinear<uint16_t, int32_t> * pHashLinear = new CHashLinear<uint16_t, int32_t>(hashMode);
-            pHashLinear->MakeHashLocation(size2, (uint16_t *)pInput2, hintSize);
+            CHashLinear<uint16_t, int32_t> * pHashLinear = new CHashLinear<uint16_t, int32_t>(HASH_MODE_MASK);
+            pHashLinear->MakeHashLocation(size2, (uint16_t *)pInput2, 65536 / 2);
             missed = pHashLinear->IsMemberCategorical(size1, (uint16_t *)pInput1, pOutput);
             delete pHashLinear;
             return missed;
@@ -4628,8 +4628,8 @@ int64_t IsMemberHashCategorical64(int64_t size1, void * pInput1, int64_t size2,
     {
     case 1:
         {
-            CHashLinear<uint8_t, int64_t> * pHashLinear = new CHashLinear<uint8_t, int64_t>(hashMode);
-            pHashLinear->MakeHashLocation(size2, (uint8_t *)pInput2, hintSize);
+            CHashLinear<uint8_t, int64_t> * pHashLinear = new CHashLinear<uint8_t, int64_t>(HASH_MODE_MASK);
+            pHashLinear->MakeHashLocation(size2, (uint8_t *)pInput2, 256 / 2);
             missed = pHashLinear->IsMemberCategorical(size1, (uint8_t *)pInput1, pOutput);
             delete pHashLinear;
             return missed;
@@ -4638,8 +4638,8 @@ int64_t IsMemberHashCategorical64(int64_t size1, void * pInput1, int64_t size2,
 
     case 2:
         {
-            CHashLinear<uint16_t, int64_t> * pHashLinear = new CHashLinear<uint16_t, int64_t>(hashMode);
-            pHashLinear->MakeHashLocation(size2, (uint16_t *)pInput2, hintSize);
+            CHashLinear<uint16_t, int64_t> * pHashLinear = new CHashLinear<uint16_t, int64_t>(HASH_MODE_MASK);
+            pHashLinear->MakeHashLocation(size2, (uint16_t *)pInput2, 65536 / 2);
             missed = pHashLinear->IsMemberCategorical(size1, (uint16_t *)pInput1, pOutput);
             delete pHashLinear;
             return missed;
-- 
2.43.0


From 89b23818449dd71852ec360ad08d3c760e625a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:15 +0000
Subject: [PATCH 42/84] fix: errors of MultiKeyIsMember32 and MultiKeyAlign32
 were returned as None

---
 src/MultiKey.cpp | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/MultiKey.cpp b/src/MultiKey.cpp
index f11fbf8..3dbb2a5 100644
--- a/src/MultiKey.cpp
+++ b/src/MultiKey.cpp
@@ -1742,12 +1742,20 @@ PyObject * MultiKeyIsMember32(PyObject * self, PyObject * args)
             return NULL;
         }
     }
-    catch (...)
+    catch (std::exception const & e)
     {
+        if (! PyErr_Occurred())
+        {
+            PyErr_Format(PyExc_ValueError, "MultiKeyIsMember32 failed: %s", e.what());
+        }
+        return NULL;
     }
     // error path
-    Py_INCREF(Py_None);
-    return Py_None;
+    if (! PyErr_Occurred())
+    {
+        PyErr_Format(PyExc_ValueError, "MultiKeyIsMember32 failed to prepare the keys");
+    }
+    return NULL;
 }
 
 //-----------------------------------------------------------------------------------
@@ -1903,8 +1911,11 @@ PyObject * MultiKeyAlign32(PyObject * self, PyObject * args)
     }
 
     // error path
-    Py_INCREF(Py_None);
-    return Py_None;
+    if (! PyErr_Occurred())
+    {
+        PyErr_Format(PyExc_ValueError, "MultiKeyAlign32 failed to prepare the keys");
+    }
+    return NULL;
 }
 
 //==================================================================
-- 
2.43.0


From c8943015b4a0b937e24688ea2414946049a9b18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:37 +0000
Subject: [PATCH 43/84] fix: membership functions read strided arguments as if
 contiguous and returned uninitialized arrays for unsupported types

---
 src/HashFunctions.cpp | 24 ++++++++++++++++++++++++
 src/HashLinear.cpp    | 15 +++++++++++++++
 src/MultiKey.cpp      |  8 ++++++++
 src/RipTide.h         | 31 +++++++++++++++++++++++++++++++
 4 files changed, 78 insertions(+)

diff --git a/src/HashFunctions.cpp b/src/HashFunctions.cpp
index 46b0770..fde87c4 100644
--- a/src/HashFunctions.cpp
+++ b/src/HashFunctions.cpp
@@ -131,6 +131,20 @@ PyObject * IsMemberCategorical(PyObject * self, PyObject * args)
         return NULL;
     }
 
+    if (arrayType1 < NPY_STRING && (arrayType1 > NPY_DOUBLE))
+    {
+        PyErr_Format(PyExc_ValueError, "IsMemberCategorical cannot handle %s", NpyToString(arrayType1));
+        return NULL;
+    }
+
+    // The hash functions read the values one after the other
+    ContiguousArray const holdArr1(inArr1);
+    ContiguousArray const holdArr2(inArr2);
+    inArr1 = holdArr1.get();
+    inArr2 = holdArr2.get();
+    if (! inArr1 || ! inArr2)
+        return NULL;
+
     int64_t arraySize1 = ArrayLength(inArr1);
     int64_t arraySize2 = ArrayLength(inArr2);
 
@@ -376,6 +390,16 @@ PyObject * IsMemberCategoricalFixup(PyObject * self, PyObject * args)
                            &unique2Length, &baseoffset1, &baseoffset2))
         return NULL;
 
+    // The arrays are read one value after the other
+    ContiguousArray const holdArr1(inArr1);
+    ContiguousArray const holdArr2(inArr2);
+    ContiguousArray const holdUnique(isMemberUnique);
+    inArr1 = holdArr1.get();
+    inArr2 = holdArr2.get();
+    isMemberUnique = holdUnique.get();
+    if (! inArr1 || ! inArr2 || ! isMemberUnique)
+        return NULL;
+
     int64_t const arraySize1 = (int64_t)ArrayLength(inArr1);
     int64_t const arraySize2 = (int64_t)ArrayLength(inArr2);
     int64_t const arraySizeUnique64 = (int64_t)ArrayLength(isMemberUnique);
diff --git a/src/HashLinear.cpp b/src/HashLinear.cpp
index 85ad39d..3f1cef4 100644
--- a/src/HashLinear.cpp
+++ b/src/HashLinear.cpp
@@ -5711,6 +5711,7 @@ PyObject * IsMember32(PyObject * self, PyObject * args)
 
     if (tupleSize <= 1)
     {
+        PyErr_Format(PyExc_ValueError, "IsMember32 needs two arrays");
         return NULL;
     }
 
@@ -5764,6 +5765,20 @@ PyObject * IsMember32(PyObject * self, PyObject * args)
         return NULL;
     }
 
+    if (arrayType1 < NPY_STRING && (arrayType1 > NPY_DOUBLE))
+    {
+        PyErr_Format(PyExc_ValueError, "IsMember32 cannot handle %s", NpyToString(arrayType1));
+        return NULL;
+    }
+
+    // The hash functions read the values one after the other
+    ContiguousArray const holdArr1(inArr1);
+    ContiguousArray const holdArr2(inArr2);
+    inArr1 = holdArr1.get();
+    inArr2 = holdArr2.get();
+    if (! inArr1 || ! inArr2)
+        return NULL;
+
     int64_t arraySize1 = ArrayLength(inArr1);
     int64_t arraySize2 = ArrayLength(inArr2);
 
diff --git a/src/MultiKey.cpp b/src/MultiKey.cpp
index 3dbb2a5..458f8df 100644
--- a/src/MultiKey.cpp
+++ b/src/MultiKey.cpp
@@ -1813,6 +1813,14 @@ PyObject * MultiKeyAlign32(PyObject * self, PyObject * args)
         return NULL;
     }
 
+    // The values are read one after the other
+    ContiguousArray const holdVal1(pvalArray1);
+    ContiguousArray const holdVal2(pvalArray2);
+    pvalArray1 = holdVal1.get();
+    pvalArray2 = holdVal2.get();
+    if (! pvalArray1 || ! pvalArray2)
+        return NULL;
+
     CMultiKeyPrepare mkp1(tupleObject1);
     CMultiKeyPrepare mkp2(tupleObject2);
 
diff --git a/src/RipTide.h b/src/RipTide.h
index 7e4edf9..e0487ef 100644
--- a/src/RipTide.h
+++ b/src/RipTide.h
@@ -169,6 +169,37 @@ extern bool ConvertScalarObject(PyObject * inObject1, _m256all * pDest, int16_t
 extern bool ConvertSingleItemArray(void * pInput, int16_t numpyInType, _m256all * pDest, int16_t numpyType);
 extern PyArrayObject * EnsureContiguousArray(PyArrayObject * inObject);
 
+//--------------------------------------------------------------------
+// Holds an array whose values lie one after the other in memory: the array
+// passed in if it is already like that, or else a copy that is released with the holder.
+// get() returns NULL, with a python error set, when no copy could be made.
+class ContiguousArray
+{
+    PyArrayObject * const original;
+    PyArrayObject * const array;
+
+public:
+    explicit ContiguousArray(PyArrayObject * inObject)
+        : original(inObject)
+        , array(EnsureContiguousArray(inObject))
+    {
+    }
+    ~ContiguousArray()
+    {
+        if (array != original)
+        {
+            Py_XDECREF((PyObject *)array);
+        }
+    }
+    ContiguousArray(ContiguousArray const &) = delete;
+    ContiguousArray & operator=(ContiguousArray const &) = delete;
+
+    PyArrayObject * get() const
+    {
+        return array;
+    }
+};
+
 extern int64_t NpyItemSize(PyObject * self);
 extern const char * NpyToString(int32_t numpyType);
 extern int32_t NpyToSize(int32_t numpyType);
-- 
2.43.0


From bd5f34674e7d70ae25a7178ef5446f634f61922d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:02 +0000
Subject: [PATCH 44/84] fix: the membership implementation of RT_NEW_HASH=1
 crashed on an empty second array and misread longer string arrays

---
 src/HashLinear.cpp |  6 ++++--
 src/is_member_tg.h | 28 ++++++++++++++--------------
 2 files changed, 18 insertions(+), 16 deletions(-)

diff --git a/src/HashLinear.cpp b/src/HashLinear.cpp
index 3f1cef4..c8ab6cc 100644
--- a/src/HashLinear.cpp
+++ b/src/HashLinear.cpp
@@ -5829,8 +5829,10 @@ PyObject * IsMember32(PyObject * self, PyObject * args)
 
                 int cpus{ 8 }; // TODO: override from command line / environmental.
 
-                size_t needle_extent{ arrayType1 >= NPY_STRING ? static_cast<size_t>(sizeType1) : 1 };
-                size_t haystack_extent{ arrayType2 >= NPY_STRING ? static_cast<size_t>(sizeType2) : 1 };
+                // The length of a string is counted in characters
+                size_t const charSize{ arrayType1 == NPY_UNICODE ? sizeof(npy_ucs4) : 1 };
+                size_t needle_extent{ arrayType1 >= NPY_STRING ? static_cast<size_t>(sizeType1) / charSize : 1 };
+                size_t haystack_extent{ arrayType2 >= NPY_STRING ? static_cast<size_t>(sizeType2) / charSize : 1 };
 
                 switch (dtype) // TODO: Add extra safety by normalizing through `riptide::normalize_dtype()`.
                 {
diff --git a/src/is_member_tg.h b/src/is_member_tg.h
index 37f3453..444d501 100644
--- a/src/is_member_tg.h
+++ b/src/is_member_tg.h
@@ -181,27 +181,27 @@ namespace
         key_t const * start_p{};
         typename my_hasher_types<key_t, index_t>::local_hashes_t grouped_hashes{};
 
-        index_t range_start{};
+        ptrdiff_t range_start{}; // a position in the data, which may lie beyond the largest index_t
         bool has_ranger_run{ false };
 
         static constexpr size_t num_per_bucket_v = 1024;
 
         using buckets_t = std::vector<hash_details_container_t<key_t>>;
 
-        struct ranging_node_t : public oneapi::tbb::flow::input_node<data_span_t<index_t>>
+        struct ranging_node_t : public oneapi::tbb::flow::input_node<data_span_t<ptrdiff_t>>
         {
             template <typename body_t>
             ranging_node_t(oneapi::tbb::flow::graph & graph, body_t body)
-                : oneapi::tbb::flow::input_node<data_span_t<index_t>>(graph, body)
+                : oneapi::tbb::flow::input_node<data_span_t<ptrdiff_t>>(graph, body)
             {
             }
         };
 
-        struct splitter_node_t : public oneapi::tbb::flow::function_node<data_span_t<index_t>, hash_details_container_t<key_t>>
+        struct splitter_node_t : public oneapi::tbb::flow::function_node<data_span_t<ptrdiff_t>, hash_details_container_t<key_t>>
         {
             template <typename body_t>
             splitter_node_t(oneapi::tbb::flow::graph & graph, size_t concurrency, body_t body)
-                : oneapi::tbb::flow::function_node<data_span_t<index_t>, hash_details_container_t<key_t>>(graph, concurrency, body)
+                : oneapi::tbb::flow::function_node<data_span_t<ptrdiff_t>, hash_details_container_t<key_t>>(graph, concurrency, body)
             {
             }
         };
@@ -233,7 +233,7 @@ namespace
 
         void operator()()
         {
-            auto data_rangifier = [&](oneapi::tbb::flow_control & fc) -> data_span_t<index_t>
+            auto data_rangifier = [&](oneapi::tbb::flow_control & fc) -> data_span_t<ptrdiff_t>
             {
                 if (has_ranger_run && range_start == 0)
                 {
@@ -241,10 +241,10 @@ namespace
                     return {};
                 }
                 has_ranger_run = true;
-                auto [start_pos, end_pos] = riptide_cpp::rangify_func(range_start, static_cast<index_t>(num_elems), string_length);
+                auto [start_pos, end_pos] = riptide_cpp::rangify_func(range_start, static_cast<ptrdiff_t>(num_elems), string_length);
                 range_start = (start_pos > (end_pos - grainsize_v + 1) ? 0 : end_pos);
 
-                return data_span_t<index_t>{ start_pos, end_pos };
+                return data_span_t<ptrdiff_t>{ start_pos, end_pos };
             };
 
             auto storing_func = [&](hash_details_container_t<key_t> const & data) -> oneapi::tbb::flow::continue_msg
@@ -259,16 +259,16 @@ namespace
                 return oneapi::tbb::flow::continue_msg{};
             };
 
-            auto splitter_func = [&](data_span_t<index_t> data_span) -> hash_details_container_t<key_t>
+            auto splitter_func = [&](data_span_t<ptrdiff_t> data_span) -> hash_details_container_t<key_t>
             {
-                if (data_span == data_span_t<index_t>{})
+                if (data_span == data_span_t<ptrdiff_t>{})
                 {
                     return {};
                 }
 
                 buckets_t buckets(num_buckets);
 
-                for (index_t i{ data_span.first }; i != data_span.second; ++i)
+                for (ptrdiff_t i{ data_span.first }; i != data_span.second; ++i)
                 {
                     size_t target_hasher{};
                     if constexpr (is_string_type<key_t>())
@@ -280,7 +280,7 @@ namespace
                         riptide_cpp::simple_span<key_t> temp{ simple_span_from_fixed_cstring(&start_p[i], string_length) };
                         target_hasher = riptide_cpp::our_hash_function(temp, num_buckets);
 
-                        buckets[target_hasher].push_back({ i / static_cast<index_t>(string_length), temp, target_hasher });
+                        buckets[target_hasher].push_back({ i / static_cast<ptrdiff_t>(string_length), temp, target_hasher });
                     }
                     else
                     {
@@ -297,7 +297,7 @@ namespace
 
                 for (auto const & bucket : buckets)
                 {
-                    if (bucket[0].index != -1)
+                    if (! bucket.empty() && bucket[0].index != -1)
                     {
                         storers[bucket[0].hasher_index].try_put(bucket);
                     }
@@ -446,7 +446,7 @@ inline void is_member_tg(size_t const needles_size, char const * needles_p, size
         {
             using key_t = std::decay_t<decltype(arg)>;
 
-            size_t num_slices = (haystack_size + grainsize_v - 1) / grainsize_v;
+            size_t num_slices = haystack_size ? (haystack_size + grainsize_v - 1) / grainsize_v : 1;
 
             local_arena.execute(
                 [=]()
-- 
2.43.0


From 3f4ba28de86379ab8212c8d030aa8fbd601a809c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:21 +0000
Subject: [PATCH 45/84] fix: MakeiNext wrapped row numbers that do not fit the
 type of the key, read strided keys as contiguous and left rows outside the
 groups unset

---
 src/MultiKey.cpp | 77 ++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 62 insertions(+), 15 deletions(-)

diff --git a/src/MultiKey.cpp b/src/MultiKey.cpp
index 458f8df..00e16b6 100644
--- a/src/MultiKey.cpp
+++ b/src/MultiKey.cpp
@@ -495,21 +495,22 @@ public:
 
 //-------------------------------------------------------
 // Calculate inext from ikey, keep same dtype
+// (or the smallest larger one which can hold the row numbers)
 // if there is no next it will be the invalid
-template <typename KEYTYPE>
+template <typename KEYTYPE, typename ROWTYPE>
 void MakeNextKey(int64_t mode, int64_t numUnique, int64_t totalRows, void * pIndexArrayK, void * pNextArrayK)
 {
     KEYTYPE * pIndexArray = (KEYTYPE *)pIndexArrayK;
-    KEYTYPE * pNextArray = (KEYTYPE *)pNextArrayK;
+    ROWTYPE * pNextArray = (ROWTYPE *)pNextArrayK;
 
     // TODO: option to pass this in
     numUnique += GB_BASE_INDEX;
 
     // get the invalid for int8/16/32/64
-    KEYTYPE invalid = *(KEYTYPE *)GetInvalid<KEYTYPE>();
+    ROWTYPE invalid = *(ROWTYPE *)GetInvalid<ROWTYPE>();
 
-    int64_t size = sizeof(KEYTYPE) * numUnique;
-    KEYTYPE * pGroupArray = (KEYTYPE *)WORKSPACE_ALLOC(size);
+    int64_t size = sizeof(ROWTYPE) * numUnique;
+    ROWTYPE * pGroupArray = (ROWTYPE *)WORKSPACE_ALLOC(size);
 
     if (pGroupArray)
     {
@@ -528,7 +529,11 @@ void MakeNextKey(int64_t mode, int64_t numUnique, int64_t totalRows, void * pInd
                 if (group >= 0 && group < numUnique)
                 {
                     pNextArray[i] = pGroupArray[group];
-                    pGroupArray[group] = (KEYTYPE)i;
+                    pGroupArray[group] = (ROWTYPE)i;
+                }
+                else
+                {
+                    pNextArray[i] = invalid;
                 }
             }
         }
@@ -541,7 +546,11 @@ void MakeNextKey(int64_t mode, int64_t numUnique, int64_t totalRows, void * pInd
                 if (group >= 0 && group < numUnique)
                 {
                     pNextArray[i] = pGroupArray[group];
-                    pGroupArray[group] = (KEYTYPE)i;
+                    pGroupArray[group] = (ROWTYPE)i;
+                }
+                else
+                {
+                    pNextArray[i] = invalid;
                 }
             }
         }
@@ -549,6 +558,27 @@ void MakeNextKey(int64_t mode, int64_t numUnique, int64_t totalRows, void * pInd
     }
 }
 
+template <typename KEYTYPE>
+void MakeNextKey(int outType, int64_t mode, int64_t numUnique, int64_t totalRows, void * pIndexArray, void * pNextArray)
+{
+    switch (outType)
+    {
+    case NPY_INT8:
+        MakeNextKey<KEYTYPE, int8_t>(mode, numUnique, totalRows, pIndexArray, pNextArray);
+        break;
+    case NPY_INT16:
+        MakeNextKey<KEYTYPE, int16_t>(mode, numUnique, totalRows, pIndexArray, pNextArray);
+        break;
+    CASE_NPY_INT32:
+        MakeNextKey<KEYTYPE, int32_t>(mode, numUnique, totalRows, pIndexArray, pNextArray);
+        break;
+    CASE_NPY_INT64:
+
+        MakeNextKey<KEYTYPE, int64_t>(mode, numUnique, totalRows, pIndexArray, pNextArray);
+        break;
+    }
+}
+
 //-------------------------------------------------------
 // Input:
 // Arg1: ikey numpy array from lexsort or grouping.iGroup
@@ -563,11 +593,18 @@ void MakeNextKey(int64_t mode, int64_t numUnique, int64_t totalRows, void * pInd
 //      Returns index array with next or previous
 PyObject * MakeiNext(PyObject * self, PyObject * args)
 {
-    PyArrayObject * ikey = NULL;
+    PyArrayObject * inKey = NULL;
     int64_t unique_rows = 0;
     int64_t mode = 0;
 
-    if (! PyArg_ParseTuple(args, "O!LL", &PyArray_Type, &ikey, &unique_rows, &mode))
+    if (! PyArg_ParseTuple(args, "O!LL", &PyArray_Type, &inKey, &unique_rows, &mode))
+    {
+        return NULL;
+    }
+
+    ContiguousArray const holdKey(inKey);
+    PyArrayObject * ikey = holdKey.get();
+    if (! ikey)
     {
         return NULL;
     }
@@ -581,27 +618,37 @@ PyObject * MakeiNext(PyObject * self, PyObject * args)
         return NULL;
     }
 
-    PyArrayObject * pReturnArray = AllocateLikeNumpyArray(ikey, dtype);
+    int64_t arrlength = ArrayLength(ikey);
+
+    // the row numbers must fit
+    int outType = dtype;
+    if (arrlength > INT8_MAX && outType == NPY_INT8)
+        outType = NPY_INT16;
+    if (arrlength > INT16_MAX && outType == NPY_INT16)
+        outType = NPY_INT32;
+    if (arrlength > INT32_MAX && NpyToSize(outType) == 4)
+        outType = NPY_INT64;
+
+    PyArrayObject * pReturnArray = AllocateLikeNumpyArray(ikey, outType);
 
     if (pReturnArray)
     {
-        int64_t arrlength = ArrayLength(ikey);
         void * pIKey = PyArray_BYTES(ikey);
         void * pOutKey = PyArray_BYTES(pReturnArray);
 
         switch (PyArray_ITEMSIZE(ikey))
         {
         case 1:
-            MakeNextKey<int8_t>(mode, unique_rows, arrlength, pIKey, pOutKey);
+            MakeNextKey<int8_t>(outType, mode, unique_rows, arrlength, pIKey, pOutKey);
             break;
         case 2:
-            MakeNextKey<int16_t>(mode, unique_rows, arrlength, pIKey, pOutKey);
+            MakeNextKey<int16_t>(outType, mode, unique_rows, arrlength, pIKey, pOutKey);
             break;
         case 4:
-            MakeNextKey<int32_t>(mode, unique_rows, arrlength, pIKey, pOutKey);
+            MakeNextKey<int32_t>(outType, mode, unique_rows, arrlength, pIKey, pOutKey);
             break;
         case 8:
-            MakeNextKey<int64_t>(mode, unique_rows, arrlength, pIKey, pOutKey);
+            MakeNextKey<int64_t>(outType, mode, unique_rows, arrlength, pIKey, pOutKey);
             break;
 
         default:
-- 
2.43.0


From fbd7d3d6a0b985d6b701a77715757a332979b5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:21 +0000
Subject: [PATCH 46/84] fix: GroupByPack32 wrote beyond its outputs for empty
 arrays and sparse groups, followed invalid next rows, and read strided arrays
 as contiguous

---
 src/MultiKey.cpp | 48 ++++++++++++++++++++++++++++++++----------------
 1 file changed, 32 insertions(+), 16 deletions(-)

diff --git a/src/MultiKey.cpp b/src/MultiKey.cpp
index 00e16b6..6cb335c 100644
--- a/src/MultiKey.cpp
+++ b/src/MultiKey.cpp
@@ -739,10 +739,11 @@ bool GroupByPackFinal32(int64_t numUnique, int64_t totalRows, void * pIndexArray
 
         int32_t i = (int32_t)totalRows;
 
-        // TODO -- how to handle empty?
-        pSortArray[0] = GB_INVALID_INDEX;
-        pFirstArray[0] = GB_INVALID_INDEX;
-        pCountArray[0] = 0;
+        for (int64_t bin = 0; bin < numUnique; bin++)
+        {
+            pFirstArray[bin] = GB_INVALID_INDEX;
+            pCountArray[bin] = 0;
+        }
 
         // fills up sort array
         int32_t runningCount = 0;
@@ -767,7 +768,7 @@ bool GroupByPackFinal32(int64_t numUnique, int64_t totalRows, void * pIndexArray
                 pFirstArray[lookfor] = runningCount;
 
                 // We are at the head of the list, now count up how many
-                while (j != GB_INVALID_INDEX)
+                while (j >= 0)
                 {
                     pSortArray[runningCount++] = j;
                     j = pNextArray[j];
@@ -778,7 +779,7 @@ bool GroupByPackFinal32(int64_t numUnique, int64_t totalRows, void * pIndexArray
             }
             LOGGING("running count at end %d\n", runningCount);
         }
-        else
+        else if (totalRows > 0)
         {
             // Check if first item is filtered out
             // If so, go ahead and chain this now
@@ -793,7 +794,7 @@ bool GroupByPackFinal32(int64_t numUnique, int64_t totalRows, void * pIndexArray
                 int32_t j = pNextArray[0];
 
                 // We are at the head of the list, now count up how many
-                while (j != GB_INVALID_INDEX)
+                while (j >= 0)
                 {
                     pSortArray[runningCount++] = j;
                     j = pNextArray[j];
@@ -810,7 +811,7 @@ bool GroupByPackFinal32(int64_t numUnique, int64_t totalRows, void * pIndexArray
             for (int32_t i = 0; i < totalRows; i++)
             {
                 // Check if we found the head of the unique id (the key)
-                if (pIndexArray[i] == lookfor)
+                if (lookfor < numUnique && pIndexArray[i] == lookfor)
                 {
                     int32_t count = runningCount;
 
@@ -821,7 +822,7 @@ bool GroupByPackFinal32(int64_t numUnique, int64_t totalRows, void * pIndexArray
                     int32_t j = pNextArray[i];
 
                     // We are at the head of the list, now count up how many
-                    while (j != GB_INVALID_INDEX)
+                    while (j >= 0)
                     {
                         pSortArray[runningCount++] = j;
                         j = pNextArray[j];
@@ -856,7 +857,7 @@ bool GroupByPackFinal32(int64_t numUnique, int64_t totalRows, void * pIndexArray
                         int32_t j = pNextArray[i];
 
                         // We are at the head of the list, now count up how many
-                        while (j != GB_INVALID_INDEX)
+                        while (j >= 0)
                         {
                             pSortArray[runningCount++] = j;
                             j = pNextArray[j];
@@ -897,12 +898,22 @@ bool GroupByPackFinal32(int64_t numUnique, int64_t totalRows, void * pIndexArray
 //
 PyObject * GroupByPack32(PyObject * self, PyObject * args)
 {
-    PyArrayObject * indexArray = NULL;
-    PyObject * nextArray = NULL;
+    PyArrayObject * inIndexArray = NULL;
+    PyObject * inNextArray = NULL;
 
     int64_t numUnique = 0;
 
-    if (! PyArg_ParseTuple(args, "O!OL", &PyArray_Type, &indexArray, &nextArray, &numUnique))
+    if (! PyArg_ParseTuple(args, "O!OL", &PyArray_Type, &inIndexArray, &inNextArray, &numUnique))
+    {
+        return NULL;
+    }
+
+    bool const nextSupplied = PyArray_Check(inNextArray);
+    ContiguousArray const holdIndex(inIndexArray);
+    ContiguousArray const holdNext(nextSupplied ? (PyArrayObject *)inNextArray : inIndexArray);
+    PyArrayObject * indexArray = holdIndex.get();
+    PyArrayObject * nextArray = holdNext.get();
+    if (! indexArray || ! nextArray)
     {
         return NULL;
     }
@@ -919,7 +930,7 @@ PyObject * GroupByPack32(PyObject * self, PyObject * args)
 
         int32_t * pGroupArray = NULL;
 
-        if (! PyArray_Check(nextArray))
+        if (! nextSupplied)
         {
             // Next was not supplied and must be calculated
             bMustFree = true;
@@ -949,12 +960,17 @@ PyObject * GroupByPack32(PyObject * self, PyObject * args)
         }
         else
         {
-            if (totalRows != ArrayLength((PyArrayObject *)nextArray))
+            if (totalRows != ArrayLength(nextArray))
             {
                 PyErr_Format(PyExc_ValueError, "GroupByPack32 array length does not match %llu", totalRows);
                 return NULL;
             }
-            pNextArray = (int32_t *)PyArray_BYTES((PyArrayObject *)nextArray);
+            if (PyArray_ITEMSIZE(nextArray) != sizeof(int32_t))
+            {
+                PyErr_Format(PyExc_ValueError, "GroupByPack32 next must be int32");
+                return NULL;
+            }
+            pNextArray = (int32_t *)PyArray_BYTES(nextArray);
         }
 
         PyObject * sortGroupArray = NULL;
-- 
2.43.0


From f019b5b7df614f3b15edd1259b99666991c2be58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:21 +0000
Subject: [PATCH 47/84] fix: BinCount and GroupFromBinCount crashed for
 unsupported key types and read strided arrays as contiguous

---
 src/MultiKey.cpp | 47 +++++++++++++++++++++++++++++++++++++----------
 1 file changed, 37 insertions(+), 10 deletions(-)

diff --git a/src/MultiKey.cpp b/src/MultiKey.cpp
index 6cb335c..c04d7cf 100644
--- a/src/MultiKey.cpp
+++ b/src/MultiKey.cpp
@@ -2207,10 +2207,19 @@ MAKE_I_GROUP GetMakeIGroup(int iKeyType, int outdtype)
 //
 PyObject * GroupFromBinCount(PyObject * self, PyObject * args)
 {
-    PyArrayObject * iKey = NULL;
-    PyArrayObject * nCountGroup = NULL;
+    PyArrayObject * inKey = NULL;
+    PyArrayObject * inCountGroup = NULL;
+
+    if (! PyArg_ParseTuple(args, "O!O!", &PyArray_Type, &inKey, &PyArray_Type, &inCountGroup))
+    {
+        return NULL;
+    }
 
-    if (! PyArg_ParseTuple(args, "O!O!", &PyArray_Type, &iKey, &PyArray_Type, &nCountGroup))
+    ContiguousArray const holdKey(inKey);
+    ContiguousArray const holdCount(inCountGroup);
+    PyArrayObject * iKey = holdKey.get();
+    PyArrayObject * nCountGroup = holdCount.get();
+    if (! iKey || ! nCountGroup)
     {
         return NULL;
     }
@@ -2237,6 +2246,13 @@ PyObject * GroupFromBinCount(PyObject * self, PyObject * args)
         return NULL;
     }
 
+    MAKE_I_GROUP pMakeIGroup = GetMakeIGroup(iKeyType, outdtype);
+    if (! pMakeIGroup)
+    {
+        PyErr_Format(PyExc_ValueError, "GroupFromBinCount: ikey must be int8/16/32/64");
+        return NULL;
+    }
+
     outiGroup = AllocateNumpyArray(1, (npy_intp *)&totalRows, outdtype);
     outiFirstGroup = AllocateNumpyArray(1, (npy_intp *)&totalUnique, outdtype);
 
@@ -2280,7 +2296,6 @@ PyObject * GroupFromBinCount(PyObject * self, PyObject * args)
         //
         // Now build the igroup
         //
-        MAKE_I_GROUP pMakeIGroup = GetMakeIGroup(iKeyType, outdtype);
 
         if (! g_cMathWorker->NoThreading && totalRows > 32000)
         {
@@ -2554,11 +2569,18 @@ int64_t GetPack(PyObject * kwargs)
 //
 PyObject * BinCount(PyObject * self, PyObject * args, PyObject * kwargs)
 {
-    PyArrayObject * iKey = NULL;
+    PyArrayObject * inKey = NULL;
 
     int64_t unique_rows = 0;
 
-    if (! PyArg_ParseTuple(args, "O!L", &PyArray_Type, &iKey, &unique_rows))
+    if (! PyArg_ParseTuple(args, "O!L", &PyArray_Type, &inKey, &unique_rows))
+    {
+        return NULL;
+    }
+
+    ContiguousArray const holdKey(inKey);
+    PyArrayObject * iKey = holdKey.get();
+    if (! iKey)
     {
         return NULL;
     }
@@ -2574,7 +2596,7 @@ PyObject * BinCount(PyObject * self, PyObject * args, PyObject * kwargs)
     // Check for totalRows > 2100000000 and switch to int64_t
     int outdtype = NPY_INT32;
 
-    if (unique_rows == 0 || totalRows <= 0)
+    if (unique_rows <= 0 || totalRows <= 0)
     {
         PyErr_Format(PyExc_ValueError, "BinCount: unique or totalRows is zero, cannot calculate the bins.");
         return NULL;
@@ -2586,6 +2608,14 @@ PyObject * BinCount(PyObject * self, PyObject * args, PyObject * kwargs)
         outdtype = NPY_INT64;
     }
 
+    // Get the binning function
+    BIN_COUNT pBinFunc = InternalGetBinFunc(iKeyType, outdtype);
+    if (! pBinFunc)
+    {
+        PyErr_Format(PyExc_ValueError, "BinCount: ikey must be int8/16/32/64");
+        return NULL;
+    }
+
     // Allocate nCountGroup
     outArray = AllocateNumpyArray(1, (npy_intp *)&unique_rows, outdtype);
 
@@ -2595,9 +2625,6 @@ PyObject * BinCount(PyObject * self, PyObject * args, PyObject * kwargs)
         void * pnCountGroup = PyArray_BYTES(outArray);
         int64_t itemSize = PyArray_ITEMSIZE(outArray);
 
-        // Get the binning function
-        BIN_COUNT pBinFunc = InternalGetBinFunc(iKeyType, outdtype);
-
         // TJD October 2019
         // Testing this routine with 800,000 uniques on 2M to 200M
         // multithreading did not make this run faster under some circumstance.
-- 
2.43.0


From dd25e0f86729ac2f3de150bc6c3a9c7ecd6e4987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:26 +0000
Subject: [PATCH 48/84] fix: medians and quantiles of large integers overflowed

---
 src/GroupBy.cpp | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/GroupBy.cpp b/src/GroupBy.cpp
index f2438d2..4c510fc 100644
--- a/src/GroupBy.cpp
+++ b/src/GroupBy.cpp
@@ -22,6 +22,17 @@ namespace
     using loglevel = riptide::logging::loglevel;
 }
 
+// half the sum, rounded towards zero, of integers whose sum can overflow
+template <typename T>
+inline T HALF_OF_SUM(T X, T Y)
+{
+    if ((X < 0) != (Y < 0))
+    {
+        return (X + Y) / 2;
+    }
+    return X / 2 + Y / 2 + (X % 2 + Y % 2) / 2;
+}
+
 // Overloads to handle case of bool
 inline bool MEDIAN_SPLIT(bool X, bool Y)
 {
@@ -45,19 +56,19 @@ inline uint16_t MEDIAN_SPLIT(uint16_t X, uint16_t Y)
 }
 inline int32_t MEDIAN_SPLIT(int32_t X, int32_t Y)
 {
-    return (X + Y) / 2;
+    return HALF_OF_SUM(X, Y);
 }
 inline uint32_t MEDIAN_SPLIT(uint32_t X, uint32_t Y)
 {
-    return (X + Y) / 2;
+    return HALF_OF_SUM(X, Y);
 }
 inline int64_t MEDIAN_SPLIT(int64_t X, int64_t Y)
 {
-    return (X + Y) / 2;
+    return HALF_OF_SUM(X, Y);
 }
 inline uint64_t MEDIAN_SPLIT(uint64_t X, uint64_t Y)
 {
-    return (X + Y) / 2;
+    return HALF_OF_SUM(X, Y);
 }
 inline float MEDIAN_SPLIT(float X, float Y)
 {
@@ -75,7 +86,8 @@ inline long double MEDIAN_SPLIT(long double X, long double Y)
 template <typename T, typename U>
 inline U QUANTILE_SPLIT(T X, T Y)
 {
-    return (X + Y) / 2.0;
+    // convert first, the sum of two integers can overflow
+    return (static_cast<U>(X) + static_cast<U>(Y)) / 2.0;
 }
 
 // Overloads to handle cases of bool, float, long double
-- 
2.43.0


From 05108eb684f6807eb7f2ff3ee9e701956ff7d401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:26 +0000
Subject: [PATCH 49/84] fix: float nansum and nanmean of a range of groups
 cleared the wrong part of the output

---
 src/GroupBy.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/GroupBy.cpp b/src/GroupBy.cpp
index 4c510fc..526678d 100644
--- a/src/GroupBy.cpp
+++ b/src/GroupBy.cpp
@@ -407,7 +407,7 @@ public:
         if (pass <= 0)
         {
             // Clear out memory for our range
-            memset(pOut, 0, sizeof(U) * (binHigh - binLow));
+            memset(pOut + binLow, 0, sizeof(U) * (binHigh - binLow));
             memset(pOutAccum, 0, sizeof(double) * (binHigh - binLow));
         }
 
@@ -892,7 +892,7 @@ public:
         if (pass <= 0)
         {
             // Clear out memory for our range
-            memset(pOriginalOut, 0, sizeof(U) * (binHigh - binLow));
+            memset(pOriginalOut + binLow, 0, sizeof(U) * (binHigh - binLow));
             memset(pOut, 0, sizeof(double) * (binHigh - binLow));
         }
 
-- 
2.43.0


From f6a4369cda2c66dc7fa491b495c3adb44f8c77eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:27 +0000
Subject: [PATCH 50/84] fix: GroupByAll32 and GroupByAllPack32 read strided
 group arrays as if contiguous

---
 src/GroupBy.cpp | 36 ++++++++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/src/GroupBy.cpp b/src/GroupBy.cpp
index 526678d..579faf4 100644
--- a/src/GroupBy.cpp
+++ b/src/GroupBy.cpp
@@ -4596,7 +4596,7 @@ PyObject * GroupBySingleOpMultithreaded(ArrayInfo * aInfo, PyArrayObject * iKey,
 PyObject * GroupByAll32(PyObject * self, PyObject * args)
 {
     PyObject * inList1 = NULL;
-    PyArrayObject * iKey = NULL;
+    PyArrayObject * inKey = NULL;
     PyObject * param = NULL;
 
     int64_t unique_rows = 0;
@@ -4604,13 +4604,20 @@ PyObject * GroupByAll32(PyObject * self, PyObject * args)
     PyListObject * listBinLow = NULL;
     PyListObject * listBinHigh = NULL;
 
-    if (! PyArg_ParseTuple(args, "OO!LO!O!O!O", &inList1, &PyArray_Type, &iKey, &unique_rows, &PyList_Type, &listFuncNum,
+    if (! PyArg_ParseTuple(args, "OO!LO!O!O!O", &inList1, &PyArray_Type, &inKey, &unique_rows, &PyList_Type, &listFuncNum,
                            &PyList_Type, &listBinLow, &PyList_Type, &listBinHigh, &param))
     {
         // PyArg_ParseTuple sets the error
         return NULL;
     }
 
+    ContiguousArray const holdKey(inKey);
+    PyArrayObject * iKey = holdKey.get();
+    if (! iKey)
+    {
+        return NULL;
+    }
+
     int32_t ndim = PyArray_NDIM(iKey);
 
     if (ndim != 1)
@@ -4883,10 +4890,10 @@ PyObject * GroupByAll32(PyObject * self, PyObject * args)
 PyObject * GroupByAllPack32(PyObject * self, PyObject * args)
 {
     PyObject * inList1 = NULL;
-    PyArrayObject * iKey = NULL;
-    PyArrayObject * iGroup;
-    PyArrayObject * iFirst;
-    PyArrayObject * nCount;
+    PyArrayObject * inKey = NULL;
+    PyArrayObject * inGroup;
+    PyArrayObject * inFirst;
+    PyArrayObject * inCount;
 
     int64_t unique_rows = 0;
     PyListObject * listFuncNum = 0;
@@ -4894,14 +4901,27 @@ PyObject * GroupByAllPack32(PyObject * self, PyObject * args)
     PyListObject * listBinHigh = 0;
     int64_t funcParam = 0;
 
-    if (! PyArg_ParseTuple(args, "OO!O!O!O!LO!O!O!L", &inList1, &PyArray_Type, &iKey, &PyArray_Type, &iGroup, &PyArray_Type,
-                           &iFirst, &PyArray_Type, &nCount, &unique_rows, &PyList_Type, &listFuncNum, &PyList_Type, &listBinLow,
+    if (! PyArg_ParseTuple(args, "OO!O!O!O!LO!O!O!L", &inList1, &PyArray_Type, &inKey, &PyArray_Type, &inGroup, &PyArray_Type,
+                           &inFirst, &PyArray_Type, &inCount, &unique_rows, &PyList_Type, &listFuncNum, &PyList_Type, &listBinLow,
                            &PyList_Type, &listBinHigh, &funcParam))
     {
         // Error already set
         return NULL;
     }
 
+    ContiguousArray const holdKey(inKey);
+    ContiguousArray const holdGroup(inGroup);
+    ContiguousArray const holdFirst(inFirst);
+    ContiguousArray const holdCount(inCount);
+    PyArrayObject * iKey = holdKey.get();
+    PyArrayObject * iGroup = holdGroup.get();
+    PyArrayObject * iFirst = holdFirst.get();
+    PyArrayObject * nCount = holdCount.get();
+    if (! iKey || ! iGroup || ! iFirst || ! nCount)
+    {
+        return NULL;
+    }
+
     logger->debug("GroupByAllPack32 types: key:{}  group:{}  first:{}  count:{}", PyArray_TYPE(iKey), PyArray_TYPE(iGroup),
                   PyArray_TYPE(iFirst), PyArray_TYPE(nCount));
 
-- 
2.43.0


From 46b6fc25e1634c9e998416ca5d3394756367f7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:22 +0000
Subject: [PATCH 51/84] fix: rolling variances, deviations and means handled
 invalid values and rounding wrongly, negative windows read out of bounds

---
 src/Ema.cpp | 55 +++++++++++++++++++++++++++++++----------------------
 1 file changed, 32 insertions(+), 23 deletions(-)

diff --git a/src/Ema.cpp b/src/Ema.cpp
index 119ebe4..4709591 100644
--- a/src/Ema.cpp
+++ b/src/Ema.cpp
@@ -228,7 +228,7 @@ public:
         {
             T temp = pIn[i];
 
-            if (temp == temp)
+            if (riptide::invalid_for_type<T>::is_valid(temp))
             {
                 currentSum += temp;
                 count++;
@@ -240,7 +240,7 @@ public:
         {
             T temp = pIn[i];
 
-            if (temp == temp)
+            if (riptide::invalid_for_type<T>::is_valid(temp))
             {
                 currentSum += pIn[i];
                 count++;
@@ -249,7 +249,7 @@ public:
             // subtract the item leaving the window
             temp = pIn[i - windowSize];
 
-            if (temp == temp)
+            if (riptide::invalid_for_type<T>::is_valid(temp))
             {
                 currentSum -= pIn[i - windowSize];
                 count--;
@@ -356,6 +356,11 @@ public:
             amean += delta * count_inv;
             item -= amean;
             asqr += (item + old) * delta;
+            // rounding must not make it negative
+            if (asqr < 0)
+            {
+                asqr = 0;
+            }
 
             pOut[i] = asqr * count_inv;
         }
@@ -393,6 +398,11 @@ public:
             amean += delta * count_inv;
             item -= amean;
             asqr += (item + old) * delta;
+            // rounding must not make it negative
+            if (asqr < 0)
+            {
+                asqr = 0;
+            }
 
             pOut[i] = sqrt(asqr * count_inv);
         }
@@ -411,7 +421,7 @@ public:
         // Priming of the summation
         for (int64_t i = 0; i < len && i < windowSize; i++)
         {
-            U item = (U)pIn[i];
+            U item = riptide::invalid_for_type<T>::is_valid(pIn[i]) ? (U)pIn[i] : (U)NAN;
 
             if (item == item)
             {
@@ -419,20 +429,16 @@ public:
                 delta = item - amean;
                 amean += delta / count;
                 asqr += delta * (item - amean);
-                pOut[i] = asqr / count;
-            }
-            else
-            {
-                pOut[i] = NAN;
             }
+            pOut[i] = asqr / count;
         }
 
-        U count_inv = (U)1.0 / windowSize;
+        U count_inv = (U)1 / count;
 
         for (int64_t i = windowSize; i < len; i++)
         {
-            U item = (U)pIn[i];
-            U old = (U)pIn[i - windowSize];
+            U item = riptide::invalid_for_type<T>::is_valid(pIn[i]) ? (U)pIn[i] : (U)NAN;
+            U old = riptide::invalid_for_type<T>::is_valid(pIn[i - windowSize]) ? (U)pIn[i - windowSize] : (U)NAN;
 
             if (item == item)
             {
@@ -463,7 +469,7 @@ public:
                     // dd
                     if (count > 0)
                     {
-                        delta = old = amean;
+                        delta = old - amean;
                         amean -= delta * count_inv;
                         asqr -= delta * (old - amean);
                     }
@@ -498,7 +504,7 @@ public:
         // Priming of the summation
         for (int64_t i = 0; i < len && i < windowSize; i++)
         {
-            U item = (U)pIn[i];
+            U item = riptide::invalid_for_type<T>::is_valid(pIn[i]) ? (U)pIn[i] : (U)NAN;
 
             if (item == item)
             {
@@ -506,20 +512,16 @@ public:
                 delta = item - amean;
                 amean += delta / count;
                 asqr += delta * (item - amean);
-                pOut[i] = sqrt(asqr / count);
-            }
-            else
-            {
-                pOut[i] = NAN;
             }
+            pOut[i] = sqrt(asqr / count);
         }
 
-        U count_inv = (U)1.0 / windowSize;
+        U count_inv = (U)1 / count;
 
         for (int64_t i = windowSize; i < len; i++)
         {
-            U item = (U)pIn[i];
-            U old = (U)pIn[i - windowSize];
+            U item = riptide::invalid_for_type<T>::is_valid(pIn[i]) ? (U)pIn[i] : (U)NAN;
+            U old = riptide::invalid_for_type<T>::is_valid(pIn[i - windowSize]) ? (U)pIn[i - windowSize] : (U)NAN;
 
             if (item == item)
             {
@@ -550,7 +552,7 @@ public:
                     // dd
                     if (count > 0)
                     {
-                        delta = old = amean;
+                        delta = old - amean;
                         amean -= delta * count_inv;
                         asqr -= delta * (old - amean);
                     }
@@ -698,6 +700,13 @@ PyObject * Rolling(PyObject * self, PyObject * args)
     // TODO: determine based on function
     int32_t numpyOutType = NPY_FLOAT64;
 
+    // the window of a quantile is packed together with the quantile
+    if (param1 < 0 || (func == ROLLING_QUANTILE && param1 / (static_cast<int64_t>(1e9) + 1) == 0))
+    {
+        PyErr_Format(PyExc_ValueError, "Rolling: negative window sizes (or zero for quantiles) are not supported");
+        return NULL;
+    }
+
     // In case user passes in sliced array or reversed array
     PyArrayObject * inArr = EnsureContiguousArray(inArrObject);
     if (! inArr)
-- 
2.43.0


From 00b9962f876bd6cb99dbc01718d73618461bd807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:22 +0000
Subject: [PATCH 52/84] fix: cummin and cummax left rows outside the groups
 unset and leaked a buffer

---
 src/Ema.cpp | 77 ++++++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 58 insertions(+), 19 deletions(-)

diff --git a/src/Ema.cpp b/src/Ema.cpp
index 4709591..d28bd90 100644
--- a/src/Ema.cpp
+++ b/src/Ema.cpp
@@ -960,6 +960,10 @@ static void CumNanExtreme(void * pKeyT, void * pAccumBin, void * pColumn, int64_
                     }
                     pDest[i] = pWorkSpace[location];
                 }
+                else
+                {
+                    pDest[i] = Invalid;
+                }
             }
         }
         else
@@ -987,6 +991,10 @@ static void CumNanExtreme(void * pKeyT, void * pAccumBin, void * pColumn, int64_
                     }
                     pDest[i] = pWorkSpace[location];
                 }
+                else
+                {
+                    pDest[i] = Invalid;
+                }
             }
         }
     }
@@ -1019,6 +1027,10 @@ static void CumNanExtreme(void * pKeyT, void * pAccumBin, void * pColumn, int64_
                     }
                     pDest[i] = pWorkSpace[location];
                 }
+                else
+                {
+                    pDest[i] = Invalid;
+                }
             }
         }
 
@@ -1029,18 +1041,25 @@ static void CumNanExtreme(void * pKeyT, void * pAccumBin, void * pColumn, int64_
                 K const location = pKey[i];
 
                 // Bin 0 is bad
-                // if new value (pSrc[i]) is invalid, do nothing
-                if (riptide::invalid_for_type<T>::is_valid(pSrc[i]))
+                if (location >= GB_BASE_INDEX)
                 {
-                    // if old value (pWorkSpace[location]) is invalid, OR both values are valid and comparison
-                    // is in favor of new value, set answer to new value.
-                    if ((not riptide::invalid_for_type<T>::is_valid(pWorkSpace[location])) ||
-                        _compare(pSrc[i], pWorkSpace[location]))
+                    // if new value (pSrc[i]) is invalid, do nothing
+                    if (riptide::invalid_for_type<T>::is_valid(pSrc[i]))
                     {
-                        pWorkSpace[location] = pSrc[i];
+                        // if old value (pWorkSpace[location]) is invalid, OR both values are valid and comparison
+                        // is in favor of new value, set answer to new value.
+                        if ((not riptide::invalid_for_type<T>::is_valid(pWorkSpace[location])) ||
+                            _compare(pSrc[i], pWorkSpace[location]))
+                        {
+                            pWorkSpace[location] = pSrc[i];
+                        }
                     }
+                    pDest[i] = pWorkSpace[location];
+                }
+                else
+                {
+                    pDest[i] = Invalid;
                 }
-                pDest[i] = pWorkSpace[location];
             }
         }
     }
@@ -1109,6 +1128,10 @@ static void CumExtreme(void * pKeyT, void * pAccumBin, void * pColumn, int64_t n
                     }
                     pDest[i] = pWorkSpace[location];
                 }
+                else
+                {
+                    pDest[i] = Invalid;
+                }
             }
         }
         else
@@ -1139,6 +1162,10 @@ static void CumExtreme(void * pKeyT, void * pAccumBin, void * pColumn, int64_t n
                     }
                     pDest[i] = pWorkSpace[location];
                 }
+                else
+                {
+                    pDest[i] = Invalid;
+                }
             }
         }
     }
@@ -1170,6 +1197,10 @@ static void CumExtreme(void * pKeyT, void * pAccumBin, void * pColumn, int64_t n
                     }
                     pDest[i] = pWorkSpace[location];
                 }
+                else
+                {
+                    pDest[i] = Invalid;
+                }
             }
         }
 
@@ -1180,25 +1211,33 @@ static void CumExtreme(void * pKeyT, void * pAccumBin, void * pColumn, int64_t n
                 K const location = pKey[i];
 
                 // Bin 0 is bad
-                if (not pWorkSpaceDataSeen[location])
+                if (location >= GB_BASE_INDEX)
                 {
-                    pWorkSpace[location] = pSrc[i];
-                    pWorkSpaceDataSeen[location] = true;
+                    if (not pWorkSpaceDataSeen[location])
+                    {
+                        pWorkSpace[location] = pSrc[i];
+                        pWorkSpaceDataSeen[location] = true;
+                    }
+                    // if new value (pSrc[i]) is invalid, or old value (pWorkSpace[location]) is valid
+                    // AND new value passes comparison to old value, set answer to new value
+                    else if ((not riptide::invalid_for_type<T>::is_valid(pSrc[i])) ||
+                             ((riptide::invalid_for_type<T>::is_valid(pWorkSpace[location])) &&
+                              _compare(pSrc[i], pWorkSpace[location])))
+                    {
+                        pWorkSpace[location] = pSrc[i];
+                        pWorkSpaceDataSeen[location] = true;
+                    }
+                    pDest[i] = pWorkSpace[location];
                 }
-                // if new value (pSrc[i]) is invalid, or old value (pWorkSpace[location]) is valid
-                // AND new value passes comparison to old value, set answer to new value
-                else if ((not riptide::invalid_for_type<T>::is_valid(pSrc[i])) ||
-                         ((riptide::invalid_for_type<T>::is_valid(pWorkSpace[location])) &&
-                          _compare(pSrc[i], pWorkSpace[location])))
+                else
                 {
-                    pWorkSpace[location] = pSrc[i];
-                    pWorkSpaceDataSeen[location] = true;
+                    pDest[i] = Invalid;
                 }
-                pDest[i] = pWorkSpace[location];
             }
         }
     }
 
+    WORKSPACE_FREE(pWorkSpaceDataSeen);
     WORKSPACE_FREE(pWorkSpace);
 }
 
-- 
2.43.0


From ca52ae7ecf7cf22bfe808fc9a1980fbb1cf426b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:22 +0000
Subject: [PATCH 53/84] fix: ema decay with filter and reset masks always
 returned zero; a long double time array overflowed the output

---
 src/Ema.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/Ema.cpp b/src/Ema.cpp
index d28bd90..470ef93 100644
--- a/src/Ema.cpp
+++ b/src/Ema.cpp
@@ -1516,11 +1516,11 @@ public:
                                 pLastEma[location] = 0;
                                 pLastTime[location] = 0;
                             }
-                            pLastEma[location] = value + pLastEma[location] * exp(-decayRate * (pTime[i] - pLastTime[location]));
-                            pLastTime[location] = pTime[i];
                         }
 
-                        pDest[i] = 0;
+                        pLastEma[location] = value + pLastEma[location] * exp(-decayRate * (pTime[i] - pLastTime[location]));
+                        pLastTime[location] = pTime[i];
+                        pDest[i] = pLastEma[location];
                     }
                     else
                     {
@@ -2007,7 +2007,8 @@ static EMA_BY_TWO_FUNC GetEmaByStep2(int timeType, EMA_FUNCTIONS func)
     case NPY_DOUBLE:
         return EmaByBase<T, double, double, K>::GetFunc(func);
     case NPY_LONGDOUBLE:
-        return EmaByBase<T, long double, long double, K>::GetFunc(func);
+        // the output is always double
+        return EmaByBase<T, double, long double, K>::GetFunc(func);
     CASE_NPY_INT32:
         return EmaByBase<T, double, int32_t, K>::GetFunc(func);
     CASE_NPY_INT64:
-- 
2.43.0


From da2fc781e278e67235d35d0d6be1a377ca0b3f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:22 +0000
Subject: [PATCH 54/84] fix: rolling group functions accepted negative windows
 and wrapped for windows beyond 2**31

---
 src/GroupBy.cpp | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/GroupBy.cpp b/src/GroupBy.cpp
index 579faf4..f9c9966 100644
--- a/src/GroupBy.cpp
+++ b/src/GroupBy.cpp
@@ -1418,7 +1418,7 @@ public:
                 pDest[index] = currentSum;
             }
 
-            for (V j = start + windowSize; j < last; j++)
+            for (int64_t j = start + windowSize; j < last; j++)
             {
                 V const index{ pGroup[j] };
 
@@ -1484,7 +1484,7 @@ public:
                 pDest[index] = currentSum;
             }
 
-            for (V j = start + windowSize; j < last; j++)
+            for (int64_t j = start + windowSize; j < last; j++)
             {
                 V const index{ pGroup[j] };
 
@@ -1556,7 +1556,7 @@ public:
                 pDest[index] = currentSum / (j - start + 1);
             }
 
-            for (V j = start + windowSize; j < last; j++)
+            for (int64_t j = start + windowSize; j < last; j++)
             {
                 V const index{ pGroup[j] };
 
@@ -1624,7 +1624,7 @@ public:
                 pDest[index] = count > 0 ? currentSum / count : invalid_out;
             }
 
-            for (V j = start + windowSize; j < last; j++)
+            for (int64_t j = start + windowSize; j < last; j++)
             {
                 V const index{ pGroup[j] };
 
@@ -1875,7 +1875,7 @@ public:
                     }
                 }
 
-                for (V j = start + windowSize; j < last; j++)
+                for (int64_t j = start + windowSize; j < last; j++)
                 {
                     V const index{ pGroup[j] };
                     if constexpr (is_scalar)
@@ -1908,7 +1908,7 @@ public:
                     }
                 }
 
-                for (V j = last - windowSize; j > start; j--)
+                for (int64_t j = last - windowSize; j > start; j--)
                 {
                     V const index{ pGroup[j] };
                     if constexpr (is_scalar)
@@ -1999,7 +1999,7 @@ public:
                         pDest[index] = invalid;
                     }
 
-                    for (V j = start + windowSize; j < last; j++)
+                    for (int64_t j = start + windowSize; j < last; j++)
                     {
                         V const index{ pGroup[j] };
                         U temp = (U)pSrc[index];
@@ -2020,7 +2020,7 @@ public:
                         pDest[index] = invalid;
                     }
 
-                    for (V j = last - windowSize; j > start; j--)
+                    for (int64_t j = last - windowSize; j > start; j--)
                     {
                         V const index{ pGroup[j] };
                         U temp = (U)pSrc[index];
@@ -5076,6 +5076,16 @@ PyObject * GroupByAllPack32(PyObject * self, PyObject * args)
                 PyLong_AsLongLongAndOverflow(PyList_GET_ITEM(listFuncNum, i), &overflow)) };
             pstGroupBy32->returnObjects[i].funcNum = funcNum;
 
+            // the window of a quantile is packed together with the quantile
+            if (((funcNum == GB_ROLLING_SUM || funcNum == GB_ROLLING_NANSUM || funcNum == GB_ROLLING_MEAN ||
+                  funcNum == GB_ROLLING_NANMEAN) &&
+                 funcParam < 0) ||
+                (funcNum == GB_ROLLING_QUANTILE && funcParam / (static_cast<int64_t>(1e9) + 1) <= 0))
+            {
+                PyErr_Format(PyExc_ValueError, "Negative window sizes (or zero for quantiles) are not supported");
+                return NULL;
+            }
+
             int64_t binLow = PyLong_AsLongLongAndOverflow(PyList_GET_ITEM(listBinLow, i), &overflow);
             pstGroupBy32->returnObjects[i].binLow = binLow;
 
-- 
2.43.0


From 198a9b7b3e0621bde4043b9f90fa8242b733e4db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:22 +0000
Subject: [PATCH 55/84] fix: EmaAll32, TimeWindow and InterpExtrap2d read
 strided or short arguments out of bounds

---
 src/Ema.cpp        | 75 +++++++++++++++++++++++++++++++++++++---------
 src/RipTide.h      |  2 +-
 src/TimeWindow.cpp | 15 ++++++++--
 3 files changed, 74 insertions(+), 18 deletions(-)

diff --git a/src/Ema.cpp b/src/Ema.cpp
index 470ef93..f64dc64 100644
--- a/src/Ema.cpp
+++ b/src/Ema.cpp
@@ -1667,8 +1667,12 @@ public:
         for (int64_t i = totalInputRows - 1; i >= 0; i--)
         {
             K location = pKey[i];
-            T value = pSrc[i];
-            pLastEma[location] = (U)value;
+            // Bin 0 is bad
+            if (location >= GB_BASE_INDEX)
+            {
+                T value = pSrc[i];
+                pLastEma[location] = (U)value;
+            }
         }
 
         //-----------------------------
@@ -1863,8 +1867,12 @@ public:
         for (int64_t i = totalInputRows - 1; i >= 0; i--)
         {
             K location = pKey[i];
-            T value = pSrc[i];
-            pLastEma[location] = (U)value;
+            // Bin 0 is bad
+            if (location >= GB_BASE_INDEX)
+            {
+                T value = pSrc[i];
+                pLastEma[location] = (U)value;
+            }
         }
 
         U Invalid = GET_INVALID(pDest[0]);
@@ -2372,7 +2380,7 @@ void EmaByCall(void * pEmaBy, int64_t i)
 PyObject * EmaAll32(PyObject * self, PyObject * args)
 {
     PyObject * inList1 = NULL;
-    PyArrayObject * iKey = NULL;
+    PyArrayObject * inKey = NULL;
     PyTupleObject * params = NULL;
     PyArrayObject * inTime = NULL;
     PyArrayObject * inIncludeMask = NULL;
@@ -2382,7 +2390,7 @@ PyObject * EmaAll32(PyObject * self, PyObject * args)
     int64_t unique_rows = 0;
     int64_t funcNum = 0;
 
-    if (! PyArg_ParseTuple(args, "OO!LLO", &inList1, &PyArray_Type, &iKey, &unique_rows, &funcNum, &params))
+    if (! PyArg_ParseTuple(args, "OO!LLO", &inList1, &PyArray_Type, &inKey, &unique_rows, &funcNum, &params))
     {
         return NULL;
     }
@@ -2393,6 +2401,13 @@ PyObject * EmaAll32(PyObject * self, PyObject * args)
         return NULL;
     }
 
+    ContiguousArray const holdKey(inKey);
+    PyArrayObject * iKey = holdKey.get();
+    if (! iKey)
+    {
+        return NULL;
+    }
+
     int32_t iKeyType = PyArray_TYPE(iKey);
 
     switch (iKeyType)
@@ -2428,6 +2443,7 @@ PyObject * EmaAll32(PyObject * self, PyObject * args)
         else if (! PyArray_Check(inTime))
         {
             PyErr_Format(PyExc_ValueError, "EmaAll32 inTime must be an array");
+            return NULL;
         }
 
         if (inIncludeMask == (PyArrayObject *)Py_None)
@@ -2437,6 +2453,7 @@ PyObject * EmaAll32(PyObject * self, PyObject * args)
         else if (! PyArray_Check(inIncludeMask))
         {
             PyErr_Format(PyExc_ValueError, "EmaAll32 inIncludeMask must be an array");
+            return NULL;
         }
 
         if (inResetMask == (PyArrayObject *)Py_None)
@@ -2446,6 +2463,7 @@ PyObject * EmaAll32(PyObject * self, PyObject * args)
         else if (! PyArray_Check(inResetMask))
         {
             PyErr_Format(PyExc_ValueError, "EmaAll32 inResetMask must be an array");
+            return NULL;
         }
         break;
 
@@ -2454,6 +2472,18 @@ PyObject * EmaAll32(PyObject * self, PyObject * args)
         return NULL;
     }
 
+    // the kernels walk through these arrays without strides
+    ContiguousArray const holdTime(inTime);
+    ContiguousArray const holdInclude(inIncludeMask);
+    ContiguousArray const holdReset(inResetMask);
+    if ((inTime && ! holdTime.get()) || (inIncludeMask && ! holdInclude.get()) || (inResetMask && ! holdReset.get()))
+    {
+        return NULL;
+    }
+    inTime = holdTime.get();
+    inIncludeMask = holdInclude.get();
+    inResetMask = holdReset.get();
+
     int64_t totalArrayLength = ArrayLength(iKey);
 
     if (inResetMask != NULL && (PyArray_TYPE(inResetMask) != 0 || ArrayLength(inResetMask) != totalArrayLength))
@@ -2486,6 +2516,16 @@ PyObject * EmaAll32(PyObject * self, PyObject * args)
         return NULL;
     }
 
+    for (int64_t i = 0; i < tupleSize; i++)
+    {
+        if (aInfo[i].ArrayLength != totalArrayLength)
+        {
+            FreeArrayInfo(aInfo);
+            PyErr_Format(PyExc_ValueError, "EmaAll32 all arrays must have the length of the key: %lld", totalArrayLength);
+            return NULL;
+        }
+    }
+
     LOGGING("Ema started %llu  param:%lf\n", tupleSize, doubleParam);
 
     // Allocate the struct + ROOM at the end of struct for all the tuple objects
@@ -2617,7 +2657,7 @@ void mat_interp_extrap(void * xT, void * xpT, void * ypT, void * outT, int64_t N
                 if (xi > xp[0])
                 {
                     int64_t j = 1;
-                    while (xi > xp[j] && j < M)
+                    while (j < M && xi > xp[j])
                         j++;
                     if (j == M)
                     {
@@ -2652,7 +2692,7 @@ void mat_interp_extrap(void * xT, void * xpT, void * ypT, void * outT, int64_t N
                 if (xi > xp[0])
                 {
                     int64_t j = 1;
-                    while (xi > xp[j] && j < M)
+                    while (j < M && xi > xp[j])
                         j++;
                     if (j == M)
                     {
@@ -2698,7 +2738,7 @@ void mat_interp(void * xT, void * xpT, void * ypT, void * outT, int64_t N, int64
                 if (xi > xp0)
                 {
                     int64_t j = 1;
-                    while (xi > xp[j] && j < M)
+                    while (j < M && xi > xp[j])
                         j++;
                     if (j == M)
                     {
@@ -2732,7 +2772,7 @@ void mat_interp(void * xT, void * xpT, void * ypT, void * outT, int64_t N, int64
                 if (xi > xp0)
                 {
                     int64_t j = 1;
-                    while (xi > xp[j] && j < M)
+                    while (j < M && xi > xp[j])
                         j++;
                     if (j == M)
                     {
@@ -2818,26 +2858,33 @@ bool InterpolateExtrap(void * callbackArgT, int core, int64_t start, int64_t len
 // Returns 1 dimensional array of interpolated values
 PyObject * InterpExtrap2d(PyObject * self, PyObject * args)
 {
-    PyArrayObject * arr;
+    PyArrayObject * inArr;
     PyArrayObject * xp;
     PyArrayObject * yp;
     PyArrayObject * returnArray; // we allocate this
     int32_t clip = 0;
     int32_t mode = 0;
 
-    if (! PyArg_ParseTuple(args, "O!O!O!|i", &PyArray_Type, &arr, &PyArray_Type, &xp, &PyArray_Type, &yp, &clip))
+    if (! PyArg_ParseTuple(args, "O!O!O!|i", &PyArray_Type, &inArr, &PyArray_Type, &xp, &PyArray_Type, &yp, &clip))
     {
         // If pyargparsetuple fails, it will set the error for us
         return NULL;
     }
 
-    if (PyArray_NDIM(arr) > 1)
+    ContiguousArray const holdArr(inArr);
+    PyArrayObject * arr = holdArr.get();
+    if (! arr)
+    {
+        return NULL;
+    }
+
+    if (PyArray_NDIM(arr) != 1)
     {
         PyErr_Format(PyExc_ValueError, "The 1st argument must be 1 dimensional arrays");
         return NULL;
     }
 
-    if ((PyArray_NDIM(xp) != PyArray_NDIM(yp)) || PyArray_NDIM(yp) > 2)
+    if ((PyArray_NDIM(xp) != PyArray_NDIM(yp)) || PyArray_NDIM(yp) > 2 || PyArray_NDIM(yp) < 1)
     {
         PyErr_Format(PyExc_ValueError, "The 2nd and 3rd argument must be the same dimensions");
         return NULL;
diff --git a/src/RipTide.h b/src/RipTide.h
index e0487ef..f2e9c64 100644
--- a/src/RipTide.h
+++ b/src/RipTide.h
@@ -181,7 +181,7 @@ class ContiguousArray
 public:
     explicit ContiguousArray(PyArrayObject * inObject)
         : original(inObject)
-        , array(EnsureContiguousArray(inObject))
+        , array(inObject ? EnsureContiguousArray(inObject) : nullptr)
     {
     }
     ~ContiguousArray()
diff --git a/src/TimeWindow.cpp b/src/TimeWindow.cpp
index 81f26a0..8331e23 100644
--- a/src/TimeWindow.cpp
+++ b/src/TimeWindow.cpp
@@ -156,12 +156,21 @@ TIMEWINDOW_FUNC GeTimeWindowFunction(int64_t func, int32_t inputType, int32_t *
 //
 PyObject * TimeWindow(PyObject * self, PyObject * args)
 {
-    PyArrayObject * inArr = NULL;
-    PyArrayObject * timeArr = NULL;
+    PyArrayObject * inArrObject = NULL;
+    PyArrayObject * inTimeObject = NULL;
     int64_t func = 0;
     int64_t param1 = 0;
 
-    if (! PyArg_ParseTuple(args, "O!O!LL", &PyArray_Type, &inArr, &PyArray_Type, &timeArr, &func, &param1))
+    if (! PyArg_ParseTuple(args, "O!O!LL", &PyArray_Type, &inArrObject, &PyArray_Type, &inTimeObject, &func, &param1))
+    {
+        return NULL;
+    }
+
+    ContiguousArray const holdArr(inArrObject);
+    ContiguousArray const holdTime(inTimeObject);
+    PyArrayObject * inArr = holdArr.get();
+    PyArrayObject * timeArr = holdTime.get();
+    if (! inArr || ! timeArr)
     {
         return NULL;
     }
-- 
2.43.0


From 08727160cb8ed18c9167838fb7654e89c09fbcd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:55 +0000
Subject: [PATCH 56/84] fix: dates beyond the end of a month were accepted as
 days of the next month

---
 src/DateTime.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/DateTime.cpp b/src/DateTime.cpp
index db40c95..ea45ada 100644
--- a/src/DateTime.cpp
+++ b/src/DateTime.cpp
@@ -284,6 +284,14 @@ int64_t YearToEpochNano(int64_t year, int64_t month, int64_t day)
     // The corresponding lookup tables in rt_datetime are likewise limited to 2099.
     if (year >= 1970 && year <= 2099 && month >= 1 && month <= 12 && day >= 1 && day <= 31)
     {
+        const int64_t * const splits = (year % 4) == 0 ? MONTH_SPLITS_LEAP : MONTH_SPLITS;
+
+        // only December has no next month, and has 31 days
+        if (month < 12 && day > splits[month] - splits[month - 1])
+        {
+            return -1;
+        }
+
         // check for leap.
         if ((year % 4) == 0)
         {
-- 
2.43.0


From eded78442e5dbad12eeb1bfdbacb9ed7366a0d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:55 +0000
Subject: [PATCH 57/84] fix: strptime gave times of invalid dates, took other
 characters for digits and read beyond the text

---
 src/DateTime.cpp  | 10 +++++++---
 src/strptime5.cpp |  2 ++
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/DateTime.cpp b/src/DateTime.cpp
index ea45ada..00dfe94 100644
--- a/src/DateTime.cpp
+++ b/src/DateTime.cpp
@@ -688,7 +688,8 @@ void ParseStrptime(int64_t * pOutNanoTime, int64_t arrayLength, const T * pStrin
         // so we can add a terminating zero
         for (int64_t j = 0; j < itemSize; j++)
         {
-            pTempString[j] = (char)pStart[j];
+            // all supported formats are ASCII: other characters must not be cut down to ASCII ones
+            pTempString[j] = (sizeof(T) == 1 || pStart[j] < 128) ? (char)pStart[j] : (char)0xFF;
         }
         pTempString[itemSize] = 0;
 
@@ -712,10 +713,13 @@ void ParseStrptime(int64_t * pOutNanoTime, int64_t arrayLength, const T * pStrin
             yearresult = YearToEpochNano(timeBack.tm_year + 1900, timeBack.tm_mon + 1, timeBack.tm_mday);
 
             // addin hours min secs
-            yearresult += (1000000000LL * ((timeBack.tm_hour * 3600LL) + (timeBack.tm_min * 60LL) + timeBack.tm_sec));
+            if (yearresult >= 0)
+            {
+                yearresult += (1000000000LL * ((timeBack.tm_hour * 3600LL) + (timeBack.tm_min * 60LL) + timeBack.tm_sec));
+            }
 
             // check for milli/micro/etc seconds
-            if (*pStop == PERIOD)
+            if (yearresult >= 0 && *pStop == PERIOD)
             {
                 // skip decimal
                 pStop++;
diff --git a/src/strptime5.cpp b/src/strptime5.cpp
index 9908264..c07c198 100644
--- a/src/strptime5.cpp
+++ b/src/strptime5.cpp
@@ -296,6 +296,8 @@ const char * rt_strptime(const char * buf, const char * fmt, struct tm * tm)
             /* The year corresponding to the ISO week
              * number with century.
              */
+            if (! isdigit(*bp))
+                return NULL;
             do
                 bp++;
             while (isdigit(*bp));
-- 
2.43.0


From 35174418b3fbf090dcbcd03ed22a1e2d191850d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:55 +0000
Subject: [PATCH 58/84] fix: date and time texts shorter than their column were
 reported as malformed, isspace was called outside its range

---
 src/DateTime.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/DateTime.cpp b/src/DateTime.cpp
index 00dfe94..e21d878 100644
--- a/src/DateTime.cpp
+++ b/src/DateTime.cpp
@@ -51,7 +51,7 @@ public:
 
     void consume_leading_whitespace()
     {
-        while (! at_end() && std::isspace(*pStart))
+        while (! at_end() && is_space(*pStart))
             pStart++;
     }
 
@@ -59,13 +59,19 @@ public:
     {
         while (! at_end())
         {
-            if (! std::isspace(*pStart))
+            if (! is_space(*pStart))
                 set_error("Unexpected characters");
 
             pStart++;
         }
     }
 
+    // std::isspace is only defined for values of an unsigned char
+    static bool is_space(T c)
+    {
+        return c >= 0 && c < 128 && std::isspace(static_cast<int>(c));
+    }
+
     bool at_end() const
     {
         return pStart >= pEnd || *pStart == '\0';
@@ -130,7 +136,7 @@ RT_FORCEINLINE int64_t ParseDecimal(const T ** ppStart, const T * pEnd)
 template <typename T>
 bool DateTimeParser<T>::ParseSingleNonNumber(T expected)
 {
-    if (pStart < pEnd && (*pStart < '0' || *pStart > '9'))
+    if (! at_end() && (*pStart < '0' || *pStart > '9'))
     {
         if (*pStart != expected)
             set_error("Unexpected delimiter");
@@ -151,7 +157,7 @@ template <typename T>
 RT_FORCEINLINE int64_t DateTimeParser<T>::ParseNumber(int64_t maxplaces)
 {
     // skip non numbers in front
-    while (pStart < pEnd)
+    while (! at_end())
     {
         if (*pStart < '0' || *pStart > '9')
         {
@@ -411,7 +417,7 @@ void DateTimeParser<T>::ParseDateTimeString(int64_t * pOutNanoTime, int64_t arra
         int64_t minute = 0;
         int64_t seconds = 0;
 
-        if (pStart < pEnd && (*pStart < '0' || *pStart > '9'))
+        if (! at_end() && (*pStart < '0' || *pStart > '9'))
         {
             if (*pStart != 'T' && *pStart != ' ')
                 set_error("Unexpected delimiter");
-- 
2.43.0


From 624d5a40cfce152432b3d2944f003fbd58e6b8f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:55 +0000
Subject: [PATCH 59/84] fix: date and time functions returned a result with a
 warning turned into an exception

---
 src/DateTime.cpp | 60 +++++++++++++++++++++++++++++++++---------------
 1 file changed, 42 insertions(+), 18 deletions(-)

diff --git a/src/DateTime.cpp b/src/DateTime.cpp
index e21d878..6a12904 100644
--- a/src/DateTime.cpp
+++ b/src/DateTime.cpp
@@ -467,22 +467,28 @@ void DateTimeParser<T>::ParseDateTimeString(int64_t * pOutNanoTime, int64_t arra
     }
 }
 
+// Returns false when the warning was turned into an exception
 template <typename T>
-void parsing_error_to_py_warning(const parsing_error<T> & error);
+bool parsing_error_to_py_warning(const parsing_error<T> & error);
 
 template <>
-void parsing_error_to_py_warning<char>(const parsing_error<char> & error)
+bool parsing_error_to_py_warning<char>(const parsing_error<char> & error)
 {
     std::string datetime(error.start, error.end);
-    PyErr_WarnFormat(PyExc_RuntimeWarning, 1, "%s in \"%s\" at position %lld", error.message, datetime.c_str(), error.position);
+    return 0 == PyErr_WarnFormat(PyExc_RuntimeWarning, 1, "%s in \"%s\" at position %lld", error.message, datetime.c_str(),
+                                 (long long)error.position);
 }
 
 template <>
-void parsing_error_to_py_warning<uint32_t>(const parsing_error<uint32_t> & error)
+bool parsing_error_to_py_warning<uint32_t>(const parsing_error<uint32_t> & error)
 {
     PyObject * datetime = PyUnicode_FromKindAndData(PyUnicode_4BYTE_KIND, error.start, error.end - error.start);
-    PyErr_WarnFormat(PyExc_RuntimeWarning, 1, "%s in \"%U\" at position %lld", error.message, datetime, error.position);
-    Py_XDECREF(datetime);
+    if (! datetime)
+        return false;
+    int const result =
+        PyErr_WarnFormat(PyExc_RuntimeWarning, 1, "%s in \"%U\" at position %lld", error.message, datetime, (long long)error.position);
+    Py_DECREF(datetime);
+    return 0 == result;
 }
 
 //--------------------------------------------------------------
@@ -529,8 +535,11 @@ PyObject * TimeStringToNanos(PyObject * self, PyObject * args)
             parser.ParseTimeString(pNanoTime, arrayLength, pString, itemSize);
 
             const auto & maybe_error = parser.get_error();
-            if (maybe_error)
-                parsing_error_to_py_warning(*maybe_error);
+            if (maybe_error && ! parsing_error_to_py_warning(*maybe_error))
+            {
+                Py_DECREF(outArray);
+                return NULL;
+            }
         }
         else
         {
@@ -538,8 +547,11 @@ PyObject * TimeStringToNanos(PyObject * self, PyObject * args)
             parser.ParseTimeString(pNanoTime, arrayLength, (uint32_t *)pString, itemSize / 4);
 
             const auto & maybe_error = parser.get_error();
-            if (maybe_error)
-                parsing_error_to_py_warning(*maybe_error);
+            if (maybe_error && ! parsing_error_to_py_warning(*maybe_error))
+            {
+                Py_DECREF(outArray);
+                return NULL;
+            }
         }
         return (PyObject *)outArray;
     }
@@ -592,8 +604,11 @@ PyObject * DateStringToNanos(PyObject * self, PyObject * args)
             parser.ParseDateString(pNanoTime, arrayLength, pString, itemSize);
 
             const auto & maybe_error = parser.get_error();
-            if (maybe_error)
-                parsing_error_to_py_warning(*maybe_error);
+            if (maybe_error && ! parsing_error_to_py_warning(*maybe_error))
+            {
+                Py_DECREF(outArray);
+                return NULL;
+            }
         }
         else
         {
@@ -601,8 +616,11 @@ PyObject * DateStringToNanos(PyObject * self, PyObject * args)
             parser.ParseDateString(pNanoTime, arrayLength, (uint32_t *)pString, itemSize / 4);
 
             const auto & maybe_error = parser.get_error();
-            if (maybe_error)
-                parsing_error_to_py_warning(*maybe_error);
+            if (maybe_error && ! parsing_error_to_py_warning(*maybe_error))
+            {
+                Py_DECREF(outArray);
+                return NULL;
+            }
         }
         return (PyObject *)outArray;
     }
@@ -655,8 +673,11 @@ PyObject * DateTimeStringToNanos(PyObject * self, PyObject * args)
             parser.ParseDateTimeString(pNanoTime, arrayLength, pString, itemSize);
 
             const auto & maybe_error = parser.get_error();
-            if (maybe_error)
-                parsing_error_to_py_warning(*maybe_error);
+            if (maybe_error && ! parsing_error_to_py_warning(*maybe_error))
+            {
+                Py_DECREF(outArray);
+                return NULL;
+            }
         }
         else
         {
@@ -664,8 +685,11 @@ PyObject * DateTimeStringToNanos(PyObject * self, PyObject * args)
             parser.ParseDateTimeString(pNanoTime, arrayLength, (uint32_t *)pString, itemSize / 4);
 
             const auto & maybe_error = parser.get_error();
-            if (maybe_error)
-                parsing_error_to_py_warning(*maybe_error);
+            if (maybe_error && ! parsing_error_to_py_warning(*maybe_error))
+            {
+                Py_DECREF(outArray);
+                return NULL;
+            }
         }
         return (PyObject *)outArray;
     }
-- 
2.43.0


From 6a38fdcbc285bd24ec53adc68ce0555474e9f23d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:55 +0000
Subject: [PATCH 60/84] fix: date and time functions read strided arrays as
 contiguous

---
 src/DateTime.cpp | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/src/DateTime.cpp b/src/DateTime.cpp
index 6a12904..bc40e22 100644
--- a/src/DateTime.cpp
+++ b/src/DateTime.cpp
@@ -525,9 +525,15 @@ PyObject * TimeStringToNanos(PyObject * self, PyObject * args)
 
     if (outArray)
     {
+        ContiguousArray contiguous(inArr);
+        if (! contiguous.get())
+        {
+            Py_DECREF(outArray);
+            return NULL;
+        }
         int64_t itemSize = PyArray_ITEMSIZE(inArr);
         int64_t * pNanoTime = (int64_t *)PyArray_BYTES(outArray);
-        char * pString = (char *)PyArray_BYTES(inArr);
+        char * pString = (char *)PyArray_BYTES(contiguous.get());
 
         if (dType == NPY_STRING)
         {
@@ -594,9 +600,15 @@ PyObject * DateStringToNanos(PyObject * self, PyObject * args)
 
     if (outArray)
     {
+        ContiguousArray contiguous(inArr);
+        if (! contiguous.get())
+        {
+            Py_DECREF(outArray);
+            return NULL;
+        }
         int64_t itemSize = PyArray_ITEMSIZE(inArr);
         int64_t * pNanoTime = (int64_t *)PyArray_BYTES(outArray);
-        char * pString = (char *)PyArray_BYTES(inArr);
+        char * pString = (char *)PyArray_BYTES(contiguous.get());
 
         if (dType == NPY_STRING)
         {
@@ -663,9 +675,15 @@ PyObject * DateTimeStringToNanos(PyObject * self, PyObject * args)
 
     if (outArray)
     {
+        ContiguousArray contiguous(inArr);
+        if (! contiguous.get())
+        {
+            Py_DECREF(outArray);
+            return NULL;
+        }
         int64_t itemSize = PyArray_ITEMSIZE(inArr);
         int64_t * pNanoTime = (int64_t *)PyArray_BYTES(outArray);
-        char * pString = (char *)PyArray_BYTES(inArr);
+        char * pString = (char *)PyArray_BYTES(contiguous.get());
 
         if (dType == NPY_STRING)
         {
@@ -811,9 +829,15 @@ PyObject * StrptimeToNanos(PyObject * self, PyObject * args)
 
     if (outArray)
     {
+        ContiguousArray contiguous(inArr);
+        if (! contiguous.get())
+        {
+            Py_DECREF(outArray);
+            return NULL;
+        }
         int64_t itemSize = PyArray_ITEMSIZE(inArr);
         int64_t * pNanoTime = (int64_t *)PyArray_BYTES(outArray);
-        char * pString = (char *)PyArray_BYTES(inArr);
+        char * pString = (char *)PyArray_BYTES(contiguous.get());
 
         if (dType == NPY_STRING)
         {
-- 
2.43.0


From 5e523bf268113638df4efa5eee0fa586ab25ee9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:25 +0000
Subject: [PATCH 61/84] fix: a failed allocation of the zstd context was not an
 error

---
 src/ZstdCompress.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ZstdCompress.cpp b/src/ZstdCompress.cpp
index cc4843c..0047821 100644
--- a/src/ZstdCompress.cpp
+++ b/src/ZstdCompress.cpp
@@ -33,7 +33,7 @@ size_t ZstdCompressData(void * dst, size_t dstCapacity, const void * src, size_t
         if (! cctx)
         {
             LOGGING("Error creating ZSTD_CCtx\n");
-            return ZSTD_error_memory_allocation;
+            return (size_t)-ZSTD_error_memory_allocation;
         }
         else
         {
-- 
2.43.0


From d75c9c8316eacad4ad99eccbeebd89c7c1cb674f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:25 +0000
Subject: [PATCH 62/84] fix: BuildArrayInfo read the strides of an array
 without dimensions

---
 src/MultiKey.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MultiKey.cpp b/src/MultiKey.cpp
index c04d7cf..8183a1c 100644
--- a/src/MultiKey.cpp
+++ b/src/MultiKey.cpp
@@ -241,7 +241,7 @@ ArrayInfo * BuildArrayInfo(PyObject * listObject, int64_t * pTupleSize, int64_t
                 goto EXIT_ROUTINE;
             }
 
-            int64_t stride0 = PyArray_STRIDE((PyArrayObject *)inObject, 0);
+            int64_t stride0 = aInfo[i].NDim > 0 ? PyArray_STRIDE((PyArrayObject *)inObject, 0) : aInfo[i].ItemSize;
             int64_t itemSize = aInfo[i].ItemSize;
 
             if (checkrows)
-- 
2.43.0


From 93313de991a76386cdb50a965b08b59b1f9603e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:25 +0000
Subject: [PATCH 63/84] fix: compression failed for empty arrays and strings,
 trusted the header of compressed arrays and raised from worker threads

---
 src/Compress.cpp | 217 +++++++++++++++++++++++++++++++++--------------
 src/Compress.h   |   5 ++
 2 files changed, 157 insertions(+), 65 deletions(-)

diff --git a/src/Compress.cpp b/src/Compress.cpp
index 0330788..a727d49 100644
--- a/src/Compress.cpp
+++ b/src/Compress.cpp
@@ -62,48 +62,91 @@ NUMPY_HEADERSIZE * AllocCompressedMemory(int64_t arraylength, int32_t dtype, int
 }
 
 //-------------------------------------------------------
-// Decompress
-bool DecompressOneArray(void * pstCompressArraysV, int core, int64_t t)
+// Checks an array which is about to be decompressed: nothing in it can be trusted
+// Returns NULL if it is good, otherwise a description of what is wrong
+static const char * CheckCompressedArray(ArrayInfo * pInfo)
 {
-    COMPRESS_NUMPY_TO_NUMPY * pstCompressArrays = (COMPRESS_NUMPY_TO_NUMPY *)pstCompressArraysV;
-    ArrayInfo * aInfo = pstCompressArrays->aInfo;
+    if (! pInfo->pObject || pInfo->NDim != 1 || pInfo->ItemSize != 1 || pInfo->NumpyDType == NPY_OBJECT ||
+        pInfo->NumBytes < (int64_t)sizeof(NUMPY_HEADERSIZE))
+    {
+        return "not a compressed array";
+    }
+
+    NUMPY_HEADERSIZE header;
+    memcpy(&header, pInfo->pData, sizeof(header));
 
-    if (pstCompressArrays->pNumpyHeaders[t])
+    if (header.magic != COMPRESSION_MAGIC || header.compressiontype != COMPRESSION_TYPE_ZSTD)
     {
-        NUMPY_HEADERSIZE * pNumpyHeader = (NUMPY_HEADERSIZE *)pstCompressArrays->aInfo[t].pData;
+        return "not a compressed array";
+    }
 
-        void * source = &pNumpyHeader[1];
-        uint64_t dest_size = (uint64_t)ZSTD_getFrameContentSize(source, pNumpyHeader->compressedSize);
+    if (header.dtype < 0 || header.dtype > NPY_VOID || header.dtype == NPY_OBJECT || header.ndim < 1 || header.ndim > 3 ||
+        header.itemsize < 0)
+    {
+        return "bad type or dimensions in header";
+    }
 
-        switch (dest_size)
+    if (! PyTypeNum_ISFLEXIBLE(header.dtype))
+    {
+        if (NpyToSize(header.dtype) != header.itemsize)
         {
-        case ZSTD_CONTENTSIZE_UNKNOWN:
-        case ZSTD_CONTENTSIZE_ERROR:
-        case 0:
-            PyErr_Format(PyExc_ValueError, "input data invalid or missing content size in frame header");
-            return false;
-
-        default:
-            break;
+            return "bad item size in header";
         }
+    }
 
-        PyArrayObject * pArrayObject = pstCompressArrays->pNumpyArray[t];
-        void * dest = PyArray_BYTES(pArrayObject);
+    uint64_t const available = (uint64_t)pInfo->NumBytes - sizeof(NUMPY_HEADERSIZE);
+    if (header.compressedSize > available)
+    {
+        return "compressed data is cut off";
+    }
 
-        size_t cSize = ZSTD_decompress(dest, dest_size, source, pNumpyHeader->compressedSize);
+    uint64_t const contentSize =
+        (uint64_t)ZSTD_getFrameContentSize(pInfo->pData + sizeof(NUMPY_HEADERSIZE), header.compressedSize);
+    if (contentSize == ZSTD_CONTENTSIZE_UNKNOWN || contentSize == ZSTD_CONTENTSIZE_ERROR)
+    {
+        return "input data invalid or missing content size in frame header";
+    }
 
-        if (ZSTD_isError(cSize))
+    uint64_t total = (uint64_t)header.itemsize;
+    for (int i = 0; i < header.ndim; i++)
+    {
+        if (header.dimensions[i] < 0 || (total && (uint64_t)header.dimensions[i] > (uint64_t)INT64_MAX / total))
         {
-            PyErr_Format(PyExc_ValueError, "Decompression error: %s", ZSTD_getErrorName(cSize));
-            return false;
+            return "bad dimensions in header";
         }
-        else if (cSize != dest_size)
+        total *= (uint64_t)header.dimensions[i];
+    }
+    if (total != contentSize)
+    {
+        return "dimensions do not match the content size in frame header";
+    }
+    return NULL;
+}
+
+//-------------------------------------------------------
+// Decompress -- called from multiple threads, which must not use python
+// The arrays have been checked before, a failure is noted for the caller
+bool DecompressOneArray(void * pstCompressArraysV, int core, int64_t t)
+{
+    COMPRESS_NUMPY_TO_NUMPY * pstCompressArrays = (COMPRESS_NUMPY_TO_NUMPY *)pstCompressArraysV;
+    ArrayInfo * aInfo = pstCompressArrays->aInfo;
+
+    if (pstCompressArrays->pNumpyArray[t])
+    {
+        NUMPY_HEADERSIZE header;
+        memcpy(&header, aInfo[t].pData, sizeof(header));
+
+        const char * source = aInfo[t].pData + sizeof(NUMPY_HEADERSIZE);
+        size_t dest_size = (size_t)ZSTD_getFrameContentSize(source, header.compressedSize);
+        void * dest = PyArray_BYTES(pstCompressArrays->pNumpyArray[t]);
+
+        size_t cSize = ZSTD_decompress(dest, dest_size, source, header.compressedSize);
+
+        if (ZSTD_isError(cSize) || cSize != dest_size)
         {
-            PyErr_Format(PyExc_ValueError,
-                         "Decompression error: length mismatch -> decomp %llu != "
-                         "%llu [header]",
-                         (uint64_t)cSize, dest_size);
-            return false;
+            // any of the errors is reported, later
+            pstCompressArrays->decompressError.store(cSize);
+            pstCompressArrays->failed.store(true);
         }
     }
 
@@ -178,15 +221,36 @@ PyObject * CompressDecompressArrays(PyObject * self, PyObject * args)
         return NULL;
     }
 
+    if (mode != COMPRESSION_MODE_COMPRESS && mode != COMPRESSION_MODE_DECOMPRESS)
+    {
+        PyErr_Format(PyExc_ValueError, "Mode must be compress (0) or decompress (1), not %d", mode);
+        return NULL;
+    }
+
     int64_t totalItemSize = 0;
     int64_t tupleSize = 0;
     ArrayInfo * aInfo = BuildArrayInfo(inList1, &tupleSize, &totalItemSize, mode == COMPRESSION_MODE_COMPRESS);
 
+    if (aInfo && mode == COMPRESSION_MODE_COMPRESS)
+    {
+        for (int64_t t = 0; t < tupleSize; t++)
+        {
+            if (! aInfo[t].pObject || aInfo[t].NumpyDType == NPY_OBJECT)
+            {
+                PyErr_Format(PyExc_ValueError, "CompressDecompressArrays cannot compress None or arrays of objects");
+                FreeArrayInfo(aInfo);
+                return NULL;
+            }
+        }
+    }
+
     if (aInfo)
     {
         COMPRESS_NUMPY_TO_NUMPY * pstCompressArrays =
             (COMPRESS_NUMPY_TO_NUMPY *)WORKSPACE_ALLOC(sizeof(COMPRESS_NUMPY_TO_NUMPY) + (tupleSize * sizeof(NUMPY_HEADERSIZE *)));
         pstCompressArrays->totalHeaders = tupleSize;
+        new (&pstCompressArrays->failed) std::atomic<bool>(false);
+        new (&pstCompressArrays->decompressError) std::atomic<size_t>(0);
 
         //---------------------
         if (level <= 0)
@@ -224,30 +288,55 @@ PyObject * CompressDecompressArrays(PyObject * self, PyObject * args)
 
         case COMPRESSION_MODE_DECOMPRESS:
             {
-                for (int t = 0; t < tupleSize; t++)
+                const char * error = NULL;
+                int64_t allocated = 0;
+
+                // Allocate all the arrays before multithreading
+                for (int64_t t = 0; t < tupleSize; t++)
                 {
-                    NUMPY_HEADERSIZE * pNumpyHeader = (NUMPY_HEADERSIZE *)aInfo[t].pData;
-                    uint64_t dest_size = (uint64_t)ZSTD_getFrameContentSize(&pNumpyHeader[1], pNumpyHeader->compressedSize);
-                    switch (dest_size)
+                    error = CheckCompressedArray(&aInfo[t]);
+                    if (error)
                     {
-                    case ZSTD_CONTENTSIZE_UNKNOWN:
-                    case ZSTD_CONTENTSIZE_ERROR:
-                        PyErr_Format(PyExc_ValueError, "input data invalid or missing content size in frame header");
-                        return NULL;
-
-                    case 0: // empty is allowed
-                    default:
+                        PyErr_Format(PyExc_ValueError, "Decompression error: %s", error);
                         break;
                     }
 
-                    // Allocate all the arrays before multithreading
+                    NUMPY_HEADERSIZE header;
+                    memcpy(&header, aInfo[t].pData, sizeof(header));
+
                     // NOTE: do we care about flags -- what if Fortran mode when saved?
-                    pstCompressArrays->pNumpyArray[t] = AllocateNumpyArray(
-                        pNumpyHeader->ndim, (npy_intp *)pNumpyHeader->dimensions, pNumpyHeader->dtype, pNumpyHeader->itemsize);
-                    CHECK_MEMORY_ERROR(pstCompressArrays->pNumpyArray[t]);
+                    pstCompressArrays->pNumpyArray[t] =
+                        AllocateNumpyArray(header.ndim, (npy_intp *)header.dimensions, header.dtype, header.itemsize);
+                    if (! pstCompressArrays->pNumpyArray[t])
+                    {
+                        CHECK_MEMORY_ERROR(pstCompressArrays->pNumpyArray[t]);
+                        break;
+                    }
+                    allocated++;
+                }
+
+                if (allocated == tupleSize)
+                {
+                    g_cMathWorker->DoMultiThreadedWork((int)tupleSize, DecompressOneArray, pstCompressArrays);
+
+                    if (pstCompressArrays->failed.load())
+                    {
+                        size_t const code = pstCompressArrays->decompressError.load();
+                        PyErr_Format(PyExc_ValueError, "Decompression error: %s",
+                                     ZSTD_isError(code) ? ZSTD_getErrorName(code) : "length mismatch");
+                    }
                 }
 
-                g_cMathWorker->DoMultiThreadedWork((int)tupleSize, DecompressOneArray, pstCompressArrays);
+                if (PyErr_Occurred())
+                {
+                    for (int64_t t = 0; t < allocated; t++)
+                    {
+                        Py_DECREF(pstCompressArrays->pNumpyArray[t]);
+                    }
+                    WORKSPACE_FREE(pstCompressArrays);
+                    FreeArrayInfo(aInfo);
+                    return NULL;
+                }
             }
             break;
         }
@@ -405,30 +494,24 @@ PyObject * CompressString(PyObject * self, PyObject * args)
         return NULL;
     }
 
-    if (source_size > 0)
-    {
-        dest = PyBytes_AS_STRING(result);
-
-        printf("trying to compress %s  size:%zu  dest_size:%zu %d\n", source, source_size, dest_size, level);
+    dest = PyBytes_AS_STRING(result);
 
-        cSize = ZstdCompressData(dest, dest_size, source, source_size, level);
+    LOGGING("trying to compress %s  size:%zu  dest_size:%zu %d\n", source, source_size, dest_size, level);
 
-        printf("compressed to %zu\n", cSize);
+    // an empty string is compressed as well, to a frame without content
+    cSize = ZstdCompressData(dest, dest_size, source, source_size, level);
 
-        if (ZSTD_isError(cSize))
-        {
-            PyErr_Format(PyExc_ValueError, "Compression error: %s", ZSTD_getErrorName(cSize));
-            Py_CLEAR(result);
-            return NULL;
-        }
+    LOGGING("compressed to %zu\n", cSize);
 
-// Py3.9 intoduced Py_SET_SIZE(), and it's preferred over using Py_SIZE() as an l-value.
-#if defined(Py_SET_SIZE)
-        Py_SET_SIZE(result, cSize);
-#else
-        Py_SIZE(result) = cSize;
-#endif // defined(Py_SET_SIZE)
+    if (ZSTD_isError(cSize))
+    {
+        PyErr_Format(PyExc_ValueError, "Compression error: %s", ZSTD_getErrorName(cSize));
+        Py_CLEAR(result);
+        return NULL;
     }
+
+    // on failure this sets the error and result becomes NULL
+    _PyBytes_Resize(&result, (Py_ssize_t)cSize);
     return result;
 }
 
@@ -457,11 +540,15 @@ PyObject * DecompressString(PyObject * self, PyObject * args)
     {
     case ZSTD_CONTENTSIZE_UNKNOWN:
     case ZSTD_CONTENTSIZE_ERROR:
-    case 0:
         PyErr_Format(PyExc_ValueError, "input data invalid or missing content size in frame header");
         return NULL;
 
     default:
+        if (dest_size > (uint64_t)PY_SSIZE_T_MAX)
+        {
+            PyErr_Format(PyExc_ValueError, "input data invalid, bad content size in frame header");
+            return NULL;
+        }
         break;
     }
     result = PyBytes_FromStringAndSize(NULL, dest_size);
diff --git a/src/Compress.h b/src/Compress.h
index d09fdb9..bd6b005 100644
--- a/src/Compress.h
+++ b/src/Compress.h
@@ -1,5 +1,6 @@
 #pragma once
 #include "RipTide.h"
+#include <atomic>
 
 /*-=====  Pre-defined compression levels  =====-*/
 #ifndef ZSTD_CLEVEL_DEFAULT
@@ -75,6 +76,10 @@ struct COMPRESS_NUMPY_TO_NUMPY
     int16_t compType;
     int32_t compLevel;
 
+    // set by the threads which decompress
+    std::atomic<bool> failed;
+    std::atomic<size_t> decompressError;
+
     // Per core allocations
     void * pCoreMemory[64];
 
-- 
2.43.0


From 3711a381d2fa4eb7694b037346e4fa404de69f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:16 +0000
Subject: [PATCH 64/84] fix: an empty array written without compression was
 lost, and a band size beyond 32 bits or with empty rows broke the file

---
 src/SDSFile.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/SDSFile.cpp b/src/SDSFile.cpp
index e489f76..9ec9618 100644
--- a/src/SDSFile.cpp
+++ b/src/SDSFile.cpp
@@ -2581,6 +2581,7 @@ bool CompressFileArray(void * pstCompressArraysV, int32_t core, int64_t t)
             {
                 // turn off banding, no dims
                 bandSize = 0;
+                bandCount = 0;
             }
         }
 
@@ -2607,11 +2608,16 @@ bool CompressFileArray(void * pstCompressArraysV, int32_t core, int64_t t)
     {
         logger->debug("+");
     }
+    else
+    {
+        // written as is, no temporary memory needed
+        wantedSize = 0;
+    }
 
     void * pTempMemory = pstCompressArrays->pCoreMemory[core];
 
     // Make sure we were able to alloc memory
-    if (pTempMemory)
+    if (pTempMemory || wantedSize == 0)
     {
         logger->debug("[{}] started {} {}", (int)t, source_size, pTempMemory);
 
@@ -2871,6 +2877,8 @@ bool SDSWriteFileInternal(const char * fileName,
     // clamp bandsize to 10K min
     if (bandSize < 10000 && bandSize > 0)
         bandSize = 10000;
+    if (bandSize > INT32_MAX)
+        bandSize = INT32_MAX;
 
     // TODO: put in class
     SDS_FILE_HEADER FileHeader;
-- 
2.43.0


From d9479c28cbf235054cbd03a66cf388a5ac088ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:16 +0000
Subject: [PATCH 65/84] fix: failed writes of an SDS file were ignored, and an
 interrupted append lost the sections in the file

---
 src/SDSFile.cpp | 254 ++++++++++++++++++++++++++++++------------------
 1 file changed, 158 insertions(+), 96 deletions(-)

diff --git a/src/SDSFile.cpp b/src/SDSFile.cpp
index 9ec9618..6e27e3c 100644
--- a/src/SDSFile.cpp
+++ b/src/SDSFile.cpp
@@ -1947,9 +1947,9 @@ void FillFileHeader(SDS_FILE_HEADER * pFileHeader, int64_t fileOffset, int16_t c
 //}
 
 //----------------------------------------
-// Returns: -1 file will be closed
+// Returns: -1 on error
 // Returns: 0 file is ok
-int64_t ReadFileHeader(SDS_FILE_HANDLE fileHandle, SDS_FILE_HEADER * pFileHeader, int64_t fileOffset, const char * fileName)
+static int64_t ReadFileHeaderKeepOpen(SDS_FILE_HANDLE fileHandle, SDS_FILE_HEADER * pFileHeader, int64_t fileOffset, const char * fileName)
 {
     size_t bytesRead = DefaultFileIO.FileReadChunk(NULL, fileHandle, pFileHeader, sizeof(SDS_FILE_HEADER), fileOffset);
 
@@ -1957,7 +1957,6 @@ int64_t ReadFileHeader(SDS_FILE_HANDLE fileHandle, SDS_FILE_HEADER * pFileHeader
     {
         SetErr_Format(SDS_VALUE_ERROR, "Decompression error cannot read header for file: %s.  Error: %s", fileName,
                       GetLastErrorMessage());
-        DefaultFileIO.FileClose(fileHandle);
         return -1;
     }
 
@@ -1977,13 +1976,25 @@ int64_t ReadFileHeader(SDS_FILE_HANDLE fileHandle, SDS_FILE_HEADER * pFileHeader
                           "different filetype): %s  %d  arrays: %lld  fileoffset: %lld",
                           fileName, (int)(pFileHeader->SDSHeaderMagic), pFileHeader->ArraysWritten, fileOffset);
         }
-        DefaultFileIO.FileClose(fileHandle);
         return -1;
     }
 
     return 0;
 }
 
+//----------------------------------------
+// Returns: -1 file will be closed
+// Returns: 0 file is ok
+int64_t ReadFileHeader(SDS_FILE_HANDLE fileHandle, SDS_FILE_HEADER * pFileHeader, int64_t fileOffset, const char * fileName)
+{
+    int64_t result = ReadFileHeaderKeepOpen(fileHandle, pFileHeader, fileOffset, fileName);
+    if (result != 0)
+    {
+        DefaultFileIO.FileClose(fileHandle);
+    }
+    return result;
+}
+
 //----------------------------------------
 //
 //-----------------------------------------------------------
@@ -1996,8 +2007,12 @@ int64_t SDSSectionName::BuildSectionNamesAndOffsets(char ** pListNames, // Retur
                                                     int64_t newSectionOffset // 0 Allowed
 )
 {
-    // alloc worst case scenario
-    int64_t allocSize = SDS_PAD_NUMBER((((SDS_MAX_SECTIONNAME + 8) * (SectionCount + 1)) + 1024));
+    int64_t allocSize = strlen(pNewSectionName) + 1 + sizeof(int64_t);
+    for (int32_t i = 0; i < SectionCount; i++)
+    {
+        allocSize += strlen(pSectionNames[i]) + 1 + sizeof(int64_t);
+    }
+    allocSize = SDS_PAD_NUMBER(allocSize);
 
     *pListNames = (char *)WORKSPACE_ALLOC(allocSize);
 
@@ -2005,6 +2020,7 @@ int64_t SDSSectionName::BuildSectionNamesAndOffsets(char ** pListNames, // Retur
     {
         return 0;
     }
+    memset(*pListNames, 0, allocSize);
 
     char * pStart = *pListNames;
     char * pDest = *pListNames;
@@ -2296,18 +2312,20 @@ SDS_FILE_HANDLE StartCompressedFile(const char * fileName, SDS_FILE_HEADER * pFi
 
     pFileHeader->TotalMetaCompressedSize = cSize;
     pFileHeader->TotalMetaUncompressedSize = strMetaLength;
-    DefaultFileIO.FileWriteChunk(NULL, fileHandle, pFileHeader, sizeof(SDS_FILE_HEADER), fileOffset);
+    bool writeFailed = DefaultFileIO.FileWriteChunk(NULL, fileHandle, pFileHeader, sizeof(SDS_FILE_HEADER), fileOffset) !=
+                       sizeof(SDS_FILE_HEADER);
 
     logger->debug("meta compressed to {} vs {}  {}", cSize, strMetaLength, sizeof(SDS_FILE_HEADER));
 
     if (listNameLength)
     {
-        DefaultFileIO.FileWriteChunk(NULL, fileHandle, (void *)listNames, listNameLength, pFileHeader->NameBlockOffset);
+        writeFailed |= DefaultFileIO.FileWriteChunk(NULL, fileHandle, (void *)listNames, listNameLength,
+                                                    pFileHeader->NameBlockOffset) != listNameLength;
     }
 
     if (cSize)
     {
-        DefaultFileIO.FileWriteChunk(NULL, fileHandle, dest, cSize, pFileHeader->MetaBlockOffset);
+        writeFailed |= DefaultFileIO.FileWriteChunk(NULL, fileHandle, dest, cSize, pFileHeader->MetaBlockOffset) != cSize;
     }
 
     //// PAD THE REST OUT
@@ -2326,32 +2344,45 @@ SDS_FILE_HANDLE StartCompressedFile(const char * fileName, SDS_FILE_HEADER * pFi
         WORKSPACE_FREE(dest);
     }
 
+    if (writeFailed)
+    {
+        SetErr_Format(SDS_VALUE_ERROR, "Compression error cannot write to file: %s.  Error: %s", fileName, GetLastErrorMessage());
+        DefaultFileIO.FileClose(fileHandle);
+        return BAD_SDS_HANDLE;
+    }
+
     return fileHandle;
 }
 
 //-------------------------------------------------------
-// NOTE: Should sdsFileHandle be passed as a pointer?  are we closing files
-// twice? Will close file Will free any memory allocated for the arrayblocks and
-// set pointer to NULL
-//-------------------------------------------------------
-void EndCompressedFile(SDS_FILE_HANDLE sdsFile, SDS_FILE_HEADER * pFileHeader, SDS_ARRAY_BLOCK * pArrayBlocks,
-                       SDS_WRITE_INFO * pWriteInfo)
+// Write the array headers, the fileheader and the section directory of a new section.
+// The order matters: until the first fileheader of the file is rewritten at the very end,
+// the sections already in the file stay as they are.
+// On error sets the last exception.
+static void FinishCompressedFile(SDS_FILE_HANDLE sdsFile, SDS_FILE_HEADER * pFileHeader, SDS_ARRAY_BLOCK * pArrayBlocks,
+                                 SDS_WRITE_INFO * pWriteInfo, int64_t LastFileOffset)
 {
-    // close it out
+    int64_t result =
+        DefaultFileIO.FileWriteChunk(NULL, sdsFile, pArrayBlocks, pFileHeader->ArrayBlockSize, pFileHeader->ArrayBlockOffset);
+    logger->debug("array block offset --- {} {}", pFileHeader->ArrayBlockOffset, pFileHeader->ArrayBlockSize);
+    if (result != pFileHeader->ArrayBlockSize)
+    {
+        SetErr_Format(SDS_VALUE_ERROR, "Compression error cannot write array headers at offset %lld\n",
+                      (long long)pFileHeader->ArrayBlockOffset);
+        return;
+    }
 
-    logger->debug("SDS: Array first offset --- {}   Total comp size {}", pFileHeader->ArrayFirstOffset,
-                  pFileHeader->TotalArrayCompressedSize);
+    SDSSectionName cSDSSectionName;
+    char * pListNames = NULL;
 
-    int64_t LastFileOffset = pFileHeader->GetEndOfFileOffset();
+    // The section directory and the first fileheader that refers to it
+    SDS_FILE_HEADER fileHeader;
+    SDS_FILE_HEADER * pFirstHeader = pFileHeader;
+    int64_t directorySize = 0;
 
     // Check if the user is appending to an existing file
     if (pWriteInfo->sectionName)
     {
-        SDSSectionName cSDSSectionName;
-
-        // This is the first section name
-        char * pListNames = NULL;
-
         // Are we the first entry?
         if (pFileHeader->FileOffset == 0)
         {
@@ -2366,100 +2397,124 @@ void EndCompressedFile(SDS_FILE_HANDLE sdsFile, SDS_FILE_HEADER * pFileHeader, S
             pFileHeader->SectionBlockOffset = LastFileOffset;
             pFileHeader->SectionBlockSize = sectionSize;
             pFileHeader->SectionBlockReservedSize = SDS_PAD_NUMBER(sectionSize);
-
-            // write first section header
-            int64_t result = DefaultFileIO.FileWriteChunk(NULL, sdsFile, pListNames, pFileHeader->SectionBlockReservedSize,
-                                                          pFileHeader->SectionBlockOffset);
-
-            if (result != pFileHeader->SectionBlockReservedSize)
-            {
-                SetErr_Format(SDS_VALUE_ERROR, "Compression error cannot append section %lld at %lld",
-                              pFileHeader->SectionBlockReservedSize, pFileHeader->SectionBlockOffset);
-            }
+            directorySize = pFileHeader->SectionBlockReservedSize;
         }
         else
         {
-            // old fileheader
-            SDS_FILE_HEADER fileHeader;
-
             // read in the first file header to get section information since we are
             // appending another section
-            int64_t result = ReadFileHeader(sdsFile, &fileHeader, 0, "reread");
-
-            if (result == 0)
+            if (ReadFileHeaderKeepOpen(sdsFile, &fileHeader, 0, "reread") != 0)
             {
-                char * pSectionNames = cSDSSectionName.ReadListSections(sdsFile, &fileHeader);
-
-                // If the user is appending a section for the first time but the file
-                // already exists. In this case the blockcount is really 1 but the first
-                // section has no name
-                if (! pSectionNames)
-                {
-                    pSectionNames = cSDSSectionName.MakeFirstSectionName();
-                    fileHeader.SectionBlockCount = 1;
-                }
-
-                int64_t blockCount = fileHeader.SectionBlockCount;
+                return;
+            }
+            pFirstHeader = &fileHeader;
 
-                logger->debug(
-                    "SDS: Writing section {} with blockcount:{} at {} ({}) "
-                    "at {}",
-                    pWriteInfo->sectionName, blockCount, pFileHeader->FileOffset, fileHeader.FileOffset, LastFileOffset);
-                int64_t sectionSize =
-                    cSDSSectionName.BuildSectionNamesAndOffsets(&pListNames, pWriteInfo->sectionName, pFileHeader->FileOffset);
+            char * pSectionNames = cSDSSectionName.ReadListSections(sdsFile, &fileHeader);
+            if (g_lastexception)
+            {
+                return;
+            }
 
-                // Mark this section as older
-                fileHeader.SectionBlockCount = blockCount + 1;
-                fileHeader.SectionBlockSize = sectionSize;
+            // If the user is appending a section for the first time but the file
+            // already exists. In this case the blockcount is really 1 but the first
+            // section has no name
+            if (! pSectionNames)
+            {
+                pSectionNames = cSDSSectionName.MakeFirstSectionName();
+                fileHeader.SectionBlockCount = 1;
+            }
 
-                logger->debug("SDS: new section size {} vs {}", sectionSize, fileHeader.SectionBlockReservedSize);
+            int64_t blockCount = fileHeader.SectionBlockCount;
 
-                if (fileHeader.SectionBlockReservedSize < sectionSize)
-                {
-                    // new section with new block offset
-                    fileHeader.SectionBlockOffset = LastFileOffset;
-                    fileHeader.SectionBlockReservedSize = SDS_PAD_NUMBER(sectionSize);
-                }
-            }
+            logger->debug(
+                "SDS: Writing section {} with blockcount:{} at {} ({}) "
+                "at {}",
+                pWriteInfo->sectionName, blockCount, pFileHeader->FileOffset, fileHeader.FileOffset, LastFileOffset);
+            int64_t sectionSize =
+                cSDSSectionName.BuildSectionNamesAndOffsets(&pListNames, pWriteInfo->sectionName, pFileHeader->FileOffset);
 
-            // update or rewrite section header
-            result = DefaultFileIO.FileWriteChunk(NULL, sdsFile, pListNames, fileHeader.SectionBlockReservedSize,
-                                                  fileHeader.SectionBlockOffset);
+            // Mark this section as older
+            fileHeader.SectionBlockCount = blockCount + 1;
+            fileHeader.SectionBlockSize = sectionSize;
+            directorySize = sectionSize;
 
-            if (result != fileHeader.SectionBlockReservedSize)
-            {
-                SetErr_Format(SDS_VALUE_ERROR, "Compression error cannot append section %lld at %lld",
-                              fileHeader.SectionBlockReservedSize, fileHeader.SectionBlockOffset);
-            }
+            logger->debug("SDS: new section size {} vs {}", sectionSize, fileHeader.SectionBlockReservedSize);
 
-            // update first file header
-            result = DefaultFileIO.FileWriteChunk(NULL, sdsFile, &fileHeader, sizeof(SDS_FILE_HEADER), 0);
-            if (result != sizeof(SDS_FILE_HEADER))
+            if (fileHeader.SectionBlockReservedSize < sectionSize)
             {
-                SetErr_Format(SDS_VALUE_ERROR, "Compression error cannot rewrite fileheader\n");
+                // new section with new block offset
+                fileHeader.SectionBlockOffset = LastFileOffset;
+                fileHeader.SectionBlockReservedSize = SDS_PAD_NUMBER(sectionSize);
+                directorySize = fileHeader.SectionBlockReservedSize;
             }
         }
 
-        if (pListNames)
-            WORKSPACE_FREE(pListNames);
+        if (! pListNames)
+        {
+            SetErr_Format(SDS_VALUE_ERROR, "Compression error cannot allocate the section directory\n");
+            return;
+        }
     }
 
     // Timestamp
     pFileHeader->TimeStampUTCNanos = GetUTCNanos();
 
-    int64_t result = DefaultFileIO.FileWriteChunk(NULL, sdsFile, pFileHeader, sizeof(SDS_FILE_HEADER), pFileHeader->FileOffset);
-    if (result != sizeof(SDS_FILE_HEADER))
+    // the fileheader of an appended section
+    if (pFirstHeader != pFileHeader)
+    {
+        result = DefaultFileIO.FileWriteChunk(NULL, sdsFile, pFileHeader, sizeof(SDS_FILE_HEADER), pFileHeader->FileOffset);
+        if (result != sizeof(SDS_FILE_HEADER))
+        {
+            SetErr_Format(SDS_VALUE_ERROR, "Compression error cannot write fileheader at offset %lld\n", pFileHeader->FileOffset);
+        }
+    }
+
+    // write, update or rewrite the section directory
+    if (pListNames)
+    {
+        if (g_lastexception == 0)
+        {
+            result = DefaultFileIO.FileWriteChunk(NULL, sdsFile, pListNames, directorySize, pFirstHeader->SectionBlockOffset);
+            if (result != directorySize)
+            {
+                SetErr_Format(SDS_VALUE_ERROR, "Compression error cannot append section %lld at %lld", directorySize,
+                              pFirstHeader->SectionBlockOffset);
+            }
+        }
+        WORKSPACE_FREE(pListNames);
+    }
+
+    // the first fileheader
+    if (g_lastexception == 0)
     {
-        SetErr_Format(SDS_VALUE_ERROR, "Compression error cannot write fileheader at offset %lld\n", pFileHeader->FileOffset);
+        result = DefaultFileIO.FileWriteChunk(NULL, sdsFile, pFirstHeader, sizeof(SDS_FILE_HEADER), 0);
+        if (result != sizeof(SDS_FILE_HEADER))
+        {
+            SetErr_Format(SDS_VALUE_ERROR, "Compression error cannot rewrite fileheader\n");
+        }
     }
     logger->debug("Total arrays written {}  --- {} {}", pFileHeader->ArraysWritten, sizeof(SDS_FILE_HEADER), result);
+}
 
-    result = DefaultFileIO.FileWriteChunk(NULL, sdsFile, pArrayBlocks, pFileHeader->ArrayBlockSize, pFileHeader->ArrayBlockOffset);
-    logger->debug("array block offset --- {} {}  {}", pFileHeader->ArrayBlockOffset, pFileHeader->ArrayBlockSize,
-                  pArrayBlocks[0].ArrayDataOffset);
-    if (result != pFileHeader->ArrayBlockSize)
+//-------------------------------------------------------
+// NOTE: Should sdsFileHandle be passed as a pointer?  are we closing files
+// twice? Will close file Will free any memory allocated for the arrayblocks and
+// set pointer to NULL
+//-------------------------------------------------------
+void EndCompressedFile(SDS_FILE_HANDLE sdsFile, SDS_FILE_HEADER * pFileHeader, SDS_ARRAY_BLOCK * pArrayBlocks,
+                       SDS_WRITE_INFO * pWriteInfo)
+{
+    // close it out
+
+    logger->debug("SDS: Array first offset --- {}   Total comp size {}", pFileHeader->ArrayFirstOffset,
+                  pFileHeader->TotalArrayCompressedSize);
+
+    int64_t LastFileOffset = pFileHeader->GetEndOfFileOffset();
+
+    // If anything went wrong so far, leave the file as it is: what was written is not part of the file
+    if (g_lastexception == 0)
     {
-        logger->error("!!!Internal error closing compressed file");
+        FinishCompressedFile(sdsFile, pFileHeader, pArrayBlocks, pWriteInfo, LastFileOffset);
     }
 
     DefaultFileIO.FileClose(sdsFile);
@@ -2590,6 +2645,11 @@ bool CompressFileArray(void * pstCompressArraysV, int32_t core, int64_t t)
         // If banding is on, we store the last offset upfront
         wantedSize += bandCount * sizeof(int64_t);
     }
+    else
+    {
+        // written as is, no temporary memory needed
+        wantedSize = 0;
+    }
 
     if (pstCompressArrays->pCoreMemorySize[core] < wantedSize)
     {
@@ -2608,11 +2668,6 @@ bool CompressFileArray(void * pstCompressArraysV, int32_t core, int64_t t)
     {
         logger->debug("+");
     }
-    else
-    {
-        // written as is, no temporary memory needed
-        wantedSize = 0;
-    }
 
     void * pTempMemory = pstCompressArrays->pCoreMemory[core];
 
@@ -2762,8 +2817,15 @@ bool CompressFileArray(void * pstCompressArraysV, int32_t core, int64_t t)
                 "[{}] error while writing into compressed  offset:{}  sz: {} "
                 " vs {}",
                 t, fileOffset, cSize, result);
+            SetErr_Format(SDS_VALUE_ERROR, "Compression error cannot write array %lld at offset %lld", (long long)t,
+                          (long long)fileOffset);
         }
     }
+    else
+    {
+        SetErr_Format(SDS_VALUE_ERROR, "Compression error cannot allocate %lld bytes for array %lld", (long long)wantedSize,
+                      (long long)t);
+    }
 
     return true;
 }
-- 
2.43.0


From 8f43f15e8d4bda57e1603b6d777284b7b90f4f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:16 +0000
Subject: [PATCH 66/84] fix: CompressFile overflowed with long names, truncated
 arrays of more than five dimensions and crashed on bad arguments

---
 src/SDSFilePython.cpp | 132 +++++++++++++++++++++++++++---------------
 1 file changed, 84 insertions(+), 48 deletions(-)

diff --git a/src/SDSFilePython.cpp b/src/SDSFilePython.cpp
index 994343f..0afcd45 100644
--- a/src/SDSFilePython.cpp
+++ b/src/SDSFilePython.cpp
@@ -363,7 +363,7 @@ static bool CheckErrors()
 {
     if (g_lastexception)
     {
-        PyErr_Format(PyExc_ValueError, g_errorbuffer);
+        PyErr_Format(PyExc_ValueError, "%s", g_errorbuffer);
         return true;
     }
     return false;
@@ -448,7 +448,7 @@ SDS_STRING_LIST * StringListToVector(PyObject * listFilenames)
             }
             else if (PyUnicode_Check(pBytes))
             {
-                PyObject * temp2 = PyUnicode_AsASCIIString(pBytes);
+                PyObject * temp2 = PyUnicode_AsUTF8String(pBytes);
                 if (temp2 != NULL)
                 {
                     fileName = PyBytes_AsString(temp2);
@@ -474,50 +474,42 @@ SDS_STRING_LIST * StringListToVector(PyObject * listFilenames)
 // Output: Write to pListNames.
 //         ASCIIZ strings follow by UINT8 enum (string1, 0, enum1, string2, 0,
 //         enum2, etc.)
-// Returns: Length of data in pListNames
+//         Pass NULL to get the length only
+// Returns: Length of data in pListNames or -1 with an exception set
 //
 int64_t BuildListInfo(PyListObject * inListNames, OUT char * pListNames)
 {
     int64_t listNameCount = PyList_GET_SIZE(inListNames);
-    char * pStart = pListNames;
+    int64_t length = 0;
 
     for (int i = 0; i < listNameCount; i++)
     {
         PyObject * pTuple = PyList_GET_ITEM(inListNames, i);
 
-        if (pTuple && PyTuple_Check(pTuple))
+        if (! PyTuple_Check(pTuple) || PyTuple_GET_SIZE(pTuple) < 2 || ! PyBytes_Check(PyTuple_GET_ITEM(pTuple, 0)) ||
+            ! PyLong_Check(PyTuple_GET_ITEM(pTuple, 1)))
         {
-            PyObject * pBytes = PyTuple_GET_ITEM(pTuple, 0);
-
-            if (PyBytes_Check(pBytes))
-            {
-                int overflow = 0;
-                int64_t value = PyLong_AsLongLongAndOverflow(PyTuple_GET_ITEM(pTuple, 1), &overflow);
-                int64_t strSize = Py_SIZE(pBytes);
-
-                char * pName = PyBytes_AS_STRING(pBytes);
-                LOGGING("Name is %s -- size %d  value %d\n", pName, (int)strSize, (int)value);
+            PyErr_Format(PyExc_ValueError, "array names must be a list of tuples (bytes, int)");
+            return -1;
+        }
 
-                while ((*pListNames++ = *pName++))
-                    ;
+        int overflow = 0;
+        int64_t value = PyLong_AsLongLongAndOverflow(PyTuple_GET_ITEM(pTuple, 1), &overflow);
+        const char * pName = PyBytes_AS_STRING(PyTuple_GET_ITEM(pTuple, 0));
+        int64_t strSize = strlen(pName) + 1;
+        LOGGING("Name is %s -- size %d  value %d\n", pName, (int)strSize, (int)value);
 
-                // Store the 1 byte enum type
-                *pListNames++ = (uint8_t)value;
-            }
-            else
-            {
-                printf(
-                    "!!internal error processing, check that list is in bytes "
-                    "instead of unicode\n");
-            }
-        }
-        else
+        if (pListNames)
         {
-            printf("!!internal error2 processing, is it a list of tuples?\n");
+            memcpy(pListNames + length, pName, strSize);
+
+            // Store the 1 byte enum type
+            pListNames[length + strSize] = (uint8_t)value;
         }
+        length += strSize + 1;
     }
 
-    return pListNames - pStart;
+    return length;
 }
 
 /**
@@ -1180,7 +1172,7 @@ void * ReadFinalStack(SDS_STACK_CALLBACK * pSDSFinalCallback, int64_t finalCount
 // free string with WORKSPACE_FREE
 void CopyUnicodeString(PyObject * pUnicode, char ** returnString, int64_t * returnSize)
 {
-    PyObject * temp2 = PyUnicode_AsASCIIString(pUnicode);
+    PyObject * temp2 = PyUnicode_AsUTF8String(pUnicode);
     if (temp2 != NULL)
     {
         *returnString = PyBytes_AsString(temp2);
@@ -1196,7 +1188,7 @@ void CopyUnicodeString(PyObject * pUnicode, char ** returnString, int64_t * retu
     else
     {
         *returnString = NULL;
-        *returnSize = strlen(*returnString);
+        *returnSize = 0;
     }
 }
 
@@ -1334,11 +1326,19 @@ PyObject * CompressFile(PyObject * self, PyObject * args, PyObject * kwargs)
 
     LOGGING("In CompressFile %s\n", fileName);
 
+    // Handle list of names ------------------------------------------------------
+    int64_t listNameCount = PyList_GET_SIZE(inListNames);
+
+    LOGGING("Name count is %d\n", (int)listNameCount);
+
+    int64_t listNameSize = BuildListInfo(inListNames, NULL);
+    if (listNameSize < 0)
+    {
+        return NULL;
+    }
+
     // Check for kwargs: folders, bandsize, section
     //
-    SDS_STRING_LIST * folderName = GetFoldersName(kwargs);
-    int64_t bandSize = GetBandSize(kwargs);
-
     char * pSectionName = NULL;
     int64_t sectionSize = 0;
 
@@ -1347,6 +1347,22 @@ PyObject * CompressFile(PyObject * self, PyObject * args, PyObject * kwargs)
     if (sectionSize >= SDS_MAX_SECTIONNAME)
     {
         PyErr_Format(PyExc_ValueError, "section name too large: %lld", sectionSize);
+        WORKSPACE_FREE(pSectionName);
+        return NULL;
+    }
+
+    SDS_STRING_LIST * folderName = GetFoldersName(kwargs);
+    int64_t bandSize = GetBandSize(kwargs);
+    if (PyErr_Occurred())
+    {
+        if (pSectionName)
+        {
+            WORKSPACE_FREE(pSectionName);
+        }
+        if (folderName)
+        {
+            DestroyStringList(folderName);
+        }
         return NULL;
     }
 
@@ -1354,20 +1370,14 @@ PyObject * CompressFile(PyObject * self, PyObject * args, PyObject * kwargs)
 
     ClearErrors();
 
-    // Handle list of names ------------------------------------------------------
-    int64_t listNameCount = PyList_GET_SIZE(inListNames);
-
-    LOGGING("Name count is %d\n", (int)listNameCount);
-
-    // alloc worst case scenario
-    char * pListNames = (char *)WORKSPACE_ALLOC((SDS_MAX_FILENAME * listNameCount) + 8);
+    char * pListNames = (char *)WORKSPACE_ALLOC(listNameSize + 8);
     if (! pListNames)
     {
-        return NULL;
+        return PyErr_NoMemory();
     }
 
     // Process list of names tuples
-    int64_t listNameSize = BuildListInfo(inListNames, pListNames);
+    BuildListInfo(inListNames, pListNames);
 
     // Handle list of numpy arrays -----------------------------------
     int64_t totalItemSize = 0;
@@ -1376,7 +1386,21 @@ PyObject * CompressFile(PyObject * self, PyObject * args, PyObject * kwargs)
     ArrayInfo * aInfo = BuildArrayInfo(inListArrays, &arrayCount, &totalItemSize, false);
 
     // CHECK FOR ERRORS
-    if (aInfo)
+    // An array with more dimensions than a file can hold must be C contiguous, see below
+    bool result = aInfo != NULL;
+
+    for (int64_t i = 0; result && i < arrayCount; i++)
+    {
+        if (aInfo[i].pObject && aInfo[i].NDim > SDS_MAX_DIMS &&
+            ! (PyArray_FLAGS((PyArrayObject *)(aInfo[i].pObject)) & SDS_ARRAY_C_CONTIGUOUS))
+        {
+            PyErr_Format(PyExc_ValueError, "array %lld has too many dimensions: %d", i, (int)aInfo[i].NDim);
+            FreeArrayInfo(aInfo);
+            result = false;
+        }
+    }
+
+    if (result)
     {
         SDS_WRITE_CALLBACKS SDSWriteCallbacks;
 
@@ -1404,7 +1428,7 @@ PyObject * CompressFile(PyObject * self, PyObject * args, PyObject * kwargs)
             int32_t ndim = pSrc->NDim;
             if (ndim > SDS_MAX_DIMS)
             {
-                printf("!!!SDS: array dimensions too high: %d\n", ndim);
+                // the remaining dimensions are multiplied together
                 ndim = SDS_MAX_DIMS;
             }
             // if (ndim < 1) {
@@ -1431,6 +1455,12 @@ PyObject * CompressFile(PyObject * self, PyObject * args, PyObject * kwargs)
                     pDest->Strides[dim_idx] = pstrides[dim_idx];
                 }
 
+                for (int dim_idx = SDS_MAX_DIMS; dim_idx < pSrc->NDim; dim_idx++)
+                {
+                    pDest->Dimensions[SDS_MAX_DIMS - 1] *= pdims[dim_idx];
+                    pDest->Strides[SDS_MAX_DIMS - 1] = pstrides[dim_idx];
+                }
+
                 pDest->Flags = PyArray_FLAGS((PyArrayObject *)(pSrc->pObject));
 
                 // make sure C or F contiguous
@@ -1488,7 +1518,7 @@ PyObject * CompressFile(PyObject * self, PyObject * args, PyObject * kwargs)
             SDSWriteInfo.sectionNameSize = sectionSize;
         }
 
-        bool result = SDSWriteFile(fileName,
+        result = SDSWriteFile(fileName,
                                    shareName, // can be NULL
                                    folderName, &SDSWriteInfo, &SDSWriteCallbacks);
 
@@ -1509,8 +1539,14 @@ PyObject * CompressFile(PyObject * self, PyObject * args, PyObject * kwargs)
     }
 
     // If there are errors, return NULL
-    if (CheckErrors())
+    if (CheckErrors() || PyErr_Occurred())
+    {
+        return NULL;
+    }
+
+    if (! result)
     {
+        PyErr_Format(PyExc_ValueError, "Could not write file %s", fileName);
         return NULL;
     }
 
-- 
2.43.0


From 8c5d528b4542d9eeadc5830c4b3e99d4b4c6f104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:58 +0000
Subject: [PATCH 67/84] fix: a new SDS file that was not completely written was
 read as one without arrays

---
 src/SDSFile.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/SDSFile.cpp b/src/SDSFile.cpp
index 6e27e3c..d52da6e 100644
--- a/src/SDSFile.cpp
+++ b/src/SDSFile.cpp
@@ -2312,8 +2312,10 @@ SDS_FILE_HANDLE StartCompressedFile(const char * fileName, SDS_FILE_HEADER * pFi
 
     pFileHeader->TotalMetaCompressedSize = cSize;
     pFileHeader->TotalMetaUncompressedSize = strMetaLength;
-    bool writeFailed = DefaultFileIO.FileWriteChunk(NULL, fileHandle, pFileHeader, sizeof(SDS_FILE_HEADER), fileOffset) !=
-                       sizeof(SDS_FILE_HEADER);
+    bool writeFailed = false;
+
+    // NOTE: the fileheader is written last (see FinishCompressedFile) so that a file which
+    // was not completely written is not taken for one without arrays
 
     logger->debug("meta compressed to {} vs {}  {}", cSize, strMetaLength, sizeof(SDS_FILE_HEADER));
 
-- 
2.43.0


From 298cd2f240960b3d0024b19d9610c14ecf608947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:58 +0000
Subject: [PATCH 68/84] fix: reading with a mask longer than an array returned
 uninitialized rows

---
 src/SDSFile.cpp | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/SDSFile.cpp b/src/SDSFile.cpp
index d52da6e..964756b 100644
--- a/src/SDSFile.cpp
+++ b/src/SDSFile.cpp
@@ -3434,7 +3434,8 @@ bool IsNameIncluded(SDSIncludeExclude * pInclude, SDSIncludeExclude * pFolderNam
 
 //===================================
 // Returns True if array was shrunk or had a mask
-bool PossiblyShrinkArray(SDS_ALLOCATE_ARRAY * pArrayCallback, SDS_READ_CALLBACKS * pReadCallbacks, bool isStackable)
+bool PossiblyShrinkArray(SDS_ALLOCATE_ARRAY * pArrayCallback, SDS_READ_CALLBACKS * pReadCallbacks, bool isStackable,
+                         bool isStacked)
 {
     bool wasFiltered = false;
 
@@ -3451,10 +3452,18 @@ bool PossiblyShrinkArray(SDS_ALLOCATE_ARRAY * pArrayCallback, SDS_READ_CALLBACKS
                 int64_t dim0Length = pArrayCallback->dims[0];
                 int64_t newLength = pReadCallbacks->Filter.BoolMaskTrueCount;
 
-                // If the array allocation is too large, we reduce it
-                if (newLength > dim0Length)
+                if (isStacked)
                 {
-                    newLength = dim0Length;
+                    // The length has already been shortened by the filter
+                    if (newLength > dim0Length)
+                    {
+                        newLength = dim0Length;
+                    }
+                }
+                // If the mask goes beyond the array, count what is within
+                else if (pReadCallbacks->Filter.BoolMaskLength > dim0Length)
+                {
+                    newLength = SumBooleanMask((int8_t *)pReadCallbacks->Filter.pBoolMask, dim0Length);
                 }
 
                 logger->debug(
@@ -3620,7 +3629,7 @@ public:
             if (pReadCallbacks->AllocateArrayCallback)
             {
                 // FILTERING check...
-                wasFiltered |= PossiblyShrinkArray(&sdsArrayCallback, pReadCallbacks, isStackable);
+                wasFiltered |= PossiblyShrinkArray(&sdsArrayCallback, pReadCallbacks, isStackable, false);
 
                 pReadCallbacks->AllocateArrayCallback(&sdsArrayCallback);
 
@@ -7628,7 +7637,7 @@ public:
                     }
 
                     // FILTERING check...
-                    wasFiltered |= PossiblyShrinkArray(&sdsArrayCallback, pReadCallbacks, fileTypeStackable);
+                    wasFiltered |= PossiblyShrinkArray(&sdsArrayCallback, pReadCallbacks, fileTypeStackable, true);
 
                     logger->debug(
                         "Allocating col: {}  lengthplusr: {}  length: {}   itemsize: "
-- 
2.43.0


From 1ef33aacfff0bb02c60e8c7a6edab892181fa7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:58 +0000
Subject: [PATCH 69/84] fix: unreadable sections of an SDS file were left out
 silently

---
 src/SDSFile.cpp | 45 +++++++++++++++++++++++++++++++++++++--------
 1 file changed, 37 insertions(+), 8 deletions(-)

diff --git a/src/SDSFile.cpp b/src/SDSFile.cpp
index 964756b..77c8936 100644
--- a/src/SDSFile.cpp
+++ b/src/SDSFile.cpp
@@ -6285,6 +6285,9 @@ public:
         LastRow = -1;
     }
 
+    // set when a section of an otherwise valid file could not be read
+    bool SectionUnreadable = false;
+
     //------------------------------------------------
     // input - new or existing column
     // if new, a new ColumnVector will be created
@@ -6891,6 +6894,14 @@ public:
             SetErr_Format(SDS_VALUE_ERROR, "Not all files found : Expected %lld files.  Missing %s\n", FileCount,
                           pSDSDecompressFile[missingfile]->FileName);
             logger->error("ReadManyFiles failed!  FileCount {}. valid {}.", FileCount, validCount);
+            FreeExtraFiles(pSDSDecompressFileExtra);
+            return NULL;
+        }
+
+        if (SectionUnreadable)
+        {
+            // the file is there, but not all of it can be read (the error is set)
+            FreeExtraFiles(pSDSDecompressFileExtra);
             return NULL;
         }
 
@@ -7022,6 +7033,15 @@ public:
         ClearColumnList();
 
         // Check if we expanded becaue we found extra sections
+        FreeExtraFiles(pSDSDecompressFileExtra);
+
+        return result;
+    }
+
+    //========================================
+    // Frees what ScanForSections allocated
+    void FreeExtraFiles(SDSDecompressFile ** pSDSDecompressFileExtra)
+    {
         if (pSDSDecompressFileExtra)
         {
             for (int64_t i = 0; i < FileCount; i++)
@@ -7102,6 +7122,7 @@ public:
                         // TODO: optimization here
                         int64_t fileoffset = pSDSDecompress->cSectionName.pSectionOffsets[section];
                         pSDSDecompressExtra->DecompressFileInternal(pReadCallbacks, 0, fileoffset);
+                        SectionUnreadable |= ! pSDSDecompressExtra->IsFileValid;
                     }
                     FileWithSectionsCount += blockcount;
                 }
@@ -7169,6 +7190,14 @@ public:
             SetErr_Format(SDS_VALUE_ERROR, "Not all files found : Expected %lld files.  Missing %s\n", FileCount,
                           pSDSDecompressFile[missingfile]->FileName);
             logger->error("ReadAndStackFiles failed!  FileCount {}. valid {}.", FileCount, validCount);
+            FreeExtraFiles(pSDSDecompressFileExtra);
+            return NULL;
+        }
+
+        if (SectionUnreadable)
+        {
+            // the file is there, but not all of it can be read (the error is set)
+            FreeExtraFiles(pSDSDecompressFileExtra);
             return NULL;
         }
 
@@ -7271,6 +7300,7 @@ public:
                                 SetErr_Format(SDS_VALUE_ERROR,
                                               "SDS stacking with filter is currently only supported for datasets.");
                                 ClearColumnList();
+                                FreeExtraFiles(pSDSDecompressFileExtra);
                                 return nullptr;
                             }
                         }
@@ -7291,6 +7321,7 @@ public:
                               "Filter length does not match stacked dataset length\nDataset Length: %lu, Mask Length: %lu",
                               total_length, mask_length);
                 ClearColumnList();
+                FreeExtraFiles(pSDSDecompressFileExtra);
                 return nullptr;
             }
         }
@@ -7855,14 +7886,12 @@ public:
             SDS_MULTI_IO_PACKETS::Free(pMultiIOPackets);
 
             // Check if we expanded becaue we found extra sections
-            if (pSDSDecompressFileExtra)
-            {
-                for (int64_t i = 0; i < FileCount; i++)
-                {
-                    delete pSDSDecompressFileExtra[i];
-                }
-                WORKSPACE_FREE(pSDSDecompressFileExtra);
-            }
+            FreeExtraFiles(pSDSDecompressFileExtra);
+        }
+        else
+        {
+            ClearColumnList();
+            FreeExtraFiles(pSDSDecompressFileExtra);
         }
 
         // Reduce list to valids
-- 
2.43.0


From 7697ba17d6d927fc07646b3b38cf2a66f8556097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:58 +0000
Subject: [PATCH 70/84] fix: errors while reading the arrays of an SDS file
 were ignored

---
 src/SDSFile.cpp       | 121 ++++++++++++++++++++++++++++++++++--------
 src/SDSFilePython.cpp |  15 ++----
 2 files changed, 104 insertions(+), 32 deletions(-)

diff --git a/src/SDSFile.cpp b/src/SDSFile.cpp
index 77c8936..12d920f 100644
--- a/src/SDSFile.cpp
+++ b/src/SDSFile.cpp
@@ -300,12 +300,12 @@ static size_t DecompressDataPartial(int32_t core, int32_t compMode, void * dst,
         do
         {
             cErr = ZSTD_decompressStream(dctx, &output, &input);
-            if (cErr < 0)
+            if (ZSTD_isError(cErr))
                 break;
         }
         while (input.pos < input.size && output.pos < output.size);
 
-        if (cErr >= 0)
+        if (! ZSTD_isError(cErr))
         {
             cErr = output.pos;
         }
@@ -1313,6 +1313,10 @@ static size_t DecompressWithFilter(int64_t compressedSize, // pBlockInfo->ArrayC
 {
     int64_t result = -1;
 
+    // Check for rows without data
+    if (bytesPerRow == 0)
+        return 0;
+
     int64_t lastRow = pFilter->BoolMaskLength;
     int64_t lastPossibleRow = (uncompressedSize - bytesPerRow) / bytesPerRow;
     int64_t lastData = (bytesPerRow * lastRow);
@@ -1330,6 +1334,10 @@ static size_t DecompressWithFilter(int64_t compressedSize, // pBlockInfo->ArrayC
         {
             // Read compressed chunk directly into our destBuffer
             result = DefaultFileIO.FileReadChunk(eventHandle, fileHandle, destBuffer, lastData, arrayDataOffset);
+            if (result != lastData)
+            {
+                result = -1;
+            }
         }
         else
         {
@@ -1373,6 +1381,10 @@ static size_t DecompressWithFilter(int64_t compressedSize, // pBlockInfo->ArrayC
                     result = -1;
                 }
             }
+            else
+            {
+                result = -1;
+            }
         }
     }
     else
@@ -1382,11 +1394,11 @@ static size_t DecompressWithFilter(int64_t compressedSize, // pBlockInfo->ArrayC
         // TODO: check for out of bounds lastBand and if found reduce masklength
         int64_t lastRow = pFilter->BoolMaskLength;
 
-        if (rowOffset > lastRow)
+        if (rowOffset >= lastRow || pFilter->BoolMaskTrueCount <= 0)
         {
             // nothing to do
             logger->debug("nothing to read all filtered out!");
-            return result;
+            return 0;
         }
         logger->debug(
             "Boolmask bpr:{}  ai:{}  rowOffset:{}  fixup:{}  "
@@ -1396,7 +1408,6 @@ static size_t DecompressWithFilter(int64_t compressedSize, // pBlockInfo->ArrayC
         // Make sure something to read
         // if (pFilter->pFilterInfo && pFilter->pFilterInfo[stackIndex].TrueCount >
         // 0) {
-        if (pFilter->BoolMaskTrueCount > 0)
         {
             bool uncompressedRead = false;
 
@@ -1514,8 +1525,20 @@ static size_t DecompressWithFilter(int64_t compressedSize, // pBlockInfo->ArrayC
                             }
                         }
                     }
+                    else
+                    {
+                        result = -1;
+                    }
                     WORKSPACE_FREE(pTempBuffer);
                 }
+                else
+                {
+                    result = -1;
+                }
+            }
+            else
+            {
+                result = -1;
             }
         }
     }
@@ -1553,9 +1576,13 @@ int64_t ReadAndDecompressBandWithFilter(SDS_ARRAY_BLOCK * pBlockInfo, // may con
     int64_t boolLength = pFilter->BoolMaskLength;
     int64_t bandStart = 0;
     int64_t bandIndex = 0;
-    int64_t result = -1;
+    int64_t result = 0;
     int64_t runningTrueCount = 0;
 
+    // Check for rows without data
+    if (bytesPerRow == 0)
+        return 0;
+
     logger->debug(
         "[{}] seek to {}  compsz:{}  uncompsz:{}  stackIndex:{}  "
         "bytesPerRow:{}  <-- ReadAndDecompressBandWithFilter",
@@ -1623,6 +1650,10 @@ int64_t ReadAndDecompressBandWithFilter(SDS_ARRAY_BLOCK * pBlockInfo, // may con
                                           tempBuffer, destBandBuffer, &tempFilter, rowOffset,
                                           0, // fake to 0 to read our filterinfo
                                           core, compMode);
+            if (result < 0)
+            {
+                break;
+            }
 
             // TODO change based on how many true values in the mask
             destBandBuffer += (trueCount * bytesPerRow);
@@ -1692,6 +1723,7 @@ static size_t ReadAndDecompressArrayBlockWithFilter(SDS_ARRAY_BLOCK * pBlockInfo
             else
             {
                 logger->error("!!!Error reading in band header");
+                result = -1;
             }
         }
         else
@@ -1741,7 +1773,7 @@ static size_t ReadAndDecompressArrayBlock(SDS_ARRAY_BLOCK * pBlockInfo, // may c
                   pBlockInfo->ArrayCompressedSize);
 
     // Check if uncompressed
-    if (compressedSize == pBlockInfo->ArrayUncompressedSize)
+    if (compressedSize == pBlockInfo->ArrayUncompressedSize && pBlockInfo->ArrayBandCount == 0)
     {
         // Read uncompressed chunk directly into our destination
         result = DefaultFileIO.FileReadChunk(eventHandle, fileHandle, destBuffer, compressedSize, pBlockInfo->ArrayDataOffset);
@@ -1809,6 +1841,12 @@ static size_t ReadAndDecompressArrayBlock(SDS_ARRAY_BLOCK * pBlockInfo, // may c
                     else
                     {
                         result = DefaultFileIO.FileReadChunk(eventHandle, fileHandle, tempBuffer, compressedSize, arrayDataOffset);
+                        if (result != compressedSize)
+                        {
+                            logger->error("[{}][{}][{}] error while reading band  sz: {}", core, arrayIndex, i, compressedSize);
+                            result = -1;
+                            break;
+                        }
                         // printf("[%d] decompressing  %d  size %lld  uncomp: %lld\n", core,
                         // i, compressedSize, uncompressedSize);
                         int64_t dcSize =
@@ -1831,6 +1869,7 @@ static size_t ReadAndDecompressArrayBlock(SDS_ARRAY_BLOCK * pBlockInfo, // may c
             else
             {
                 logger->error("!!!Error reading in band header");
+                result = -1;
             }
         }
         else
@@ -2565,7 +2604,8 @@ bool DecompressFileArray(void * pstCompressArraysV, int32_t core, int64_t t)
     {
         // Check if uncompressed
         // check if our temporary buffer is large enough to hold decompression data
-        if (source_size != pBlockInfo->ArrayUncompressedSize && (pstCompressArrays->pCoreMemorySize[core] < source_size))
+        if ((source_size != pBlockInfo->ArrayUncompressedSize || pBlockInfo->ArrayBandCount > 0) &&
+            (pstCompressArrays->pCoreMemorySize[core] < source_size))
         {
             //  Not large enough, allocate more
             if (pstCompressArrays->pCoreMemory[core])
@@ -2583,19 +2623,26 @@ bool DecompressFileArray(void * pstCompressArraysV, int32_t core, int64_t t)
         }
 
         void * tempBuffer = pstCompressArrays->pCoreMemory[core];
+        int64_t result;
 
         if (pBlockInfo->Flags & SDS_ARRAY_FILTERED)
         {
             // No stacking but filtering
-            int64_t result =
+            result =
                 ReadAndDecompressArrayBlockWithFilter(pBlockInfo, pstCompressArrays->eventHandles[core], sdsFile, tempBuffer,
                                                       destBuffer, 0, pstCompressArrays->pFilter, t, core, COMPRESSION_TYPE_ZSTD);
         }
         else
         {
             // No stacking, no filtering
-            int64_t result = ReadAndDecompressArrayBlock(pBlockInfo, pstCompressArrays->eventHandles[core], sdsFile, tempBuffer,
-                                                         destBuffer, t, core, COMPRESSION_TYPE_ZSTD);
+            result = ReadAndDecompressArrayBlock(pBlockInfo, pstCompressArrays->eventHandles[core], sdsFile, tempBuffer,
+                                                 destBuffer, t, core, COMPRESSION_TYPE_ZSTD);
+        }
+
+        if (result < 0)
+        {
+            SetErr_Format(SDS_VALUE_ERROR, "Decompression error cannot read array %lld at offset %lld", (long long)t,
+                          (long long)pBlockInfo->ArrayDataOffset);
         }
     }
 
@@ -3598,8 +3645,9 @@ public:
         sdsArrayCallback.strides = pBlock->Strides;
 
         // Handle error cases
-        sdsArrayCallback.pArrayName = pArrayNames ? pArrayNames[colPos] : NULL;
-        sdsArrayCallback.sdsFlags = pArrayEnums ? pArrayEnums[colPos] : 0;
+        bool hasName = pArrayNames && colPos < NameCount;
+        sdsArrayCallback.pArrayName = hasName ? pArrayNames[colPos] : NULL;
+        sdsArrayCallback.sdsFlags = hasName ? pArrayEnums[colPos] : 0;
         // sdsArrayCallback.pInclusionList = pReadCallbacks->pInclusionList;
         // sdsArrayCallback.pExclusionList = pReadCallbacks->pExclusionList;
 
@@ -3620,7 +3668,7 @@ public:
 
         // logger->debug("Checking to allocate name {}", pAllocateArray->pArrayName);
         // Include exclude check
-        if (! pArrayNames || IsNameIncluded(pInclude, pFolderName, sdsArrayCallback.pArrayName, isOneFile))
+        if (! hasName || IsNameIncluded(pInclude, pFolderName, sdsArrayCallback.pArrayName, isOneFile))
         {
             //-----------------------------------
             // Caller will fill info pArrayObject and pData
@@ -4028,6 +4076,11 @@ public:
             // read uncompressed data in
             bytesRead = DefaultFileIO.FileReadChunk(NULL, SDSFile, metaDataUncompressed, metaUncompressedSize,
                                                     pFileHeader->MetaBlockOffset);
+            if (bytesRead != metaUncompressedSize)
+            {
+                SetErr_Format(SDS_VALUE_ERROR, "Decompression error in bytesRead: %lld", metaUncompressedSize);
+                return false;
+            }
         }
 
         logger->debug("out decompress meta");
@@ -4315,7 +4368,10 @@ public:
             }
 
             //------------- META DATA -------------------------------
-            DecompressMetaData(pFileHeader, NULL, core);
+            if (! DecompressMetaData(pFileHeader, NULL, core))
+            {
+                goto EXIT_DECOMPRESS;
+            }
 
             //------------- SECTION DATA -------------------------------
             // only offset ==0 (first fileheader) is responsible for reading the
@@ -6018,7 +6074,8 @@ bool DecompressMultiArray(void * pstCompressArraysV,
 
         // Check if uncompressed
         // check if our temporary buffer is large enough to hold decompression data
-        if ((source_size != pBlockInfo->ArrayUncompressedSize) && (pMultiIOPackets->pCoreMemorySize[core] < source_size))
+        if ((source_size != pBlockInfo->ArrayUncompressedSize || pBlockInfo->ArrayBandCount > 0) &&
+            (pMultiIOPackets->pCoreMemorySize[core] < source_size))
         {
             if (pMultiIOPackets->pCoreMemory[core])
             {
@@ -6049,7 +6106,13 @@ bool DecompressMultiArray(void * pstCompressArraysV,
 
             //  If no bytes to read..
             if (slaveItemSize == 0)
+            {
+                if (rotateBuffer)
+                {
+                    WORKSPACE_FREE(rotateBuffer);
+                }
                 return true;
+            }
 
             if ((pMasterBlock && pMasterBlock->Flags & SDS_ARRAY_FILTERED) || (pBlockInfo->Flags & SDS_ARRAY_FILTERED))
             {
@@ -6128,6 +6191,15 @@ bool DecompressMultiArray(void * pstCompressArraysV,
                     }
                 }
             }
+            else
+            {
+                SetErr_Format(SDS_VALUE_ERROR, "Decompression error cannot read array %lld in file position %lld", (long long)t,
+                              (long long)pIOPacket->StackPosition);
+                if (rotateBuffer)
+                {
+                    WORKSPACE_FREE(rotateBuffer);
+                }
+            }
         }
     }
 
@@ -6211,6 +6283,9 @@ public:
     int32_t TotalFirstColumns = 0;
     int32_t LastRow = -1;
 
+    // set when a section of an otherwise valid file could not be read
+    bool SectionUnreadable = false;
+
     //------------------------------------------------
     // input validCount (number of files and thus number of Datasets)
     void AllocateDatasetLengths(int64_t validCount)
@@ -6285,9 +6360,6 @@ public:
         LastRow = -1;
     }
 
-    // set when a section of an otherwise valid file could not be read
-    bool SectionUnreadable = false;
-
     //------------------------------------------------
     // input - new or existing column
     // if new, a new ColumnVector will be created
@@ -6905,6 +6977,13 @@ public:
             return NULL;
         }
 
+        // The files which could not be opened have empty results
+        if (validCount > 0)
+        {
+            PrintIfErrors();
+            ClearErrors();
+        }
+
         logger->debug(
             "GetInfo ReadManyFiles complete.  FileCount {}. valid {}.  "
             "mode:{}",
@@ -7050,8 +7129,6 @@ public:
             }
             WORKSPACE_FREE(pSDSDecompressFileExtra);
         }
-
-        return result;
     }
 
     //========================================
@@ -7235,7 +7312,7 @@ public:
                 isOneFile |= (fileType == SDS_FILE_TYPE_ONEFILE);
 
                 // Try to find out how many valid columns
-                for (int64_t c = 0; c < pSDSDecompress->NameCount; c++)
+                for (int64_t c = 0; c < pSDSDecompress->NameCount && c < pSDSDecompress->pFileHeader->ArraysWritten; c++)
                 {
                     const char * columnName = pSDSDecompress->pArrayNames[c];
                     // Include exclude check
diff --git a/src/SDSFilePython.cpp b/src/SDSFilePython.cpp
index 0afcd45..9898bd2 100644
--- a/src/SDSFilePython.cpp
+++ b/src/SDSFilePython.cpp
@@ -1779,8 +1779,9 @@ PyObject * DecompressFile(PyObject * self, PyObject * args, PyObject * kwargs)
     }
 
     // If there are errors, return NULL
-    if (! result && CheckErrors())
+    if (CheckErrors())
     {
+        Py_XDECREF((PyObject *)result);
         return NULL;
     }
 
@@ -1945,20 +1946,14 @@ PyObject * InternalDecompressFiles(PyObject * self, PyObject * args, PyObject *
     bool isThereAnError = CheckErrors();
 
     // If there are errors, return NULL
-    if (! result && isThereAnError)
+    if (isThereAnError)
     {
-        return NULL;
-    }
-
-    if (isThereAnError && fileCount == 1)
-    {
-        // result is good, but there is an error.  decrement the result so we can
+        // result might be good, but there is an error.  decrement the result so we can
         // get rid of it
-        Py_DecRef((PyObject *)result);
+        Py_XDECREF((PyObject *)result);
         return NULL;
     }
 
-    // We might have a partial error if we get here
     if (! result)
     {
         Py_INCREF(Py_None);
-- 
2.43.0


From 453467322e9fc50229a60eeeddfd4edc0d1b421f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:29 +0000
Subject: [PATCH 71/84] fix: strided masks were read as if they were contiguous
 when loading SDS files

---
 src/SDSFilePython.cpp | 48 ++++++++++++++++++++++++++++++++-----------
 1 file changed, 36 insertions(+), 12 deletions(-)

diff --git a/src/SDSFilePython.cpp b/src/SDSFilePython.cpp
index 9898bd2..781da13 100644
--- a/src/SDSFilePython.cpp
+++ b/src/SDSFilePython.cpp
@@ -1633,7 +1633,9 @@ void AllocateArrayCallback(SDS_ALLOCATE_ARRAY * pAllocateArray)
 
 //----------------------------------------------------
 // Return the maskLength and pBooleanMask
-void GetFilters(PyObject * kwargs, SDS_READ_CALLBACKS * pRCB)
+// Returns false with a Python error set if out of memory
+// pMaskCopy: set to an array to release after the read when the mask had to be copied
+bool GetFilters(PyObject * kwargs, SDS_READ_CALLBACKS * pRCB, PyObject ** pMaskCopy)
 {
     pRCB->Filter.BoolMaskLength = 0;
     pRCB->Filter.pBoolMask = NULL;
@@ -1668,8 +1670,18 @@ void GetFilters(PyObject * kwargs, SDS_READ_CALLBACKS * pRCB)
             {
                 if (fancyItem)
                     pRCB->Filter.IsFancy = PyObject_IsTrue(fancyItem);
+                // The mask is read as one block of memory
+                if (! PyArray_IS_C_CONTIGUOUS((PyArrayObject *)maskItem))
+                {
+                    maskItem = (PyObject *)PyArray_NewCopy((PyArrayObject *)maskItem, NPY_CORDER);
+                    if (! maskItem)
+                    {
+                        return false;
+                    }
+                    *pMaskCopy = maskItem;
+                }
                 pRCB->Filter.BoolMaskLength = ArrayLength((PyArrayObject *)maskItem);
-                pRCB->Filter.pBoolMask = (bool *)PyArray_GETPTR1((PyArrayObject *)maskItem, 0);
+                pRCB->Filter.pBoolMask = (bool *)PyArray_DATA((PyArrayObject *)maskItem);
                 // Needed
                 pRCB->Filter.BoolMaskTrueCount = SumBooleanMask((int8_t *)pRCB->Filter.pBoolMask, pRCB->Filter.BoolMaskLength);
                 LOGGING("Found valid mask.  length: %lld\n", pRCB->Filter.BoolMaskLength);
@@ -1685,6 +1697,7 @@ void GetFilters(PyObject * kwargs, SDS_READ_CALLBACKS * pRCB)
             }
         }
     }
+    return true;
 }
 
 //----------------------------------------------------
@@ -1756,17 +1769,20 @@ PyObject * DecompressFile(PyObject * self, PyObject * args, PyObject * kwargs)
     sdsRCB.pFolderInclusionList = NULL;
 
     // new for filtering
-    GetFilters(kwargs, &sdsRCB);
-
-    // new for boolean mask
-    // GetFilters(kwargs, &sdsRCB.pBooleanMask, &sdsRCB.MaskLength);
+    PyObject * maskCopy = NULL;
+    bool const hasFilters = GetFilters(kwargs, &sdsRCB, &maskCopy);
 
     SDS_READ_INFO sdsRI;
 
     sdsRI.mode = mode;
 
     //==============================================
-    void * result = SDSReadFile(fileName, shareName, folderName, sectionsName, &sdsRI, &sdsRCB);
+    void * result = NULL;
+    if (hasFilters)
+    {
+        result = SDSReadFile(fileName, shareName, folderName, sectionsName, &sdsRI, &sdsRCB);
+    }
+    Py_XDECREF(maskCopy);
 
     if (folderName)
     {
@@ -1914,11 +1930,15 @@ PyObject * InternalDecompressFiles(PyObject * self, PyObject * args, PyObject *
             sdsRCB.strOutputFilename = pOutputName;
 
             // new for filtering
-            GetFilters(kwargs, &sdsRCB);
-
-            //==============================================
-            // may return NULL if not all files existed
-            result = SDSReadManyFiles(pMultiRead, pInclusionList, pFolderList, pSectionsList, fileCount, multiMode, &sdsRCB);
+            PyObject * maskCopy = NULL;
+            if (GetFilters(kwargs, &sdsRCB, &maskCopy))
+            {
+                //==============================================
+                // may return NULL if not all files existed
+                result =
+                    SDSReadManyFiles(pMultiRead, pInclusionList, pFolderList, pSectionsList, fileCount, multiMode, &sdsRCB);
+            }
+            Py_XDECREF(maskCopy);
 
             WORKSPACE_FREE(pMultiRead);
         }
@@ -1956,6 +1976,10 @@ PyObject * InternalDecompressFiles(PyObject * self, PyObject * args, PyObject *
 
     if (! result)
     {
+        if (PyErr_Occurred())
+        {
+            return NULL;
+        }
         Py_INCREF(Py_None);
         return Py_None;
     }
-- 
2.43.0


From 946fa3f4cab4c6a6d0dd8abe552e3ac121af014d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:29 +0000
Subject: [PATCH 72/84] fix: stacking and filtering SDS arrays corrupted
 Fortran ordered, string, boolean, complex and empty columns

---
 src/SDSFile.cpp | 576 +++++++++++++++++++++++++-----------------------
 1 file changed, 296 insertions(+), 280 deletions(-)

diff --git a/src/SDSFile.cpp b/src/SDSFile.cpp
index 12d920f..3e4e02d 100644
--- a/src/SDSFile.cpp
+++ b/src/SDSFile.cpp
@@ -11,6 +11,7 @@
 #include "logging/logging.h"
 
 #include "MathWorker.h"
+#include <algorithm>
 #include <stdarg.h>
 #include <string.h>
 #include <string_view>
@@ -2561,6 +2562,12 @@ void EndCompressedFile(SDS_FILE_HANDLE sdsFile, SDS_FILE_HEADER * pFileHeader, S
     DefaultFileIO.FileClose(sdsFile);
 }
 
+struct SDS_IO_PACKET;
+static bool IsRowMajor(const SDS_ARRAY_BLOCK * pBlock);
+static int64_t ReadAndPlaceRows(SDS_ARRAY_BLOCK * pBlockInfo, SDS_EVENT_HANDLE eventHandle, SDS_FILE_HANDLE fileHandle,
+                                void * tempBuffer, void * destBuffer, int64_t rowOffset, SDS_FILTER * pFilter,
+                                SDS_IO_PACKET * pIOPacket, int64_t stackIndex, int32_t core);
+
 //----------------------------------------------------------
 // Decompress -- called from multiple threads -- READING data
 //
@@ -2625,7 +2632,12 @@ bool DecompressFileArray(void * pstCompressArraysV, int32_t core, int64_t t)
         void * tempBuffer = pstCompressArrays->pCoreMemory[core];
         int64_t result;
 
-        if (pBlockInfo->Flags & SDS_ARRAY_FILTERED)
+        if ((pBlockInfo->Flags & SDS_ARRAY_FILTERED) && ! IsRowMajor(pBlockInfo))
+        {
+            result = ReadAndPlaceRows(pBlockInfo, pstCompressArrays->eventHandles[core], sdsFile, tempBuffer, destBuffer, 0,
+                                      pstCompressArrays->pFilter, NULL, t, core);
+        }
+        else if (pBlockInfo->Flags & SDS_ARRAY_FILTERED)
         {
             // No stacking but filtering
             result =
@@ -3479,6 +3491,95 @@ bool IsNameIncluded(SDSIncludeExclude * pInclude, SDSIncludeExclude * pFolderNam
     return false;
 }
 
+//-----------------------------------
+// Strides of a dense array with rowCount rows whose axes lie in memory in the same order as in pBlock
+static void CalcStrides(const SDS_ARRAY_BLOCK * pBlock, int64_t rowCount, int64_t itemSize, int64_t * pStrides)
+{
+    int32_t const ndim = pBlock->NDim;
+    bool const isF = (pBlock->Flags & SDS_ARRAY_F_CONTIGUOUS) != 0;
+    bool const isC = ! isF && (pBlock->Flags & SDS_ARRAY_C_CONTIGUOUS) != 0;
+
+    // axes from the one that varies fastest to the slowest
+    int32_t order[SDS_MAX_DIMS];
+    for (int32_t i = 0; i < ndim; i++)
+    {
+        order[i] = isF ? i : ndim - 1 - i;
+    }
+    if (! isF && ! isC)
+    {
+        std::stable_sort(order, order + ndim,
+                         [pBlock](int32_t a, int32_t b)
+                         {
+                             return pBlock->Strides[a] < pBlock->Strides[b];
+                         });
+    }
+
+    int64_t stride = itemSize;
+    for (int32_t i = 0; i < ndim; i++)
+    {
+        int64_t const length = order[i] == 0 ? rowCount : pBlock->Dimensions[order[i]];
+        pStrides[order[i]] = stride;
+        if (length)
+        {
+            stride *= length;
+        }
+    }
+}
+
+//-----------------------------------
+// Are the rows of the array one after the other in memory?
+static bool IsRowMajor(const SDS_ARRAY_BLOCK * pBlock)
+{
+    return pBlock->NDim < 2 || ((pBlock->Flags & SDS_ARRAY_C_CONTIGUOUS) && ! (pBlock->Flags & SDS_ARRAY_F_CONTIGUOUS));
+}
+
+//-----------------------------------
+// Copy the rows that the mask selects (all if NULL), whatever the order of the axes
+static void CopyRows(char * pDest, const int64_t * pDestStrides, const char * pSrc, const int64_t * pSrcStrides,
+                     const SDS_ARRAY_BLOCK * pBlock, int64_t rowCount, const bool * pMask, int64_t itemSize)
+{
+    int64_t index[SDS_MAX_DIMS] = { 0 };
+
+    for (int32_t i = 1; i < pBlock->NDim; i++)
+    {
+        if (pBlock->Dimensions[i] == 0)
+        {
+            return;
+        }
+    }
+
+    // one column per loop
+    while (true)
+    {
+        const char * pIn = pSrc;
+        char * pOut = pDest;
+        for (int32_t i = 1; i < pBlock->NDim; i++)
+        {
+            pIn += index[i] * pSrcStrides[i];
+            pOut += index[i] * pDestStrides[i];
+        }
+        for (int64_t row = 0; row < rowCount; row++)
+        {
+            if (! pMask || pMask[row])
+            {
+                memcpy(pOut, pIn, itemSize);
+                pOut += pDestStrides[0];
+            }
+            pIn += pSrcStrides[0];
+        }
+
+        int32_t axis = pBlock->NDim - 1;
+        while (axis > 0 && ++index[axis] == pBlock->Dimensions[axis])
+        {
+            index[axis--] = 0;
+        }
+        if (axis <= 0)
+        {
+            return;
+        }
+    }
+}
+
 //===================================
 // Returns True if array was shrunk or had a mask
 bool PossiblyShrinkArray(SDS_ALLOCATE_ARRAY * pArrayCallback, SDS_READ_CALLBACKS * pReadCallbacks, bool isStackable,
@@ -3678,6 +3779,13 @@ public:
             {
                 // FILTERING check...
                 wasFiltered |= PossiblyShrinkArray(&sdsArrayCallback, pReadCallbacks, isStackable, false);
+                if (wasFiltered && ! IsRowMajor(pBlock))
+                {
+                    // The distance between the columns depends on the number of rows
+                    int64_t strides[SDS_MAX_DIMS];
+                    CalcStrides(pBlock, pBlock->Dimensions[0], pBlock->ItemSize, strides);
+                    std::copy(strides, strides + pBlock->NDim, pBlock->Strides);
+                }
 
                 pReadCallbacks->AllocateArrayCallback(&sdsArrayCallback);
 
@@ -4701,7 +4809,8 @@ static void ConvertInplace(void * pDataIn, void * pDataOut, int64_t dataInSize,
     for (int64_t i = 0; i < len; i++)
     {
         // printf("[%lld]converted %lf -> %lf\n", i, (double)*pIn, (double)*pOut);
-        if (*pIn != pBadValueIn)
+        // bool has no invalid value
+        if (std::is_same<T, bool>::value || *pIn != pBadValueIn)
         {
             U temp = (U)*pIn;
             *pOut = temp;
@@ -4898,6 +5007,23 @@ static CONVERT_INPLACE GetInplaceConversionFunction(int32_t inputType, int32_t o
     return NULL;
 }
 
+//----------------------------------------------------------
+// Fill with the invalid value of the type (zero for strings and types without an invalid)
+static void FillInvalid(char * pDest, int64_t count, int32_t dtype, int64_t itemSize)
+{
+    if (dtype < 0 || dtype > SDS_LONGDOUBLE)
+    {
+        memset(pDest, 0, count * itemSize);
+        return;
+    }
+
+    void * pDefaultType = SDSGetDefaultType(FixupDType(dtype, itemSize));
+    for (int64_t i = 0; i < count; i++)
+    {
+        memcpy(pDest + i * itemSize, pDefaultType, itemSize);
+    }
+}
+
 //----------------------------------------------------------
 // Invalid fill when a column exist in one file but not the other
 void GapFill(void * destBuffer, SDSArrayInfo * pDestInfo)
@@ -4907,68 +5033,14 @@ void GapFill(void * destBuffer, SDSArrayInfo * pDestInfo)
     logger->debug(">>> more gap dims: {}  itemsz:{}  dim0:{}  strides0:{}", pDestInfo->NDim, pDestInfo->ItemSize,
                   pDestInfo->Dimensions[0], pDestInfo->Strides[0]);
 
-    int64_t oneRowSize = pDestInfo->ItemSize;
-    // Calc oneRowSize for multidimensional
+    int64_t count = pDestInfo->ArrayLength;
+    // all columns of a multidimensional array
     for (int32_t j = 1; j < pDestInfo->NDim; j++)
     {
-        oneRowSize *= pDestInfo->Dimensions[j];
+        count *= pDestInfo->Dimensions[j];
     }
 
-    // Get the invalid fill type
-    void * pDefaultType = SDSGetDefaultType(pDestInfo->NumpyDType);
-    int64_t bytesToFill = oneRowSize * pDestInfo->ArrayLength;
-
-    switch (pDestInfo->ItemSize)
-    {
-    case 1:
-        {
-            int8_t * pDestBuffer = (int8_t *)destBuffer;
-            int8_t invalid = *(int8_t *)pDefaultType;
-            for (int32_t j = 0; j < bytesToFill; j++)
-            {
-                pDestBuffer[j] = invalid;
-            }
-        }
-        break;
-    case 2:
-        {
-            int16_t * pDestBuffer = (int16_t *)destBuffer;
-            int16_t invalid = *(int16_t *)pDefaultType;
-            bytesToFill /= 2;
-            for (int32_t j = 0; j < bytesToFill; j++)
-            {
-                pDestBuffer[j] = invalid;
-            }
-        }
-        break;
-    case 4:
-        {
-            int32_t * pDestBuffer = (int32_t *)destBuffer;
-            int32_t invalid = *(int32_t *)pDefaultType;
-            bytesToFill /= 4;
-            for (int32_t j = 0; j < bytesToFill; j++)
-            {
-                pDestBuffer[j] = invalid;
-            }
-        }
-        break;
-    case 8:
-        {
-            int64_t * pDestBuffer = (int64_t *)destBuffer;
-            int64_t invalid = *(int64_t *)pDefaultType;
-            bytesToFill /= 8;
-            for (int32_t j = 0; j < bytesToFill; j++)
-            {
-                pDestBuffer[j] = invalid;
-            }
-        }
-        break;
-    default:
-        // probably a string
-        // does matlab want ' ' spaces instead?
-        memset(destBuffer, 0, bytesToFill);
-        break;
-    }
+    FillInvalid((char *)destBuffer, count, pDestInfo->NumpyDType, pDestInfo->ItemSize);
 }
 
 //---------------------------------------------------------
@@ -5041,30 +5113,25 @@ SDS_WHICH_DTYPE WhichDType(int32_t dtype)
 // the master is the correct dtype
 // the slave must convert and the slave's itemsize is the <= master's itemsize
 // destSize MUST be recalculated if filtering
-void ConvertDType(char * destBuffer, SDS_ARRAY_BLOCK * pMasterBlock, SDS_ARRAY_BLOCK * pSlaveBlock, int64_t slaveRows,
-                  int64_t slaveItemSize)
+void ConvertDType(char * destBuffer, SDS_ARRAY_BLOCK * pMasterBlock, SDS_ARRAY_BLOCK * pSlaveBlock, int64_t slaveBytes)
 {
     int32_t sdtype = FixupDType(pSlaveBlock->DType, pSlaveBlock->ItemSize);
     int32_t mdtype = FixupDType(pMasterBlock->DType, pMasterBlock->ItemSize);
 
-    logger->debug("Convert dtype from:{}  to: {}  buffer:{}  size: {}   {} vs {}", sdtype, mdtype, destBuffer,
-                  slaveRows * slaveItemSize, pSlaveBlock->NDim, pMasterBlock->NDim);
-    CONVERT_INPLACE pConvert = GetInplaceConversionFunction(sdtype, mdtype);
+    // complex numbers are pairs of floats
+    if (sdtype >= SDS_CFLOAT && sdtype <= SDS_CLONGDOUBLE && mdtype >= SDS_CFLOAT && mdtype <= SDS_CLONGDOUBLE)
+    {
+        sdtype += SDS_FLOAT - SDS_CFLOAT;
+        mdtype += SDS_FLOAT - SDS_CFLOAT;
+    }
 
-    // Code below to be deleted when bugs in filtering while loading are gone
-    //// Calculate length
-    // int64_t dataInLen = pSlaveBlock->Dimensions[0] * pSlaveBlock->ItemSize;
-    // for (int32_t j = 1; j < pSlaveBlock->NDim; j++) {
-    //   dataInLen *= pSlaveBlock->Dimensions[j];
-    //}
-    //
-    //// filtering can change size
-    ////printf("Calculate destSize: %lld  vs  %lld\n", dataInLen, destSize);
-    // destSize = dataInLen;
+    logger->debug("Convert dtype from:{}  to: {}  buffer:{}  size: {}   {} vs {}", sdtype, mdtype, destBuffer, slaveBytes,
+                  pSlaveBlock->NDim, pMasterBlock->NDim);
+    CONVERT_INPLACE pConvert = GetInplaceConversionFunction(sdtype, mdtype);
 
     if (pConvert)
     {
-        pConvert(destBuffer, destBuffer, slaveRows * slaveItemSize, sdtype, mdtype);
+        pConvert(destBuffer, destBuffer, slaveBytes, sdtype, mdtype);
     }
     else
     {
@@ -5369,30 +5436,16 @@ void GapFillAny(SDSArrayInfo * pDestInfo, void * destBuffer, SDS_IO_PACKET * pIO
 
     // TODO: matlab string fill is different
     // Fortran >= 2d arrays gap fill is different
-    if (pMasterBlock->NDim >= 2 && pMasterBlock->Flags & SDS_ARRAY_F_CONTIGUOUS)
+    if (! IsRowMajor(pMasterBlock))
     {
-        int64_t totalRowLength = pMasterBlock->Dimensions[0];
-
-        // rows for this file only
-        int64_t rowLength = pDestInfo->Dimensions[0];
-
-        int64_t colSize = 1;
-        for (int32_t j = 1; j < pMasterBlock->NDim; j++)
-        {
-            colSize *= pMasterBlock->Dimensions[j];
-        }
+        int64_t destStrides[SDS_MAX_DIMS];
+        int64_t const srcStrides[SDS_MAX_DIMS] = { 0 };
+        std::vector<char> invalid(pMasterBlock->ItemSize);
 
-        // printf("Multidim gapfill dims: %d   rowlen:%lld  colsize:%lld
-        // startrow:%lld   dtype: %d\n", (int)pMasterBlock->NDim, rowLength, colSize,
-        // pIOPacket->ArrayOffset, (int)pMasterBlock->DType);
-
-        SDS_GAP_FILL_SPECIAL pGapFill = GetGapFillSpecial(pMasterBlock->DType);
-
-        pGapFill(destBuffer, // upper left corner of src
-                 totalRowLength,
-                 pIOPacket->ArrayOffset, // array offset (start row)
-                 rowLength,              // rows for this file only
-                 colSize);
+        FillInvalid(invalid.data(), 1, pMasterBlock->DType, pMasterBlock->ItemSize);
+        CalcStrides(pMasterBlock, pMasterBlock->Dimensions[0], pMasterBlock->ItemSize, destStrides);
+        CopyRows((char *)destBuffer + pIOPacket->ArrayOffset * destStrides[0], destStrides, invalid.data(), srcStrides,
+                 pMasterBlock, pDestInfo->Dimensions[0], NULL, pMasterBlock->ItemSize);
     }
     else
     {
@@ -5432,48 +5485,6 @@ void GapFillAny(SDSArrayInfo * pDestInfo, void * destBuffer, SDS_IO_PACKET * pIO
     }
 }
 
-//---------------------------------------------------------------
-// type U pDest = upper left corner of large array
-// type T pSrc = upper left corner of smaller array
-//
-// This routine could convert on the fly also (but does not)
-// This routine could widen on the fly (but does not)
-//
-// row major layout:
-//   A1, B1, C1, D1, E1  <-- first file
-//   A2, B2, C2, D2, E2  <-- second file (row length:2, col:5) (arrayOffset =1 )
-//   A3, B3, C3, D3, E3
-//
-// Fortran layout (total row length 3, col length:5)
-//  A1, *A2, *A3
-//  B1, *B2, *B3
-//  C1, *C2, *C3
-//  D1, *D2, *D3
-//  E1, *E2, *E3
-
-void RotationalFixup(char * pDest,         //
-                     char * pSrc,          //
-                     int64_t totalRowsize, // all the rows of all the files
-                     int64_t arrayOffset,  // start row for the current file
-                     int64_t arrayRowsize, // rowLength for the current file
-                     int64_t arrayColsize, // colSize of the current file
-                     int64_t itemSize)
-{
-    LOG_THREAD(
-        "Rotational2 fix off:%lld  totlrow:%lld  filerow:%lld  col:%lld  "
-        "itemsz:%lld  dest:%p  %p\n",
-        arrayOffset, totalRowsize, arrayRowsize, arrayColsize, itemSize, pDest, pSrc);
-    char * pOriginalDest = pDest + (arrayOffset * itemSize);
-
-    for (int64_t i = 0; i < arrayColsize; i++)
-    {
-        // Advance to correct slot
-        pDest = pOriginalDest + (i * totalRowsize * itemSize);
-        memcpy(pDest, pSrc, arrayRowsize * itemSize);
-        pSrc = pSrc + (arrayRowsize * itemSize);
-    }
-}
-
 //---------------------------------------------------------------
 // pDest = upper left corner of matlab char array
 // pSrc = often python 1byte string array
@@ -5553,85 +5564,41 @@ void MatlabStringFixup(uint16_t * pDest,     // 2 byte unicode (upper left corne
 // The master is always the widest
 // The slave string is widened inplace
 // The slave buffer must be smaller than required
-// Each line is stretched inplace starting at the back so we do not overwrite
-void StringFixup(char * destBuffer, SDS_ARRAY_BLOCK * pMasterBlock, SDS_ARRAY_BLOCK * pSlaveBlock, int64_t slaveRowLength,
-                 int64_t slaveItemSize)
+// Each string is stretched inplace starting at the back so we do not overwrite
+void StringFixup(char * destBuffer, int64_t count, int64_t itemSize, int64_t masterItemSize)
 {
-    // Only the itemsize for master is correct
-    // The other dimensions are correct in the pSlaveBlock
-    int64_t oneRowSize = pMasterBlock->ItemSize;
-    for (int32_t j = 1; j < pSlaveBlock->NDim; j++)
-    {
-        oneRowSize *= pSlaveBlock->Dimensions[j];
-    }
-
-    int64_t gap = oneRowSize - slaveItemSize;
+    int64_t const gap = masterItemSize - itemSize;
 
-    // Code below to be deleted when ugs in filtering gone
-    // int64_t rows = pSlaveBlock->Dimensions[0];
-
-    // new code for filtering..
-    int64_t rows = slaveRowLength;
-
-    if (gap > 0 && rows > 0)
+    if (gap > 0)
     {
-        if (pMasterBlock->DType == SDS_STRING)
+        for (int64_t i = count - 1; i >= 0; i--)
         {
-            logger->debug("string gap: {}  rows: {}  smallerSize:{}  oneRowSize:{}", gap, rows, slaveItemSize, oneRowSize);
-
-            char * pEndString1 = destBuffer + (slaveItemSize * rows);
-            char * pEndString2 = destBuffer + (oneRowSize * rows);
-            pEndString1--;
-            pEndString2--;
-
-            for (int32_t i = 0; i < rows; i++)
-            {
-                char * pFront = pEndString2 - gap;
-                while (pEndString2 > pFront)
-                {
-                    // zero pad backwards
-                    // printf("z%c", *pEndString2);
-                    *pEndString2-- = 0;
-                }
-                // then copy the string
-                pFront = pEndString2 - slaveItemSize;
-                while (pEndString2 > pFront)
-                {
-                    // copy string backwards
-                    *pEndString2-- = *pEndString1--;
-                }
-            }
+            memmove(destBuffer + i * masterItemSize, destBuffer + i * itemSize, itemSize);
+            memset(destBuffer + i * masterItemSize + itemSize, 0, gap);
         }
-        else
-        {
-            logger->debug("unicode gap: {}  rows: {}  smallerSize:{}  oneRowSize:{}", gap, rows, slaveItemSize, oneRowSize);
-            // Unicode loop
-            oneRowSize /= 4;
-            slaveItemSize /= 4;
-            gap /= 4;
-
-            uint32_t * pEndString1 = (uint32_t *)destBuffer + (slaveItemSize * rows);
-            uint32_t * pEndString2 = (uint32_t *)destBuffer + (oneRowSize * rows);
-            pEndString1--;
-            pEndString2--;
+    }
+}
 
-            for (int32_t i = 0; i < rows; i++)
-            {
-                // first copy the gap
-                for (int32_t j = 0; j < gap; j++)
-                {
-                    // zero pad backwards
-                    *pEndString2-- = 0;
-                }
-                // then copy the string
-                for (int32_t j = 0; j < slaveItemSize; j++)
-                {
-                    // zero pad backwards
-                    *pEndString2-- = *pEndString1--;
-                }
-            }
+//-----------------------------------------------------
+// Multithreaded call when stacking
+// Converts count elements in place to the dtype and the width of the master
+// The buffer must be large enough for the converted elements
+static void WidenElements(char * destBuffer, int64_t count, SDS_ARRAY_BLOCK * pMasterBlock, SDS_ARRAY_BLOCK * pSlaveBlock,
+                          const SDS_COMPATIBLE & compatible)
+{
+    int64_t itemSize = pSlaveBlock->ItemSize;
+    if (compatible.NeedsConversion)
+    {
+        ConvertDType(destBuffer, pMasterBlock, pSlaveBlock, count * itemSize);
+        if (pSlaveBlock->DType == SDS_STRING && pMasterBlock->DType == SDS_UNICODE)
+        {
+            itemSize *= 4;
         }
     }
+    if (pMasterBlock->DType == SDS_STRING || pMasterBlock->DType == SDS_UNICODE)
+    {
+        StringFixup(destBuffer, count, itemSize, pMasterBlock->ItemSize);
+    }
 }
 
 //-----------------------------------------------------
@@ -5662,19 +5629,36 @@ SDS_COMPATIBLE IsArrayCompatible(const char * colName, SDS_ARRAY_BLOCK * pMaster
         {
             // String to UNICODE happens here
             c.NeedsConversion = true;
+            if (wmdtype.w.isUnknown && (mdtype > SDS_CLONGDOUBLE || odtype > SDS_CLONGDOUBLE))
+            {
+                // nothing but complex numbers can be converted
+                logger->debug("!!!Incompat due to dtypes {} {}", mdtype, odtype);
+                c.NeedsConversion = false;
+                c.IsCompatible = false;
+            }
             logger->debug(
                 "step1 conversion {}  {}  {}  masteritemsize:{} vs  {}  length: "
                 "{} {}",
                 colName, odtype, mdtype, pMasterArrayBlock->ItemSize, pArrayBlock->ItemSize, pMasterArrayBlock->Dimensions[0],
                 pArrayBlock->Dimensions[0]);
             // pick the higher type
-            if (odtype > mdtype)
+            if (! c.IsCompatible)
+            {
+                logger->debug("step2 no conversion");
+            }
+            else if (odtype > mdtype)
             {
                 if (doFixup)
                 {
                     // upgrade the dtype
                     logger->debug("step2 conversion {}", pArrayBlock->ItemSize);
-                    UpgradeType(pMasterArrayBlock, odtype, pArrayBlock->ItemSize);
+                    int64_t itemSize = pArrayBlock->ItemSize;
+                    if (odtype == SDS_UNICODE)
+                    {
+                        // the master was a string so far
+                        itemSize = std::max<int64_t>(itemSize, (int64_t)pMasterArrayBlock->ItemSize * 4);
+                    }
+                    UpgradeType(pMasterArrayBlock, odtype, itemSize);
                 }
             }
             else
@@ -5908,20 +5892,6 @@ void * CheckRotationalFixup(SDS_IO_PACKET * pIOPacket)
     {
         SDS_ARRAY_BLOCK * pBlockInfo = pIOPacket->pBlockInfo;
 
-        if (pMasterBlock->NDim >= 2 && pMasterBlock->Flags & SDS_ARRAY_F_CONTIGUOUS)
-        {
-            if (pMasterBlock->NDim > 2)
-            {
-                logger->error("!!! error cannot rotate above two dimensions");
-            }
-            int64_t allocSize = pBlockInfo->ItemSize;
-            for (int32_t j = 0; j < pBlockInfo->NDim; j++)
-            {
-                allocSize *= pBlockInfo->Dimensions[j];
-            }
-            return WORKSPACE_ALLOC(allocSize);
-        }
-        else
         {
             if (pIOPacket->Compatible.NeedsStringFixup & 2)
             {
@@ -5955,20 +5925,7 @@ bool FinishRotationalFixup(SDS_IO_PACKET * pIOPacket, void * origBuffer, void *
     SDS_ARRAY_BLOCK * pMasterBlock = pIOPacket->pMasterBlock;
     SDS_ARRAY_BLOCK * pBlockInfo = pIOPacket->pBlockInfo;
 
-    if (pMasterBlock->NDim >= 2 && pMasterBlock->Flags & SDS_ARRAY_F_CONTIGUOUS)
-    {
-        int64_t totalRowLength = pMasterBlock->Dimensions[0];
-        int64_t rowLength = pBlockInfo->Dimensions[0];
-        int64_t colLength = pMasterBlock->Dimensions[1];
-
-        RotationalFixup((char *)origBuffer, // original buffer (upper left of final destination)
-                        (char *)tempBuffer, // upper left corner of src
-                        totalRowLength,
-                        pIOPacket->ArrayOffset, // array offset (start row)
-                        rowLength,              // rows for this file only
-                        colLength, pMasterBlock->ItemSize);
-    }
-    else if (pIOPacket->Compatible.NeedsStringFixup & 2)
+    if (pIOPacket->Compatible.NeedsStringFixup & 2)
     {
         int64_t totalRowLength = pMasterBlock->Dimensions[0];
         int64_t rowLength = pBlockInfo->Dimensions[0];
@@ -5997,6 +5954,74 @@ bool FinishRotationalFixup(SDS_IO_PACKET * pIOPacket, void * origBuffer, void *
     return true;
 }
 
+//----------------------------------------------------------
+// Called from multiple threads
+// Reads an array whose rows are not one after the other in memory (such as Fortran order)
+// into a temporary buffer, and copies the rows that the filter selects to their place.
+//
+// rowOffset:  position of the first row in the filter
+// pIOPacket:  NULL if not stacking, otherwise destBuffer is the upper left corner of all stacked rows
+// returns -1 on failure
+static int64_t ReadAndPlaceRows(SDS_ARRAY_BLOCK * pBlockInfo, SDS_EVENT_HANDLE eventHandle, SDS_FILE_HANDLE fileHandle,
+                                void * tempBuffer, void * destBuffer, int64_t rowOffset, SDS_FILTER * pFilter,
+                                SDS_IO_PACKET * pIOPacket, int64_t stackIndex, int32_t core)
+{
+    SDS_ARRAY_BLOCK * pMasterBlock = pIOPacket ? pIOPacket->pMasterBlock : NULL;
+
+    int64_t colCount = 1;
+    for (int32_t i = 1; i < pBlockInfo->NDim; i++)
+    {
+        colCount *= pBlockInfo->Dimensions[i];
+    }
+    if (colCount == 0 || pBlockInfo->ArrayUncompressedSize == 0)
+    {
+        return 0;
+    }
+
+    int64_t const itemSize = pMasterBlock ? pMasterBlock->ItemSize : pBlockInfo->ItemSize;
+    int64_t const rowCount = pBlockInfo->ArrayUncompressedSize / (colCount * pBlockInfo->ItemSize);
+    int64_t const bufferSize = std::max<int64_t>(pBlockInfo->ArrayUncompressedSize, rowCount * colCount * itemSize);
+
+    char * pBuffer = (char *)WORKSPACE_ALLOC(bufferSize);
+    if (! pBuffer)
+    {
+        return -1;
+    }
+
+    int64_t result = ReadAndDecompressArrayBlock(pBlockInfo, eventHandle, fileHandle, tempBuffer, pBuffer, stackIndex, core,
+                                                 COMPRESSION_TYPE_ZSTD);
+
+    if (result >= 0)
+    {
+        bool const * pMask = NULL;
+        int64_t wantedRows = rowCount;
+        if (pFilter)
+        {
+            pMask = pFilter->pBoolMask + rowOffset;
+            wantedRows = std::max<int64_t>(0, std::min<int64_t>(rowCount, pFilter->BoolMaskLength - rowOffset));
+        }
+
+        int64_t srcStrides[SDS_MAX_DIMS];
+        int64_t destStrides[SDS_MAX_DIMS];
+        CalcStrides(pBlockInfo, rowCount, itemSize, srcStrides);
+        if (pMasterBlock)
+        {
+            WidenElements(pBuffer, rowCount * colCount, pMasterBlock, pBlockInfo, pIOPacket->Compatible);
+            CalcStrides(pMasterBlock, pMasterBlock->Dimensions[0], itemSize, destStrides);
+            destBuffer = (char *)destBuffer + pIOPacket->ArrayOffset * destStrides[0];
+        }
+        else
+        {
+            // the filter already changed the number of rows
+            CalcStrides(pBlockInfo, pBlockInfo->Dimensions[0], itemSize, destStrides);
+        }
+        CopyRows((char *)destBuffer, destStrides, pBuffer, srcStrides, pBlockInfo, wantedRows, pMask, itemSize);
+    }
+
+    WORKSPACE_FREE(pBuffer);
+    return result;
+}
+
 //----------------------------------------------------------
 // Decompress -- called from multiple threads -- READING data
 //
@@ -6101,6 +6126,7 @@ bool DecompressMultiArray(void * pstCompressArraysV,
         {
             // If there is no filtering, the array length in bytes is the uncompressed
             // size
+            bool isPlaced = false;
             int64_t slaveRowLength = 0;
             int64_t slaveItemSize = GetBytesPerRow(pBlockInfo);
 
@@ -6114,7 +6140,17 @@ bool DecompressMultiArray(void * pstCompressArraysV,
                 return true;
             }
 
-            if ((pMasterBlock && pMasterBlock->Flags & SDS_ARRAY_FILTERED) || (pBlockInfo->Flags & SDS_ARRAY_FILTERED))
+            bool const isFiltered =
+                (pMasterBlock && pMasterBlock->Flags & SDS_ARRAY_FILTERED) || (pBlockInfo->Flags & SDS_ARRAY_FILTERED);
+
+            if (! origBuffer && ! IsRowMajor(pMasterBlock ? pMasterBlock : pBlockInfo) && (pMasterBlock || isFiltered))
+            {
+                result = ReadAndPlaceRows(pBlockInfo, pMultiIOPackets->eventHandles[core], sdsFile, tempFileBuffer, destBuffer,
+                                          pIOPacket->OriginalArrayOffset, isFiltered ? pMultiIOPackets->pFilter : NULL,
+                                          pMasterBlock ? pIOPacket : NULL, pIOPacket->StackPosition, core);
+                isPlaced = true;
+            }
+            else if (isFiltered)
             {
                 // printf("filtering on for %lld\n", t);
                 // if (pMultiIOPackets->pFilter->pFancyMask) {
@@ -6168,27 +6204,12 @@ bool DecompressMultiArray(void * pstCompressArraysV,
                     FinishRotationalFixup(pIOPacket, origBuffer, rotateBuffer);
                     destBuffer = origBuffer;
                 }
-                else
+                else if (pMasterBlock && ! isPlaced &&
+                         (pIOPacket->Compatible.NeedsStringFixup || pIOPacket->Compatible.NeedsConversion))
                 {
-                    // Python string fixup path
-                    if (pIOPacket->Compatible.NeedsStringFixup == 1)
-                    {
-                        // This is when column have strings, but they are different widths
-                        // Find the wide string and expand everyone else
-                        StringFixup((char *)destBuffer, pMasterBlock, pBlockInfo, slaveRowLength, slaveItemSize);
-                    }
-                    if (pIOPacket->Compatible.NeedsConversion)
-                    {
-                        // done inplace (no need for extra buffer)
-                        logger->debug(
-                            "Needs conversion  mb dtype:{}  mb itemsize: {}    dim0: "
-                            "{}   slaveRowLength:{}  needs stringfixup: {}  "
-                            "filterflags: {}",
-                            pIOPacket->pMasterBlock->DType, pIOPacket->pMasterBlock->ItemSize,
-                            pIOPacket->pMasterBlock->Dimensions[0], slaveRowLength, pIOPacket->Compatible.NeedsStringFixup,
-                            pMasterBlock->Flags);
-                        ConvertDType((char *)destBuffer, pMasterBlock, pBlockInfo, slaveRowLength, slaveItemSize);
-                    }
+                    // done inplace (no need for extra buffer)
+                    WidenElements((char *)destBuffer, slaveRowLength * (slaveItemSize / pBlockInfo->ItemSize), pMasterBlock,
+                                  pBlockInfo, pIOPacket->Compatible);
                 }
             }
             else
@@ -7569,7 +7590,7 @@ public:
                         }
 
                         int64_t calcLength = 0;
-                        if (! pArrayBlock || pOriginalLengths[row] == 0)
+                        if (! pArrayBlock)
                         {
                             // NO IO PACKET (GAP)
                             logger->debug(">>> gap fill for row: {}   col: {}  name: {}", row, col, pKing->ColName);
@@ -7728,25 +7749,12 @@ public:
                     // Update master block to total length for caller allocation
                     dimensions[0] = rowLengthToAlloc;
 
-                    // Update contiguous strides for caller allocation.
-                    bool const is_f{ (pMasterBlock->Flags & SDS_ARRAY_F_CONTIGUOUS) != 0 };
-                    int const begin{ is_f ? 0 : pMasterBlock->NDim - 1 };
-                    int const end{ is_f ? pMasterBlock->NDim : -1 };
-                    int const step{ is_f ? 1 : -1 };
-
-                    int64_t stride = pMasterBlock->ItemSize;
-                    for (int j = begin; j != end; j += step)
-                    {
-                        strides[j] = stride;
-                        if (dimensions[j])
-                        {
-                            stride *= dimensions[j];
-                        }
-                    }
-
                     // FILTERING check...
                     wasFiltered |= PossiblyShrinkArray(&sdsArrayCallback, pReadCallbacks, fileTypeStackable, true);
 
+                    // Update contiguous strides for caller allocation.
+                    CalcStrides(pMasterBlock, dimensions[0], pMasterBlock->ItemSize, strides);
+
                     logger->debug(
                         "Allocating col: {}  lengthplusr: {}  length: {}   itemsize: "
                         "{}  strides: {}  dims:{}  dtype:{}  wasFiltered:{}",
@@ -7767,6 +7775,14 @@ public:
                     sdsArrayCallback.pDestInfo->Flags |= SDS_ARRAY_FILTERED;
                 }
 
+                // The filter leaves no reserved space
+                if (dimensions[0] < rowLengthToAlloc)
+                {
+                    rowLengthToAlloc = dimensions[0];
+                    pArrayOffsets[row] = rowLengthToAlloc;
+                    pKing->TotalRowLength = rowLengthToAlloc;
+                }
+
                 // update master block to total length
                 pMasterBlock->Dimensions[0] = rowLengthToAlloc;
 
@@ -7847,7 +7863,7 @@ public:
 
                         pDestInfo->pArrayObject = sdsArrayCallback.pDestInfo->pArrayObject;
 
-                        if ((pIOPacket->pMasterBlock->NDim >= 2 && pIOPacket->pMasterBlock->Flags & SDS_ARRAY_F_CONTIGUOUS) ||
+                        if (! IsRowMajor(pIOPacket->pMasterBlock) ||
                             (pIOPacket->Compatible.NeedsStringFixup & 2))
                         {
                             // TODO: filter two dimensions
-- 
2.43.0


From b63baf1c10a65315676a33bc34a25f4cabe5b280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:38 +0000
Subject: [PATCH 73/84] fix: Sort and SortInPlace corrupted memory for strings,
 objects and strided arrays

---
 src/Sort.cpp | 106 +++++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 85 insertions(+), 21 deletions(-)

diff --git a/src/Sort.cpp b/src/Sort.cpp
index 8b70504..3e52137 100644
--- a/src/Sort.cpp
+++ b/src/Sort.cpp
@@ -2910,6 +2910,62 @@ static void SortArray(void * pDataIn1, int64_t arraySize1, int32_t arrayType1, S
     }
 }
 
+template <typename UINDEX, bool Ascending>
+static void SortIndex(int64_t * pCutOffs, int64_t cutOffLength, void * pDataIn1, UINDEX arraySize1, UINDEX * pDataOut1,
+                      SORT_MODE mode, int32_t arrayType1, UINDEX strlen);
+
+//===============================================================================
+// Sorts the elements of a C contiguous array in place
+// Returns false with an error set if the elements cannot be sorted
+static bool SortContiguous(PyArrayObject * inArr1, SORT_MODE mode)
+{
+    int32_t const arrayType1 = PyArray_TYPE(inArr1);
+    int64_t const arraySize1 = ArrayLength(inArr1);
+    char * const pData = (char *)PyArray_BYTES(inArr1);
+
+    if (arrayType1 == NPY_STRING || arrayType1 == NPY_UNICODE)
+    {
+        // sort an index of the strings, then gather them
+        int64_t const itemSize = NpyItemSize((PyObject *)inArr1);
+        if (arraySize1 < 2 || itemSize == 0)
+        {
+            return true;
+        }
+
+        workspace_mem_ptr indexBuffer(WORKSPACE_ALLOC(arraySize1 * sizeof(int64_t)));
+        workspace_mem_ptr dataBuffer(WORKSPACE_ALLOC(arraySize1 * itemSize));
+        int64_t * pIndex = (int64_t *)indexBuffer.get();
+        char * pSorted = (char *)dataBuffer.get();
+
+        if (! pIndex || ! pSorted)
+        {
+            PyErr_Format(PyExc_ValueError, "Sort out of memory");
+            return false;
+        }
+
+        for (int64_t i = 0; i < arraySize1; i++)
+        {
+            pIndex[i] = i;
+        }
+        SortIndex<int64_t, true>(NULL, 0, pData, arraySize1, pIndex, mode, arrayType1, itemSize);
+        for (int64_t i = 0; i < arraySize1; i++)
+        {
+            memcpy(pSorted + i * itemSize, pData + pIndex[i] * itemSize, itemSize);
+        }
+        memcpy(pData, pSorted, arraySize1 * itemSize);
+        return true;
+    }
+
+    if (arrayType1 > NPY_LONGDOUBLE)
+    {
+        PyErr_Format(PyExc_TypeError, "Sort does not support arrays of type %d", arrayType1);
+        return false;
+    }
+
+    SortArray(pData, arraySize1, arrayType1, mode);
+    return true;
+}
+
 //===============================================================================
 // Pass in a numpy array, it will be sorted in place
 // the same array is returned
@@ -2922,18 +2978,28 @@ PyObject * SortInPlace(PyObject * self, PyObject * args)
     if (! PyArg_ParseTuple(args, "O!i", &PyArray_Type, &inArr1, &sortMode))
         return NULL;
 
-    int32_t arrayType1 = PyArray_TYPE(inArr1);
-    int ndim = PyArray_NDIM(inArr1);
-    npy_intp * dims = PyArray_DIMS(inArr1);
-
-    int64_t arraySize1 = CalcArrayLength(ndim, dims);
-    void * pDataIn1 = PyArray_BYTES(inArr1);
-
     // printf("Arary size %llu  type %d\n", arraySize1, arrayType1);
 
     SORT_MODE mode = (SORT_MODE)sortMode;
 
-    SortArray(pDataIn1, arraySize1, arrayType1, mode);
+    if (PyArray_IS_C_CONTIGUOUS(inArr1))
+    {
+        if (! SortContiguous(inArr1, mode))
+        {
+            return NULL;
+        }
+    }
+    else
+    {
+        // sort a contiguous copy
+        PyArrayObject * copyArray = (PyArrayObject *)PyArray_NewCopy(inArr1, NPY_CORDER);
+        bool const sorted = copyArray && SortContiguous(copyArray, mode) && PyArray_CopyInto(inArr1, copyArray) == 0;
+        Py_XDECREF(copyArray);
+        if (! sorted)
+        {
+            return NULL;
+        }
+    }
 
     Py_IncRef((PyObject *)inArr1);
     return SetFastArrayView(inArr1);
@@ -3040,10 +3106,13 @@ PyObject * Sort(PyObject * self, PyObject * args)
     int ndim = PyArray_NDIM(inArr1);
     npy_intp * dims = PyArray_DIMS(inArr1);
 
-    int64_t arraySize1 = CalcArrayLength(ndim, dims);
+    if (arrayType1 > NPY_LONGDOUBLE && arrayType1 != NPY_STRING && arrayType1 != NPY_UNICODE)
+    {
+        PyErr_Format(PyExc_TypeError, "Sort does not support arrays of type %d", arrayType1);
+        return NULL;
+    }
 
-    // The output is a boolean where the nth item was found
-    PyArrayObject * duplicateArray = AllocateNumpyArray(ndim, dims, arrayType1);
+    PyArrayObject * duplicateArray = AllocateNumpyArray(ndim, dims, arrayType1, NpyItemSize((PyObject *)inArr1));
 
     if (duplicateArray == NULL)
     {
@@ -3051,16 +3120,11 @@ PyObject * Sort(PyObject * self, PyObject * args)
         return NULL;
     }
 
-    void * pDataIn1 = PyArray_BYTES(inArr1);
-    void * pDataOut1 = PyArray_BYTES(duplicateArray);
-
-    int64_t itemSize = NpyItemSize((PyObject *)inArr1);
-
-    memcpy(pDataOut1, pDataIn1, arraySize1 * itemSize);
-
-    SORT_MODE mode = (SORT_MODE)sortMode;
-
-    SortArray(pDataOut1, arraySize1, arrayType1, mode);
+    if (PyArray_CopyInto(duplicateArray, inArr1) != 0 || ! SortContiguous(duplicateArray, (SORT_MODE)sortMode))
+    {
+        Py_DECREF(duplicateArray);
+        return NULL;
+    }
 
     return SetFastArrayView(duplicateArray);
 }
-- 
2.43.0


From 54d88cc872ccbd442b7de5f76ee6709aa88bf1c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:42 +0000
Subject: [PATCH 74/84] fix: LexSort of unsupported types returned an unsorted
 index

---
 src/Sort.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/Sort.cpp b/src/Sort.cpp
index 3e52137..d05e98b 100644
--- a/src/Sort.cpp
+++ b/src/Sort.cpp
@@ -3545,6 +3545,16 @@ PyObject * LexSort(PyObject * self, PyObject * args, PyObject * kwargs)
     {
         int64_t arraySize1 = mlp.totalRows;
 
+        for (Py_ssize_t i = 0; i < mlp.tupleSize; i++)
+        {
+            int32_t const dtype = mlp.aInfo[i].NumpyDType;
+            if (dtype > NPY_LONGDOUBLE && dtype != NPY_STRING && dtype != NPY_UNICODE && dtype != NPY_VOID)
+            {
+                PyErr_Format(PyExc_TypeError, "LexSort does not support arrays of type %d", dtype);
+                return NULL;
+            }
+        }
+
         int64_t cutOffLength = 0;
         int64_t * pCutOffs = GetCutOffs(kwargs, cutOffLength);
 
@@ -3678,6 +3688,11 @@ PyObject * LexSort(PyObject * self, PyObject * args, PyObject * kwargs)
         }
     }
 
+    if (PyErr_Occurred())
+    {
+        return NULL;
+    }
+
     Py_INCREF(Py_None);
     return Py_None;
 }
-- 
2.43.0


From a9222236b2ef0e5b5fed97d3c3ea2b5ad0b1009b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:46 +0000
Subject: [PATCH 75/84] fix: IsSorted shared its result between threads without
 synchronisation

---
 src/Sort.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Sort.cpp b/src/Sort.cpp
index d05e98b..10bf85d 100644
--- a/src/Sort.cpp
+++ b/src/Sort.cpp
@@ -5,6 +5,7 @@
 #include "MathWorker.h"
 #include "Recycler.h"
 #include "missing_values.h"
+#include <atomic>
 
 #define LOGGING(...)
 //#define LOGGING printf
@@ -3358,7 +3359,7 @@ PyObject * IsSorted(PyObject * self, PyObject * args)
     // MT callback
     struct IsSortedCallbackStruct
     {
-        int64_t IsSorted;
+        std::atomic<int64_t> IsSorted; // written and read by several threads
         IS_SORTED_FUNC pSortedFunc;
         const char * pDataIn1;
         int64_t ArraySize;
-- 
2.43.0


From 6b994811af2082dec7696418dc236d79e2e2405e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:53 +0000
Subject: [PATCH 76/84] fix: binning strings on several threads read the wrong
 strings

---
 src/Bins.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Bins.cpp b/src/Bins.cpp
index 4b5e759..c6e93f4 100644
--- a/src/Bins.cpp
+++ b/src/Bins.cpp
@@ -1192,7 +1192,7 @@ void SearchSortedLeftString(void * pDataIn1, void * pOut1, const int64_t start,
                             int64_t maxbin1, int64_t itemSizeValue, int64_t itemSizeBin)
 {
     const char * pData = (const char *)pDataIn1;
-    pData = &pData[start];
+    pData = &pData[start * itemSizeValue];
 
     OUT_TYPE * pOut = (OUT_TYPE *)pOut1;
     pOut = &pOut[start];
@@ -1287,7 +1287,7 @@ void MakeBinsBSearchString(void * pDataIn1, void * pOut1, const int64_t start, c
                            int64_t maxbin1, int64_t itemSizeValue, int64_t itemSizeBin)
 {
     const char * pData = (const char *)pDataIn1;
-    pData = &pData[start];
+    pData = &pData[start * itemSizeValue];
 
     OUT_TYPE * pOut = (OUT_TYPE *)pOut1;
     pOut = &pOut[start];
-- 
2.43.0


From 479cb37ba7ba446d332b83f7795ee7c5b899ecc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:58 +0000
Subject: [PATCH 77/84] fix: IsMemberCategorical threads set a shared flag
 without synchronisation

---
 src/HashLinear.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/HashLinear.cpp b/src/HashLinear.cpp
index c8ab6cc..61647f8 100644
--- a/src/HashLinear.cpp
+++ b/src/HashLinear.cpp
@@ -8,6 +8,7 @@
 #include "Recycler.h"
 #include "numpy_traits.h"
 #include "TypeSystem.h"
+#include <atomic>
 
 #include <exception>
 #include <cstdlib>
@@ -4715,7 +4716,7 @@ struct IMS_CALLBACK
     int64_t strWidth2;
     void * pOutput;
     int64_t typeSizeOut;
-    int64_t missed;
+    std::atomic<int64_t> missed; // set by several threads
 
     bool isUnicode;
 
-- 
2.43.0


From 0e15736b20fce25db537470aa0ad634bb4179cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:44 +0000
Subject: [PATCH 78/84] fix: IsMember32 of strings and HStack of unsupported
 types leaked memory

---
 src/Convert.cpp    | 2 ++
 src/HashLinear.cpp | 6 +++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/Convert.cpp b/src/Convert.cpp
index 822e050..5993355 100644
--- a/src/Convert.cpp
+++ b/src/Convert.cpp
@@ -2895,6 +2895,7 @@ PyObject * HStack(PyObject * self, PyObject * args)
                 }
                 else
                 {
+                    FreeArrayInfo(aInfo);
                     PyErr_Format(PyExc_ValueError,
                                  "Dont know how to convert dtype num %d.  Please make "
                                  "sure all arrays are ints or floats.",
@@ -3010,6 +3011,7 @@ PyObject * HStack(PyObject * self, PyObject * args)
 
                 if (a_dtype > NPY_LONGDOUBLE || aInfo[t].NDim != 1)
                 {
+                    WORKSPACE_FREE(pHStack);
                     FreeArrayInfo(aInfo);
                     PyErr_Format(PyExc_ValueError,
                                  "Dont know how to convert dtype num %d or more than 1 dimension. "
diff --git a/src/HashLinear.cpp b/src/HashLinear.cpp
index 61647f8..afa0698 100644
--- a/src/HashLinear.cpp
+++ b/src/HashLinear.cpp
@@ -5885,6 +5885,9 @@ PyObject * IsMember32(PyObject * self, PyObject * args)
                     // Performance gain: if STRING and itemsize matches and itemsize is 1 or 2
                     // --> Send to IsMemberHash32
                     // sizeType2 is taken to the be fixed length of each string
+                    // NOTE: allocates the index array itself
+                    Py_DECREF((PyObject *)indexArray);
+                    indexArray = NULL;
                     IsMemberHashString32Pre(&indexArray, inArr1, arraySize1, sizeType1, (const char *)pDataIn1, arraySize2,
                                             sizeType2, (const char *)pDataIn2, pDataOut1, HASH_MODE(hashMode), hintSize,
                                             arrayType1 == NPY_UNICODE);
@@ -5933,7 +5936,8 @@ PyObject * IsMember32(PyObject * self, PyObject * args)
     }
     catch (std::runtime_error const & e)
     {
-        // TODO: Need to release some objects that may have been allocated? E.g. 'boolArray', 'indexArray'.
+        Py_DECREF((PyObject *)boolArray);
+        Py_XDECREF((PyObject *)indexArray);
         PyErr_Format(PyExc_RuntimeError, e.what());
         return NULL;
     }
-- 
2.43.0


From 7af6662931869fe7ae64d2cbae6612444300efd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:23 +0000
Subject: [PATCH 79/84] fix: BooleanToFancy of an empty array read past its
 chunk counts

---
 src/Merge.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Merge.cpp b/src/Merge.cpp
index df1eddc..4e4c432 100644
--- a/src/Merge.cpp
+++ b/src/Merge.cpp
@@ -1581,7 +1581,8 @@ PyObject * BooleanToFancy(PyObject * self, PyObject * args, PyObject * kwargs)
         // TJD: April 2019 note -- when the chunk size is between 65536 and 128000
         // it is really one chunk, but the code still works
         int64_t chunkSize = g_cMathWorker->WORK_ITEM_CHUNK;
-        int64_t chunks = (indexLength + (chunkSize - 1)) / chunkSize;
+        // as in BooleanCount there is always one chunk
+        int64_t chunks = ((indexLength > 1 ? indexLength : 1) + (chunkSize - 1)) / chunkSize;
 
         // Also need false count
         pChunkCountFalse = (int64_t *)WORKSPACE_ALLOC(chunks * sizeof(int64_t));
-- 
2.43.0


From 004482036bb3d16bd35dd63604649e01b7aa9514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:04 +0000
Subject: [PATCH 80/84] fix: cuts, combining, counting and grouping functions
 ignored the strides of their arrays

---
 src/Bins.cpp       | 32 ++++++++++++++++++++++++++++++++
 src/BitCount.cpp   |  6 ++++++
 src/Convert.cpp    | 37 +++++++++++++++++++++++++++++++++++++
 src/HashLinear.cpp | 12 ++++++++++++
 src/Sort.cpp       | 20 ++++++++++++++++++++
 src/TileRepeat.cpp |  8 ++++++++
 6 files changed, 115 insertions(+)

diff --git a/src/Bins.cpp b/src/Bins.cpp
index c6e93f4..7c26e92 100644
--- a/src/Bins.cpp
+++ b/src/Bins.cpp
@@ -285,6 +285,20 @@ PyObject * ReMapIndex(PyObject * self, PyObject * args)
     if (! PyArg_ParseTuple(args, "O!O!O", &PyArray_Type, &inArr1, &PyArray_Type, &outArr1, &PyArray_Type, &remapArr1))
         return NULL;
 
+    // The values are read one after the other
+    ContiguousArray const holdArr(inArr1);
+    ContiguousArray const holdRemap(remapArr1);
+    inArr1 = holdArr.get();
+    remapArr1 = holdRemap.get();
+    if (! inArr1 || ! remapArr1)
+        return NULL;
+
+    if (! PyArray_ISONESEGMENT(outArr1))
+    {
+        PyErr_Format(PyExc_ValueError, "second arg array must be contiguous");
+        return NULL;
+    }
+
     if (PyArray_TYPE(remapArr1) != NPY_INT32)
     {
         PyErr_Format(PyExc_ValueError, "third arg array must be NPY_int32_t -- not %d", PyArray_TYPE(remapArr1));
@@ -704,6 +718,16 @@ PyObject * BinsToCutsSorted(PyObject * self, PyObject * args)
                            &PyTuple_Type, &counts, &binMode))
         return NULL;
 
+    // The values are read one after the other
+    ContiguousArray const holdArr(inArr1);
+    ContiguousArray const holdBin(binArr1);
+    ContiguousArray const holdIndex(indexArr1);
+    inArr1 = holdArr.get();
+    binArr1 = holdBin.get();
+    indexArr1 = holdIndex.get();
+    if (! inArr1 || ! binArr1 || ! indexArr1)
+        return NULL;
+
     int64_t nancount = 0;
     int64_t infcount = 0;
     int64_t neginfcount = 0;
@@ -1767,6 +1791,14 @@ PyObject * BinsToCutsBSearch(PyObject * self, PyObject * args)
     if (! PyArg_ParseTuple(args, "O!O!i", &PyArray_Type, &inArr1, &PyArray_Type, &binArr1, &searchMode))
         return NULL;
 
+    // The values are read one after the other
+    ContiguousArray const holdArr(inArr1);
+    ContiguousArray const holdBin(binArr1);
+    inArr1 = holdArr.get();
+    binArr1 = holdBin.get();
+    if (! inArr1 || ! binArr1)
+        return NULL;
+
     int binType = PyArray_TYPE(binArr1);
 
     int numpyInType = PyArray_TYPE(inArr1);
diff --git a/src/BitCount.cpp b/src/BitCount.cpp
index 59b181e..2ace0b0 100644
--- a/src/BitCount.cpp
+++ b/src/BitCount.cpp
@@ -26,6 +26,12 @@ PyObject * BitCount(PyObject * self, PyObject * args)
     if (! PyArg_ParseTuple(args, "O!", &PyArray_Type, &inArr))
         return NULL;
 
+    // The values are read one after the other
+    ContiguousArray const holdArr(inArr);
+    inArr = holdArr.get();
+    if (! inArr)
+        return NULL;
+
     const int ndim = PyArray_NDIM(inArr);
     // N.B. AllocateNumpyArray doesn't accept const pointer for dims
     npy_intp * dims = PyArray_DIMS(inArr);
diff --git a/src/Convert.cpp b/src/Convert.cpp
index 5993355..1d41ff7 100644
--- a/src/Convert.cpp
+++ b/src/Convert.cpp
@@ -1473,6 +1473,14 @@ PyObject * CombineFilter(PyObject * self, PyObject * args)
         return NULL;
     }
 
+    // The values are read one after the other
+    ContiguousArray const holdArr(inArr1);
+    ContiguousArray const holdFilter(inFilter);
+    inArr1 = holdArr.get();
+    inFilter = holdFilter.get();
+    if (! inArr1 || ! inFilter)
+        return NULL;
+
     int32_t numpyOutType = PyArray_TYPE(inArr1);
     void * pDataIn = PyArray_BYTES(inArr1);
     int ndim = PyArray_NDIM(inArr1);
@@ -1772,6 +1780,17 @@ PyObject * CombineAccum2Filter(PyObject * self, PyObject * args)
         return NULL;
     }
 
+    // The values are read one after the other
+    ContiguousArray const holdArr1(inArr1);
+    ContiguousArray const holdArr2(inArr2);
+    ContiguousArray const holdFilter(PyArray_Check(inFilter) ? (PyArrayObject *)inFilter : NULL);
+    inArr1 = holdArr1.get();
+    inArr2 = holdArr2.get();
+    if (PyArray_Check(inFilter))
+        inFilter = (PyObject *)holdFilter.get();
+    if (! inArr1 || ! inArr2 || ! inFilter)
+        return NULL;
+
     inArr1Max++;
     inArr2Max++;
 
@@ -2222,6 +2241,15 @@ PyObject * CombineAccum1Filter(PyObject * self, PyObject * args)
         return NULL;
     }
 
+    // The values are read one after the other
+    ContiguousArray const holdArr(inArr1);
+    ContiguousArray const holdFilter(PyArray_Check(inFilter) ? (PyArrayObject *)inFilter : NULL);
+    inArr1 = holdArr.get();
+    if (PyArray_Check(inFilter))
+        inFilter = (PyObject *)holdFilter.get();
+    if (! inArr1 || ! inFilter)
+        return NULL;
+
     void * pDataIn1 = PyArray_BYTES(inArr1);
     int8_t * pFilterIn = NULL;
 
@@ -2467,6 +2495,15 @@ PyObject * MakeiFirst(PyObject * self, PyObject * args)
         return NULL;
     }
 
+    // The values are read one after the other
+    ContiguousArray const holdArr(inArr1);
+    ContiguousArray const holdFilter(PyArray_Check(inFilter) ? (PyArrayObject *)inFilter : NULL);
+    inArr1 = holdArr.get();
+    if (PyArray_Check(inFilter))
+        inFilter = (PyObject *)holdFilter.get();
+    if (! inArr1 || ! inFilter)
+        return NULL;
+
     void * pDataIn1 = PyArray_BYTES(inArr1);
     int8_t * pFilterIn = NULL;
 
diff --git a/src/HashLinear.cpp b/src/HashLinear.cpp
index afa0698..7ed88aa 100644
--- a/src/HashLinear.cpp
+++ b/src/HashLinear.cpp
@@ -6202,6 +6202,18 @@ PyObject * MergeBinnedAndSorted(PyObject * self, PyObject * args)
         return NULL;
     }
 
+    // The values are read one after the other
+    ContiguousArray const holdKey1(key1);
+    ContiguousArray const holdKey2(key2);
+    ContiguousArray const holdVal1(pvalArray1);
+    ContiguousArray const holdVal2(pvalArray2);
+    key1 = holdKey1.get();
+    key2 = holdKey2.get();
+    pvalArray1 = holdVal1.get();
+    pvalArray2 = holdVal2.get();
+    if (! key1 || ! key2 || ! pvalArray1 || ! pvalArray2)
+        return NULL;
+
     LOGGING("Unique size %lld\n", totalUniqueSize);
     int32_t dtype1 = ObjectToDtype((PyArrayObject *)pvalArray1);
     int32_t dtype2 = ObjectToDtype((PyArrayObject *)pvalArray2);
diff --git a/src/Sort.cpp b/src/Sort.cpp
index 10bf85d..662dbff 100644
--- a/src/Sort.cpp
+++ b/src/Sort.cpp
@@ -3025,6 +3025,18 @@ PyObject * SortInPlaceIndirect(PyObject * self, PyObject * args)
     if (! PyArg_ParseTuple(args, "O!O!", &PyArray_Type, &inArr1, &PyArray_Type, &inSort))
         return NULL;
 
+    if (! PyArray_ISONESEGMENT(inArr1))
+    {
+        PyErr_Format(PyExc_ValueError, "SortInPlaceIndirect: first array must be contiguous");
+        return NULL;
+    }
+
+    // The values are read one after the other
+    ContiguousArray const holdSort(inSort);
+    inSort = holdSort.get();
+    if (! inSort)
+        return NULL;
+
     int32_t arrayType1 = PyArray_TYPE(inArr1);
     int32_t sortType = PyArray_TYPE(inSort);
 
@@ -4428,6 +4440,14 @@ PyObject * GroupFromLexSort(PyObject * self, PyObject * args, PyObject * kwargs)
         return PyErr_Format(PyExc_TypeError, "Invalid argument types and/or count for GroupFromLexSort.");
     }
 
+    // The values are read one after the other
+    ContiguousArray const holdIndex(inArrSortIndex);
+    ContiguousArray const holdValues(inArrValues);
+    inArrSortIndex = holdIndex.get();
+    inArrValues = holdValues.get();
+    if (! inArrSortIndex || ! inArrValues)
+        return NULL;
+
     const auto arrLength = ArrayLength(inArrSortIndex);
     const auto arrLengthValues = ArrayLength(inArrValues);
 
diff --git a/src/TileRepeat.cpp b/src/TileRepeat.cpp
index 5b46e1f..0f80eaa 100644
--- a/src/TileRepeat.cpp
+++ b/src/TileRepeat.cpp
@@ -172,6 +172,14 @@ PyObject * RecordArrayToColMajor(PyObject * self, PyObject * args)
         return NULL;
     }
 
+    // The values are read one after the other
+    ContiguousArray const holdOffset(offsetArr);
+    ContiguousArray const holdArrays(arrArr);
+    offsetArr = holdOffset.get();
+    arrArr = holdArrays.get();
+    if (! offsetArr || ! arrArr)
+        return NULL;
+
     int64_t itemSize = PyArray_ITEMSIZE(inArr);
 
     if (PyArray_DIM(inArr, 0) > 1 && itemSize != PyArray_STRIDE(inArr, 0))
-- 
2.43.0


From 0a04e157e611d7d2d2a6055794bce37fc5b861fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:04 +0000
Subject: [PATCH 81/84] fix: positions and group numbers outside their range
 were followed outside of the arrays

---
 src/Bins.cpp          | 22 ++++++++++++++++
 src/Ema.cpp           |  6 +++++
 src/GroupBy.cpp       | 42 +++++++++++++++++++++++++++++++
 src/HashFunctions.cpp |  6 +++++
 src/HashLinear.cpp    |  4 +++
 src/Merge.cpp         | 16 ++++++++++++
 src/MultiKey.cpp      | 40 +++++++++++++++++++++++------
 src/RipTide.cpp       | 51 +++++++++++++++++++++++++++++++++++++
 src/RipTide.h         |  1 +
 src/Sort.cpp          | 58 +++++++++++++++++++++++++++++++++++++++++--
 src/TileRepeat.cpp    | 21 ++++++++++++++++
 11 files changed, 258 insertions(+), 9 deletions(-)

diff --git a/src/Bins.cpp b/src/Bins.cpp
index 7c26e92..161777d 100644
--- a/src/Bins.cpp
+++ b/src/Bins.cpp
@@ -217,6 +217,8 @@ PyObject * ReIndex(PyObject * self, PyObject * args)
                      "ReIndex: Must pass in at least two params, "
                      "first param is the indexer");
     }
+    if (PyErr_Occurred())
+        return NULL;
     Py_INCREF(Py_None);
     return Py_None;
 }
@@ -338,6 +340,14 @@ PyObject * ReMapIndex(PyObject * self, PyObject * args)
             int64_t length = ArrayLength(inArr1);
             int64_t mapLength = ArrayLength(remapArr1);
 
+            if (ArrayLength(outArr1) < length)
+            {
+                PyErr_Format(PyExc_ValueError, "ReMapIndex: second arg array is too short");
+                return NULL;
+            }
+            if (! CheckIndexRange(inArr1, 0, mapLength, "ReMapIndex"))
+                return NULL;
+
             func(pInput, pOutput, length, (int32_t *)pRemap, mapLength);
         }
     }
@@ -495,6 +505,9 @@ PyObject * NanInfCountFromSort(PyObject * self, PyObject * args)
             int numpyInType = mlp.aInfo[0].NumpyDType;
             int numpyIndexType = mlp.aInfo[1].NumpyDType;
 
+            if (! CheckIndexRange(mlp.aInfo[1].pObject, 0, arraySize1, "NanInfCountFromSort"))
+                return NULL;
+
             NAN_INF_COUNT func = nullptr;
 
             switch (numpyIndexType)
@@ -747,6 +760,15 @@ PyObject * BinsToCutsSorted(PyObject * self, PyObject * args)
         PyErr_Format(PyExc_ValueError, "bin array must not be empty");
         return NULL;
     }
+    else if (ArrayLength(indexArr1) != ArrayLength(inArr1))
+    {
+        PyErr_Format(PyExc_ValueError, "BinsToCutsSorted: Array sizes must match");
+        return NULL;
+    }
+    else if (! CheckIndexRange(indexArr1, 0, ArrayLength(inArr1), "BinsToCutsSorted"))
+    {
+        return NULL;
+    }
     else
     {
         int numpyInType = PyArray_TYPE(inArr1);
diff --git a/src/Ema.cpp b/src/Ema.cpp
index f64dc64..94ab7a5 100644
--- a/src/Ema.cpp
+++ b/src/Ema.cpp
@@ -2486,6 +2486,12 @@ PyObject * EmaAll32(PyObject * self, PyObject * args)
 
     int64_t totalArrayLength = ArrayLength(iKey);
 
+    // rows in groups below 1 are left out, groups above the last one do not exist
+    if (! CheckIndexRange(iKey, std::numeric_limits<int64_t>::min(), unique_rows + GB_BASE_INDEX, "EmaAll32"))
+    {
+        return NULL;
+    }
+
     if (inResetMask != NULL && (PyArray_TYPE(inResetMask) != 0 || ArrayLength(inResetMask) != totalArrayLength))
     {
         PyErr_Format(PyExc_ValueError, "EmaAll32 inResetMask must be a bool mask of same size");
diff --git a/src/GroupBy.cpp b/src/GroupBy.cpp
index f9c9966..c36e7d4 100644
--- a/src/GroupBy.cpp
+++ b/src/GroupBy.cpp
@@ -4887,6 +4887,40 @@ PyObject * GroupByAll32(PyObject * self, PyObject * args)
 // Formula for first
 // AccumBin[iKey[iFirst[i]]] = Column[iFirst[i]]
 
+// Every bin lies within iGroup and the rows it lists exist
+template <typename T>
+static bool CheckPackedGroups(PyArrayObject * iGroup, PyArrayObject * iFirst, PyArrayObject * nCount, int64_t bins, int64_t rows)
+{
+    T const * const pGroup = (T const *)PyArray_BYTES(iGroup);
+    T const * const pFirst = (T const *)PyArray_BYTES(iFirst);
+    T const * const pCount = (T const *)PyArray_BYTES(nCount);
+    int64_t const groupLength = ArrayLength(iGroup);
+
+    for (int64_t bin = 0; bin < bins; bin++)
+    {
+        if (pCount[bin] < 0)
+        {
+            return false;
+        }
+        if (pCount[bin] > 0)
+        {
+            if (pFirst[bin] < 0 || pFirst[bin] > groupLength - pCount[bin])
+            {
+                return false;
+            }
+            for (T i = 0; i < pCount[bin]; i++)
+            {
+                T const row = pGroup[pFirst[bin] + i];
+                if (row < 0 || row >= rows)
+                {
+                    return false;
+                }
+            }
+        }
+    }
+    return true;
+}
+
 PyObject * GroupByAllPack32(PyObject * self, PyObject * args)
 {
     PyObject * inList1 = NULL;
@@ -4992,6 +5026,14 @@ PyObject * GroupByAllPack32(PyObject * self, PyObject * args)
         return NULL;
     }
 
+    if (ArrayLength(iFirst) < unique_rows || ArrayLength(nCount) < unique_rows ||
+        ! (PyArray_ITEMSIZE(iGroup) == sizeof(int32_t) ? CheckPackedGroups<int32_t>(iGroup, iFirst, nCount, unique_rows, arraySizeKey) :
+                                                         CheckPackedGroups<int64_t>(iGroup, iFirst, nCount, unique_rows, arraySizeKey)))
+    {
+        PyErr_Format(PyExc_ValueError, "GroupByAllPack32 iGroup, iFirstGroup and nCountGroup do not describe groups of the rows");
+        return NULL;
+    }
+
     if (tupleSize == 1 && arraySizeKey > 65536)
     {
         int overflow = 0;
diff --git a/src/HashFunctions.cpp b/src/HashFunctions.cpp
index fde87c4..8b35080 100644
--- a/src/HashFunctions.cpp
+++ b/src/HashFunctions.cpp
@@ -430,6 +430,12 @@ PyObject * IsMemberCategoricalFixup(PyObject * self, PyObject * args)
         "baseoffset2:%d\n",
         unique2Length, baseoffset1, baseoffset2);
 
+    // values below the base offset are not members, there is nothing to match values beyond the uniques with
+    int64_t const anyLow = std::numeric_limits<int64_t>::min();
+    if (! CheckIndexRange(inArr1, anyLow, (int64_t)arraySizeUnique + baseoffset1, "IsMemberCategoricalFixup") ||
+        ! CheckIndexRange(inArr2, anyLow, (int64_t)unique2Length + baseoffset2, "IsMemberCategoricalFixup"))
+        return NULL;
+
     // need to reindex this array...
     int32_t * reIndexArray = (int32_t *)WORKSPACE_ALLOC(arraySizeUnique * sizeof(int32_t));
     int32_t * reverseMapArray = (int32_t *)WORKSPACE_ALLOC(unique2Length * sizeof(int32_t));
diff --git a/src/HashLinear.cpp b/src/HashLinear.cpp
index 7ed88aa..b23fad9 100644
--- a/src/HashLinear.cpp
+++ b/src/HashLinear.cpp
@@ -6253,6 +6253,10 @@ PyObject * MergeBinnedAndSorted(PyObject * self, PyObject * args)
         return NULL;
     }
 
+    if (! CheckIndexRange(key1, 0, totalUniqueSize, "MergeBinnedAndSorted") ||
+        ! CheckIndexRange(key2, 0, totalUniqueSize, "MergeBinnedAndSorted"))
+        return NULL;
+
     PyArrayObject * indexArray = AllocateLikeNumpyArray(key1, PyArray_TYPE(key1));
     bool success = false;
 
diff --git a/src/Merge.cpp b/src/Merge.cpp
index 4e4c432..cbbba15 100644
--- a/src/Merge.cpp
+++ b/src/Merge.cpp
@@ -1922,6 +1922,22 @@ PyObject * ReIndexGroups(PyObject * self, PyObject * args)
 
     int64_t u_cutoffs_length = ArrayLength(u_cutoffs);
 
+    if (ArrayLength(i_cutoffs) < u_cutoffs_length)
+    {
+        PyErr_Format(PyExc_ValueError, "ReIndexGroups: cutoffs must have the same length");
+        return NULL;
+    }
+    for (int64_t t = 0; t < u_cutoffs_length; t++)
+    {
+        int64_t const * const pICutOffs = (int64_t *)PyArray_BYTES(i_cutoffs);
+        int64_t const * const pUCutOffs = (int64_t *)PyArray_BYTES(u_cutoffs);
+        if (pICutOffs[t] < (t > 0 ? pICutOffs[t - 1] : 0) || pICutOffs[t] > ArrayLength(ikey) || pUCutOffs[t] < 0)
+        {
+            PyErr_Format(PyExc_ValueError, "ReIndexGroups: cutoffs are out of range");
+            return NULL;
+        }
+    }
+
     stReIndex preindex;
 
     preindex.pUCutOffs = (int64_t *)PyArray_BYTES(u_cutoffs);
diff --git a/src/MultiKey.cpp b/src/MultiKey.cpp
index 8183a1c..8685e0d 100644
--- a/src/MultiKey.cpp
+++ b/src/MultiKey.cpp
@@ -768,7 +768,7 @@ bool GroupByPackFinal32(int64_t numUnique, int64_t totalRows, void * pIndexArray
                 pFirstArray[lookfor] = runningCount;
 
                 // We are at the head of the list, now count up how many
-                while (j >= 0)
+                while (j >= 0 && runningCount < totalRows)
                 {
                     pSortArray[runningCount++] = j;
                     j = pNextArray[j];
@@ -794,7 +794,7 @@ bool GroupByPackFinal32(int64_t numUnique, int64_t totalRows, void * pIndexArray
                 int32_t j = pNextArray[0];
 
                 // We are at the head of the list, now count up how many
-                while (j >= 0)
+                while (j >= 0 && runningCount < totalRows)
                 {
                     pSortArray[runningCount++] = j;
                     j = pNextArray[j];
@@ -811,7 +811,7 @@ bool GroupByPackFinal32(int64_t numUnique, int64_t totalRows, void * pIndexArray
             for (int32_t i = 0; i < totalRows; i++)
             {
                 // Check if we found the head of the unique id (the key)
-                if (lookfor < numUnique && pIndexArray[i] == lookfor)
+                if (lookfor < numUnique && pIndexArray[i] == lookfor && runningCount < totalRows)
                 {
                     int32_t count = runningCount;
 
@@ -822,7 +822,7 @@ bool GroupByPackFinal32(int64_t numUnique, int64_t totalRows, void * pIndexArray
                     int32_t j = pNextArray[i];
 
                     // We are at the head of the list, now count up how many
-                    while (j >= 0)
+                    while (j >= 0 && runningCount < totalRows)
                     {
                         pSortArray[runningCount++] = j;
                         j = pNextArray[j];
@@ -844,7 +844,7 @@ bool GroupByPackFinal32(int64_t numUnique, int64_t totalRows, void * pIndexArray
                 for (int32_t i = 0; i < totalRows; i++)
                 {
                     // Check if we found the head of the invalid unique id (the key)
-                    if (pIndexArray[i] == 0)
+                    if (pIndexArray[i] == 0 && runningCount < totalRows)
                     {
                         int32_t count = runningCount;
 
@@ -857,7 +857,7 @@ bool GroupByPackFinal32(int64_t numUnique, int64_t totalRows, void * pIndexArray
                         int32_t j = pNextArray[i];
 
                         // We are at the head of the list, now count up how many
-                        while (j >= 0)
+                        while (j >= 0 && runningCount < totalRows)
                         {
                             pSortArray[runningCount++] = j;
                             j = pNextArray[j];
@@ -918,6 +918,11 @@ PyObject * GroupByPack32(PyObject * self, PyObject * args)
         return NULL;
     }
 
+    if (! CheckIndexRange(indexArray, 0, numUnique + GB_BASE_INDEX, "GroupByPack32"))
+    {
+        return NULL;
+    }
+
     try
     {
         int64_t totalRows = ArrayLength(indexArray);
@@ -970,6 +975,11 @@ PyObject * GroupByPack32(PyObject * self, PyObject * args)
                 PyErr_Format(PyExc_ValueError, "GroupByPack32 next must be int32");
                 return NULL;
             }
+            // every row is followed by a row or by none (negative)
+            if (! CheckIndexRange(nextArray, std::numeric_limits<int32_t>::min(), totalRows, "GroupByPack32"))
+            {
+                return NULL;
+            }
             pNextArray = (int32_t *)PyArray_BYTES(nextArray);
         }
 
@@ -2127,7 +2137,10 @@ void MakeiGroup(void * piKeyT, void * pnCountGroupT, void * piFirstGroupT, void
             OUTDTYPE nextloc = piFirstGroup[key];
             // printf("%lld %lld -- %p %p\n", (int64_t)key, (int64_t)nextloc,
             // piFirstGroup, piGroup );
-            piGroup[nextloc] = (OUTDTYPE)i;
+            if (nextloc < totalRows) // more rows than counted do not fit
+            {
+                piGroup[nextloc] = (OUTDTYPE)i;
+            }
             piFirstGroup[key] = nextloc + 1;
         }
     }
@@ -2253,6 +2266,19 @@ PyObject * GroupFromBinCount(PyObject * self, PyObject * args)
         return NULL;
     }
 
+    // the groups together have no more rows than there are
+    int64_t countedRows = 0;
+    for (int64_t i = 0; i < totalUnique; i++)
+    {
+        int64_t const rows = outdtype == NPY_INT32 ? ((int32_t *)PyArray_BYTES(nCountGroup))[i] : ((int64_t *)PyArray_BYTES(nCountGroup))[i];
+        if (rows < 0 || rows > totalRows - countedRows)
+        {
+            PyErr_Format(PyExc_ValueError, "GroupFromBinCount: nCountGroup does not match the number of rows.");
+            return NULL;
+        }
+        countedRows += rows;
+    }
+
     outiGroup = AllocateNumpyArray(1, (npy_intp *)&totalRows, outdtype);
     outiFirstGroup = AllocateNumpyArray(1, (npy_intp *)&totalUnique, outdtype);
 
diff --git a/src/RipTide.cpp b/src/RipTide.cpp
index 608799e..8bd6601 100644
--- a/src/RipTide.cpp
+++ b/src/RipTide.cpp
@@ -257,6 +257,57 @@ PyArrayObject * EnsureContiguousArray(PyArrayObject * inObject)
     return inObject;
 }
 
+template <typename T>
+static bool FindOutOfRange(void const * pIndexT, int64_t length, int64_t low, int64_t high, int64_t & value)
+{
+    T const * const pIndex = (T const *)pIndexT;
+    T minValue = (std::numeric_limits<T>::max)();
+    T maxValue = (std::numeric_limits<T>::min)();
+
+    for (int64_t i = 0; i < length; i++)
+    {
+        minValue = pIndex[i] < minValue ? pIndex[i] : minValue;
+        maxValue = pIndex[i] > maxValue ? pIndex[i] : maxValue;
+    }
+
+    value = minValue < low ? minValue : maxValue;
+    return length > 0 && (minValue < low || maxValue >= high);
+}
+
+//-----------------------------------------------------------
+// Checks that every value of a contiguous array of positions or group numbers is in low .. high - 1
+// Returns false and sets a python error if not (arrays that are not of signed integers pass)
+bool CheckIndexRange(PyArrayObject * inArr, int64_t low, int64_t high, char const * name)
+{
+    void const * const pIndex = PyArray_BYTES(inArr);
+    int64_t const length = ArrayLength(inArr);
+    int64_t value = 0;
+    bool outOfRange = false;
+
+    switch (PyArray_TYPE(inArr))
+    {
+    case NPY_INT8:
+        outOfRange = FindOutOfRange<int8_t>(pIndex, length, low, high, value);
+        break;
+    case NPY_INT16:
+        outOfRange = FindOutOfRange<int16_t>(pIndex, length, low, high, value);
+        break;
+    CASE_NPY_INT32:
+        outOfRange = FindOutOfRange<int32_t>(pIndex, length, low, high, value);
+        break;
+    CASE_NPY_INT64:
+        outOfRange = FindOutOfRange<int64_t>(pIndex, length, low, high, value);
+        break;
+    }
+
+    if (outOfRange)
+    {
+        PyErr_Format(PyExc_ValueError, "%s: index %lld is out of range", name, (long long)value);
+        return false;
+    }
+    return true;
+}
+
 //----------------------------------------------------------------
 // Calculate the total number of bytes used by the array.
 // TODO: Need to extend this to accomodate strided arrays.
diff --git a/src/RipTide.h b/src/RipTide.h
index f2e9c64..396f4b8 100644
--- a/src/RipTide.h
+++ b/src/RipTide.h
@@ -168,6 +168,7 @@ extern int32_t GetArrDType(PyArrayObject * inArr);
 extern bool ConvertScalarObject(PyObject * inObject1, _m256all * pDest, int16_t numpyType, void ** pDataIn, int64_t * pItemSize);
 extern bool ConvertSingleItemArray(void * pInput, int16_t numpyInType, _m256all * pDest, int16_t numpyType);
 extern PyArrayObject * EnsureContiguousArray(PyArrayObject * inObject);
+extern bool CheckIndexRange(PyArrayObject * inArr, int64_t low, int64_t high, char const * name);
 
 //--------------------------------------------------------------------
 // Holds an array whose values lie one after the other in memory: the array
diff --git a/src/Sort.cpp b/src/Sort.cpp
index 662dbff..3bfb9ea 100644
--- a/src/Sort.cpp
+++ b/src/Sort.cpp
@@ -3043,6 +3043,9 @@ PyObject * SortInPlaceIndirect(PyObject * self, PyObject * args)
     int64_t arraySize1 = ArrayLength(inArr1);
     int64_t sortSize = ArrayLength(inSort);
 
+    if (! CheckIndexRange(inArr1, 0, sortSize, "SortInPlaceIndirect") || ! CheckIndexRange(inSort, 0, sortSize, "SortInPlaceIndirect"))
+        return NULL;
+
     if (arrayType1 == NPY_INT32 && sortType == NPY_INT32)
     {
         int32_t * pDataIn = (int32_t *)PyArray_BYTES(inArr1);
@@ -3441,8 +3444,23 @@ int64_t * GetCutOffs(PyObject * kwargs, int64_t & cutoffLength)
             switch (PyArray_TYPE(pCutOffs))
             {
             CASE_NPY_INT64:
-                cutoffLength = ArrayLength(pCutOffs);
-                return (int64_t *)PyArray_BYTES(pCutOffs);
+                {
+                    cutoffLength = ArrayLength(pCutOffs);
+                    int64_t * const pValues = (int64_t *)PyArray_BYTES(pCutOffs);
+
+                    // each partition ends where the next one starts
+                    bool valid = cutoffLength > 0 && PyArray_ISONESEGMENT(pCutOffs);
+                    for (int64_t i = 0; valid && i < cutoffLength; i++)
+                    {
+                        valid = pValues[i] >= (i > 0 ? pValues[i - 1] : 0);
+                    }
+                    if (valid)
+                    {
+                        return pValues;
+                    }
+                    cutoffLength = -1;
+                    return NULL;
+                }
             default:
                 printf("Bad cutoff dtype... make sure int64_t\n");
                 cutoffLength = -1;
@@ -3624,6 +3642,17 @@ PyObject * LexSort(PyObject * self, PyObject * args, PyObject * kwargs)
                 return NULL;
             }
 
+            if (! PyArray_ISONESEGMENT(index))
+            {
+                PyErr_Format(PyExc_ValueError, "LexSort 'index' must be contiguous");
+                return NULL;
+            }
+
+            if (! CheckIndexRange(index, 0, arraySize1, "LexSort"))
+            {
+                return NULL;
+            }
+
             // reduce what we sort to the startindex
             arraySize1 = indexLength;
             result = index;
@@ -4035,6 +4064,21 @@ static PyObject * GroupFromLexSortInternal(PyObject * kwargs, UINDEX * pIndex, n
     {
         return PyErr_Format(PyExc_ValueError, "GroupFromLexSort 'cutoffs' must be an array of type int64_t");
     }
+    if (pCutOffs)
+    {
+        // the positions are relative to their partition
+        for (int64_t t = 0, partStart = 0; t < cutOffLength; partStart = pCutOffs[t++])
+        {
+            for (int64_t i = partStart; i < pCutOffs[t]; i++)
+            {
+                if (pIndex[i] >= pCutOffs[t] - partStart)
+                {
+                    return PyErr_Format(PyExc_ValueError, "GroupFromLexSort index %lld is outside of its partition",
+                                        (long long)pIndex[i]);
+                }
+            }
+        }
+    }
     if (pFilter && filterLength != indexLength)
     {
         return PyErr_Format(PyExc_ValueError, "GroupFromLexSort filter length does not match array length %lld", indexLength);
@@ -4441,6 +4485,7 @@ PyObject * GroupFromLexSort(PyObject * self, PyObject * args, PyObject * kwargs)
     }
 
     // The values are read one after the other
+    PyArrayObject * const inArrSortIndexArg = inArrSortIndex;
     ContiguousArray const holdIndex(inArrSortIndex);
     ContiguousArray const holdValues(inArrValues);
     inArrSortIndex = holdIndex.get();
@@ -4448,6 +4493,12 @@ PyObject * GroupFromLexSort(PyObject * self, PyObject * args, PyObject * kwargs)
     if (! inArrSortIndex || ! inArrValues)
         return NULL;
 
+    if (holdIndex.get() != inArrSortIndexArg && kwargs && PyDict_GetItemString(kwargs, "cutoffs"))
+    {
+        // the positions are made absolute in place
+        return PyErr_Format(PyExc_ValueError, "GroupFromLexSort index must be contiguous when cutoffs are passed");
+    }
+
     const auto arrLength = ArrayLength(inArrSortIndex);
     const auto arrLengthValues = ArrayLength(inArrValues);
 
@@ -4459,6 +4510,9 @@ PyObject * GroupFromLexSort(PyObject * self, PyObject * args, PyObject * kwargs)
                             arrLengthValues);
     }
 
+    if (! CheckIndexRange(inArrSortIndex, 0, arrLengthValues, "GroupFromLexSort"))
+        return NULL;
+
     const auto itemSize = PyArray_ITEMSIZE(inArrValues);
 
     const auto dtype = PyArray_TYPE(inArrSortIndex);
diff --git a/src/TileRepeat.cpp b/src/TileRepeat.cpp
index 0f80eaa..d112032 100644
--- a/src/TileRepeat.cpp
+++ b/src/TileRepeat.cpp
@@ -180,6 +180,12 @@ PyObject * RecordArrayToColMajor(PyObject * self, PyObject * args)
     if (! offsetArr || ! arrArr)
         return NULL;
 
+    if (PyArray_TYPE(offsetArr) != NPY_INT64 || PyArray_TYPE(arrArr) != NPY_OBJECT || PyArray_NDIM(inArr) != 1)
+    {
+        PyErr_Format(PyExc_ValueError, "RecordArrayToColMajor needs records, int64 offsets and an object array of outputs");
+        return NULL;
+    }
+
     int64_t itemSize = PyArray_ITEMSIZE(inArr);
 
     if (PyArray_DIM(inArr, 0) > 1 && itemSize != PyArray_STRIDE(inArr, 0))
@@ -201,6 +207,21 @@ PyObject * RecordArrayToColMajor(PyObject * self, PyObject * args)
     int64_t * pOffsets = (int64_t *)PyArray_BYTES(offsetArr);
     PyArrayObject ** ppArrays = (PyArrayObject **)PyArray_BYTES(arrArr);
 
+    for (int64_t i = 0; i < numArrays; i++)
+    {
+        if (ppArrays[i] == NULL || ! PyArray_Check(ppArrays[i]) || ArrayLength(ppArrays[i]) < length ||
+            ! PyArray_ISONESEGMENT(ppArrays[i]))
+        {
+            PyErr_Format(PyExc_ValueError, "RecordArrayToColMajor output %lld is not a contiguous array of the same length", i);
+            return NULL;
+        }
+        if (pOffsets[i] < 0 || pOffsets[i] > itemSize - PyArray_ITEMSIZE(ppArrays[i]))
+        {
+            PyErr_Format(PyExc_ValueError, "RecordArrayToColMajor offset %lld is outside of the record", pOffsets[i]);
+            return NULL;
+        }
+    }
+
     stOffsets * pstOffset;
 
     pstOffset = (stOffsets *)WORKSPACE_ALLOC(sizeof(stOffsets) * numArrays);
-- 
2.43.0


From f74f65ee90e54f49cef9a9629a2a9227451b44ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:24 +0000
Subject: [PATCH 82/84] fix: group-by functions wrote outside of their results
 for bins out of range

---
 src/GroupBy.cpp | 40 +++++++++++++++++++++++++++++++++++++---
 1 file changed, 37 insertions(+), 3 deletions(-)

diff --git a/src/GroupBy.cpp b/src/GroupBy.cpp
index c36e7d4..9b8bce5 100644
--- a/src/GroupBy.cpp
+++ b/src/GroupBy.cpp
@@ -4583,6 +4583,28 @@ PyObject * GroupBySingleOpMultithreaded(ArrayInfo * aInfo, PyArrayObject * iKey,
     return returnTuple;
 }
 
+// The bins of every column lie between 0 and the number of bins
+// maxHigh returns the end of the highest bin in use
+static bool CheckBinRanges(PyListObject * listBinLow, PyListObject * listBinHigh, int64_t columns, int64_t bins, int64_t & maxHigh)
+{
+    maxHigh = 0;
+    bool valid = PyList_GET_SIZE(listBinLow) == columns && PyList_GET_SIZE(listBinHigh) == columns;
+
+    for (int64_t i = 0; valid && i < columns; i++)
+    {
+        int overflow = 0;
+        int64_t const binLow = PyLong_AsLongLongAndOverflow(PyList_GET_ITEM(listBinLow, i), &overflow);
+        int64_t const binHigh = PyLong_AsLongLongAndOverflow(PyList_GET_ITEM(listBinHigh, i), &overflow);
+        valid = ! PyErr_Occurred() && binLow >= 0 && binLow <= binHigh && binHigh <= bins;
+        maxHigh = binHigh > maxHigh ? binHigh : maxHigh;
+    }
+    if (! valid && ! PyErr_Occurred())
+    {
+        PyErr_Format(PyExc_ValueError, "GroupBy bins must be given for every column and be in 0 to %lld", (long long)bins);
+    }
+    return valid;
+}
+
 //---------------------------------------------------------------
 // Arg1 = LIST of numpy arrays which has the values to accumulate (often all the
 // columns in a dataset) Arg2 = iKey = numpy array (int32_t) which has the index
@@ -4685,6 +4707,12 @@ PyObject * GroupByAll32(PyObject * self, PyObject * args)
         return NULL;
     }
 
+    int64_t maxHigh = 0;
+    if (! CheckBinRanges(listBinLow, listBinHigh, tupleSize, unique_rows, maxHigh))
+    {
+        return NULL;
+    }
+
     int overflow = 0;
     GB_FUNCTIONS const firstFuncNum{ static_cast<GB_FUNCTIONS>(
         PyLong_AsLongLongAndOverflow(PyList_GET_ITEM(listFuncNum, 0), &overflow)) };
@@ -5026,9 +5054,15 @@ PyObject * GroupByAllPack32(PyObject * self, PyObject * args)
         return NULL;
     }
 
-    if (ArrayLength(iFirst) < unique_rows || ArrayLength(nCount) < unique_rows ||
-        ! (PyArray_ITEMSIZE(iGroup) == sizeof(int32_t) ? CheckPackedGroups<int32_t>(iGroup, iFirst, nCount, unique_rows, arraySizeKey) :
-                                                         CheckPackedGroups<int64_t>(iGroup, iFirst, nCount, unique_rows, arraySizeKey)))
+    int64_t maxHigh = 0;
+    if (! CheckBinRanges(listBinLow, listBinHigh, tupleSize, unique_rows, maxHigh))
+    {
+        return NULL;
+    }
+
+    if (ArrayLength(iFirst) < maxHigh || ArrayLength(nCount) < maxHigh ||
+        ! (PyArray_ITEMSIZE(iGroup) == sizeof(int32_t) ? CheckPackedGroups<int32_t>(iGroup, iFirst, nCount, maxHigh, arraySizeKey) :
+                                                         CheckPackedGroups<int64_t>(iGroup, iFirst, nCount, maxHigh, arraySizeKey)))
     {
         PyErr_Format(PyExc_ValueError, "GroupByAllPack32 iGroup, iFirstGroup and nCountGroup do not describe groups of the rows");
         return NULL;
-- 
2.43.0


From 09699ec0ba610e5b916cef548756bcf5fe163ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:36 +0000
Subject: [PATCH 83/84] fix: unsuitable arguments (None for an array, empty
 lists, wrong item sizes, integers out of range) crashed, and errors were
 returned with a result

---
 src/Array.cpp      |  3 +++
 src/BasicMath.cpp  | 22 ++++++++++++++++++++++
 src/Bins.cpp       |  5 +++++
 src/Convert.cpp    | 15 +++++++++++++++
 src/Ema.cpp        |  2 +-
 src/HashLinear.cpp |  6 ++++++
 src/MultiKey.cpp   | 30 ++++++++++++++++++++++++++++++
 src/Reduce.cpp     |  8 ++++++++
 src/RipTide.cpp    |  7 +++++++
 src/SDSFile.cpp    | 17 ++++-------------
 src/Sort.h         | 17 ++++++++++-------
 src/UnaryOps.cpp   |  4 ++++
 12 files changed, 115 insertions(+), 21 deletions(-)

diff --git a/src/Array.cpp b/src/Array.cpp
index 3cbee39..4fc544e 100644
--- a/src/Array.cpp
+++ b/src/Array.cpp
@@ -397,6 +397,9 @@ PyObject * AsAnyArray(PyObject * self, PyObject * args, PyObject * kwargs)
     // copy over the data
     memcpy(PyArray_DATA(pNewArray), PyArray_DATA(pArray), PyArray_ITEMSIZE(pArray));
 
+    // the copies of objects are references to them
+    PyArray_INCREF(pNewArray);
+
     // no longer need the numpy array
     Py_DecRef((PyObject *)pArray);
 
diff --git a/src/BasicMath.cpp b/src/BasicMath.cpp
index e1e2154..2496562 100644
--- a/src/BasicMath.cpp
+++ b/src/BasicMath.cpp
@@ -3616,6 +3616,10 @@ PyObject * BasicMathTwoInputs(PyObject * self, PyObject * args)
     tuple = PyTuple_GET_ITEM(args, 0);
     funcNumber = PyLong_AsLongLong(PyTuple_GET_ITEM(args, 1));
     numpyOutputType = PyLong_AsLongLong(PyTuple_GET_ITEM(args, 2));
+    if (PyErr_Occurred())
+    {
+        return nullptr;
+    }
 
     if (! PyTuple_CheckExact(tuple))
     {
@@ -3634,6 +3638,11 @@ PyObject * BasicMathTwoInputs(PyObject * self, PyObject * args)
         return TwoInputsInternal(twoInputs, funcNumber);
     }
 
+    if (PyErr_Occurred())
+    {
+        return nullptr;
+    }
+
     // punt to numpy
     Py_INCREF(Py_None);
     return Py_None;
@@ -3998,6 +4007,14 @@ PyObject * Where(PyObject * self, PyObject * args)
 
         CHECK_MEMORY_ERROR(outputArray);
 
+        if (outputArray && PyArray_ITEMSIZE(outputArray) != numpyItemSize)
+        {
+            Py_DECREF(outputArray);
+            PyErr_Format(PyExc_ValueError, "Where: the output type %lld does not have an itemsize of %lld", numpyOutputType,
+                         numpyItemSize);
+            return nullptr;
+        }
+
         if (outputArray)
         {
             int8_t * pCondition = (int8_t *)PyArray_BYTES(inBool1);
@@ -4093,6 +4110,11 @@ PyObject * Where(PyObject * self, PyObject * args)
     }
 
     // punt to numpy
+    if (PyErr_Occurred())
+    {
+        return nullptr;
+    }
+
     Py_INCREF(Py_None);
     return Py_None;
 }
diff --git a/src/Bins.cpp b/src/Bins.cpp
index 161777d..98ba979 100644
--- a/src/Bins.cpp
+++ b/src/Bins.cpp
@@ -537,6 +537,11 @@ PyObject * NanInfCountFromSort(PyObject * self, PyObject * args)
                      "param is the value array");
     }
 
+    if (PyErr_Occurred())
+    {
+        return NULL;
+    }
+
     Py_INCREF(Py_None);
     return Py_None;
 }
diff --git a/src/Convert.cpp b/src/Convert.cpp
index 1d41ff7..93bdb5b 100644
--- a/src/Convert.cpp
+++ b/src/Convert.cpp
@@ -3325,10 +3325,25 @@ PyObject * HomogenizeArrays(PyObject * self, PyObject * args)
     {
         int32_t dtype = (int32_t)PyLong_AsLong(dtypeObject);
 
+        for (int64_t t = 0; t < tupleSize && ! PyErr_Occurred(); t++)
+        {
+            if (! aInfo[t].pObject)
+            {
+                PyErr_Format(PyExc_ValueError, "HomogenizeArrays: None is not an array");
+            }
+        }
+
+        if (PyErr_Occurred())
+        {
+            FreeArrayInfo(aInfo);
+            return NULL;
+        }
+
         if (dtype != -1)
         {
             if (dtype < 0 || dtype > NPY_LONGDOUBLE)
             {
+                FreeArrayInfo(aInfo);
                 PyErr_Format(PyExc_ValueError,
                              "HomogenizeArrays: Dont know how to convert dtype num %d. "
                              " Please make sure all arrays are ints or floats.",
diff --git a/src/Ema.cpp b/src/Ema.cpp
index 94ab7a5..9be7e84 100644
--- a/src/Ema.cpp
+++ b/src/Ema.cpp
@@ -2536,7 +2536,7 @@ PyObject * EmaAll32(PyObject * self, PyObject * args)
 
     // Allocate the struct + ROOM at the end of struct for all the tuple objects
     // being produced
-    stEma32 * pstEma32 = (stEma32 *)WORKSPACE_ALLOC((sizeof(stEma32) + 8 + sizeof(stEmaReturn)) * tupleSize);
+    stEma32 * pstEma32 = (stEma32 *)WORKSPACE_ALLOC(sizeof(stEma32) + (sizeof(stEma32) + 8 + sizeof(stEmaReturn)) * tupleSize);
 
     pstEma32->aInfo = aInfo;
     pstEma32->funcNum = (int32_t)funcNum;
diff --git a/src/HashLinear.cpp b/src/HashLinear.cpp
index b23fad9..d3ddc33 100644
--- a/src/HashLinear.cpp
+++ b/src/HashLinear.cpp
@@ -6253,6 +6253,12 @@ PyObject * MergeBinnedAndSorted(PyObject * self, PyObject * args)
         return NULL;
     }
 
+    if (ArrayLength(key1) != ArrayLength(pvalArray1) || ArrayLength(key2) != ArrayLength(pvalArray2))
+    {
+        PyErr_Format(PyExc_ValueError, "MergeBinnedAndSorted keys and values are not of the same length");
+        return NULL;
+    }
+
     if (! CheckIndexRange(key1, 0, totalUniqueSize, "MergeBinnedAndSorted") ||
         ! CheckIndexRange(key2, 0, totalUniqueSize, "MergeBinnedAndSorted"))
         return NULL;
diff --git a/src/MultiKey.cpp b/src/MultiKey.cpp
index 8685e0d..9878192 100644
--- a/src/MultiKey.cpp
+++ b/src/MultiKey.cpp
@@ -367,6 +367,10 @@ public:
                 if (PyLong_Check(longObject))
                 {
                     hintSize = PyLong_AsSize_t(longObject);
+                    if (PyErr_Occurred())
+                    {
+                        return;
+                    }
                     LOGGING("Hint size is %llu\n", hintSize);
                 }
             }
@@ -428,6 +432,14 @@ public:
 
             for (int64_t i = 0; i < listSize; i++)
             {
+                if (! aInfo[i].pObject)
+                {
+                    PyErr_Format(PyExc_ValueError, "MultiKeyHash: None is not an array");
+                    totalRows = 0;
+                    ok = false;
+                    break;
+                }
+
                 if (aInfo[i].ArrayLength != totalRows)
                 {
                     PyErr_Format(PyExc_ValueError, "MultiKeyHash all arrays must be same number of rows %llu", totalRows);
@@ -1076,6 +1088,10 @@ PyObject * MultiKeyGroupBy32(PyObject * self, PyObject * args, PyObject * kwargs
         if (PyLong_Check(hashmodeobject))
         {
             hashMode = PyLong_AsLong(hashmodeobject);
+            if (PyErr_Occurred())
+            {
+                return NULL;
+            }
             LOGGING("hashmode is %ld\n", hashMode);
         }
     }
@@ -1228,6 +1244,10 @@ PyObject * MultiKeyGroupBy32Super(PyObject * self, PyObject * args)
         if (PyLong_Check(hashmodeobject))
         {
             hashMode = PyLong_AsLong(hashmodeobject);
+            if (PyErr_Occurred())
+            {
+                return NULL;
+            }
             LOGGING("hashmode is %ld\n", hashMode);
         }
     }
@@ -1761,6 +1781,10 @@ PyObject * MultiKeyIsMember32(PyObject * self, PyObject * args)
         if (PyLong_Check(longObject))
         {
             hintSize = PyLong_AsSize_t(longObject);
+            if (PyErr_Occurred())
+            {
+                return NULL;
+            }
             LOGGING("Hint size is %llu\n", hintSize);
         }
     }
@@ -1873,6 +1897,12 @@ PyObject * MultiKeyAlign32(PyObject * self, PyObject * args)
     bool isForward = PyObject_IsTrue(isForwardObj) > 0;
     bool allowExact = PyObject_IsTrue(allowExactObj) > 0;
 
+    // an array has no truth value
+    if (PyErr_Occurred())
+    {
+        return NULL;
+    }
+
     PyArrayObject * pvalArray1;
     PyArrayObject * pvalArray2;
     if (PyArray_Check(valObject1) && PyArray_Check(valObject2))
diff --git a/src/Reduce.cpp b/src/Reduce.cpp
index b4d5543..8197655 100644
--- a/src/Reduce.cpp
+++ b/src/Reduce.cpp
@@ -3408,6 +3408,10 @@ PyObject * Reduce(PyObject * self, PyObject * args)
         {
             // read ddof passed
             ddof = PyLong_AsLongLong(ddofItem);
+            if (PyErr_Occurred())
+            {
+                return NULL;
+            }
         }
         tupleSize--;
     }
@@ -3430,6 +3434,10 @@ PyObject * Reduce(PyObject * self, PyObject * args)
             if (PyLong_Check(object2))
             {
                 int64_t func = PyLong_AsLongLong(object2);
+                if (PyErr_Occurred())
+                {
+                    return NULL;
+                }
 
                 // possible TODO: wrap result back into np scalar type
                 return ReduceInternal(inArr1, (REDUCE_FUNCTIONS)func, ddof);
diff --git a/src/RipTide.cpp b/src/RipTide.cpp
index 8bd6601..f3b2a4e 100644
--- a/src/RipTide.cpp
+++ b/src/RipTide.cpp
@@ -913,6 +913,13 @@ PyArrayObject * AllocateLikeResize(PyArrayObject * inArr, npy_intp rowSize)
         int64_t itemSize = NpyItemSize((PyObject *)inArr);
         result = AllocateNumpyArray(1, &rowSize, numpyType, itemSize);
     }
+    else if (numpyType == NPY_VOID)
+    {
+        // The fields and the size of an item are in the descriptor
+        PyArray_Descr * pDescr = PyArray_DESCR(inArr);
+        Py_INCREF(pDescr);
+        result = (PyArrayObject *)PyArray_NewFromDescr(&PyArray_Type, pDescr, 1, &rowSize, NULL, NULL, 0, NULL);
+    }
     else
     {
         result = AllocateNumpyArray(1, &rowSize, numpyType);
diff --git a/src/SDSFile.cpp b/src/SDSFile.cpp
index 3e4e02d..c7a7a41 100644
--- a/src/SDSFile.cpp
+++ b/src/SDSFile.cpp
@@ -885,20 +885,11 @@ void AddSharedMemory(const char * name, PMAPPED_VIEW_STRUCT pmvs, void * pointer
 {
     // printf("in add shared memory\n");
 
-    std::string sname = std::string(name);
-    if (g_SMMap.find(sname) == g_SMMap.end())
-    {
-        // not found
-        g_SMMap[sname] = pmvs;
+    // The mapping of an earlier call with this name has been released with its owner
+    g_SMMap[std::string(name)] = pmvs;
 
-        // init ref count
-        pmvs->RefCount = 1;
-    }
-    else
-    {
-        // increment reference
-        g_SMMap[sname]->RefCount++;
-    }
+    // init ref count
+    pmvs->RefCount = 1;
 }
 
 //------------------------------------------------------------------------------------------
diff --git a/src/Sort.h b/src/Sort.h
index 77a0ff8..bdd0e5c 100644
--- a/src/Sort.h
+++ b/src/Sort.h
@@ -73,20 +73,23 @@ public:
 
         if (aInfo)
         {
-            totalRows = aInfo[0].ArrayLength;
+            totalRows = listSize > 0 ? aInfo[0].ArrayLength : 0;
 
             for (int64_t i = 0; i < listSize; i++)
             {
-                if (aInfo[i].ArrayLength != totalRows)
+                if (! aInfo[i].pObject || aInfo[i].ArrayLength != totalRows)
                 {
-                    PyErr_Format(PyExc_ValueError, "MultiListPrepare all arrays must be same number of rows %llu", totalRows);
+                    if (! aInfo[i].pObject)
+                        PyErr_Format(PyExc_ValueError, "MultiListPrepare: None is not an array");
+                    else
+                        PyErr_Format(PyExc_ValueError, "MultiListPrepare all arrays must be same number of rows %llu", totalRows);
+
                     totalRows = 0;
+                    FreeArrayInfo(aInfo);
+                    aInfo = NULL;
+                    break;
                 }
             }
-            if (totalRows != 0)
-            {
-                // printf("row width %llu   rows %llu\n", totalItemSize, totalRows);
-            }
         }
     }
 
diff --git a/src/UnaryOps.cpp b/src/UnaryOps.cpp
index 20a9a70..1a9be84 100644
--- a/src/UnaryOps.cpp
+++ b/src/UnaryOps.cpp
@@ -2849,6 +2849,10 @@ PyObject * BasicMathUnaryOp(PyObject * self, PyObject * args, PyObject * kwargs)
         if (PyLong_CheckExact(funcNumber))
         {
             int64_t funcNum = PyLong_AsLongLong(funcNumber);
+            if (PyErr_Occurred())
+            {
+                return NULL;
+            }
 
             if (IsFastArrayOrNumpy(inObject))
             {
-- 
2.43.0


From 7ca519faa6beb05320f41635c4592463b22630d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:54 +0000
Subject: [PATCH 84/84] fix: recycled arrays came back with a foreign byte
 order, shape or write protection

---
 src/Recycler.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/Recycler.cpp b/src/Recycler.cpp
index a545ba4..9b367e4 100644
--- a/src/Recycler.cpp
+++ b/src/Recycler.cpp
@@ -523,6 +523,16 @@ PyObject * RecycleDump(PyObject * self, PyObject * args)
     return PyLong_FromLongLong(totalSize);
 }
 
+//-----------------------------------
+// A new array of this type and length has the byte order of the machine and can be written
+static bool IsLikeNew(PyArrayObject * inArr, int32_t type, int64_t totalSize)
+{
+    const int flags = NPY_ARRAY_WRITEABLE | NPY_ARRAY_OWNDATA | NPY_ARRAY_F_CONTIGUOUS | NPY_ARRAY_C_CONTIGUOUS;
+
+    return (PyArray_FLAGS(inArr) & flags) == flags && PyArray_ISNOTSWAPPED(inArr) && PyArray_NDIM(inArr) == 1 &&
+           PyArray_TYPE(inArr) == type && PyArray_DIM(inArr, 0) == totalSize;
+}
+
 //-----------------------------------
 // Called when we look for recycled array
 // Scans the tables to see if a recycled array is available
@@ -548,7 +558,8 @@ PyArrayObject * RecycleFindArray(int32_t ndim, int32_t type, int64_t totalSize)
                 int64_t refCount = inArr->ob_base.ob_refcnt;
 
                 // If the refcnt is one, it must be just us holding on to it
-                if (refCount == 1)
+                // (a weak reference may have been used to change it)
+                if (refCount == 1 && IsLikeNew(inArr, type, totalSize))
                 {
                     // We will reuse this item so we do not decrement it here
                     RemoveFromList(pItems, i);
@@ -658,7 +669,7 @@ static bool FinalizeNumpyArray(PyArrayObject * inArr)
         // Multiple checks have to clear before we consider recycling this array
         if (totalSize >= RECYCLE_MIN_SIZE && type < RECYCLE_MAXIMUM_TYPE &&
             // refCount < 3 &&
-            ndim == 1 && strides != NULL && itemSize == strides[0])
+            PyArray_ISNOTSWAPPED(inArr) && ndim == 1 && strides != NULL && itemSize == strides[0])
         {
             // Based on size and type, lookup
             int32_t log2 = (int32_t)lzcnt_64(totalSize);
-- 
2.43.0

