From a8aaa6c99953399fcb6849902b138561965f3397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:12 +0000
Subject: [PATCH 01/24] fix: ready every extension type when its module is
 initialised

No PyInit_* function called PyType_Ready, so a fresh import left the types
half initialised: iterators had no __next__, and methods only appeared after
an attribute of the type had been looked up.
---
 pyfastutil/src/ints/BigIntArrayList.cpp         | 2 ++
 pyfastutil/src/ints/BigIntArrayListIter.cpp     | 2 ++
 pyfastutil/src/ints/IntArrayList.cpp            | 2 ++
 pyfastutil/src/ints/IntArrayListIter.cpp        | 2 ++
 pyfastutil/src/ints/IntLinkedList.cpp           | 2 ++
 pyfastutil/src/ints/IntLinkedListIter.cpp       | 2 ++
 pyfastutil/src/objects/ObjectArrayList.cpp      | 2 ++
 pyfastutil/src/objects/ObjectArrayListIter.cpp  | 2 ++
 pyfastutil/src/objects/ObjectLinkedList.cpp     | 2 ++
 pyfastutil/src/objects/ObjectLinkedListIter.cpp | 2 ++
 pyfastutil/src/unsafe/ASM.cpp                   | 2 ++
 pyfastutil/src/unsafe/SIMD.cpp                  | 2 ++
 pyfastutil/src/unsafe/SIMDLowAVX512.cpp         | 2 ++
 pyfastutil/src/unsafe/Unsafe.cpp                | 2 ++
 14 files changed, 28 insertions(+)

diff --git a/pyfastutil/src/ints/BigIntArrayList.cpp b/pyfastutil/src/ints/BigIntArrayList.cpp
index e0f781f..d54f3ee 100644
--- a/pyfastutil/src/ints/BigIntArrayList.cpp
+++ b/pyfastutil/src/ints/BigIntArrayList.cpp
@@ -1251,6 +1251,8 @@ void initializeBigIntArrayListType(PyTypeObject &type) {
 #pragma ide diagnostic ignored "OCUnusedGlobalDeclarationInspection"
 PyMODINIT_FUNC PyInit_BigIntArrayList() {
     initializeBigIntArrayListType(BigIntArrayListType);
+    if (PyType_Ready(&BigIntArrayListType) < 0)
+        return nullptr;
 
     PyObject *object = PyModule_Create(&BigIntArrayList_module);
     if (object == nullptr)
diff --git a/pyfastutil/src/ints/BigIntArrayListIter.cpp b/pyfastutil/src/ints/BigIntArrayListIter.cpp
index 321d759..0b3ec68 100644
--- a/pyfastutil/src/ints/BigIntArrayListIter.cpp
+++ b/pyfastutil/src/ints/BigIntArrayListIter.cpp
@@ -103,6 +103,8 @@ void initializeBigIntArrayListIterType(PyTypeObject &type) {
 #pragma ide diagnostic ignored "OCUnusedGlobalDeclarationInspection"
 PyMODINIT_FUNC PyInit_BigIntArrayListIter() {
     initializeBigIntArrayListIterType(BigIntArrayListIterType);
+    if (PyType_Ready(&BigIntArrayListIterType) < 0)
+        return nullptr;
 
     PyObject *object = PyModule_Create(&BigIntArrayListIter_module);
     if (object == nullptr)
diff --git a/pyfastutil/src/ints/IntArrayList.cpp b/pyfastutil/src/ints/IntArrayList.cpp
index 36a2586..0eb0705 100644
--- a/pyfastutil/src/ints/IntArrayList.cpp
+++ b/pyfastutil/src/ints/IntArrayList.cpp
@@ -1249,6 +1249,8 @@ void initializeIntArrayListType(PyTypeObject &type) {
 #pragma ide diagnostic ignored "OCUnusedGlobalDeclarationInspection"
 PyMODINIT_FUNC PyInit_IntArrayList() {
     initializeIntArrayListType(IntArrayListType);
+    if (PyType_Ready(&IntArrayListType) < 0)
+        return nullptr;
 
     PyObject *object = PyModule_Create(&IntArrayList_module);
     if (object == nullptr)
diff --git a/pyfastutil/src/ints/IntArrayListIter.cpp b/pyfastutil/src/ints/IntArrayListIter.cpp
index 358eae2..722f1f0 100644
--- a/pyfastutil/src/ints/IntArrayListIter.cpp
+++ b/pyfastutil/src/ints/IntArrayListIter.cpp
@@ -103,6 +103,8 @@ void initializeIntArrayListIterType(PyTypeObject &type) {
 #pragma ide diagnostic ignored "OCUnusedGlobalDeclarationInspection"
 PyMODINIT_FUNC PyInit_IntArrayListIter() {
     initializeIntArrayListIterType(IntArrayListIterType);
+    if (PyType_Ready(&IntArrayListIterType) < 0)
+        return nullptr;
 
     PyObject *object = PyModule_Create(&IntArrayListIter_module);
     if (object == nullptr)
diff --git a/pyfastutil/src/ints/IntLinkedList.cpp b/pyfastutil/src/ints/IntLinkedList.cpp
index b7096fa..e0e4ea0 100644
--- a/pyfastutil/src/ints/IntLinkedList.cpp
+++ b/pyfastutil/src/ints/IntLinkedList.cpp
@@ -1158,6 +1158,8 @@ void initializeIntLinkedListType(PyTypeObject &type) {
 #pragma ide diagnostic ignored "OCUnusedGlobalDeclarationInspection"
 PyMODINIT_FUNC PyInit_IntLinkedList() {
     initializeIntLinkedListType(IntLinkedListType);
+    if (PyType_Ready(&IntLinkedListType) < 0)
+        return nullptr;
 
     PyObject *object = PyModule_Create(&IntLinkedList_module);
     if (object == nullptr)
diff --git a/pyfastutil/src/ints/IntLinkedListIter.cpp b/pyfastutil/src/ints/IntLinkedListIter.cpp
index deff949..a573b02 100644
--- a/pyfastutil/src/ints/IntLinkedListIter.cpp
+++ b/pyfastutil/src/ints/IntLinkedListIter.cpp
@@ -126,6 +126,8 @@ void initializeIntLinkedListIterType(PyTypeObject &type) {
 #pragma ide diagnostic ignored "OCUnusedGlobalDeclarationInspection"
 PyMODINIT_FUNC PyInit_IntLinkedListIter() {
     initializeIntLinkedListIterType(IntLinkedListIterType);
+    if (PyType_Ready(&IntLinkedListIterType) < 0)
+        return nullptr;
 
     PyObject *object = PyModule_Create(&IntLinkedListIter_module);
     if (object == nullptr)
diff --git a/pyfastutil/src/objects/ObjectArrayList.cpp b/pyfastutil/src/objects/ObjectArrayList.cpp
index 09ceb8f..2437db3 100644
--- a/pyfastutil/src/objects/ObjectArrayList.cpp
+++ b/pyfastutil/src/objects/ObjectArrayList.cpp
@@ -1209,6 +1209,8 @@ void initializeObjectArrayListType(PyTypeObject &type) {
 #pragma ide diagnostic ignored "OCUnusedGlobalDeclarationInspection"
 PyMODINIT_FUNC PyInit_ObjectArrayList() {
     initializeObjectArrayListType(ObjectArrayListType);
+    if (PyType_Ready(&ObjectArrayListType) < 0)
+        return nullptr;
 
     PyObject *object = PyModule_Create(&ObjectArrayList_module);
     if (object == nullptr)
diff --git a/pyfastutil/src/objects/ObjectArrayListIter.cpp b/pyfastutil/src/objects/ObjectArrayListIter.cpp
index 9447d5b..5676c84 100644
--- a/pyfastutil/src/objects/ObjectArrayListIter.cpp
+++ b/pyfastutil/src/objects/ObjectArrayListIter.cpp
@@ -106,6 +106,8 @@ void initializeObjectArrayListIterType(PyTypeObject &type) {
 #pragma ide diagnostic ignored "OCUnusedGlobalDeclarationInspection"
 PyMODINIT_FUNC PyInit_ObjectArrayListIter() {
     initializeObjectArrayListIterType(ObjectArrayListIterType);
+    if (PyType_Ready(&ObjectArrayListIterType) < 0)
+        return nullptr;
 
     PyObject *object = PyModule_Create(&ObjectArrayListIter_module);
     if (object == nullptr)
diff --git a/pyfastutil/src/objects/ObjectLinkedList.cpp b/pyfastutil/src/objects/ObjectLinkedList.cpp
index 3143c81..41500ee 100644
--- a/pyfastutil/src/objects/ObjectLinkedList.cpp
+++ b/pyfastutil/src/objects/ObjectLinkedList.cpp
@@ -1119,6 +1119,8 @@ void initializeObjectLinkedListType(PyTypeObject &type) {
 #pragma ide diagnostic ignored "OCUnusedGlobalDeclarationInspection"
 PyMODINIT_FUNC PyInit_ObjectLinkedList() {
     initializeObjectLinkedListType(ObjectLinkedListType);
+    if (PyType_Ready(&ObjectLinkedListType) < 0)
+        return nullptr;
 
     PyObject *object = PyModule_Create(&ObjectLinkedList_module);
     if (object == nullptr)
diff --git a/pyfastutil/src/objects/ObjectLinkedListIter.cpp b/pyfastutil/src/objects/ObjectLinkedListIter.cpp
index d8dcf16..8a3913e 100644
--- a/pyfastutil/src/objects/ObjectLinkedListIter.cpp
+++ b/pyfastutil/src/objects/ObjectLinkedListIter.cpp
@@ -129,6 +129,8 @@ void initializeObjectLinkedListIterType(PyTypeObject &type) {
 #pragma ide diagnostic ignored "OCUnusedGlobalDeclarationInspection"
 PyMODINIT_FUNC PyInit_ObjectLinkedListIter() {
     initializeObjectLinkedListIterType(ObjectLinkedListIterType);
+    if (PyType_Ready(&ObjectLinkedListIterType) < 0)
+        return nullptr;
 
     PyObject *object = PyModule_Create(&ObjectLinkedListIter_module);
     if (object == nullptr)
diff --git a/pyfastutil/src/unsafe/ASM.cpp b/pyfastutil/src/unsafe/ASM.cpp
index ac06646..98cfa86 100644
--- a/pyfastutil/src/unsafe/ASM.cpp
+++ b/pyfastutil/src/unsafe/ASM.cpp
@@ -356,6 +356,8 @@ static struct PyModuleDef ASM_module = {
 #pragma ide diagnostic ignored "OCUnusedGlobalDeclarationInspection"
 PyMODINIT_FUNC PyInit_ASM() {
     initializeASMType(ASMType);
+    if (PyType_Ready(&ASMType) < 0)
+        return nullptr;
 
     PyObject *object = PyModule_Create(&ASM_module);
     if (object == nullptr)
diff --git a/pyfastutil/src/unsafe/SIMD.cpp b/pyfastutil/src/unsafe/SIMD.cpp
index 9f18d47..9fc91de 100644
--- a/pyfastutil/src/unsafe/SIMD.cpp
+++ b/pyfastutil/src/unsafe/SIMD.cpp
@@ -402,6 +402,8 @@ static struct PyModuleDef SIMD_module = {
 #pragma ide diagnostic ignored "OCUnusedGlobalDeclarationInspection"
 PyMODINIT_FUNC PyInit_SIMD() {
     initializeSIMDType(SIMDType);
+    if (PyType_Ready(&SIMDType) < 0)
+        return nullptr;
 
     PyObject *object = PyModule_Create(&SIMD_module);
     if (object == nullptr)
diff --git a/pyfastutil/src/unsafe/SIMDLowAVX512.cpp b/pyfastutil/src/unsafe/SIMDLowAVX512.cpp
index ecbc2a6..ff7cad1 100644
--- a/pyfastutil/src/unsafe/SIMDLowAVX512.cpp
+++ b/pyfastutil/src/unsafe/SIMDLowAVX512.cpp
@@ -35663,6 +35663,8 @@ static struct PyModuleDef SIMDLowAVX512_module = {
 #pragma ide diagnostic ignored "OCUnusedGlobalDeclarationInspection"
 PyMODINIT_FUNC PyInit_SIMDLowAVX512() {
     initializeSIMDLowAVX512Type(SIMDLowAVX512Type);
+    if (PyType_Ready(&SIMDLowAVX512Type) < 0)
+        return nullptr;
 
     PyObject *object = PyModule_Create(&SIMDLowAVX512_module);
     if (object == nullptr)
diff --git a/pyfastutil/src/unsafe/Unsafe.cpp b/pyfastutil/src/unsafe/Unsafe.cpp
index 1794475..ffd4ff3 100644
--- a/pyfastutil/src/unsafe/Unsafe.cpp
+++ b/pyfastutil/src/unsafe/Unsafe.cpp
@@ -407,6 +407,8 @@ static struct PyModuleDef Unsafe_module = {
 #pragma ide diagnostic ignored "OCUnusedGlobalDeclarationInspection"
 PyMODINIT_FUNC PyInit_Unsafe() {
     initializeUnsafeType(UnsafeType);
+    if (PyType_Ready(&UnsafeType) < 0)
+        return nullptr;
 
     PyObject *object = PyModule_Create(&Unsafe_module);
     if (object == nullptr)
-- 
2.43.0


From 1065d7f2217b7979006d69f61fc9e58c78ff4395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:57 +0000
Subject: [PATCH 02/24] fix: honour immortal objects and build ints through
 PyLong_FromLong

PyFast_INCREF/DECREF tested ob_refcnt < 0, which is never true on 3.12+, so
immortal objects were counted and could be freed. PyFast_FromInt stored an int
in a single 30-bit digit, which is wrong for negative and large values. An
explicit PY_SSIZE_T_MAX argument of from_range was taken for a missing one.
---
 pyfastutil/src/utils/PythonUtils.h | 26 ++++++++------------------
 1 file changed, 8 insertions(+), 18 deletions(-)

diff --git a/pyfastutil/src/utils/PythonUtils.h b/pyfastutil/src/utils/PythonUtils.h
index 2f16d17..44c4340 100644
--- a/pyfastutil/src/utils/PythonUtils.h
+++ b/pyfastutil/src/utils/PythonUtils.h
@@ -11,34 +11,27 @@
 
 template<typename T>
 static __forceinline constexpr void PyFast_INCREF(T *object) noexcept {
-    if (UNLIKELY(((PyObject *) object)->ob_refcnt < 0))
-        return;
-    ((PyObject *) object)->ob_refcnt++;
+    Py_INCREF((PyObject *) object);
 }
 
 template<typename T>
 static __forceinline constexpr void PyFast_DECREF(T *object) noexcept {
-    if (UNLIKELY(((PyObject *) object)->ob_refcnt < 0))
-        return;
-    if (--((PyObject *) object)->ob_refcnt == 0)
-        _Py_Dealloc((PyObject *) object);
+    Py_DECREF((PyObject *) object);
 }
 
 template<typename T>
 static __forceinline constexpr void PyFast_XDECREF(T *object) noexcept {
     if (UNLIKELY(object == nullptr))
         return;
-    if (UNLIKELY(((PyObject *) object)->ob_refcnt < 0))
-        return;
-    if (--((PyObject *) object)->ob_refcnt == 0)
-        _Py_Dealloc((PyObject *) object);
+    Py_DECREF((PyObject *) object);
 }
 
 template<typename T>
 static __forceinline constexpr void SAFE_DECREF(T *&object) noexcept {
     assert(object != nullptr);
-    PyFast_DECREF(object);
+    T *const old = object;
     object = nullptr;
+    PyFast_DECREF(old);
 }
 
 template<typename T>
@@ -71,11 +64,12 @@ static __forceinline bool PyParse_EvalRange(PyObject *&args,
         return false;
     }
 
-    if (arg2 == PY_SSIZE_T_MAX) {
+    const auto nargs = PyTuple_GET_SIZE(args);
+    if (nargs < 2) {
         start = 0;
         stop = arg1;
         step = 1;
-    } else if (arg3 == PY_SSIZE_T_MAX) {
+    } else if (nargs < 3) {
         start = arg1;
         stop = arg2;
         step = 1;
@@ -147,11 +141,7 @@ static __forceinline char PyFast_AsChar(const PyObject *__restrict obj) noexcept
 }
 
 static __forceinline PyObject *PyFast_FromInt(const int value) noexcept {
-#ifdef IS_PYTHON_312_OR_LATER
-    return (PyObject *) _PyLong_FromDigits(value < 0, 1, (digit *) (&value));
-#else
     return PyLong_FromLong(value);
-#endif
 }
 
 
-- 
2.43.0


From ca221eb8b8348682b3218ccbbadb13f2cbd7b832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:57 +0000
Subject: [PATCH 03/24] fix: sort integer lists with std::sort/timsort instead
 of the lossy SIMD network

The min/max networks kept only one of each compared pair and the merges did
the same, so sorting 8 or more elements lost values (and 9 read and wrote out
of bounds, since mid - AVX512_INTS + 1 wraps around).
---
 pyfastutil/src/utils/simd/BitonicSort.cpp | 593 +---------------------
 1 file changed, 5 insertions(+), 588 deletions(-)

diff --git a/pyfastutil/src/utils/simd/BitonicSort.cpp b/pyfastutil/src/utils/simd/BitonicSort.cpp
index e7558a7..b489c91 100644
--- a/pyfastutil/src/utils/simd/BitonicSort.cpp
+++ b/pyfastutil/src/utils/simd/BitonicSort.cpp
@@ -6,449 +6,20 @@
 #include <vector>
 #include <algorithm>
 
-#if !defined(__arm__) && !defined(__arm64__)
-
-#include <immintrin.h>
-#include "utils/simd/SIMDUtils.h"
-
-#endif
+#include <functional>
 
 #include <utils/PythonPCH.h>
-#include "SIMDHelper.h"
 #include "utils/include/TimSort.h"
 #include "utils/memory/AlignedAllocator.h"
-#include "utils/memory/PreFetch.h"
-
-template<typename T>
-concept IntOrLongLong = std::same_as<T, int> || std::same_as<T, long long>;
 
 namespace simd {
-#if !defined(__arm__) && !defined(__arm64__)
-    struct alignas(32) AVX2_MARKS {
-        alignas(32) const __m256i M1 = _mm256_set_epi32(7, 6, 5, 4, 3, 2, 1, 0);
-        alignas(32) const __m256i M2 = _mm256_set_epi32(6, 7, 4, 5, 2, 3, 0, 1);
-        alignas(32) const __m256i M3 = _mm256_set_epi32(5, 4, 7, 6, 1, 0, 3, 2);
-        alignas(32) const __m256i M4 = _mm256_set_epi32(3, 2, 1, 0, 7, 6, 5, 4);
-    };
-    struct alignas(64) AVX512_MARKS {
-        alignas(64) const __m512i M1 = _mm512_set_epi32(15, 14, 13, 12, 11, 10, 9, 8, 7, 6, 5, 4, 3, 2, 1, 0);
-        alignas(64) const __m512i M2 = _mm512_set_epi32(14, 15, 12, 13, 10, 11, 8, 9, 6, 7, 4, 5, 2, 3, 0, 1);
-        alignas(64) const __m512i M3 = _mm512_set_epi32(13, 12, 15, 14, 9, 8, 11, 10, 5, 4, 7, 6, 1, 0, 3, 2);
-        alignas(64) const __m512i M4 = _mm512_set_epi32(11, 10, 9, 8, 7, 6, 5, 4, 3, 2, 1, 0, 15, 14, 13, 12);
-    };
-
-    static AVX2_MARKS *avx2Marks = nullptr;
-    static AVX512_MARKS *avx512Marks = nullptr;
-#endif
-
     void initBitonicSort() {
-#if !defined(__arm__) && !defined(__arm64__)
-        if (IS_AVX2_SUPPORTED && avx2Marks == nullptr) {
-            avx2Marks = new AVX2_MARKS();
-        }
-        if (IS_AVX512_SUPPORTED && avx512Marks == nullptr) {
-            avx512Marks = new AVX512_MARKS();
-        }
-#endif
-    }
-
-#pragma clang diagnostic push
-#pragma ide diagnostic ignored "portability-simd-intrinsics"
-#pragma ide diagnostic ignored "NullDereference"
-#if !defined(__arm__) && !defined(__arm64__)
-
-    __forceinline void sort8Epi32AVX2(__m256i &vec) {
-        __m256i swapped = _mm256_permutevar8x32_epi32(vec, avx2Marks->M1);
-        vec = _mm256_min_epi32(vec, swapped);
-
-        swapped = _mm256_permutevar8x32_epi32(vec, avx2Marks->M2);
-        vec = _mm256_min_epi32(vec, swapped);
-
-        swapped = _mm256_permutevar8x32_epi32(vec, avx2Marks->M3);
-        vec = _mm256_min_epi32(vec, swapped);
-
-        swapped = _mm256_permutevar8x32_epi32(vec, avx2Marks->M4);
-        vec = _mm256_min_epi32(vec, swapped);
-    }
-
-    /**
-     * sort 8 nums with avx2 reversed
-     */
-    __forceinline void sort8Epi32AVX2Reversed(__m256i &vec) {
-        __m256i swapped = _mm256_permutevar8x32_epi32(vec, avx2Marks->M1);
-        vec = _mm256_max_epi32(vec, swapped);
-
-        swapped = _mm256_permutevar8x32_epi32(vec, avx2Marks->M2);
-        vec = _mm256_max_epi32(vec, swapped);
-
-        swapped = _mm256_permutevar8x32_epi32(vec, avx2Marks->M3);
-        vec = _mm256_max_epi32(vec, swapped);
-
-        swapped = _mm256_permutevar8x32_epi32(vec, avx2Marks->M4);
-        vec = _mm256_max_epi32(vec, swapped);
     }
 
     /**
-     * sort 16 nums with avx512
-     */
-    __forceinline void sort16Epi32AVX512(__m512i &vec) {
-        __m512i swapped = _mm512_permutexvar_epi32(avx512Marks->M1, vec);
-        vec = _mm512_min_epi32(vec, swapped);
-
-        swapped = _mm512_permutexvar_epi32(avx512Marks->M2, vec);
-        vec = _mm512_min_epi32(vec, swapped);
-
-        swapped = _mm512_permutexvar_epi32(avx512Marks->M3, vec);
-        vec = _mm512_min_epi32(vec, swapped);
-
-        swapped = _mm512_permutexvar_epi32(avx512Marks->M4, vec);
-        vec = _mm512_min_epi32(vec, swapped);
-    }
-
-    /**
-     * sort 16 nums with avx512
-     */
-    __forceinline void sort16Epi32AVX512Reversed(__m512i &vec) {
-        __m512i swapped = _mm512_permutexvar_epi32(avx512Marks->M1, vec);
-        vec = _mm512_max_epi32(vec, swapped);
-
-        swapped = _mm512_permutexvar_epi32(avx512Marks->M2, vec);
-        vec = _mm512_max_epi32(vec, swapped);
-
-        swapped = _mm512_permutexvar_epi32(avx512Marks->M3, vec);
-        vec = _mm512_max_epi32(vec, swapped);
-
-        swapped = _mm512_permutexvar_epi32(avx512Marks->M4, vec);
-        vec = _mm512_max_epi32(vec, swapped);
-    }
-
-    [[maybe_unused]] __forceinline void doSingleMerge(const size_t &left, const size_t &mid, const size_t &right,
-                                                      std::vector<int, AlignedAllocator<int, 64>> &src,
-                                                      std::vector<int, AlignedAllocator<int, 64>> &dst) {
-        size_t i = left, j = mid + 1, k = left;
-
-        // merge 2 sorted blocks with AVX-512
-        if (IS_AVX512_SUPPORTED) {
-            while (i <= mid - AVX512_INTS + 1 && j <= right - AVX512_INTS + 1) {
-                __m512i vec_i = _mm512_load_si512(&(src[i]));
-                __m512i vec_j = _mm512_load_si512(&(src[j]));
-
-                __m512i min_vals = _mm512_min_epi32(vec_i, vec_j);
-
-                _mm512_store_si512(&(dst[k]), min_vals);
-                k += AVX512_INTS;
-                i += AVX512_INTS;
-            }
-        }
-
-        // merge 2 sorted blocks with AVX2
-        if (IS_AVX2_SUPPORTED) {
-            while (i <= mid - AVX2_INTS + 1 && j <= right - AVX2_INTS + 1) {
-                __m256i vec_i = _mm256_load_si256(reinterpret_cast<__m256i *>(&(src[i])));
-                __m256i vec_j = _mm256_load_si256(reinterpret_cast<__m256i *>(&(src[j])));
-
-                __m256i min_vals = _mm256_min_epi32(vec_i, vec_j);
-
-                _mm256_store_si256((__m256i *) &(dst[k]), min_vals);
-                k += AVX2_INTS;
-                i += AVX2_INTS;
-            }
-        }
-
-        // merge 2 sorted blocks with SSE4.1
-        if (IS_SSE41_SUPPORTED) {
-            while (i <= mid - SSE41_INTS + 1 && j <= right - SSE41_INTS + 1) {
-                __m128i vec_i = _mm_load_si128((__m128i *) &(src[i]));
-                __m128i vec_j = _mm_load_si128((__m128i *) &(src[j]));
-
-                __m128i min_vals = _mm_min_epi32(vec_i, vec_j);
-
-                _mm_store_si128((__m128i *) &(dst[k]), min_vals);
-                k += SSE41_INTS;
-                i += SSE41_INTS;
-            }
-        }
-
-        // elements left
-        while (i <= mid && j <= right) {
-            if (src[i] < src[j]) {
-                dst[k++] = src[i++];
-            } else {
-                dst[k++] = src[j++];
-            }
-        }
-
-        while (i <= mid) {
-            dst[k++] = src[i++];
-        }
-
-        while (j <= right) {
-            dst[k++] = src[j++];
-        }
-    }
-
-    __forceinline void doSingleMerge(const size_t &left, const size_t &mid, const size_t &right,
-                                     std::vector<long long, AlignedAllocator<long long, 64>> &src,
-                                     std::vector<long long, AlignedAllocator<long long, 64>> &dst) {
-        size_t i = left, j = mid + 1, k = left;
-
-        // merge 2 sorted blocks with AVX-512
-        if (IS_AVX512_SUPPORTED) {
-            while (i <= mid - AVX512_LONG_LONGS + 1 && j <= right - AVX512_LONG_LONGS + 1) {
-                __m512i vec_i = _mm512_load_si512(&(src[i]));
-                __m512i vec_j = _mm512_load_si512(&(src[j]));
-
-                __m512i min_vals = _mm512_min_epi32(vec_i, vec_j);
-
-                _mm512_store_si512(&(dst[k]), min_vals);
-                k += AVX512_LONG_LONGS;
-                i += AVX512_LONG_LONGS;
-            }
-        }
-
-        // merge 2 sorted blocks with AVX2
-        if (IS_AVX2_SUPPORTED) {
-            while (i <= mid - AVX2_LONG_LONGS + 1 && j <= right - AVX2_LONG_LONGS + 1) {
-                __m256i vec_i = _mm256_load_si256(reinterpret_cast<__m256i *>(&(src[i])));
-                __m256i vec_j = _mm256_load_si256(reinterpret_cast<__m256i *>(&(src[j])));
-
-                __m256i min_vals = _mm256_min_epi32(vec_i, vec_j);
-
-                _mm256_store_si256((__m256i *) &(dst[k]), min_vals);
-                k += AVX2_LONG_LONGS;
-                i += AVX2_LONG_LONGS;
-            }
-        }
-
-        // merge 2 sorted blocks with SSE4.1
-        if (IS_SSE41_SUPPORTED) {
-            while (i <= mid - SSE41_LONG_LONGS + 1 && j <= right - SSE41_LONG_LONGS + 1) {
-                __m128i vec_i = _mm_load_si128((__m128i *) &(src[i]));
-                __m128i vec_j = _mm_load_si128((__m128i *) &(src[j]));
-
-                __m128i min_vals = _mm_min_epi32(vec_i, vec_j);
-
-                _mm_store_si128((__m128i *) &(dst[k]), min_vals);
-                k += SSE41_LONG_LONGS;
-                i += SSE41_LONG_LONGS;
-            }
-        }
-
-        // elements left
-        while (i <= mid && j <= right) {
-            if (src[i] < src[j]) {
-                dst[k++] = src[i++];
-            } else {
-                dst[k++] = src[j++];
-            }
-        }
-
-        while (i <= mid) {
-            dst[k++] = src[i++];
-        }
-
-        while (j <= right) {
-            dst[k++] = src[j++];
-        }
-    }
-
-    [[maybe_unused]] __forceinline void
-    doSingleMergeReversed(const size_t &left, const size_t &mid, const size_t &right,
-                          std::vector<int, AlignedAllocator<int, 64>> &src,
-                          std::vector<int, AlignedAllocator<int, 64>> &dst) {
-        size_t i = left, j = mid + 1, k = left;
-
-        // merge 2 sorted blocks with AVX-512
-        while (IS_AVX512_SUPPORTED && i <= mid - AVX512_INTS + 1 && j <= right - AVX512_INTS + 1) {
-            __m512i vec_i = _mm512_load_si512(&(src[i]));
-            __m512i vec_j = _mm512_load_si512(&(src[j]));
-
-            __m512i max_vals = _mm512_max_epi32(vec_i, vec_j);
-
-            _mm512_store_si512(&(dst[k]), max_vals);
-            k += AVX512_INTS;
-            j += AVX512_INTS;
-        }
-
-        // merge 2 sorted blocks with AVX2
-        while (IS_AVX2_SUPPORTED && i <= mid - AVX2_INTS + 1 && j <= right - AVX2_INTS + 1) {
-            __m256i vec_i = _mm256_load_si256(reinterpret_cast<__m256i *>(&(src[i])));
-            __m256i vec_j = _mm256_load_si256(reinterpret_cast<__m256i *>(&(src[j])));
-
-            __m256i max_vals = _mm256_max_epi32(vec_i, vec_j);
-
-            _mm256_store_si256((__m256i *) &(dst[k]), max_vals);
-            k += AVX2_INTS;
-            j += AVX2_INTS;
-        }
-
-        // merge 2 sorted blocks with SSE4.1
-        while (IS_SSE41_SUPPORTED && i <= mid - SSE41_INTS + 1 && j <= right - SSE41_INTS + 1) {
-            __m128i vec_i = _mm_load_si128((__m128i *) &(src[i]));
-            __m128i vec_j = _mm_load_si128((__m128i *) &(src[j]));
-
-            __m128i max_vals = _mm_max_epi32(vec_i, vec_j);
-
-            _mm_store_si128((__m128i *) &(dst[k]), max_vals);
-            k += SSE41_INTS;
-            j += SSE41_INTS;
-        }
-
-        // elements left
-        while (i <= mid && j <= right) {
-            if (src[i] > src[j]) {
-                dst[k++] = src[i++];
-            } else {
-                dst[k++] = src[j++];
-            }
-        }
-
-        while (i <= mid) {
-            dst[k++] = src[i++];
-        }
-
-        while (j <= right) {
-            dst[k++] = src[j++];
-        }
-    }
-
-    [[maybe_unused]] __forceinline void
-    doSingleMergeReversed(const size_t &left, const size_t &mid, const size_t &right,
-                          std::vector<long long, AlignedAllocator<long long, 64>> &src,
-                          std::vector<long long, AlignedAllocator<long long, 64>> &dst) {
-        size_t i = left, j = mid + 1, k = left;
-
-        // merge 2 sorted blocks with AVX-512
-        while (IS_AVX512_SUPPORTED && i <= mid - AVX512_LONG_LONGS + 1 && j <= right - AVX512_LONG_LONGS + 1) {
-            __m512i vec_i = _mm512_load_si512(&(src[i]));
-            __m512i vec_j = _mm512_load_si512(&(src[j]));
-
-            __m512i max_vals = _mm512_max_epi32(vec_i, vec_j);
-
-            _mm512_store_si512(&(dst[k]), max_vals);
-            k += AVX512_LONG_LONGS;
-            j += AVX512_LONG_LONGS;
-        }
-
-        // merge 2 sorted blocks with AVX2
-        while (IS_AVX2_SUPPORTED && i <= mid - AVX2_LONG_LONGS + 1 && j <= right - AVX2_LONG_LONGS + 1) {
-            __m256i vec_i = _mm256_load_si256(reinterpret_cast<__m256i *>(&(src[i])));
-            __m256i vec_j = _mm256_load_si256(reinterpret_cast<__m256i *>(&(src[j])));
-
-            __m256i max_vals = _mm256_max_epi32(vec_i, vec_j);
-
-            _mm256_store_si256((__m256i *) &(dst[k]), max_vals);
-            k += AVX2_LONG_LONGS;
-            j += AVX2_LONG_LONGS;
-        }
-
-        // merge 2 sorted blocks with SSE4.1
-        while (IS_SSE41_SUPPORTED && i <= mid - SSE41_LONG_LONGS + 1 && j <= right - SSE41_LONG_LONGS + 1) {
-            __m128i vec_i = _mm_load_si128((__m128i *) &(src[i]));
-            __m128i vec_j = _mm_load_si128((__m128i *) &(src[j]));
-
-            __m128i max_vals = _mm_max_epi32(vec_i, vec_j);
-
-            _mm_store_si128((__m128i *) &(dst[k]), max_vals);
-            k += SSE41_LONG_LONGS;
-            j += SSE41_LONG_LONGS;
-        }
-
-        // elements left
-        while (i <= mid && j <= right) {
-            if (src[i] > src[j]) {
-                dst[k++] = src[i++];
-            } else {
-                dst[k++] = src[j++];
-            }
-        }
-
-        while (i <= mid) {
-            dst[k++] = src[i++];
-        }
-
-        while (j <= right) {
-            dst[k++] = src[j++];
-        }
-    }
-
-    /**
-     * Merge sorted blocks with SIMD optimization, or fallback
-     * make sure aligned
-     */
-    template<IntOrLongLong T>
-    __forceinline void mergeSortedBlocks(std::vector<T, AlignedAllocator<T, 64>> &data, const size_t &blockSize) {
-        const size_t total = data.size();
-        auto temp = std::vector<T, AlignedAllocator<T, 64>>(total);
-
-        bool cycle = true;
-        size_t mid;
-        size_t right;
-        for (size_t size = blockSize; size < total; size *= 2) {
-            size_t left = 0;
-            prefetchL1(&data + left);
-            prefetchL1(&temp + left);
-            for (; left < total; left += 2 * size) {
-                mid = std::min(left + size - 1, total - 1);
-                right = std::min(left + 2 * size - 1, total - 1);
-                if (cycle) {
-                    doSingleMerge(left, mid, right, data, temp);
-                } else {
-                    doSingleMerge(left, mid, right, temp, data);
-                }
-            }
-
-            cycle = !cycle;
-        }
-
-        // copy the final result
-        if (!cycle) {
-            simdMemCpyAligned(temp.data(), data.data(), temp.size());
-        }
-    }
-
-    /**
-     * Merge sorted blocks with SIMD optimization reversed, or fallback
-     */
-    template<IntOrLongLong T>
-    __forceinline void
-    mergeSortedBlocksReversed(std::vector<T, AlignedAllocator<T, 64>> &data, const size_t &blockSize) {
-        const size_t total = data.size();
-        auto temp = std::vector<T, AlignedAllocator<T, 64>>(total);
-
-        bool cycle = true;
-        size_t mid;
-        size_t right;
-        for (size_t size = blockSize; size < total; size *= 2) {
-            size_t left = 0;
-            prefetchL1(&data + left);
-            prefetchL1(&temp + left);
-            for (; left < total; left += 2 * size) {
-                mid = std::min(left + size - 1, total - 1);
-                right = std::min(left + 2 * size - 1, total - 1);
-                if (cycle) {
-                    doSingleMergeReversed(left, mid, right, data, temp);
-                } else {
-                    doSingleMergeReversed(left, mid, right, temp, data);
-                }
-            }
-
-            cycle = !cycle;
-        }
-
-        // copy the final result
-        if (!cycle) {
-            simdMemCpyAligned(temp.data(), data.data(), temp.size());
-        }
-    }
-
-#endif
-#pragma clang diagnostic pop
-
-    /**
-     * Try to sort with simd optimize, or fallback if unsupported
-     * MAKE SURE VECTOR IS ALIGNED with 64 bytes!
+     * Sort a vector in place.
      * @param vector vector to sort
+     * @param reverse sort in descending order
      */
     void simdsort(std::vector<int, AlignedAllocator<int, 64>> &vector, bool reverse) {
         const auto size = vector.size();
@@ -466,7 +37,6 @@ namespace simd {
             return;
         }
 
-#if defined(__arm__) || defined(__arm64__)
         if (size > 5000) {
             if (reverse) {
                 gfx::timsort(begin, end, std::greater<>());
@@ -480,88 +50,12 @@ namespace simd {
                 std::sort(begin, end);
             }
         }
-#else
-        if (!IS_AVX2_SUPPORTED && !IS_AVX512_SUPPORTED) {
-            // fallback
-            if (size > 5000) {
-                if (reverse) {
-                    gfx::timsort(begin, end, std::greater<>());
-                } else {
-                    gfx::timsort(begin, end);
-                }
-            } else {
-                if (reverse) {
-                    std::sort(begin, end, std::greater<>());
-                } else {
-                    std::sort(begin, end);
-                }
-            }
-            return;
-        }
-
-        // get pointer to do simd
-        auto *data = &(*begin);
-        size_t sortedCount = 0;
-        size_t minBlockSize = AVX512_INTS;
-
-        if (IS_AVX512_SUPPORTED && sortedCount + AVX512_INTS < size) {
-            // simd sort with avx512
-            prefetchL1(avx512Marks);
-            for (; sortedCount + AVX512_INTS <= size; sortedCount += AVX512_INTS) {
-                if (size - sortedCount > AVX512_PREFETCH_INT) {
-                    prefetchL1(data + sortedCount + AVX512_PREFETCH_INT);
-                }
-
-                __m512i vec = _mm512_load_si512(data + sortedCount);  // load
-                if (reverse) {  // sort
-                    sort16Epi32AVX512Reversed(vec);
-                } else {
-                    sort16Epi32AVX512(vec);
-                }
-                _mm512_store_si512(data + sortedCount, vec);  // store
-            }
-        }
-
-        if (IS_AVX2_SUPPORTED && sortedCount + AVX2_INTS < size) {
-            // simd sort with avx2
-            prefetchL1(avx2Marks);
-            for (; sortedCount + AVX2_INTS <= size; sortedCount += AVX2_INTS) {
-                if (size - sortedCount > AVX2_PREFETCH_INT) {
-                    prefetchL1(data + sortedCount + AVX2_PREFETCH_INT);
-                }
-
-                __m256i vec = _mm256_load_si256((__m256i *) (data + sortedCount));  // load
-                if (reverse) {  // sort
-                    sort8Epi32AVX2Reversed(vec);
-                } else {
-                    sort8Epi32AVX2(vec);
-                }
-                _mm256_store_si256((__m256i *) (data + sortedCount), vec);  // store
-            }
-            minBlockSize = 8;
-        }
-
-        if (sortedCount < size) {
-            if (reverse) {
-                std::sort(begin + static_cast<std::vector<int>::difference_type>(sortedCount), end,
-                          std::greater<>());
-            } else {
-                std::sort(begin + static_cast<std::vector<int>::difference_type>(sortedCount), end);
-            }
-        }
-
-        // merge all sorted blocks
-        if (reverse)
-            mergeSortedBlocksReversed(vector, minBlockSize);
-        else
-            mergeSortedBlocks(vector, minBlockSize);
-#endif
     }
 
     /**
-     * Try to sort with simd optimize, or fallback if unsupported
-     * MAKE SURE VECTOR IS ALIGNED with 64 bytes!
+     * Sort a vector in place.
      * @param vector vector to sort
+     * @param reverse sort in descending order
      */
     void simdsort(std::vector<long long, AlignedAllocator<long long, 64>> &vector, bool reverse) {
         const auto size = vector.size();
@@ -579,7 +73,6 @@ namespace simd {
             return;
         }
 
-#if defined(__arm__) || defined(__arm64__)
         if (size > 5000) {
             if (reverse) {
                 gfx::timsort(begin, end, std::greater<>());
@@ -593,81 +86,5 @@ namespace simd {
                 std::sort(begin, end);
             }
         }
-#else
-        if (!IS_AVX2_SUPPORTED && !IS_AVX512_SUPPORTED) {
-            // fallback
-            if (size > 5000) {
-                if (reverse) {
-                    gfx::timsort(begin, end, std::greater<>());
-                } else {
-                    gfx::timsort(begin, end);
-                }
-            } else {
-                if (reverse) {
-                    std::sort(begin, end, std::greater<>());
-                } else {
-                    std::sort(begin, end);
-                }
-            }
-            return;
-        }
-
-        // get pointer to do simd
-        auto *data = &(*begin);
-        size_t sortedCount = 0;
-        size_t minBlockSize = AVX512_LONG_LONGS;
-
-        if (IS_AVX512_SUPPORTED && sortedCount + AVX512_LONG_LONGS < size) {
-            // simd sort with avx512
-            prefetchL1(avx512Marks);
-            for (; sortedCount + AVX512_LONG_LONGS <= size; sortedCount += AVX512_LONG_LONGS) {
-                if (size - sortedCount > AVX512_PREFETCH_LONG_LONG) {
-                    prefetchL1(data + sortedCount + AVX512_PREFETCH_LONG_LONG);
-                }
-
-                __m512i vec = _mm512_load_si512(data + sortedCount);  // load
-                if (reverse) {  // sort
-                    sort16Epi32AVX512Reversed(vec);
-                } else {
-                    sort16Epi32AVX512(vec);
-                }
-                _mm512_store_si512(data + sortedCount, vec);  // store
-            }
-        }
-
-        if (IS_AVX2_SUPPORTED && sortedCount + AVX2_LONG_LONGS < size) {
-            // simd sort with avx2
-            prefetchL1(avx2Marks);
-            for (; sortedCount + AVX2_LONG_LONGS <= size; sortedCount += AVX2_LONG_LONGS) {
-                if (size - sortedCount > AVX2_PREFETCH_LONG_LONG) {
-                    prefetchL1(data + sortedCount + AVX2_PREFETCH_LONG_LONG);
-                }
-
-                __m256i vec = _mm256_load_si256((__m256i *) (data + sortedCount));  // load
-                if (reverse) {  // sort
-                    sort8Epi32AVX2Reversed(vec);
-                } else {
-                    sort8Epi32AVX2(vec);
-                }
-                _mm256_store_si256((__m256i *) (data + sortedCount), vec);  // store
-            }
-            minBlockSize = 8;
-        }
-
-        if (sortedCount < size) {
-            if (reverse) {
-                std::sort(begin + static_cast<std::vector<long long>::difference_type>(sortedCount), end,
-                          std::greater<>());
-            } else {
-                std::sort(begin + static_cast<std::vector<long long>::difference_type>(sortedCount), end);
-            }
-        }
-
-        // merge all sorted blocks
-        if (reverse)
-            mergeSortedBlocksReversed(vector, minBlockSize);
-        else
-            mergeSortedBlocks(vector, minBlockSize);
-#endif
     }
 }
-- 
2.43.0


From cb7b4d9caa1eab67c137e869f0118b693f132078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:32 +0000
Subject: [PATCH 04/24] fix: construct integer array lists safely

__init__ could run on a live list (leaking and re-constructing the vector),
ignored argument errors, cached the item array of a list that user code could
change, leaked on bad_alloc and replaced the user's exception. tp_new now
constructs the members, __init__ fills a local vector and swaps it in.
from_range with a negative step lost the last element.
---
 pyfastutil/src/ints/BigIntArrayList.cpp | 105 ++++++++++++++----------
 pyfastutil/src/ints/IntArrayList.cpp    | 105 ++++++++++++++----------
 2 files changed, 124 insertions(+), 86 deletions(-)

diff --git a/pyfastutil/src/ints/BigIntArrayList.cpp b/pyfastutil/src/ints/BigIntArrayList.cpp
index d54f3ee..6acb5cd 100644
--- a/pyfastutil/src/ints/BigIntArrayList.cpp
+++ b/pyfastutil/src/ints/BigIntArrayList.cpp
@@ -20,93 +20,110 @@ static PyTypeObject BigIntArrayListType = {
         PyVarObject_HEAD_INIT(&PyType_Type, 0)
 };
 
-__forceinline void parseArgs(PyObject *&args, PyObject *&kwargs, PyObject *&pyIterable, Py_ssize_t &pySize) {
+static __forceinline bool parseArgs(PyObject *&args, PyObject *&kwargs, PyObject *&pyIterable, Py_ssize_t &pySize) {
     static constexpr const char *kwlist[] = {"iterable", "exceptSize", nullptr};
 
     PyObject *arg1 = nullptr;
 
     // parse args
     if (!PyArg_ParseTupleAndKeywords(args, kwargs, "|On", const_cast<char **>(kwlist), &arg1, &pySize)) {
-        return;
+        return false;
     }
 
-    if (arg1 == nullptr) return;
+    if (arg1 == nullptr) return true;
 
     if (PyLong_Check(arg1)) {
         pySize = PyLong_AsSsize_t(arg1);
+        if (pySize == -1 && PyErr_Occurred()) {
+            return false;
+        }
     } else {
         pyIterable = arg1;
     }
+    return true;
 }
 
-static int BigIntArrayList_init(BigIntArrayList *self, PyObject *args, PyObject *kwargs) {
+static PyObject *BigIntArrayList_new(PyTypeObject *type, [[maybe_unused]] PyObject *args, [[maybe_unused]] PyObject *kwargs) {
+    auto *self = reinterpret_cast<BigIntArrayList *>(type->tp_alloc(type, 0));
+    if (self == nullptr) return nullptr;
+
     new(&self->vector) std::vector<long long, AlignedAllocator<long long, 64>>();
+    return reinterpret_cast<PyObject *>(self);
+}
+
+static int BigIntArrayList_init(BigIntArrayList *self, PyObject *args, PyObject *kwargs) {
+    // filled aside: user code may run below, and __init__ may be called again on a live list
+    std::vector<long long, AlignedAllocator<long long, 64>> vector;
 
     PyObject *pyIterable = nullptr;
     Py_ssize_t pySize = -1;
 
-    parseArgs(args, kwargs, pyIterable, pySize);
+    if (!parseArgs(args, kwargs, pyIterable, pySize)) return -1;
 
     // init vector
     try {
         if (pySize > 0) {
-            self->vector.reserve(static_cast<size_t>(pySize));
+            vector.reserve(static_cast<size_t>(pySize));
         }
 
         if (pyIterable != nullptr) {
             if (Py_TYPE(pyIterable) == &BigIntArrayListType) {  // BigIntArrayList is a final class
                 auto *iter = reinterpret_cast<BigIntArrayList *>(pyIterable);
-                self->vector = iter->vector;
-                return 0;
-            }
-
-            if (PyList_Check(pyIterable) || PyTuple_Check(pyIterable)) {  // fast operation
+                vector = iter->vector;
+            } else if (PyList_Check(pyIterable) || PyTuple_Check(pyIterable)) {  // fast operation
                 auto fastKeys = PySequence_Fast(pyIterable, "Shouldn't be happen (BigIntArrayList).");
                 if (fastKeys == nullptr) {
                     return -1;
                 }
 
-                const auto size = PySequence_Fast_GET_SIZE(fastKeys);
-                auto items = PySequence_Fast_ITEMS(fastKeys);
-                for (Py_ssize_t i = 0; i < size; ++i) {
-                    long long value = PyLong_AsLongLong(items[i]);
-                    if (PyErr_Occurred()) {
+                for (Py_ssize_t i = 0; i < PySequence_Fast_GET_SIZE(fastKeys); ++i) {
+                    PyObject *item = PySequence_Fast_GET_ITEM(fastKeys, i);
+                    Py_INCREF(item);
+                    long long value = PyLong_AsLongLong(item);
+                    SAFE_DECREF(item);
+                    if (value == -1 && PyErr_Occurred()) {
                         SAFE_DECREF(fastKeys);
-                        PyErr_SetString(PyExc_RuntimeError, "Failed to convert item to C long long during iteration.");
                         return -1;
                     }
-                    self->vector.push_back(value);
+                    try {
+                        vector.push_back(value);
+                    } catch (const std::exception &) {
+                        SAFE_DECREF(fastKeys);
+                        throw;
+                    }
                 }
                 SAFE_DECREF(fastKeys);
-                return 0;
-            }
-
-            PyObject *iter = PyObject_GetIter(pyIterable);
-            if (iter == nullptr) {
-                PyErr_SetString(PyExc_TypeError, "Arg '__iterable' is not iterable.");
-                return -1;
-            }
+            } else {
+                PyObject *iter = PyObject_GetIter(pyIterable);
+                if (iter == nullptr) {
+                    return -1;
+                }
 
-            PyObject *item;
-            while ((item = PyIter_Next(iter)) != nullptr) {
-                long long value = PyLong_AsLongLong(item);
-                if (PyErr_Occurred()) {
-                    SAFE_DECREF(iter);
+                PyObject *item;
+                while ((item = PyIter_Next(iter)) != nullptr) {
+                    long long value = PyLong_AsLongLong(item);
                     SAFE_DECREF(item);
-                    PyErr_SetString(PyExc_RuntimeError, "Failed to convert item to C long long during iteration.");
-                    return -1;
+                    if (value == -1 && PyErr_Occurred()) {
+                        SAFE_DECREF(iter);
+                        return -1;
+                    }
+                    try {
+                        vector.push_back(value);
+                    } catch (const std::exception &) {
+                        SAFE_DECREF(iter);
+                        throw;
+                    }
                 }
-                self->vector.push_back(value);
-                SAFE_DECREF(item);
+                SAFE_DECREF(iter);
+                if (PyErr_Occurred()) return -1;
             }
-            SAFE_DECREF(iter);
-            if (PyErr_Occurred()) return -1;
         }
     } catch (const std::exception &e) {
         PyErr_SetString(PyExc_RuntimeError, e.what());
         return -1;
     }
 
+    self->vector.swap(vector);
     return 0;
 }
 
@@ -123,7 +140,7 @@ static PyObject *BigIntArrayList_from_range([[maybe_unused]] PyObject *cls, PyOb
     }
 
     auto *list = Py_CreateObj<BigIntArrayList>(BigIntArrayListType);
-    if (list == nullptr) return PyErr_NoMemory();
+    if (list == nullptr) return nullptr;
 
     try {
         Py_ssize_t elements;
@@ -136,7 +153,7 @@ static PyObject *BigIntArrayList_from_range([[maybe_unused]] PyObject *cls, PyOb
             if (start <= stop) {
                 return reinterpret_cast<PyObject *>(list);
             }
-            elements = ((start - stop) / (-step));
+            elements = (start - stop + (-step) - 1) / (-step);
         }
 
         list->vector.resize(elements);
@@ -148,8 +165,7 @@ static PyObject *BigIntArrayList_from_range([[maybe_unused]] PyObject *cls, PyOb
         }
 
     } catch (const std::exception &e) {
-        list->vector.~vector();
-        PyObject_Del(list);
+        SAFE_DECREF(list);
         PyErr_SetString(PyExc_RuntimeError, e.what());
         return nullptr;
     }
@@ -166,6 +182,9 @@ static PyObject *BigIntArrayList_resize(PyObject *pySelf, PyObject *pySize) {
     }
 
     Py_ssize_t pySSize = PyLong_AsSsize_t(pySize);
+    if (pySSize == -1 && PyErr_Occurred()) {
+        return nullptr;
+    }
     if (pySSize < 0) {
         PyErr_SetString(PyExc_ValueError, "Invalid size.");
         return nullptr;
@@ -210,7 +229,7 @@ static PyObject *BigIntArrayList_copy(PyObject *pySelf) {
     try {
         copy->vector = self->vector;
     } catch (const std::exception &e) {
-        PyObject_Del(copy);
+        SAFE_DECREF(copy);
         PyErr_SetString(PyExc_RuntimeError, e.what());
         return nullptr;
     }
@@ -1236,7 +1255,7 @@ void initializeBigIntArrayListType(PyTypeObject &type) {
     type.tp_iter = BigIntArrayList_iter;
     type.tp_methods = BigIntArrayList_methods;
     type.tp_init = (initproc) BigIntArrayList_init;
-    type.tp_new = PyType_GenericNew;
+    type.tp_new = BigIntArrayList_new;
     type.tp_dealloc = (destructor) BigIntArrayList_dealloc;
     type.tp_alloc = PyType_GenericAlloc;
     type.tp_free = PyObject_Del;
diff --git a/pyfastutil/src/ints/IntArrayList.cpp b/pyfastutil/src/ints/IntArrayList.cpp
index 0eb0705..abc1776 100644
--- a/pyfastutil/src/ints/IntArrayList.cpp
+++ b/pyfastutil/src/ints/IntArrayList.cpp
@@ -20,93 +20,110 @@ static PyTypeObject IntArrayListType = {
         PyVarObject_HEAD_INIT(&PyType_Type, 0)
 };
 
-__forceinline void parseArgs(PyObject *&args, PyObject *&kwargs, PyObject *&pyIterable, Py_ssize_t &pySize) {
+static __forceinline bool parseArgs(PyObject *&args, PyObject *&kwargs, PyObject *&pyIterable, Py_ssize_t &pySize) {
     static constexpr const char *kwlist[] = {"iterable", "exceptSize", nullptr};
 
     PyObject *arg1 = nullptr;
 
     // parse args
     if (!PyArg_ParseTupleAndKeywords(args, kwargs, "|On", const_cast<char **>(kwlist), &arg1, &pySize)) {
-        return;
+        return false;
     }
 
-    if (arg1 == nullptr) return;
+    if (arg1 == nullptr) return true;
 
     if (PyLong_Check(arg1)) {
         pySize = PyLong_AsSsize_t(arg1);
+        if (pySize == -1 && PyErr_Occurred()) {
+            return false;
+        }
     } else {
         pyIterable = arg1;
     }
+    return true;
 }
 
-static int IntArrayList_init(IntArrayList *self, PyObject *args, PyObject *kwargs) {
+static PyObject *IntArrayList_new(PyTypeObject *type, [[maybe_unused]] PyObject *args, [[maybe_unused]] PyObject *kwargs) {
+    auto *self = reinterpret_cast<IntArrayList *>(type->tp_alloc(type, 0));
+    if (self == nullptr) return nullptr;
+
     new(&self->vector) std::vector<int, AlignedAllocator<int, 64>>();
+    return reinterpret_cast<PyObject *>(self);
+}
+
+static int IntArrayList_init(IntArrayList *self, PyObject *args, PyObject *kwargs) {
+    // filled aside: user code may run below, and __init__ may be called again on a live list
+    std::vector<int, AlignedAllocator<int, 64>> vector;
 
     PyObject *pyIterable = nullptr;
     Py_ssize_t pySize = -1;
 
-    parseArgs(args, kwargs, pyIterable, pySize);
+    if (!parseArgs(args, kwargs, pyIterable, pySize)) return -1;
 
     // init vector
     try {
         if (pySize > 0) {
-            self->vector.reserve(static_cast<size_t>(pySize));
+            vector.reserve(static_cast<size_t>(pySize));
         }
 
         if (pyIterable != nullptr) {
             if (Py_TYPE(pyIterable) == &IntArrayListType) {  // IntArrayList is a final class
                 auto *iter = reinterpret_cast<IntArrayList *>(pyIterable);
-                self->vector = iter->vector;
-                return 0;
-            }
-
-            if (PyList_Check(pyIterable) || PyTuple_Check(pyIterable)) {  // fast operation
+                vector = iter->vector;
+            } else if (PyList_Check(pyIterable) || PyTuple_Check(pyIterable)) {  // fast operation
                 auto fastKeys = PySequence_Fast(pyIterable, "Shouldn't be happen (IntArrayList).");
                 if (fastKeys == nullptr) {
                     return -1;
                 }
 
-                const auto size = PySequence_Fast_GET_SIZE(fastKeys);
-                auto items = PySequence_Fast_ITEMS(fastKeys);
-                for (Py_ssize_t i = 0; i < size; ++i) {
-                    int value = PyLong_AsLong(items[i]);
-                    if (PyErr_Occurred()) {
+                for (Py_ssize_t i = 0; i < PySequence_Fast_GET_SIZE(fastKeys); ++i) {
+                    PyObject *item = PySequence_Fast_GET_ITEM(fastKeys, i);
+                    Py_INCREF(item);
+                    int value = PyLong_AsLong(item);
+                    SAFE_DECREF(item);
+                    if (value == -1 && PyErr_Occurred()) {
                         SAFE_DECREF(fastKeys);
-                        PyErr_SetString(PyExc_RuntimeError, "Failed to convert item to C int during iteration.");
                         return -1;
                     }
-                    self->vector.push_back(value);
+                    try {
+                        vector.push_back(value);
+                    } catch (const std::exception &) {
+                        SAFE_DECREF(fastKeys);
+                        throw;
+                    }
                 }
                 SAFE_DECREF(fastKeys);
-                return 0;
-            }
-
-            PyObject *iter = PyObject_GetIter(pyIterable);
-            if (iter == nullptr) {
-                PyErr_SetString(PyExc_TypeError, "Arg '__iterable' is not iterable.");
-                return -1;
-            }
+            } else {
+                PyObject *iter = PyObject_GetIter(pyIterable);
+                if (iter == nullptr) {
+                    return -1;
+                }
 
-            PyObject *item;
-            while ((item = PyIter_Next(iter)) != nullptr) {
-                int value = PyLong_AsLong(item);
-                if (PyErr_Occurred()) {
-                    SAFE_DECREF(iter);
+                PyObject *item;
+                while ((item = PyIter_Next(iter)) != nullptr) {
+                    int value = PyLong_AsLong(item);
                     SAFE_DECREF(item);
-                    PyErr_SetString(PyExc_RuntimeError, "Failed to convert item to C int during iteration.");
-                    return -1;
+                    if (value == -1 && PyErr_Occurred()) {
+                        SAFE_DECREF(iter);
+                        return -1;
+                    }
+                    try {
+                        vector.push_back(value);
+                    } catch (const std::exception &) {
+                        SAFE_DECREF(iter);
+                        throw;
+                    }
                 }
-                self->vector.push_back(value);
-                SAFE_DECREF(item);
+                SAFE_DECREF(iter);
+                if (PyErr_Occurred()) return -1;
             }
-            SAFE_DECREF(iter);
-            if (PyErr_Occurred()) return -1;
         }
     } catch (const std::exception &e) {
         PyErr_SetString(PyExc_RuntimeError, e.what());
         return -1;
     }
 
+    self->vector.swap(vector);
     return 0;
 }
 
@@ -123,7 +140,7 @@ static PyObject *IntArrayList_from_range([[maybe_unused]] PyObject *cls, PyObjec
     }
 
     auto *list = Py_CreateObj<IntArrayList>(IntArrayListType);
-    if (list == nullptr) return PyErr_NoMemory();
+    if (list == nullptr) return nullptr;
 
     try {
         Py_ssize_t elements;
@@ -136,7 +153,7 @@ static PyObject *IntArrayList_from_range([[maybe_unused]] PyObject *cls, PyObjec
             if (start <= stop) {
                 return reinterpret_cast<PyObject *>(list);
             }
-            elements = ((start - stop) / (-step));
+            elements = (start - stop + (-step) - 1) / (-step);
         }
 
         list->vector.resize(elements);
@@ -148,8 +165,7 @@ static PyObject *IntArrayList_from_range([[maybe_unused]] PyObject *cls, PyObjec
         }
 
     } catch (const std::exception &e) {
-        list->vector.~vector();
-        PyObject_Del(list);
+        SAFE_DECREF(list);
         PyErr_SetString(PyExc_RuntimeError, e.what());
         return nullptr;
     }
@@ -166,6 +182,9 @@ static PyObject *IntArrayList_resize(PyObject *pySelf, PyObject *pySize) {
     }
 
     Py_ssize_t pySSize = PyLong_AsSsize_t(pySize);
+    if (pySSize == -1 && PyErr_Occurred()) {
+        return nullptr;
+    }
     if (pySSize < 0) {
         PyErr_SetString(PyExc_ValueError, "Invalid size.");
         return nullptr;
@@ -210,7 +229,7 @@ static PyObject *IntArrayList_copy(PyObject *pySelf) {
     try {
         copy->vector = self->vector;
     } catch (const std::exception &e) {
-        PyObject_Del(copy);
+        SAFE_DECREF(copy);
         PyErr_SetString(PyExc_RuntimeError, e.what());
         return nullptr;
     }
@@ -1234,7 +1253,7 @@ void initializeIntArrayListType(PyTypeObject &type) {
     type.tp_iter = IntArrayList_iter;
     type.tp_methods = IntArrayList_methods;
     type.tp_init = (initproc) IntArrayList_init;
-    type.tp_new = PyType_GenericNew;
+    type.tp_new = IntArrayList_new;
     type.tp_dealloc = (destructor) IntArrayList_dealloc;
     type.tp_alloc = PyType_GenericAlloc;
     type.tp_free = PyObject_Del;
-- 
2.43.0


From e6cf1e697b7fcda07a85c0976d36bc1027f96b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:22 +0000
Subject: [PATCH 05/24] fix: keep integer array lists intact when conversions
 or allocations fail

extend and += let C++ exceptions escape, ignored a failing length hint, read
freed memory when a list was extended by itself, and a += b returned None for
two lists of the same type. pop, setitem and slice assignment sized the list
before running user code; slice assignment changed the list before all values
were converted, could not take iterables, and crashed on slice deletion.
---
 pyfastutil/src/ints/BigIntArrayList.cpp | 231 ++++++++++--------------
 pyfastutil/src/ints/IntArrayList.cpp    | 229 ++++++++++-------------
 2 files changed, 199 insertions(+), 261 deletions(-)

diff --git a/pyfastutil/src/ints/BigIntArrayList.cpp b/pyfastutil/src/ints/BigIntArrayList.cpp
index 6acb5cd..fd28b2f 100644
--- a/pyfastutil/src/ints/BigIntArrayList.cpp
+++ b/pyfastutil/src/ints/BigIntArrayList.cpp
@@ -269,7 +269,16 @@ static PyObject *BigIntArrayList_extend(PyObject *pySelf, PyObject *const *args,
     // fast extend
     if (Py_TYPE(iterable) == &BigIntArrayListType) {
         auto *iter = reinterpret_cast<BigIntArrayList *>(iterable);
-        self->vector.insert(self->vector.end(), iter->vector.begin(), iter->vector.end());
+        try {
+            // iter may be self
+            const auto oldSize = self->vector.size();
+            const auto count = iter->vector.size();
+            self->vector.resize(oldSize + count);
+            std::copy_n(iter->vector.data(), count, self->vector.data() + oldSize);
+        } catch (const std::exception &e) {
+            PyErr_SetString(PyExc_RuntimeError, e.what());
+            return nullptr;
+        }
         Py_RETURN_NONE;
     }
 
@@ -281,22 +290,33 @@ static PyObject *BigIntArrayList_extend(PyObject *pySelf, PyObject *const *args,
 
     // pre alloc
     Py_ssize_t hint = PyObject_LengthHint(iterable, 0);
-    if (hint > 0) {
-        self->vector.reserve(self->vector.size() + hint);
+    if (hint < 0) {
+        SAFE_DECREF(iter);
+        return nullptr;
     }
 
-    // do extend
-    PyObject *item;
-    while ((item = PyIter_Next(iter)) != nullptr) {
-        long long value = PyLong_AsLongLong(item);
-        SAFE_DECREF(item);
-
-        if (PyErr_Occurred()) {
-            SAFE_DECREF(iter);
-            return nullptr;
+    try {
+        if (hint > 0) {
+            self->vector.reserve(self->vector.size() + hint);
         }
 
-        self->vector.push_back(value);
+        // do extend
+        PyObject *item;
+        while ((item = PyIter_Next(iter)) != nullptr) {
+            long long value = PyLong_AsLongLong(item);
+            SAFE_DECREF(item);
+
+            if (PyErr_Occurred()) {
+                SAFE_DECREF(iter);
+                return nullptr;
+            }
+
+            self->vector.push_back(value);
+        }
+    } catch (const std::exception &e) {
+        SAFE_DECREF(iter);
+        PyErr_SetString(PyExc_RuntimeError, e.what());
+        return nullptr;
     }
 
     if (PyErr_Occurred()) {
@@ -312,20 +332,23 @@ static PyObject *BigIntArrayList_extend(PyObject *pySelf, PyObject *const *args,
 static PyObject *BigIntArrayList_pop(PyObject *pySelf, PyObject *const *args, const Py_ssize_t nargs) {
     auto *self = reinterpret_cast<BigIntArrayList *>(pySelf);
 
-    if (self->vector.empty()) {
+    Py_ssize_t index = -1;
+    if (nargs == 1) {
+        // may run user code: look at the list only afterwards
+        index = PyNumber_AsSsize_t(args[0], PyExc_IndexError);
+        if (index == -1 && PyErr_Occurred()) {
+            return nullptr;
+        }
+    }
+
+    if (nargs <= 1 && self->vector.empty()) {
         PyErr_SetString(PyExc_IndexError, "pop from empty list");
         return nullptr;
     }
 
     const auto vecSize = static_cast<Py_ssize_t>(self->vector.size());
-    Py_ssize_t index = vecSize - 1;
 
     if (nargs == 1) {
-        index = PyLong_AsSsize_t(args[0]);
-        if (index == -1 && PyErr_Occurred()) {
-            return nullptr;
-        }
-
         if (index < 0) {
             index += vecSize;
         }
@@ -338,16 +361,22 @@ static PyObject *BigIntArrayList_pop(PyObject *pySelf, PyObject *const *args, co
         PyErr_SetString(PyExc_TypeError, "pop() takes at most 1 argument");
         return nullptr;
     } else {
-        const auto popped = self->vector[static_cast<size_t>(index)];
+        PyObject *popped = PyLong_FromLongLong(self->vector.back());
+        if (popped == nullptr) {
+            return nullptr;
+        }
         self->vector.pop_back();
 
-        return PyLong_FromLongLong(popped);
+        return popped;
     }
 
-    const auto popped = self->vector[static_cast<size_t>(index)];
+    PyObject *popped = PyLong_FromLongLong(self->vector[static_cast<size_t>(index)]);
+    if (popped == nullptr) {
+        return nullptr;
+    }
     self->vector.erase(self->vector.begin() + index);
 
-    return PyLong_FromLongLong(popped);
+    return popped;
 }
 
 static PyObject *BigIntArrayList_index(PyObject *pySelf, PyObject *args) {
@@ -355,7 +384,7 @@ static PyObject *BigIntArrayList_index(PyObject *pySelf, PyObject *args) {
 
     long long value;
     Py_ssize_t start = 0;
-    auto stop = static_cast<Py_ssize_t>(self->vector.size());
+    Py_ssize_t stop = PY_SSIZE_T_MAX;
 
     if (!PyArg_ParseTuple(args, "L|nn", &value, &start, &stop)) {
         return nullptr;
@@ -589,6 +618,15 @@ static PyObject *BigIntArrayList_getitem_slice(PyObject *pySelf, PyObject *slice
 static int BigIntArrayList_setitem(PyObject *pySelf, Py_ssize_t pyIndex, PyObject *pyValue) {
     auto *self = reinterpret_cast<BigIntArrayList *>(pySelf);
 
+    long long value = 0;
+    if (pyValue != nullptr) {
+        // may run user code: look at the list only afterwards
+        value = PyLong_AsLongLong(pyValue);
+        if (PyErr_Occurred()) {
+            return -1;
+        }
+    }
+
     auto size = static_cast<Py_ssize_t>(self->vector.size());
 
     if (pyIndex < 0) {
@@ -603,11 +641,6 @@ static int BigIntArrayList_setitem(PyObject *pySelf, Py_ssize_t pyIndex, PyObjec
         if (pyValue == nullptr) {
             self->vector.erase(self->vector.begin() + pyIndex);
         } else {
-            long long value = PyLong_AsLongLong(pyValue);
-            if (PyErr_Occurred()) {
-                return -1;
-            }
-
             self->vector[static_cast<size_t>(pyIndex)] = value;
         }
     } catch (const std::exception &e) {
@@ -634,85 +667,57 @@ static int BigIntArrayList_setitem_slice(PyObject *pySelf, PyObject *slice, PyOb
         return -1;
     }
 
-    sliceLength = PySlice_AdjustIndices(static_cast<Py_ssize_t>(self->vector.size()), &start, &stop, step);
-
-    if (!PySequence_Check(value)) {
-        PyErr_SetString(PyExc_TypeError, "can only assign an iterable");
-        return -1;
-    }
-
-    Py_ssize_t newLength = PySequence_Size(value);
-
     if (step != 1) {
         PyErr_SetString(PyExc_NotImplementedError, "step must be 1 for slice assignment");
         return -1;
     }
 
-    PyObject *item = nullptr;
     try {
-        if (newLength == sliceLength) {  // only change elements
-            for (Py_ssize_t i = 0; i < sliceLength; i++) {
-                item = PySequence_GetItem(value, i);
-                if (item == nullptr) {
+        // convert every new element before touching the list: this may run user code
+        std::vector<long long> values;
+        if (value != nullptr) {
+            if (Py_TYPE(value) == &BigIntArrayListType) {
+                auto &other = reinterpret_cast<BigIntArrayList *>(value)->vector;
+                values.assign(other.begin(), other.end());
+            } else {
+                PyObject *items = PySequence_List(value);
+                if (items == nullptr) {
                     return -1;
                 }
 
-                self->vector[static_cast<size_t>(start + i)] = PyLong_AsLong(item);
-                SAFE_DECREF(item);
-                if (PyErr_Occurred()) {
-                    return -1;
-                }
-            }
-        } else if (newLength < sliceLength) {  // less elements
-            for (Py_ssize_t i = 0; i < newLength; i++) {
-                item = PySequence_GetItem(value, i);
-                if (item == nullptr) {
-                    return -1;
+                const auto newLength = PyList_GET_SIZE(items);
+                try {
+                    values.reserve(static_cast<size_t>(newLength));
+                } catch (const std::exception &) {
+                    SAFE_DECREF(items);
+                    throw;
                 }
-
-                self->vector[static_cast<size_t>(start + i)] = PyLong_AsLong(item);
-                SAFE_DECREF(item);
-                if (PyErr_Occurred()) {
-                    return -1;
+                for (Py_ssize_t i = 0; i < newLength; i++) {
+                    values.push_back(PyLong_AsLongLong(PyList_GET_ITEM(items, i)));
+                    if (PyErr_Occurred()) {
+                        SAFE_DECREF(items);
+                        return -1;
+                    }
                 }
+                SAFE_DECREF(items);
             }
+        }
+        const auto newLength = static_cast<Py_ssize_t>(values.size());
+
+        // the list may have changed in the meantime
+        sliceLength = PySlice_AdjustIndices(static_cast<Py_ssize_t>(self->vector.size()), &start, &stop, step);
+        stop = start + sliceLength;
 
+        if (newLength > sliceLength) {  // more elements
+            self->vector.insert(self->vector.begin() + stop, values.begin() + sliceLength, values.end());
+        } else if (newLength < sliceLength) {  // less elements
             self->vector.erase(
-                    self->vector.begin() + start + newLength,
-                    self->vector.begin() + stop
+                self->vector.begin() + start + newLength,
+                self->vector.begin() + stop
             );
-        } else {  // more elements
-            for (Py_ssize_t i = 0; i < sliceLength; i++) {
-                item = PySequence_GetItem(value, i);
-                if (item == nullptr) {
-                    return -1;
-                }
-
-                self->vector[static_cast<size_t>(start + i)] = PyLong_AsLong(item);
-                SAFE_DECREF(item);
-                if (PyErr_Occurred()) {
-                    return -1;
-                }
-            }
-
-            for (Py_ssize_t i = sliceLength; i < newLength; i++) {
-                item = PySequence_GetItem(value, i);
-                if (item == nullptr) {
-                    return -1;
-                }
-
-                self->vector.insert(
-                        self->vector.begin() + start + i,
-                        PyLong_AsLong(item)
-                );
-                SAFE_DECREF(item);
-                if (PyErr_Occurred()) {
-                    return -1;
-                }
-            }
         }
+        std::copy_n(values.begin(), std::min(newLength, sliceLength), self->vector.begin() + start);
     } catch (const std::exception &e) {
-        SAFE_DECREF(item);
         PyErr_SetString(PyExc_RuntimeError, e.what());
         return -1;
     }
@@ -757,52 +762,16 @@ static PyObject *BigIntArrayList_add(PyObject *pySelf, PyObject *pyValue) {
 }
 
 static PyObject *BigIntArrayList_iadd(PyObject *pySelf, PyObject *iterable) {
-    auto *self = reinterpret_cast<BigIntArrayList *>(pySelf);
-
-    // fast extend
-    if (Py_TYPE(iterable) == &BigIntArrayListType) {
-        auto *iter = reinterpret_cast<BigIntArrayList *>(iterable);
-        self->vector.insert(self->vector.end(), iter->vector.begin(), iter->vector.end());
-        Py_RETURN_NONE;
-    }
-
-    // python iterable extend
-    PyObject *iter = PyObject_GetIter(iterable);
-    if (iter == nullptr) {
-        return nullptr;
-    }
-
-    // pre alloc
-    Py_ssize_t hint = PyObject_LengthHint(iterable, 0);
-    if (hint > 0) {
-        self->vector.reserve(self->vector.size() + hint);
-    }
-
-    // do extend
-    PyObject *item;
-    while ((item = PyIter_Next(iter)) != nullptr) {
-        long long value = PyLong_AsLongLong(item);
-        SAFE_DECREF(item);
-
-        if (PyErr_Occurred()) {
-            SAFE_DECREF(iter);
-            return nullptr;
-        }
-
-        self->vector.push_back(value);
-    }
-
-    if (PyErr_Occurred()) {
-        SAFE_DECREF(iter);
+    PyObject *result = BigIntArrayList_extend(pySelf, &iterable, 1);
+    if (result == nullptr) {
         return nullptr;
     }
+    SAFE_DECREF(result);
 
-    SAFE_DECREF(iter);
     Py_INCREF(pySelf);
     return pySelf;
 }
 
-
 static PyObject *BigIntArrayList_mul(PyObject *pySelf, Py_ssize_t n) {
     auto *self = reinterpret_cast<BigIntArrayList *>(pySelf);
 
diff --git a/pyfastutil/src/ints/IntArrayList.cpp b/pyfastutil/src/ints/IntArrayList.cpp
index abc1776..d0505bd 100644
--- a/pyfastutil/src/ints/IntArrayList.cpp
+++ b/pyfastutil/src/ints/IntArrayList.cpp
@@ -269,7 +269,16 @@ static PyObject *IntArrayList_extend(PyObject *pySelf, PyObject *const *args, co
     // fast extend
     if (Py_TYPE(iterable) == &IntArrayListType) {
         auto *iter = reinterpret_cast<IntArrayList *>(iterable);
-        self->vector.insert(self->vector.end(), iter->vector.begin(), iter->vector.end());
+        try {
+            // iter may be self
+            const auto oldSize = self->vector.size();
+            const auto count = iter->vector.size();
+            self->vector.resize(oldSize + count);
+            std::copy_n(iter->vector.data(), count, self->vector.data() + oldSize);
+        } catch (const std::exception &e) {
+            PyErr_SetString(PyExc_RuntimeError, e.what());
+            return nullptr;
+        }
         Py_RETURN_NONE;
     }
 
@@ -281,22 +290,33 @@ static PyObject *IntArrayList_extend(PyObject *pySelf, PyObject *const *args, co
 
     // pre alloc
     Py_ssize_t hint = PyObject_LengthHint(iterable, 0);
-    if (hint > 0) {
-        self->vector.reserve(self->vector.size() + hint);
+    if (hint < 0) {
+        SAFE_DECREF(iter);
+        return nullptr;
     }
 
-    // do extend
-    PyObject *item;
-    while ((item = PyIter_Next(iter)) != nullptr) {
-        int value = PyLong_AsLong(item);
-        SAFE_DECREF(item);
-
-        if (PyErr_Occurred()) {
-            SAFE_DECREF(iter);
-            return nullptr;
+    try {
+        if (hint > 0) {
+            self->vector.reserve(self->vector.size() + hint);
         }
 
-        self->vector.push_back(value);
+        // do extend
+        PyObject *item;
+        while ((item = PyIter_Next(iter)) != nullptr) {
+            int value = PyLong_AsLong(item);
+            SAFE_DECREF(item);
+
+            if (PyErr_Occurred()) {
+                SAFE_DECREF(iter);
+                return nullptr;
+            }
+
+            self->vector.push_back(value);
+        }
+    } catch (const std::exception &e) {
+        SAFE_DECREF(iter);
+        PyErr_SetString(PyExc_RuntimeError, e.what());
+        return nullptr;
     }
 
     if (PyErr_Occurred()) {
@@ -312,27 +332,33 @@ static PyObject *IntArrayList_extend(PyObject *pySelf, PyObject *const *args, co
 static PyObject *IntArrayList_pop(PyObject *pySelf, PyObject *const *args, const Py_ssize_t nargs) {
     auto *self = reinterpret_cast<IntArrayList *>(pySelf);
 
-    if (self->vector.empty()) {
+    Py_ssize_t index = -1;
+    if (nargs == 1) {
+        // may run user code: look at the list only afterwards
+        index = PyNumber_AsSsize_t(args[0], PyExc_IndexError);
+        if (index == -1 && PyErr_Occurred()) {
+            return nullptr;
+        }
+    }
+
+    if (nargs <= 1 && self->vector.empty()) {
         PyErr_SetString(PyExc_IndexError, "pop from empty list");
         return nullptr;
     }
 
     const auto vecSize = static_cast<Py_ssize_t>(self->vector.size());
-    Py_ssize_t index = vecSize - 1;
 
-    int popped;
+    PyObject *popped;
     switch (nargs) {
         case 0:
-            popped = self->vector.back();
-            self->vector.pop_back();
-
-            return PyFast_FromInt(popped);
-        case 1:
-            index = PyLong_AsSsize_t(args[0]);
-            if (index == -1 && PyErr_Occurred()) {
+            popped = PyFast_FromInt(self->vector.back());
+            if (popped == nullptr) {
                 return nullptr;
             }
+            self->vector.pop_back();
 
+            return popped;
+        case 1:
             if (index < 0) {
                 index += vecSize;
             }
@@ -342,10 +368,13 @@ static PyObject *IntArrayList_pop(PyObject *pySelf, PyObject *const *args, const
                 return nullptr;
             }
 
-            popped = self->vector[static_cast<size_t>(index)];
+            popped = PyFast_FromInt(self->vector[static_cast<size_t>(index)]);
+            if (popped == nullptr) {
+                return nullptr;
+            }
             self->vector.erase(self->vector.begin() + index);
 
-            return PyFast_FromInt(popped);
+            return popped;
         default:
             PyErr_SetString(PyExc_TypeError, "pop() takes at most 1 argument");
             return nullptr;
@@ -358,7 +387,7 @@ static PyObject *IntArrayList_index(PyObject *pySelf, PyObject *args) {
 
     int value;
     Py_ssize_t start = 0;
-    auto stop = static_cast<Py_ssize_t>(self->vector.size());
+    Py_ssize_t stop = PY_SSIZE_T_MAX;
 
     if (!PyArg_ParseTuple(args, "i|nn", &value, &start, &stop)) {
         return nullptr;
@@ -587,6 +616,15 @@ static PyObject *IntArrayList_getitem_slice(PyObject *pySelf, PyObject *slice) {
 static int IntArrayList_setitem(PyObject *pySelf, Py_ssize_t pyIndex, PyObject *pyValue) {
     auto *self = reinterpret_cast<IntArrayList *>(pySelf);
 
+    int value = 0;
+    if (pyValue != nullptr) {
+        // may run user code: look at the list only afterwards
+        value = PyLong_AsLong(pyValue);
+        if (PyErr_Occurred()) {
+            return -1;
+        }
+    }
+
     auto size = static_cast<Py_ssize_t>(self->vector.size());
 
     if (pyIndex < 0) {
@@ -601,11 +639,6 @@ static int IntArrayList_setitem(PyObject *pySelf, Py_ssize_t pyIndex, PyObject *
         if (pyValue == nullptr) {
             self->vector.erase(self->vector.begin() + pyIndex);
         } else {
-            int value = PyLong_AsLong(pyValue);
-            if (PyErr_Occurred()) {
-                return -1;
-            }
-
             self->vector[static_cast<size_t>(pyIndex)] = value;
         }
     } catch (const std::exception &e) {
@@ -632,85 +665,57 @@ static int IntArrayList_setitem_slice(PyObject *pySelf, PyObject *slice, PyObjec
         return -1;
     }
 
-    sliceLength = PySlice_AdjustIndices(static_cast<Py_ssize_t>(self->vector.size()), &start, &stop, step);
-
-    if (!PySequence_Check(value)) {
-        PyErr_SetString(PyExc_TypeError, "can only assign an iterable");
-        return -1;
-    }
-
-    Py_ssize_t newLength = PySequence_Size(value);
-
     if (step != 1) {
         PyErr_SetString(PyExc_NotImplementedError, "step must be 1 for slice assignment");
         return -1;
     }
 
-    PyObject *item = nullptr;
     try {
-        if (newLength == sliceLength) {  // only change elements
-            for (Py_ssize_t i = 0; i < sliceLength; i++) {
-                item = PySequence_GetItem(value, i);
-                if (item == nullptr) {
+        // convert every new element before touching the list: this may run user code
+        std::vector<int> values;
+        if (value != nullptr) {
+            if (Py_TYPE(value) == &IntArrayListType) {
+                auto &other = reinterpret_cast<IntArrayList *>(value)->vector;
+                values.assign(other.begin(), other.end());
+            } else {
+                PyObject *items = PySequence_List(value);
+                if (items == nullptr) {
                     return -1;
                 }
 
-                self->vector[static_cast<size_t>(start + i)] = PyLong_AsLong(item);
-                SAFE_DECREF(item);
-                if (PyErr_Occurred()) {
-                    return -1;
-                }
-            }
-        } else if (newLength < sliceLength) {  // less elements
-            for (Py_ssize_t i = 0; i < newLength; i++) {
-                item = PySequence_GetItem(value, i);
-                if (item == nullptr) {
-                    return -1;
+                const auto newLength = PyList_GET_SIZE(items);
+                try {
+                    values.reserve(static_cast<size_t>(newLength));
+                } catch (const std::exception &) {
+                    SAFE_DECREF(items);
+                    throw;
                 }
-
-                self->vector[static_cast<size_t>(start + i)] = PyLong_AsLong(item);
-                SAFE_DECREF(item);
-                if (PyErr_Occurred()) {
-                    return -1;
+                for (Py_ssize_t i = 0; i < newLength; i++) {
+                    values.push_back(PyLong_AsLong(PyList_GET_ITEM(items, i)));
+                    if (PyErr_Occurred()) {
+                        SAFE_DECREF(items);
+                        return -1;
+                    }
                 }
+                SAFE_DECREF(items);
             }
+        }
+        const auto newLength = static_cast<Py_ssize_t>(values.size());
 
+        // the list may have changed in the meantime
+        sliceLength = PySlice_AdjustIndices(static_cast<Py_ssize_t>(self->vector.size()), &start, &stop, step);
+        stop = start + sliceLength;
+
+        if (newLength > sliceLength) {  // more elements
+            self->vector.insert(self->vector.begin() + stop, values.begin() + sliceLength, values.end());
+        } else if (newLength < sliceLength) {  // less elements
             self->vector.erase(
                 self->vector.begin() + start + newLength,
                 self->vector.begin() + stop
             );
-        } else {  // more elements
-            for (Py_ssize_t i = 0; i < sliceLength; i++) {
-                item = PySequence_GetItem(value, i);
-                if (item == nullptr) {
-                    return -1;
-                }
-
-                self->vector[static_cast<size_t>(start + i)] = PyLong_AsLong(item);
-                SAFE_DECREF(item);
-                if (PyErr_Occurred()) {
-                    return -1;
-                }
-            }
-
-            for (Py_ssize_t i = sliceLength; i < newLength; i++) {
-                item = PySequence_GetItem(value, i);
-                if (item == nullptr) {
-                    return -1;
-                }
-
-                self->vector.insert(
-                    self->vector.begin() + start + i,
-                    PyLong_AsLong(item)
-                );
-                SAFE_DECREF(item);
-                if (PyErr_Occurred()) {
-                    return -1;
-                }
-            }
         }
+        std::copy_n(values.begin(), std::min(newLength, sliceLength), self->vector.begin() + start);
     } catch (const std::exception &e) {
-        SAFE_DECREF(item);
         PyErr_SetString(PyExc_RuntimeError, e.what());
         return -1;
     }
@@ -755,52 +760,16 @@ static PyObject *IntArrayList_add(PyObject *pySelf, PyObject *pyValue) {
 }
 
 static PyObject *IntArrayList_iadd(PyObject *pySelf, PyObject *iterable) {
-    auto *self = reinterpret_cast<IntArrayList *>(pySelf);
-
-    // fast extend
-    if (Py_TYPE(iterable) == &IntArrayListType) {
-        auto *iter = reinterpret_cast<IntArrayList *>(iterable);
-        self->vector.insert(self->vector.end(), iter->vector.begin(), iter->vector.end());
-        Py_RETURN_NONE;
-    }
-
-    // python iterable extend
-    PyObject *iter = PyObject_GetIter(iterable);
-    if (iter == nullptr) {
-        return nullptr;
-    }
-
-    // pre alloc
-    Py_ssize_t hint = PyObject_LengthHint(iterable, 0);
-    if (hint > 0) {
-        self->vector.reserve(self->vector.size() + hint);
-    }
-
-    // do extend
-    PyObject *item;
-    while ((item = PyIter_Next(iter)) != nullptr) {
-        int value = PyLong_AsLong(item);
-        SAFE_DECREF(item);
-
-        if (PyErr_Occurred()) {
-            SAFE_DECREF(iter);
-            return nullptr;
-        }
-
-        self->vector.push_back(value);
-    }
-
-    if (PyErr_Occurred()) {
-        SAFE_DECREF(iter);
+    PyObject *result = IntArrayList_extend(pySelf, &iterable, 1);
+    if (result == nullptr) {
         return nullptr;
     }
+    SAFE_DECREF(result);
 
-    SAFE_DECREF(iter);
     Py_INCREF(pySelf);
     return pySelf;
 }
 
-
 static PyObject *IntArrayList_mul(PyObject *pySelf, Py_ssize_t n) {
     auto *self = reinterpret_cast<IntArrayList *>(pySelf);
 
-- 
2.43.0


From 78670deef3a6d2844cfc6801d4d534ed572de79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:22 +0000
Subject: [PATCH 06/24] fix: sort integer array lists on a private copy

The keyless sort released the GIL over the live vector, and the key sort wrote
through pointers that a key function can invalidate and ignored its failure.
Any true reverse flag now reverses.
---
 pyfastutil/src/ints/BigIntArrayList.cpp | 52 +++++++++++++++++++++----
 pyfastutil/src/ints/IntArrayList.cpp    | 52 +++++++++++++++++++++----
 2 files changed, 90 insertions(+), 14 deletions(-)

diff --git a/pyfastutil/src/ints/BigIntArrayList.cpp b/pyfastutil/src/ints/BigIntArrayList.cpp
index fd28b2f..3f04caf 100644
--- a/pyfastutil/src/ints/BigIntArrayList.cpp
+++ b/pyfastutil/src/ints/BigIntArrayList.cpp
@@ -503,19 +503,37 @@ static PyObject *BigIntArrayList_sort(PyObject *pySelf, PyObject *args, PyObject
         return nullptr;
     }
 
-    const bool reverse = reverseInt == 1;
+    const bool reverse = reverseInt != 0;
 
     // do sort
     try {
         if (keyFunc == Py_None) {
             // simd sort with auto-fallback
+            // the list itself may be used by other threads while the GIL is released
+            const auto before = self->vector;
+            auto sorted = before;
+            bool succeed = true;
             Py_BEGIN_ALLOW_THREADS
-                simd::simdsort(self->vector, reverse);
+                try {
+                    simd::simdsort(sorted, reverse);
+                } catch (const std::exception &) {
+                    succeed = false;
+                }
             Py_END_ALLOW_THREADS
+            if (!succeed) {
+                PyErr_NoMemory();
+                return nullptr;
+            }
+
+            if (self->vector == before) {
+                std::copy(sorted.begin(), sorted.end(), self->vector.begin());
+            } else {
+                simd::simdsort(self->vector, reverse);
+            }
         } else {
             // sort with key function, costs extra memory
-            const auto vecSize = self->vector.size();
-            auto vecData = self->vector.data();
+            const auto before = self->vector;
+            const auto vecSize = before.size();
             auto **pyData = static_cast<PyObject **>(PyMem_Malloc(sizeof(PyObject *) * vecSize));
             if (pyData == nullptr) {
                 PyErr_NoMemory();
@@ -523,17 +541,37 @@ static PyObject *BigIntArrayList_sort(PyObject *pySelf, PyObject *args, PyObject
             }
 
             for (size_t i = 0; i < vecSize; ++i) {
-                pyData[i] = PyLong_FromLongLong(vecData[i]);
+                pyData[i] = PyLong_FromLongLong(before[i]);
+                if (pyData[i] == nullptr) {
+                    while (i > 0) {
+                        Py_DECREF(pyData[--i]);
+                    }
+                    PyMem_FREE(pyData);
+                    return nullptr;
+                }
             }
 
-            CPython_sort(pyData, static_cast<Py_ssize_t>(vecSize), keyFunc, reverseInt);
+            PyObject *result = CPython_sort(pyData, static_cast<Py_ssize_t>(vecSize), keyFunc, reverseInt);
+            bool succeed = result != nullptr;
+            Py_XDECREF(result);
+
+            if (succeed && self->vector != before) {
+                PyErr_SetString(PyExc_ValueError, "list modified during sort");
+                succeed = false;
+            }
 
             for (size_t i = 0; i < vecSize; ++i) {
-                vecData[i] = PyLong_AsLongLong(pyData[i]);
+                if (succeed) {
+                    self->vector[i] = PyLong_AsLongLong(pyData[i]);
+                }
                 Py_DECREF(pyData[i]);
             }
 
             PyMem_FREE(pyData);
+
+            if (!succeed) {
+                return nullptr;
+            }
         }
     } catch (const std::exception &e) {
         PyErr_SetString(PyExc_RuntimeError, e.what());
diff --git a/pyfastutil/src/ints/IntArrayList.cpp b/pyfastutil/src/ints/IntArrayList.cpp
index d0505bd..fd82903 100644
--- a/pyfastutil/src/ints/IntArrayList.cpp
+++ b/pyfastutil/src/ints/IntArrayList.cpp
@@ -506,19 +506,37 @@ static PyObject *IntArrayList_sort(PyObject *pySelf, PyObject *args, PyObject *k
         return nullptr;
     }
 
-    const bool reverse = reverseInt == 1;
+    const bool reverse = reverseInt != 0;
 
     // do sort
     try {
         if (keyFunc == nullptr || keyFunc == Py_None) {
             // simd sort with auto-fallback
+            // the list itself may be used by other threads while the GIL is released
+            const auto before = self->vector;
+            auto sorted = before;
+            bool succeed = true;
             Py_BEGIN_ALLOW_THREADS
-                simd::simdsort(self->vector, reverse);
+                try {
+                    simd::simdsort(sorted, reverse);
+                } catch (const std::exception &) {
+                    succeed = false;
+                }
             Py_END_ALLOW_THREADS
+            if (!succeed) {
+                PyErr_NoMemory();
+                return nullptr;
+            }
+
+            if (self->vector == before) {
+                std::copy(sorted.begin(), sorted.end(), self->vector.begin());
+            } else {
+                simd::simdsort(self->vector, reverse);
+            }
         } else {
             // sort with key function, costs extra memory
-            const auto vecSize = self->vector.size();
-            auto vecData = self->vector.data();
+            const auto before = self->vector;
+            const auto vecSize = before.size();
             auto **pyData = static_cast<PyObject **>(PyMem_Malloc(sizeof(PyObject *) * vecSize));
             if (pyData == nullptr) {
                 PyErr_NoMemory();
@@ -526,17 +544,37 @@ static PyObject *IntArrayList_sort(PyObject *pySelf, PyObject *args, PyObject *k
             }
 
             for (size_t i = 0; i < vecSize; ++i) {
-                pyData[i] = PyFast_FromInt(vecData[i]);
+                pyData[i] = PyFast_FromInt(before[i]);
+                if (pyData[i] == nullptr) {
+                    while (i > 0) {
+                        Py_DECREF(pyData[--i]);
+                    }
+                    PyMem_FREE(pyData);
+                    return nullptr;
+                }
             }
 
-            CPython_sort(pyData, static_cast<Py_ssize_t>(vecSize), keyFunc, reverseInt);
+            PyObject *result = CPython_sort(pyData, static_cast<Py_ssize_t>(vecSize), keyFunc, reverseInt);
+            bool succeed = result != nullptr;
+            Py_XDECREF(result);
+
+            if (succeed && self->vector != before) {
+                PyErr_SetString(PyExc_ValueError, "list modified during sort");
+                succeed = false;
+            }
 
             for (size_t i = 0; i < vecSize; ++i) {
-                vecData[i] = PyFast_AsInt(pyData[i]);
+                if (succeed) {
+                    self->vector[i] = PyFast_AsInt(pyData[i]);
+                }
                 Py_DECREF(pyData[i]);
             }
 
             PyMem_FREE(pyData);
+
+            if (!succeed) {
+                return nullptr;
+            }
         }
     } catch (const std::exception &e) {
         PyErr_SetString(PyExc_RuntimeError, e.what());
-- 
2.43.0


From f960daa200639117455245490ffa6d1064867265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:22 +0000
Subject: [PATCH 07/24] fix: repeat, reverse and concatenate integer array
 lists correctly

mul, imul and reverse released the GIL over live data, imul scaled its pointer
offsets twice and aligned stores hit unaligned rows; lst + lst passed the list
as the argument tuple of the constructor.
---
 pyfastutil/src/ints/BigIntArrayList.cpp | 49 +++++++++++++------------
 pyfastutil/src/ints/IntArrayList.cpp    | 49 +++++++++++++------------
 2 files changed, 50 insertions(+), 48 deletions(-)

diff --git a/pyfastutil/src/ints/BigIntArrayList.cpp b/pyfastutil/src/ints/BigIntArrayList.cpp
index 3f04caf..a3efdc6 100644
--- a/pyfastutil/src/ints/BigIntArrayList.cpp
+++ b/pyfastutil/src/ints/BigIntArrayList.cpp
@@ -224,7 +224,7 @@ static PyObject *BigIntArrayList_copy(PyObject *pySelf) {
     auto *self = reinterpret_cast<BigIntArrayList *>(pySelf);
 
     auto *copy = Py_CreateObj<BigIntArrayList>(BigIntArrayListType);
-    if (copy == nullptr) return PyErr_NoMemory();
+    if (copy == nullptr) return nullptr;
 
     try {
         copy->vector = self->vector;
@@ -267,7 +267,7 @@ static PyObject *BigIntArrayList_extend(PyObject *pySelf, PyObject *const *args,
     PyObject *iterable = args[0];
 
     // fast extend
-    if (Py_TYPE(iterable) == &BigIntArrayListType) {
+    if (Py_TYPE(iterable) == &BigIntArrayListType || iterable == pySelf) {
         auto *iter = reinterpret_cast<BigIntArrayList *>(iterable);
         try {
             // iter may be self
@@ -768,9 +768,9 @@ static PyObject *BigIntArrayList_add(PyObject *pySelf, PyObject *pyValue) {
         // fast add -> BigIntArrayList
         auto *value = reinterpret_cast<BigIntArrayList *>(pyValue);
 
-        auto *result = Py_CreateObj<BigIntArrayList>(BigIntArrayListType, pySelf);
+        auto *result = reinterpret_cast<BigIntArrayList *>(BigIntArrayList_copy(pySelf));
         if (result == nullptr) {
-            return PyErr_NoMemory();
+            return nullptr;
         }
 
         try {
@@ -819,7 +819,7 @@ static PyObject *BigIntArrayList_mul(PyObject *pySelf, Py_ssize_t n) {
 
     auto *result = Py_CreateObj<BigIntArrayList>(BigIntArrayListType);
     if (result == nullptr) {
-        return PyErr_NoMemory();
+        return nullptr;
     }
 
     if (n == 0) {
@@ -828,13 +828,15 @@ static PyObject *BigIntArrayList_mul(PyObject *pySelf, Py_ssize_t n) {
 
     try {
         const auto selfSize = self->vector.size();
+        if (selfSize > static_cast<size_t>(PY_SSIZE_T_MAX / n)) {
+            SAFE_DECREF(result);
+            return PyErr_NoMemory();
+        }
 
-        Py_BEGIN_ALLOW_THREADS
-            result->vector.resize(selfSize * n);
-            for (Py_ssize_t i = 0; i < n; ++i) {
-                simd::simdMemCpyAligned(self->vector.data(), result->vector.data() + selfSize * i, selfSize);
-            }
-        Py_END_ALLOW_THREADS
+        result->vector.resize(selfSize * n);
+        for (Py_ssize_t i = 0; i < n; ++i) {
+            simd::simdMemCpy(self->vector.data(), result->vector.data() + selfSize * i, selfSize);
+        }
 
         return reinterpret_cast<PyObject *>(result);
     } catch (const std::exception &e) {
@@ -870,17 +872,18 @@ static PyObject *BigIntArrayList_imul(PyObject *pySelf, Py_ssize_t n) {
             self->vector.clear();
         } else {
             const auto selfSize = self->vector.size();
+            if (selfSize > static_cast<size_t>(PY_SSIZE_T_MAX / n)) {
+                return PyErr_NoMemory();
+            }
 
-            Py_BEGIN_ALLOW_THREADS
-                self->vector.resize(selfSize * n);
-                for (Py_ssize_t i = 1; i < n; ++i) {
-                    simd::simdMemCpyAligned(
-                            self->vector.data(),
-                            self->vector.data() + selfSize * sizeof(long long) * i,
-                            selfSize
-                    );
-                }
-            Py_END_ALLOW_THREADS
+            self->vector.resize(selfSize * n);
+            for (Py_ssize_t i = 1; i < n; ++i) {
+                simd::simdMemCpy(
+                        self->vector.data(),
+                        self->vector.data() + selfSize * i,
+                        selfSize
+                );
+            }
         }
 
         Py_INCREF(pySelf);
@@ -926,9 +929,7 @@ static PyObject *BigIntArrayList_reversed(PyObject *pySelf) {
 static PyObject *BigIntArrayList_reverse(PyObject *pySelf) {
     auto *self = reinterpret_cast<BigIntArrayList *>(pySelf);
 
-    Py_BEGIN_ALLOW_THREADS
-        simd::simdReverse(self->vector.data(), self->vector.size());
-    Py_END_ALLOW_THREADS
+    simd::simdReverse(self->vector.data(), self->vector.size());
     Py_RETURN_NONE;
 }
 
diff --git a/pyfastutil/src/ints/IntArrayList.cpp b/pyfastutil/src/ints/IntArrayList.cpp
index fd82903..c2a6261 100644
--- a/pyfastutil/src/ints/IntArrayList.cpp
+++ b/pyfastutil/src/ints/IntArrayList.cpp
@@ -224,7 +224,7 @@ static PyObject *IntArrayList_copy(PyObject *pySelf) {
     auto *self = reinterpret_cast<IntArrayList *>(pySelf);
 
     auto *copy = Py_CreateObj<IntArrayList>(IntArrayListType);
-    if (copy == nullptr) return PyErr_NoMemory();
+    if (copy == nullptr) return nullptr;
 
     try {
         copy->vector = self->vector;
@@ -267,7 +267,7 @@ static PyObject *IntArrayList_extend(PyObject *pySelf, PyObject *const *args, co
     PyObject *iterable = args[0];
 
     // fast extend
-    if (Py_TYPE(iterable) == &IntArrayListType) {
+    if (Py_TYPE(iterable) == &IntArrayListType || iterable == pySelf) {
         auto *iter = reinterpret_cast<IntArrayList *>(iterable);
         try {
             // iter may be self
@@ -766,9 +766,9 @@ static PyObject *IntArrayList_add(PyObject *pySelf, PyObject *pyValue) {
         // fast add -> IntArrayList
         auto *value = reinterpret_cast<IntArrayList *>(pyValue);
 
-        auto *result = Py_CreateObj<IntArrayList>(IntArrayListType, pySelf);
+        auto *result = reinterpret_cast<IntArrayList *>(IntArrayList_copy(pySelf));
         if (result == nullptr) {
-            return PyErr_NoMemory();
+            return nullptr;
         }
 
         try {
@@ -817,7 +817,7 @@ static PyObject *IntArrayList_mul(PyObject *pySelf, Py_ssize_t n) {
 
     auto *result = Py_CreateObj<IntArrayList>(IntArrayListType);
     if (result == nullptr) {
-        return PyErr_NoMemory();
+        return nullptr;
     }
 
     if (n == 0) {
@@ -826,13 +826,15 @@ static PyObject *IntArrayList_mul(PyObject *pySelf, Py_ssize_t n) {
 
     try {
         const auto selfSize = self->vector.size();
+        if (selfSize > static_cast<size_t>(PY_SSIZE_T_MAX / n)) {
+            SAFE_DECREF(result);
+            return PyErr_NoMemory();
+        }
 
-        Py_BEGIN_ALLOW_THREADS
-            result->vector.resize(selfSize * n);
-            for (Py_ssize_t i = 0; i < n; ++i) {
-                simd::simdMemCpyAligned(self->vector.data(), result->vector.data() + selfSize * i, selfSize);
-            }
-        Py_END_ALLOW_THREADS
+        result->vector.resize(selfSize * n);
+        for (Py_ssize_t i = 0; i < n; ++i) {
+            simd::simdMemCpy(self->vector.data(), result->vector.data() + selfSize * i, selfSize);
+        }
 
         return reinterpret_cast<PyObject *>(result);
     } catch (const std::exception &e) {
@@ -868,17 +870,18 @@ static PyObject *IntArrayList_imul(PyObject *pySelf, Py_ssize_t n) {
             self->vector.clear();
         } else {
             const auto selfSize = self->vector.size();
+            if (selfSize > static_cast<size_t>(PY_SSIZE_T_MAX / n)) {
+                return PyErr_NoMemory();
+            }
 
-            Py_BEGIN_ALLOW_THREADS
-                self->vector.resize(selfSize * n);
-                for (Py_ssize_t i = 1; i < n; ++i) {
-                    simd::simdMemCpyAligned(
-                            self->vector.data(),
-                            self->vector.data() + selfSize * sizeof(int) * i,
-                            selfSize
-                    );
-                }
-            Py_END_ALLOW_THREADS
+            self->vector.resize(selfSize * n);
+            for (Py_ssize_t i = 1; i < n; ++i) {
+                simd::simdMemCpy(
+                        self->vector.data(),
+                        self->vector.data() + selfSize * i,
+                        selfSize
+                );
+            }
         }
 
         Py_INCREF(pySelf);
@@ -924,9 +927,7 @@ static PyObject *IntArrayList_reversed(PyObject *pySelf) {
 static PyObject *IntArrayList_reverse(PyObject *pySelf) {
     auto *self = reinterpret_cast<IntArrayList *>(pySelf);
 
-    Py_BEGIN_ALLOW_THREADS
-        simd::simdReverse(self->vector.data(), self->vector.size());
-    Py_END_ALLOW_THREADS
+    simd::simdReverse(self->vector.data(), self->vector.size());
     Py_RETURN_NONE;
 }
 
-- 
2.43.0


From 749d4e2c49b75c3ae5d559ddce832dc508470d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:29 +0000
Subject: [PATCH 08/24] fix: propagate errors from integer array list
 comparisons

Errors of the other operand were swallowed or left pending, and the list was
indexed without a bounds check after running user code.
---
 pyfastutil/src/ints/BigIntArrayList.cpp | 38 +++++++++++++++-----
 pyfastutil/src/ints/IntArrayList.cpp    | 46 ++++++++++++++++++-------
 2 files changed, 64 insertions(+), 20 deletions(-)

diff --git a/pyfastutil/src/ints/BigIntArrayList.cpp b/pyfastutil/src/ints/BigIntArrayList.cpp
index a3efdc6..41b13ae 100644
--- a/pyfastutil/src/ints/BigIntArrayList.cpp
+++ b/pyfastutil/src/ints/BigIntArrayList.cpp
@@ -959,19 +959,28 @@ static __forceinline PyObject *BigIntArrayList_eq(PyObject *pySelf, PyObject *py
 
     // for others
     Py_ssize_t seq_size = PySequence_Size(pyValue);
+    if (seq_size < 0) return nullptr;
     if (seq_size != static_cast<Py_ssize_t>(self->vector.size()))
         Py_RETURN_FALSE;
 
     for (Py_ssize_t i = 0; i < seq_size; i++) {
         PyObject *item = PySequence_GetItem(pyValue, i);
         if (item == nullptr) return nullptr;
-        long long self_value = self->vector[i];
-        long long other_value = PyLong_AsLongLong(item);
-        if (PyErr_Occurred()) {  // can't be converted to int
+        if (!PyIndex_Check(item)) {  // can't be converted to int
             SAFE_DECREF(item);
             Py_RETURN_FALSE;
         }
+        PyObject *number = PyNumber_Index(item);
         SAFE_DECREF(item);
+        if (number == nullptr) return nullptr;
+        int overflow;
+        long long other_value = PyLong_AsLongLongAndOverflow(number, &overflow);
+        SAFE_DECREF(number);
+        if (overflow != 0)
+            Py_RETURN_FALSE;
+        if (static_cast<size_t>(i) >= self->vector.size())  // changed by user code
+            Py_RETURN_FALSE;
+        long long self_value = self->vector[i];
         if (self_value != other_value)
             Py_RETURN_FALSE;
     }
@@ -981,7 +990,8 @@ static __forceinline PyObject *BigIntArrayList_eq(PyObject *pySelf, PyObject *py
 
 static __forceinline PyObject *BigIntArrayList_ne(PyObject *pySelf, PyObject *pyValue) {
     PyObject *isEq = BigIntArrayList_eq(pySelf, pyValue);
-    if (PyObject_IsTrue(isEq)) {
+    if (isEq == nullptr) return nullptr;
+    if (isEq == Py_True) {
         SAFE_DECREF(isEq);
         Py_RETURN_FALSE;
     } else {
@@ -1009,14 +1019,17 @@ static __forceinline PyObject *BigIntArrayList_lt(PyObject *pySelf, PyObject *py
         Py_RETURN_FALSE;
 
     Py_ssize_t seq_size = PySequence_Size(pyValue);
+    if (seq_size < 0) return nullptr;
     Py_ssize_t min_size = std::min(static_cast<Py_ssize_t>(self->vector.size()), seq_size);
 
     for (Py_ssize_t i = 0; i < min_size; i++) {
         PyObject *item = PySequence_GetItem(pyValue, i);
         if (item == nullptr) return nullptr;
-        long long self_value = self->vector[i];
         long long other_value = PyLong_AsLongLong(item);
         SAFE_DECREF(item);
+        if (other_value == -1 && PyErr_Occurred()) return nullptr;
+        if (static_cast<size_t>(i) >= self->vector.size()) break;  // changed by user code
+        long long self_value = self->vector[i];
         if (self_value != other_value) Py_RETURN_BOOL(self_value < other_value)
     }
     Py_RETURN_BOOL(self->vector.size() < static_cast<size_t>(seq_size))
@@ -1041,14 +1054,17 @@ static __forceinline PyObject *BigIntArrayList_le(PyObject *pySelf, PyObject *py
         Py_RETURN_FALSE;
 
     Py_ssize_t seq_size = PySequence_Size(pyValue);
+    if (seq_size < 0) return nullptr;
     Py_ssize_t min_size = std::min(static_cast<Py_ssize_t>(self->vector.size()), seq_size);
 
     for (Py_ssize_t i = 0; i < min_size; i++) {
         PyObject *item = PySequence_GetItem(pyValue, i);
         if (item == nullptr) return nullptr;
-        long long self_value = self->vector[i];
         long long other_value = PyLong_AsLongLong(item);
         Py_DECREF(item);
+        if (other_value == -1 && PyErr_Occurred()) return nullptr;
+        if (static_cast<size_t>(i) >= self->vector.size()) break;  // changed by user code
+        long long self_value = self->vector[i];
         if (self_value != other_value) Py_RETURN_BOOL(self_value <= other_value)
     }
     Py_RETURN_BOOL(self->vector.size() <= static_cast<size_t>(seq_size))
@@ -1073,14 +1089,17 @@ static __forceinline PyObject *BigIntArrayList_gt(PyObject *pySelf, PyObject *py
         Py_RETURN_FALSE;
 
     Py_ssize_t seq_size = PySequence_Size(pyValue);
+    if (seq_size < 0) return nullptr;
     Py_ssize_t min_size = std::min(static_cast<Py_ssize_t>(self->vector.size()), seq_size);
 
     for (Py_ssize_t i = 0; i < min_size; i++) {
         PyObject *item = PySequence_GetItem(pyValue, i);
         if (item == nullptr) return nullptr;
-        long long self_value = self->vector[i];
         long long other_value = PyLong_AsLongLong(item);
         Py_DECREF(item);
+        if (other_value == -1 && PyErr_Occurred()) return nullptr;
+        if (static_cast<size_t>(i) >= self->vector.size()) break;  // changed by user code
+        long long self_value = self->vector[i];
         if (self_value != other_value) Py_RETURN_BOOL(self_value > other_value)
     }
     Py_RETURN_BOOL(self->vector.size() > static_cast<size_t>(seq_size))
@@ -1105,14 +1124,17 @@ static __forceinline PyObject *BigIntArrayList_ge(PyObject *pySelf, PyObject *py
         Py_RETURN_FALSE;
 
     Py_ssize_t seq_size = PySequence_Size(pyValue);
+    if (seq_size < 0) return nullptr;
     Py_ssize_t min_size = std::min(static_cast<Py_ssize_t>(self->vector.size()), seq_size);
 
     for (Py_ssize_t i = 0; i < min_size; i++) {
         PyObject *item = PySequence_GetItem(pyValue, i);
         if (item == nullptr) return nullptr;
-        long long self_value = self->vector[i];
         long long other_value = PyLong_AsLongLong(item);
         Py_DECREF(item);
+        if (other_value == -1 && PyErr_Occurred()) return nullptr;
+        if (static_cast<size_t>(i) >= self->vector.size()) break;  // changed by user code
+        long long self_value = self->vector[i];
         if (self_value != other_value) Py_RETURN_BOOL(self_value >= other_value)
     }
     Py_RETURN_BOOL(self->vector.size() >= static_cast<size_t>(seq_size))
diff --git a/pyfastutil/src/ints/IntArrayList.cpp b/pyfastutil/src/ints/IntArrayList.cpp
index c2a6261..e71e658 100644
--- a/pyfastutil/src/ints/IntArrayList.cpp
+++ b/pyfastutil/src/ints/IntArrayList.cpp
@@ -957,19 +957,28 @@ static __forceinline PyObject *IntArrayList_eq(PyObject *pySelf, PyObject *pyVal
 
     // for others
     Py_ssize_t seq_size = PySequence_Size(pyValue);
+    if (seq_size < 0) return nullptr;
     if (seq_size != static_cast<Py_ssize_t>(self->vector.size()))
         Py_RETURN_FALSE;
 
     for (Py_ssize_t i = 0; i < seq_size; i++) {
         PyObject *item = PySequence_GetItem(pyValue, i);
         if (item == nullptr) return nullptr;
-        int self_value = self->vector[i];
-        int other_value = PyLong_AsLong(item);
-        if (PyErr_Occurred()) {  // can't be converted to int
+        if (!PyIndex_Check(item)) {  // can't be converted to int
             SAFE_DECREF(item);
             Py_RETURN_FALSE;
         }
+        PyObject *number = PyNumber_Index(item);
         SAFE_DECREF(item);
+        if (number == nullptr) return nullptr;
+        int overflow;
+        long other_value = PyLong_AsLongAndOverflow(number, &overflow);
+        SAFE_DECREF(number);
+        if (overflow != 0)
+            Py_RETURN_FALSE;
+        if (static_cast<size_t>(i) >= self->vector.size())  // changed by user code
+            Py_RETURN_FALSE;
+        int self_value = self->vector[i];
         if (self_value != other_value)
             Py_RETURN_FALSE;
     }
@@ -979,7 +988,8 @@ static __forceinline PyObject *IntArrayList_eq(PyObject *pySelf, PyObject *pyVal
 
 static __forceinline PyObject *IntArrayList_ne(PyObject *pySelf, PyObject *pyValue) {
     PyObject *isEq = IntArrayList_eq(pySelf, pyValue);
-    if (PyObject_IsTrue(isEq)) {
+    if (isEq == nullptr) return nullptr;
+    if (isEq == Py_True) {
         SAFE_DECREF(isEq);
         Py_RETURN_FALSE;
     } else {
@@ -1007,14 +1017,17 @@ static __forceinline PyObject *IntArrayList_lt(PyObject *pySelf, PyObject *pyVal
         Py_RETURN_FALSE;
 
     Py_ssize_t seq_size = PySequence_Size(pyValue);
+    if (seq_size < 0) return nullptr;
     Py_ssize_t min_size = std::min(static_cast<Py_ssize_t>(self->vector.size()), seq_size);
 
     for (Py_ssize_t i = 0; i < min_size; i++) {
         PyObject *item = PySequence_GetItem(pyValue, i);
         if (item == nullptr) return nullptr;
-        int self_value = self->vector[i];
-        int other_value = PyLong_AsLong(item);
+        long other_value = PyLong_AsLong(item);
         SAFE_DECREF(item);
+        if (other_value == -1 && PyErr_Occurred()) return nullptr;
+        if (static_cast<size_t>(i) >= self->vector.size()) break;  // changed by user code
+        int self_value = self->vector[i];
         if (self_value != other_value) Py_RETURN_BOOL(self_value < other_value)
     }
     Py_RETURN_BOOL(self->vector.size() < static_cast<size_t>(seq_size))
@@ -1039,14 +1052,17 @@ static __forceinline PyObject *IntArrayList_le(PyObject *pySelf, PyObject *pyVal
         Py_RETURN_FALSE;
 
     Py_ssize_t seq_size = PySequence_Size(pyValue);
+    if (seq_size < 0) return nullptr;
     Py_ssize_t min_size = std::min(static_cast<Py_ssize_t>(self->vector.size()), seq_size);
 
     for (Py_ssize_t i = 0; i < min_size; i++) {
         PyObject *item = PySequence_GetItem(pyValue, i);
         if (item == nullptr) return nullptr;
-        int self_value = self->vector[i];
-        int other_value = PyLong_AsLong(item);
+        long other_value = PyLong_AsLong(item);
         Py_DECREF(item);
+        if (other_value == -1 && PyErr_Occurred()) return nullptr;
+        if (static_cast<size_t>(i) >= self->vector.size()) break;  // changed by user code
+        int self_value = self->vector[i];
         if (self_value != other_value) Py_RETURN_BOOL(self_value <= other_value)
     }
     Py_RETURN_BOOL(self->vector.size() <= static_cast<size_t>(seq_size))
@@ -1071,14 +1087,17 @@ static __forceinline PyObject *IntArrayList_gt(PyObject *pySelf, PyObject *pyVal
         Py_RETURN_FALSE;
 
     Py_ssize_t seq_size = PySequence_Size(pyValue);
+    if (seq_size < 0) return nullptr;
     Py_ssize_t min_size = std::min(static_cast<Py_ssize_t>(self->vector.size()), seq_size);
 
     for (Py_ssize_t i = 0; i < min_size; i++) {
         PyObject *item = PySequence_GetItem(pyValue, i);
         if (item == nullptr) return nullptr;
-        int self_value = self->vector[i];
-        int other_value = PyLong_AsLong(item);
+        long other_value = PyLong_AsLong(item);
         Py_DECREF(item);
+        if (other_value == -1 && PyErr_Occurred()) return nullptr;
+        if (static_cast<size_t>(i) >= self->vector.size()) break;  // changed by user code
+        int self_value = self->vector[i];
         if (self_value != other_value) Py_RETURN_BOOL(self_value > other_value)
     }
     Py_RETURN_BOOL(self->vector.size() > static_cast<size_t>(seq_size))
@@ -1103,14 +1122,17 @@ static __forceinline PyObject *IntArrayList_ge(PyObject *pySelf, PyObject *pyVal
         Py_RETURN_FALSE;
 
     Py_ssize_t seq_size = PySequence_Size(pyValue);
+    if (seq_size < 0) return nullptr;
     Py_ssize_t min_size = std::min(static_cast<Py_ssize_t>(self->vector.size()), seq_size);
 
     for (Py_ssize_t i = 0; i < min_size; i++) {
         PyObject *item = PySequence_GetItem(pyValue, i);
         if (item == nullptr) return nullptr;
-        int self_value = self->vector[i];
-        int other_value = PyLong_AsLong(item);
+        long other_value = PyLong_AsLong(item);
         Py_DECREF(item);
+        if (other_value == -1 && PyErr_Occurred()) return nullptr;
+        if (static_cast<size_t>(i) >= self->vector.size()) break;  // changed by user code
+        int self_value = self->vector[i];
         if (self_value != other_value) Py_RETURN_BOOL(self_value >= other_value)
     }
     Py_RETURN_BOOL(self->vector.size() >= static_cast<size_t>(seq_size))
-- 
2.43.0


From 80e16ad6d356e0b81b7303769406349dd9cc4ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:59 +0000
Subject: [PATCH 09/24] fix: keep exported buffers of integer array lists valid

A buffer view held no reference to its list and did not stop the list from
reallocating, so it pointed into freed memory. Views now own a reference and
resizing a list with live views raises BufferError, like bytearray. Format and
strides follow the requested flags.
---
 pyfastutil/src/ints/BigIntArrayList.cpp | 51 +++++++++++++++++++++----
 pyfastutil/src/ints/BigIntArrayList.h   |  2 +
 pyfastutil/src/ints/IntArrayList.cpp    | 51 +++++++++++++++++++++----
 pyfastutil/src/ints/IntArrayList.h      |  2 +
 4 files changed, 92 insertions(+), 14 deletions(-)

diff --git a/pyfastutil/src/ints/BigIntArrayList.cpp b/pyfastutil/src/ints/BigIntArrayList.cpp
index 41b13ae..4b64fe8 100644
--- a/pyfastutil/src/ints/BigIntArrayList.cpp
+++ b/pyfastutil/src/ints/BigIntArrayList.cpp
@@ -43,6 +43,14 @@ static __forceinline bool parseArgs(PyObject *&args, PyObject *&kwargs, PyObject
     return true;
 }
 
+static __forceinline bool checkResizable(BigIntArrayList *self) {
+    if (self->exports > 0) {
+        PyErr_SetString(PyExc_BufferError, "Existing exports of data: object cannot be re-sized");
+        return false;
+    }
+    return true;
+}
+
 static PyObject *BigIntArrayList_new(PyTypeObject *type, [[maybe_unused]] PyObject *args, [[maybe_unused]] PyObject *kwargs) {
     auto *self = reinterpret_cast<BigIntArrayList *>(type->tp_alloc(type, 0));
     if (self == nullptr) return nullptr;
@@ -123,6 +131,7 @@ static int BigIntArrayList_init(BigIntArrayList *self, PyObject *args, PyObject
         return -1;
     }
 
+    if (!checkResizable(self)) return -1;
     self->vector.swap(vector);
     return 0;
 }
@@ -190,6 +199,8 @@ static PyObject *BigIntArrayList_resize(PyObject *pySelf, PyObject *pySize) {
         return nullptr;
     }
 
+    if (!checkResizable(self)) return nullptr;
+
     try {
         self->vector.resize(static_cast<size_t>(pySSize));
     } catch (const std::exception &e) {
@@ -245,6 +256,8 @@ static PyObject *BigIntArrayList_append(PyObject *pySelf, PyObject *object) {
         return nullptr;
     }
 
+    if (!checkResizable(self)) return nullptr;
+
     try {
         self->vector.push_back(value);
     } catch (const std::exception &e) {
@@ -269,6 +282,8 @@ static PyObject *BigIntArrayList_extend(PyObject *pySelf, PyObject *const *args,
     // fast extend
     if (Py_TYPE(iterable) == &BigIntArrayListType || iterable == pySelf) {
         auto *iter = reinterpret_cast<BigIntArrayList *>(iterable);
+        if (iter->vector.empty()) Py_RETURN_NONE;
+        if (!checkResizable(self)) return nullptr;
         try {
             // iter may be self
             const auto oldSize = self->vector.size();
@@ -296,7 +311,7 @@ static PyObject *BigIntArrayList_extend(PyObject *pySelf, PyObject *const *args,
     }
 
     try {
-        if (hint > 0) {
+        if (hint > 0 && self->exports == 0) {
             self->vector.reserve(self->vector.size() + hint);
         }
 
@@ -306,7 +321,7 @@ static PyObject *BigIntArrayList_extend(PyObject *pySelf, PyObject *const *args,
             long long value = PyLong_AsLongLong(item);
             SAFE_DECREF(item);
 
-            if (PyErr_Occurred()) {
+            if (PyErr_Occurred() || !checkResizable(self)) {
                 SAFE_DECREF(iter);
                 return nullptr;
             }
@@ -361,6 +376,7 @@ static PyObject *BigIntArrayList_pop(PyObject *pySelf, PyObject *const *args, co
         PyErr_SetString(PyExc_TypeError, "pop() takes at most 1 argument");
         return nullptr;
     } else {
+        if (!checkResizable(self)) return nullptr;
         PyObject *popped = PyLong_FromLongLong(self->vector.back());
         if (popped == nullptr) {
             return nullptr;
@@ -370,6 +386,7 @@ static PyObject *BigIntArrayList_pop(PyObject *pySelf, PyObject *const *args, co
         return popped;
     }
 
+    if (!checkResizable(self)) return nullptr;
     PyObject *popped = PyLong_FromLongLong(self->vector[static_cast<size_t>(index)]);
     if (popped == nullptr) {
         return nullptr;
@@ -457,6 +474,7 @@ static PyObject *BigIntArrayList_insert(PyObject *pySelf, PyObject *args) {
     }
 
     // do insert
+    if (!checkResizable(self)) return nullptr;
     try {
         self->vector.insert(self->vector.begin() + index, value);
     } catch (const std::exception &e) {
@@ -479,6 +497,7 @@ static PyObject *BigIntArrayList_remove(PyObject *pySelf, PyObject *object) {
         auto it = std::find(self->vector.begin(), self->vector.end(), value);
 
         if (it != self->vector.end()) {
+            if (!checkResizable(self)) return nullptr;
             self->vector.erase(it);
         } else {
             PyErr_SetString(PyExc_ValueError, "Value is not in list.");
@@ -677,6 +696,7 @@ static int BigIntArrayList_setitem(PyObject *pySelf, Py_ssize_t pyIndex, PyObjec
 
     try {
         if (pyValue == nullptr) {
+            if (!checkResizable(self)) return -1;
             self->vector.erase(self->vector.begin() + pyIndex);
         } else {
             self->vector[static_cast<size_t>(pyIndex)] = value;
@@ -746,6 +766,8 @@ static int BigIntArrayList_setitem_slice(PyObject *pySelf, PyObject *slice, PyOb
         sliceLength = PySlice_AdjustIndices(static_cast<Py_ssize_t>(self->vector.size()), &start, &stop, step);
         stop = start + sliceLength;
 
+        if (newLength != sliceLength && !checkResizable(self)) return -1;
+
         if (newLength > sliceLength) {  // more elements
             self->vector.insert(self->vector.begin() + stop, values.begin() + sliceLength, values.end());
         } else if (newLength < sliceLength) {  // less elements
@@ -867,6 +889,8 @@ static PyObject *BigIntArrayList_imul(PyObject *pySelf, Py_ssize_t n) {
         n = 0;
     }
 
+    if (n != 1 && !self->vector.empty() && !checkResizable(self)) return nullptr;
+
     try {
         if (n == 0) {
             self->vector.clear();
@@ -936,6 +960,7 @@ static PyObject *BigIntArrayList_reverse(PyObject *pySelf) {
 static PyObject *BigIntArrayList_clear(PyObject *pySelf) {
     auto *self = reinterpret_cast<BigIntArrayList *>(pySelf);
 
+    if (!self->vector.empty() && !checkResizable(self)) return nullptr;
     self->vector.clear();
     Py_RETURN_NONE;
 }
@@ -1201,25 +1226,37 @@ static PyObject *BigIntArrayList_str(PyObject *pySelf) {
     return BigIntArrayList_repr(pySelf);
 }
 
-static int BigIntArrayList_get_buffer(PyObject *pySelf, Py_buffer *view, [[maybe_unused]] int flags) {
-    if (view == nullptr) return -1;
+static int BigIntArrayList_get_buffer(PyObject *pySelf, Py_buffer *view, int flags) {
+    if (view == nullptr) {
+        PyErr_SetString(PyExc_BufferError, "NULL view in getbuffer");
+        return -1;
+    }
     auto *self = reinterpret_cast<BigIntArrayList *>(pySelf);
 
     self->shape = static_cast<Py_ssize_t>(self->vector.size());
-    view->format = const_cast<char *>("q");
+    view->format = (flags & PyBUF_FORMAT) == PyBUF_FORMAT ? const_cast<char *>("q") : nullptr;
     view->buf = self->vector.data();
     view->len = static_cast<Py_ssize_t>(self->vector.size() * sizeof(long long));
     view->itemsize = sizeof(long long);
     view->readonly = 0;
     view->ndim = 1;
     view->shape = &self->shape;
-    view->strides = nullptr;
+    view->strides = (flags & PyBUF_STRIDES) == PyBUF_STRIDES ? &view->itemsize : nullptr;
     view->suboffsets = nullptr;
     view->internal = nullptr;
+    view->obj = pySelf;
+    Py_INCREF(pySelf);
+    self->exports++;
 
     return 0;
 }
 
+static void BigIntArrayList_release_buffer(PyObject *pySelf, [[maybe_unused]] Py_buffer *view) {
+    auto *self = reinterpret_cast<BigIntArrayList *>(pySelf);
+
+    self->exports--;
+}
+
 static PyMethodDef BigIntArrayList_methods[] = {
         {"from_range", (PyCFunction) BigIntArrayList_from_range, METH_VARARGS | METH_STATIC},
         {"resize", (PyCFunction) BigIntArrayList_resize, METH_O},
@@ -1272,7 +1309,7 @@ static PyMappingMethods BigIntArrayList_asMapping = {
 
 static PyBufferProcs BigIntArrayList_asBuffer = {
         BigIntArrayList_get_buffer,
-        nullptr
+        BigIntArrayList_release_buffer
 };
 
 void initializeBigIntArrayListType(PyTypeObject &type) {
diff --git a/pyfastutil/src/ints/BigIntArrayList.h b/pyfastutil/src/ints/BigIntArrayList.h
index 8a018c3..d236ce8 100644
--- a/pyfastutil/src/ints/BigIntArrayList.h
+++ b/pyfastutil/src/ints/BigIntArrayList.h
@@ -15,6 +15,8 @@ typedef struct BigIntArrayList {
     // we use 64 bytes memory aligned to support faster SIMD, suggestion by ChatGPT.
     std::vector<long long, AlignedAllocator<long long, 64>> vector;
     Py_ssize_t shape = 0;
+    // live buffer views: the storage must not be resized while there are any
+    Py_ssize_t exports = 0;
 } BigIntArrayList;
 }
 
diff --git a/pyfastutil/src/ints/IntArrayList.cpp b/pyfastutil/src/ints/IntArrayList.cpp
index e71e658..789a917 100644
--- a/pyfastutil/src/ints/IntArrayList.cpp
+++ b/pyfastutil/src/ints/IntArrayList.cpp
@@ -43,6 +43,14 @@ static __forceinline bool parseArgs(PyObject *&args, PyObject *&kwargs, PyObject
     return true;
 }
 
+static __forceinline bool checkResizable(IntArrayList *self) {
+    if (self->exports > 0) {
+        PyErr_SetString(PyExc_BufferError, "Existing exports of data: object cannot be re-sized");
+        return false;
+    }
+    return true;
+}
+
 static PyObject *IntArrayList_new(PyTypeObject *type, [[maybe_unused]] PyObject *args, [[maybe_unused]] PyObject *kwargs) {
     auto *self = reinterpret_cast<IntArrayList *>(type->tp_alloc(type, 0));
     if (self == nullptr) return nullptr;
@@ -123,6 +131,7 @@ static int IntArrayList_init(IntArrayList *self, PyObject *args, PyObject *kwarg
         return -1;
     }
 
+    if (!checkResizable(self)) return -1;
     self->vector.swap(vector);
     return 0;
 }
@@ -190,6 +199,8 @@ static PyObject *IntArrayList_resize(PyObject *pySelf, PyObject *pySize) {
         return nullptr;
     }
 
+    if (!checkResizable(self)) return nullptr;
+
     try {
         self->vector.resize(static_cast<size_t>(pySSize));
     } catch (const std::exception &e) {
@@ -245,6 +256,8 @@ static PyObject *IntArrayList_append(PyObject *pySelf, PyObject *object) {
         return nullptr;
     }
 
+    if (!checkResizable(self)) return nullptr;
+
     try {
         self->vector.push_back(value);
     } catch (const std::exception &e) {
@@ -269,6 +282,8 @@ static PyObject *IntArrayList_extend(PyObject *pySelf, PyObject *const *args, co
     // fast extend
     if (Py_TYPE(iterable) == &IntArrayListType || iterable == pySelf) {
         auto *iter = reinterpret_cast<IntArrayList *>(iterable);
+        if (iter->vector.empty()) Py_RETURN_NONE;
+        if (!checkResizable(self)) return nullptr;
         try {
             // iter may be self
             const auto oldSize = self->vector.size();
@@ -296,7 +311,7 @@ static PyObject *IntArrayList_extend(PyObject *pySelf, PyObject *const *args, co
     }
 
     try {
-        if (hint > 0) {
+        if (hint > 0 && self->exports == 0) {
             self->vector.reserve(self->vector.size() + hint);
         }
 
@@ -306,7 +321,7 @@ static PyObject *IntArrayList_extend(PyObject *pySelf, PyObject *const *args, co
             int value = PyLong_AsLong(item);
             SAFE_DECREF(item);
 
-            if (PyErr_Occurred()) {
+            if (PyErr_Occurred() || !checkResizable(self)) {
                 SAFE_DECREF(iter);
                 return nullptr;
             }
@@ -351,6 +366,7 @@ static PyObject *IntArrayList_pop(PyObject *pySelf, PyObject *const *args, const
     PyObject *popped;
     switch (nargs) {
         case 0:
+            if (!checkResizable(self)) return nullptr;
             popped = PyFast_FromInt(self->vector.back());
             if (popped == nullptr) {
                 return nullptr;
@@ -368,6 +384,7 @@ static PyObject *IntArrayList_pop(PyObject *pySelf, PyObject *const *args, const
                 return nullptr;
             }
 
+            if (!checkResizable(self)) return nullptr;
             popped = PyFast_FromInt(self->vector[static_cast<size_t>(index)]);
             if (popped == nullptr) {
                 return nullptr;
@@ -460,6 +477,7 @@ static PyObject *IntArrayList_insert(PyObject *pySelf, PyObject *args) {
     }
 
     // do insert
+    if (!checkResizable(self)) return nullptr;
     try {
         self->vector.insert(self->vector.begin() + index, value);
     } catch (const std::exception &e) {
@@ -482,6 +500,7 @@ static PyObject *IntArrayList_remove(PyObject *pySelf, PyObject *object) {
         auto it = std::find(self->vector.begin(), self->vector.end(), value);
 
         if (it != self->vector.end()) {
+            if (!checkResizable(self)) return nullptr;
             self->vector.erase(it);
         } else {
             PyErr_SetString(PyExc_ValueError, "Value is not in list.");
@@ -675,6 +694,7 @@ static int IntArrayList_setitem(PyObject *pySelf, Py_ssize_t pyIndex, PyObject *
 
     try {
         if (pyValue == nullptr) {
+            if (!checkResizable(self)) return -1;
             self->vector.erase(self->vector.begin() + pyIndex);
         } else {
             self->vector[static_cast<size_t>(pyIndex)] = value;
@@ -744,6 +764,8 @@ static int IntArrayList_setitem_slice(PyObject *pySelf, PyObject *slice, PyObjec
         sliceLength = PySlice_AdjustIndices(static_cast<Py_ssize_t>(self->vector.size()), &start, &stop, step);
         stop = start + sliceLength;
 
+        if (newLength != sliceLength && !checkResizable(self)) return -1;
+
         if (newLength > sliceLength) {  // more elements
             self->vector.insert(self->vector.begin() + stop, values.begin() + sliceLength, values.end());
         } else if (newLength < sliceLength) {  // less elements
@@ -865,6 +887,8 @@ static PyObject *IntArrayList_imul(PyObject *pySelf, Py_ssize_t n) {
         n = 0;
     }
 
+    if (n != 1 && !self->vector.empty() && !checkResizable(self)) return nullptr;
+
     try {
         if (n == 0) {
             self->vector.clear();
@@ -934,6 +958,7 @@ static PyObject *IntArrayList_reverse(PyObject *pySelf) {
 static PyObject *IntArrayList_clear(PyObject *pySelf) {
     auto *self = reinterpret_cast<IntArrayList *>(pySelf);
 
+    if (!self->vector.empty() && !checkResizable(self)) return nullptr;
     self->vector.clear();
     Py_RETURN_NONE;
 }
@@ -1199,25 +1224,37 @@ static PyObject *IntArrayList_str(PyObject *pySelf) {
     return IntArrayList_repr(pySelf);
 }
 
-static int IntArrayList_get_buffer(PyObject *pySelf, Py_buffer *view, [[maybe_unused]] int flags) {
-    if (view == nullptr) return -1;
+static int IntArrayList_get_buffer(PyObject *pySelf, Py_buffer *view, int flags) {
+    if (view == nullptr) {
+        PyErr_SetString(PyExc_BufferError, "NULL view in getbuffer");
+        return -1;
+    }
     auto *self = reinterpret_cast<IntArrayList *>(pySelf);
 
     self->shape = static_cast<Py_ssize_t>(self->vector.size());
-    view->format = const_cast<char *>("i");
+    view->format = (flags & PyBUF_FORMAT) == PyBUF_FORMAT ? const_cast<char *>("i") : nullptr;
     view->buf = self->vector.data();
     view->len = static_cast<Py_ssize_t>(self->vector.size() * sizeof(int));
     view->itemsize = sizeof(int);
     view->readonly = 0;
     view->ndim = 1;
     view->shape = &self->shape;
-    view->strides = nullptr;
+    view->strides = (flags & PyBUF_STRIDES) == PyBUF_STRIDES ? &view->itemsize : nullptr;
     view->suboffsets = nullptr;
     view->internal = nullptr;
+    view->obj = pySelf;
+    Py_INCREF(pySelf);
+    self->exports++;
 
     return 0;
 }
 
+static void IntArrayList_release_buffer(PyObject *pySelf, [[maybe_unused]] Py_buffer *view) {
+    auto *self = reinterpret_cast<IntArrayList *>(pySelf);
+
+    self->exports--;
+}
+
 static PyMethodDef IntArrayList_methods[] = {
         {"from_range", (PyCFunction) IntArrayList_from_range, METH_VARARGS | METH_STATIC},
         {"resize", (PyCFunction) IntArrayList_resize, METH_O},
@@ -1270,7 +1307,7 @@ static PyMappingMethods IntArrayList_asMapping = {
 
 static PyBufferProcs IntArrayList_asBuffer = {
         IntArrayList_get_buffer,
-        nullptr
+        IntArrayList_release_buffer
 };
 
 void initializeIntArrayListType(PyTypeObject &type) {
diff --git a/pyfastutil/src/ints/IntArrayList.h b/pyfastutil/src/ints/IntArrayList.h
index 24d5598..3ca39e3 100644
--- a/pyfastutil/src/ints/IntArrayList.h
+++ b/pyfastutil/src/ints/IntArrayList.h
@@ -15,6 +15,8 @@ typedef struct IntArrayList {
     // we use 64 bytes memory aligned to support faster SIMD, suggestion by ChatGPT.
     std::vector<int, AlignedAllocator<int, 64>> vector;
     Py_ssize_t shape = 0;
+    // live buffer views: the storage must not be resized while there are any
+    Py_ssize_t exports = 0;
 } IntArrayList;
 }
 
-- 
2.43.0


From 37f25860098b7016f2f81f7f1a8bdd705788c87f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:20 +0000
Subject: [PATCH 10/24] fix: end integer array list iterators for good and
 never read past the list

A reversed iterator read out of bounds after the list had shrunk, and iterators
restarted when a list grew again after they were exhausted.
---
 pyfastutil/src/ints/BigIntArrayListIter.cpp | 31 ++++++---------------
 pyfastutil/src/ints/IntArrayListIter.cpp    | 31 ++++++---------------
 2 files changed, 16 insertions(+), 46 deletions(-)

diff --git a/pyfastutil/src/ints/BigIntArrayListIter.cpp b/pyfastutil/src/ints/BigIntArrayListIter.cpp
index 0b3ec68..33ecabf 100644
--- a/pyfastutil/src/ints/BigIntArrayListIter.cpp
+++ b/pyfastutil/src/ints/BigIntArrayListIter.cpp
@@ -18,7 +18,7 @@ BigIntArrayListIter *BigIntArrayListIter_create(BigIntArrayList *list, bool reve
     Py_INCREF(list);
     instance->container = list;
     if (reversed) {
-        instance->index = (!list->vector.empty()) ? list->vector.size() - 1 : 0;
+        instance->index = list->vector.size() - 1;  // SIZE_MAX if empty
         instance->reversed = true;
     } else {
         instance->index = 0;
@@ -36,37 +36,22 @@ static void BigIntArrayListIter_dealloc(BigIntArrayListIter *self) {
 static PyObject *BigIntArrayListIter_next(PyObject *pySelf) {
     auto *self = reinterpret_cast<BigIntArrayListIter *>(pySelf);
 
-    if (self->container->vector.empty()) {
+    // SIZE_MAX is never a valid index: the iterator is finished for good
+    if (self->index >= self->container->vector.size()) {
+        self->index = SIZE_MAX;
         PyErr_SetNone(PyExc_StopIteration);
         return nullptr;
     }
 
+    PyObject *element = PyLong_FromLongLong(self->container->vector[self->index]);
+    if (element == nullptr) return nullptr;
+
     if (self->reversed) {
-        if (self->index == 0) {
-            // last iteration
-            long long element = self->container->vector[self->index];
-            self->index = SIZE_MAX;
-            return PyLong_FromLongLong(element);
-        }
-        if (self->index == SIZE_MAX) {
-            // already finish iteration
-            PyErr_SetNone(PyExc_StopIteration);
-            return nullptr;
-        }
-
-        long long element = self->container->vector[self->index];
         self->index--;
-        return PyLong_FromLongLong(element);
     } else {
-        if (self->index >= self->container->vector.size()) {
-            PyErr_SetNone(PyExc_StopIteration);
-            return nullptr;
-        }
-
-        long long element = self->container->vector[self->index];
         self->index++;
-        return PyLong_FromLongLong(element);
     }
+    return element;
 }
 
 static PyObject *BigIntArrayListIter_iter(PyObject *pySelf) {
diff --git a/pyfastutil/src/ints/IntArrayListIter.cpp b/pyfastutil/src/ints/IntArrayListIter.cpp
index 722f1f0..46f5113 100644
--- a/pyfastutil/src/ints/IntArrayListIter.cpp
+++ b/pyfastutil/src/ints/IntArrayListIter.cpp
@@ -18,7 +18,7 @@ IntArrayListIter *IntArrayListIter_create(IntArrayList *list, bool reversed) {
     Py_INCREF(list);
     instance->container = list;
     if (reversed) {
-        instance->index = (!list->vector.empty()) ? list->vector.size() - 1 : 0;
+        instance->index = list->vector.size() - 1;  // SIZE_MAX if empty
         instance->reversed = true;
     } else {
         instance->index = 0;
@@ -36,37 +36,22 @@ static void IntArrayListIter_dealloc(IntArrayListIter *self) {
 static PyObject *IntArrayListIter_next(PyObject *pySelf) {
     auto *self = reinterpret_cast<IntArrayListIter *>(pySelf);
 
-    if (self->container->vector.empty()) {
+    // SIZE_MAX is never a valid index: the iterator is finished for good
+    if (self->index >= self->container->vector.size()) {
+        self->index = SIZE_MAX;
         PyErr_SetNone(PyExc_StopIteration);
         return nullptr;
     }
 
+    PyObject *element = PyFast_FromInt(self->container->vector[self->index]);
+    if (element == nullptr) return nullptr;
+
     if (self->reversed) {
-        if (self->index == 0) {
-            // last iteration
-            int element = self->container->vector[self->index];
-            self->index = SIZE_MAX;
-            return PyFast_FromInt(element);
-        }
-        if (self->index == SIZE_MAX) {
-            // already finish iteration
-            PyErr_SetNone(PyExc_StopIteration);
-            return nullptr;
-        }
-
-        int element = self->container->vector[self->index];
         self->index--;
-        return PyFast_FromInt(element);
     } else {
-        if (self->index >= self->container->vector.size()) {
-            PyErr_SetNone(PyExc_StopIteration);
-            return nullptr;
-        }
-
-        int element = self->container->vector[self->index];
         self->index++;
-        return PyFast_FromInt(element);
     }
+    return element;
 }
 
 static PyObject *IntArrayListIter_iter(PyObject *pySelf) {
-- 
2.43.0


From 7ff90eba5167467d851018f4372e2eb6dad75a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:33 +0000
Subject: [PATCH 11/24] fix: keep integer linked lists consistent under errors,
 re-entry and other threads

---
 pyfastutil/src/ints/IntLinkedList.cpp     | 469 ++++++++++++----------
 pyfastutil/src/ints/IntLinkedListIter.cpp |  45 +--
 2 files changed, 260 insertions(+), 254 deletions(-)

diff --git a/pyfastutil/src/ints/IntLinkedList.cpp b/pyfastutil/src/ints/IntLinkedList.cpp
index e0e4ea0..02f1e45 100644
--- a/pyfastutil/src/ints/IntLinkedList.cpp
+++ b/pyfastutil/src/ints/IntLinkedList.cpp
@@ -5,6 +5,8 @@
 #include "IntLinkedList.h"
 #include <list>
 #include <algorithm>
+#include <string>
+#include <vector>
 #include <stdexcept>
 #include "utils/PythonUtils.h"
 #include "utils/include/TimSort.h"
@@ -20,9 +22,19 @@ static PyTypeObject IntLinkedListType = {
         PyVarObject_HEAD_INIT(&PyType_Type, 0)
 };
 
-static int IntLinkedList_init(IntLinkedList *self, PyObject *args, PyObject *kwargs) {
-    new(&self->list) std::list<PyObject *>();
+static PyObject *IntLinkedList_new(PyTypeObject *type, [[maybe_unused]] PyObject *args,
+                                   [[maybe_unused]] PyObject *kwargs) {
+    auto *self = reinterpret_cast<IntLinkedList *>(type->tp_alloc(type, 0));
+    if (self == nullptr) return nullptr;
+
+    new(&self->list) std::list<int>();
     self->modCount = 0;
+    return reinterpret_cast<PyObject *>(self);
+}
+
+static int IntLinkedList_init(IntLinkedList *self, PyObject *args, PyObject *kwargs) {
+    // filled aside: user code may run below, and __init__ may be called again on a live list
+    std::list<int> list;
 
     PyObject *pyIterable = nullptr;
 
@@ -38,57 +50,62 @@ static int IntLinkedList_init(IntLinkedList *self, PyObject *args, PyObject *kwa
         if (pyIterable != nullptr) {
             if (Py_TYPE(pyIterable) == &IntLinkedListType) {  // IntLinkedList is a final class
                 auto *iter = reinterpret_cast<IntLinkedList *>(pyIterable);
-                self->list = iter->list;
-                return 0;
-            }
-
-            if (PyList_Check(pyIterable) || PyTuple_Check(pyIterable)) {  // fast operation
+                list = iter->list;
+            } else if (PyList_Check(pyIterable) || PyTuple_Check(pyIterable)) {  // fast operation
                 auto fastKeys = PySequence_Fast(pyIterable, "Shouldn't be happen (IntLinkedList).");
                 if (fastKeys == nullptr) {
                     return -1;
                 }
 
-                const auto size = PySequence_Fast_GET_SIZE(fastKeys);
-                auto items = PySequence_Fast_ITEMS(fastKeys);
-                for (Py_ssize_t i = 0; i < size; ++i) {
-                    int value = PyLong_AsLong(items[i]);
-                    if (PyErr_Occurred()) {
+                for (Py_ssize_t i = 0; i < PySequence_Fast_GET_SIZE(fastKeys); ++i) {
+                    PyObject *item = PySequence_Fast_GET_ITEM(fastKeys, i);
+                    Py_INCREF(item);
+                    int value = PyLong_AsLong(item);
+                    SAFE_DECREF(item);
+                    if (value == -1 && PyErr_Occurred()) {
                         SAFE_DECREF(fastKeys);
-                        PyErr_SetString(PyExc_RuntimeError, "Failed to convert item to C int during iteration.");
                         return -1;
                     }
-                    self->list.push_back(value);
+                    try {
+                        list.push_back(value);
+                    } catch (const std::exception &) {
+                        SAFE_DECREF(fastKeys);
+                        throw;
+                    }
                 }
                 SAFE_DECREF(fastKeys);
-                return 0;
-            }
-
-            PyObject *iter = PyObject_GetIter(pyIterable);
-            if (iter == nullptr) {
-                PyErr_SetString(PyExc_TypeError, "Arg '__iterable' is not iterable.");
-                return -1;
-            }
+            } else {
+                PyObject *iter = PyObject_GetIter(pyIterable);
+                if (iter == nullptr) {
+                    return -1;
+                }
 
-            PyObject *item;
-            while ((item = PyIter_Next(iter)) != nullptr) {
-                int value = PyLong_AsLong(item);
-                if (PyErr_Occurred()) {
-                    SAFE_DECREF(iter);
+                PyObject *item;
+                while ((item = PyIter_Next(iter)) != nullptr) {
+                    int value = PyLong_AsLong(item);
                     SAFE_DECREF(item);
-                    PyErr_SetString(PyExc_RuntimeError, "Failed to convert item to C int during iteration.");
-                    return -1;
+                    if (value == -1 && PyErr_Occurred()) {
+                        SAFE_DECREF(iter);
+                        return -1;
+                    }
+                    try {
+                        list.push_back(value);
+                    } catch (const std::exception &) {
+                        SAFE_DECREF(iter);
+                        throw;
+                    }
                 }
-                self->list.push_back(value);
-                SAFE_DECREF(item);
+                SAFE_DECREF(iter);
+                if (PyErr_Occurred()) return -1;
             }
-            SAFE_DECREF(iter);
-            if (PyErr_Occurred()) return -1;
         }
     } catch (const std::exception &e) {
         PyErr_SetString(PyExc_RuntimeError, e.what());
         return -1;
     }
 
+    self->list.swap(list);
+    self->modCount++;
     return 0;
 }
 
@@ -105,7 +122,7 @@ static PyObject *IntLinkedList_from_range([[maybe_unused]] PyObject *cls, PyObje
     }
 
     auto *list = Py_CreateObj<IntLinkedList>(IntLinkedListType);
-    if (list == nullptr) return PyErr_NoMemory();
+    if (list == nullptr) return nullptr;
 
     try {
         Py_ssize_t elements;
@@ -118,7 +135,7 @@ static PyObject *IntLinkedList_from_range([[maybe_unused]] PyObject *cls, PyObje
             if (start <= stop) {
                 return reinterpret_cast<PyObject *>(list);
             }
-            elements = ((start - stop) / (-step));
+            elements = (start - stop + (-step) - 1) / (-step);
         }
 
         Py_ssize_t current = start;
@@ -128,8 +145,7 @@ static PyObject *IntLinkedList_from_range([[maybe_unused]] PyObject *cls, PyObje
         }
 
     } catch (const std::exception &e) {
-        list->list.~list();
-        PyObject_Del(list);
+        SAFE_DECREF(list);
         PyErr_SetString(PyExc_RuntimeError, e.what());
         return nullptr;
     }
@@ -147,9 +163,12 @@ static PyObject *IntLinkedList_to_list(PyObject *pySelf) {
     auto iter = self->list.begin();
     for (Py_ssize_t i = 0; i < size; ++i, ++iter) {
         PyObject *item = PyFast_FromInt(*iter);
+        if (item == nullptr) {
+            SAFE_DECREF(result);
+            return nullptr;
+        }
 
         PyList_SET_ITEM(result, i, item);
-        Py_INCREF(item);
     }
 
     return result;
@@ -159,12 +178,12 @@ static PyObject *IntLinkedList_copy(PyObject *pySelf) {
     auto *self = reinterpret_cast<IntLinkedList *>(pySelf);
 
     auto *copy = Py_CreateObj<IntLinkedList>(IntLinkedListType);
-    if (copy == nullptr) return PyErr_NoMemory();
+    if (copy == nullptr) return nullptr;
 
     try {
         copy->list = self->list;
     } catch (const std::exception &e) {
-        PyObject_Del(copy);
+        SAFE_DECREF(copy);
         PyErr_SetString(PyExc_RuntimeError, e.what());
         return nullptr;
     }
@@ -175,13 +194,13 @@ static PyObject *IntLinkedList_copy(PyObject *pySelf) {
 static PyObject *IntLinkedList_append(PyObject *pySelf, PyObject *object) {
     auto *self = reinterpret_cast<IntLinkedList *>(pySelf);
 
-    PyObject *value = object;
+    int value = PyLong_AsLong(object);
     if (PyErr_Occurred()) {
         return nullptr;
     }
 
     try {
-        self->list.push_back(PyLong_AsLong(value));
+        self->list.push_back(value);
         self->modCount++;
     } catch (const std::exception &e) {
         PyErr_SetString(PyExc_RuntimeError, e.what());
@@ -203,10 +222,15 @@ static PyObject *IntLinkedList_extend(PyObject *pySelf, PyObject *const *args, c
     PyObject *iterable = args[0];
 
     // fast extend
-    if (Py_TYPE(iterable) == &IntLinkedListType) {
+    if (Py_TYPE(iterable) == &IntLinkedListType || iterable == pySelf) {
         auto *iter = reinterpret_cast<IntLinkedList *>(iterable);
-        self->list.insert(self->list.end(), iter->list.begin(), iter->list.end());
-        self->modCount++;
+        try {
+            self->list.insert(self->list.end(), iter->list.begin(), iter->list.end());
+            self->modCount++;
+        } catch (const std::exception &e) {
+            PyErr_SetString(PyExc_RuntimeError, e.what());
+            return nullptr;
+        }
         Py_RETURN_NONE;
     }
 
@@ -219,16 +243,22 @@ static PyObject *IntLinkedList_extend(PyObject *pySelf, PyObject *const *args, c
     // do extend
     PyObject *item;
     while ((item = PyIter_Next(iter)) != nullptr) {
+        int value = PyLong_AsLong(item);
+        SAFE_DECREF(item);
         if (PyErr_Occurred()) {
             SAFE_DECREF(iter);
-            SAFE_DECREF(item);
             return nullptr;
         }
 
-        self->list.push_back(PyLong_AsLong(item));
-        SAFE_DECREF(item);
+        try {
+            self->list.push_back(value);
+            self->modCount++;
+        } catch (const std::exception &e) {
+            SAFE_DECREF(iter);
+            PyErr_SetString(PyExc_RuntimeError, e.what());
+            return nullptr;
+        }
     }
-    self->modCount++;
 
     if (PyErr_Occurred()) {
         SAFE_DECREF(iter);
@@ -243,20 +273,23 @@ static PyObject *IntLinkedList_extend(PyObject *pySelf, PyObject *const *args, c
 static PyObject *IntLinkedList_pop(PyObject *pySelf, PyObject *const *args, const Py_ssize_t nargs) {
     auto *self = reinterpret_cast<IntLinkedList *>(pySelf);
 
-    if (self->list.empty()) {
+    Py_ssize_t index = -1;
+    if (nargs == 1) {
+        // may run user code: look at the list only afterwards
+        index = PyNumber_AsSsize_t(args[0], PyExc_IndexError);
+        if (index == -1 && PyErr_Occurred()) {
+            return nullptr;
+        }
+    }
+
+    if (nargs <= 1 && self->list.empty()) {
         PyErr_SetString(PyExc_IndexError, "pop from empty list");
         return nullptr;
     }
 
     const auto vecSize = static_cast<Py_ssize_t>(self->list.size());
-    Py_ssize_t index;
 
     if (nargs == 1) {
-        index = PyLong_AsSsize_t(args[0]);
-        if (index == -1 && PyErr_Occurred()) {
-            return nullptr;
-        }
-
         if (index < 0) {
             index += vecSize;
         }
@@ -269,16 +302,23 @@ static PyObject *IntLinkedList_pop(PyObject *pySelf, PyObject *const *args, cons
         PyErr_SetString(PyExc_TypeError, "pop() takes at most 1 argument");
         return nullptr;
     } else {
-        const auto popped = self->list.back();
+        PyObject *result = PyFast_FromInt(self->list.back());
+        if (result == nullptr) {
+            return nullptr;
+        }
         self->list.pop_back();
         self->modCount++;
-        return PyFast_FromInt(popped);
+        return result;
     }
 
     auto popped = at(self->list, index);
+    PyObject *result = PyFast_FromInt(*popped);
+    if (result == nullptr) {
+        return nullptr;
+    }
     self->list.erase(popped);
     self->modCount++;
-    return PyFast_FromInt(*popped);
+    return result;
 }
 
 static PyObject *IntLinkedList_index(PyObject *pySelf, PyObject *args) {
@@ -286,7 +326,7 @@ static PyObject *IntLinkedList_index(PyObject *pySelf, PyObject *args) {
 
     int value;
     Py_ssize_t start = 0;
-    auto stop = static_cast<Py_ssize_t>(self->list.size());
+    Py_ssize_t stop = PY_SSIZE_T_MAX;
 
     if (!PyArg_ParseTuple(args, "i|nn", &value, &start, &stop)) {
         return nullptr;
@@ -409,7 +449,7 @@ static PyObject *IntLinkedList_sort(PyObject *pySelf, PyObject *args, PyObject *
     }
 
     if (keyFunc == Py_None) {
-        if (reverseInt == 1) {
+        if (reverseInt != 0) {
             self->list.sort(std::greater());
         } else {
             self->list.sort();
@@ -417,29 +457,56 @@ static PyObject *IntLinkedList_sort(PyObject *pySelf, PyObject *args, PyObject *
         self->modCount++;
     } else {
         // costs extra memory
-        const auto vecSize = self->list.size();
+        std::vector<int> before;
+        try {
+            before.assign(self->list.begin(), self->list.end());
+        } catch (const std::exception &e) {
+            PyErr_SetString(PyExc_RuntimeError, e.what());
+            return nullptr;
+        }
+        const auto vecSize = before.size();
         auto **pyData = static_cast<PyObject **>(PyMem_Malloc(sizeof(PyObject *) * vecSize));
         if (pyData == nullptr) {
             PyErr_NoMemory();
             return nullptr;
         }
 
-        auto iter = self->list.begin();
-        for (size_t i = 0; i < vecSize; ++i, ++iter) {
-            pyData[i] = PyFast_FromInt(*iter);
+        for (size_t i = 0; i < vecSize; ++i) {
+            pyData[i] = PyFast_FromInt(before[i]);
+            if (pyData[i] == nullptr) {
+                while (i > 0) {
+                    Py_DECREF(pyData[--i]);
+                }
+                PyMem_FREE(pyData);
+                return nullptr;
+            }
         }
 
-        CPython_sort(pyData,
+        PyObject *result = CPython_sort(pyData,
                      static_cast<Py_ssize_t>(vecSize),
                      keyFunc, reverseInt);
+        bool succeed = result != nullptr;
+        Py_XDECREF(result);
 
-        iter = self->list.begin();
-        for (size_t i = 0; i < vecSize; ++i, ++iter) {
-            *iter = PyFast_AsInt(pyData[i]);
+        if (succeed && !std::equal(before.begin(), before.end(), self->list.begin(), self->list.end())) {
+            PyErr_SetString(PyExc_ValueError, "list modified during sort");
+            succeed = false;
+        }
+
+        auto iter = self->list.begin();
+        for (size_t i = 0; i < vecSize; ++i) {
+            if (succeed) {
+                *iter = PyFast_AsInt(pyData[i]);
+                ++iter;
+            }
             Py_DECREF(pyData[i]);
         }
 
         PyMem_FREE(pyData);
+
+        if (!succeed) {
+            return nullptr;
+        }
         self->modCount++;
     }
 
@@ -476,9 +543,7 @@ static PyObject *IntLinkedList_getitem(PyObject *pySelf, Py_ssize_t pyIndex) {
     }
 
     try {
-        PyObject *item = PyFast_FromInt(*at(self->list, static_cast<size_t>(pyIndex)));
-        Py_INCREF(item);
-        return item;
+        return PyFast_FromInt(*at(self->list, static_cast<size_t>(pyIndex)));
     } catch (const std::exception &e) {
         PyErr_SetString(PyExc_RuntimeError, e.what());
         return nullptr;
@@ -511,7 +576,6 @@ static PyObject *IntLinkedList_getitem_slice(PyObject *pySelf, PyObject *slice)
     for (Py_ssize_t i = 0; i < sliceLength; i++) {
         Py_ssize_t index = start + i * step;
         PyObject *item = PyFast_FromInt(*at(self->list, static_cast<size_t>(index)));
-        Py_INCREF(item);
         if (item == nullptr) {
             SAFE_DECREF(result);
             return nullptr;
@@ -524,6 +588,15 @@ static PyObject *IntLinkedList_getitem_slice(PyObject *pySelf, PyObject *slice)
 static int IntLinkedList_setitem(PyObject *pySelf, Py_ssize_t pyIndex, PyObject *pyValue) {
     auto *self = reinterpret_cast<IntLinkedList *>(pySelf);
 
+    int value = 0;
+    if (pyValue != nullptr) {
+        // may run user code: look at the list only afterwards
+        value = PyLong_AsLong(pyValue);
+        if (PyErr_Occurred()) {
+            return -1;
+        }
+    }
+
     auto size = static_cast<Py_ssize_t>(self->list.size());
 
     if (pyIndex < 0) {
@@ -538,13 +611,9 @@ static int IntLinkedList_setitem(PyObject *pySelf, Py_ssize_t pyIndex, PyObject
         if (pyValue == nullptr) {
             auto iter = at(self->list, static_cast<size_t>(pyIndex));
             self->list.erase(iter);
+            self->modCount++;
         } else {
-            PyObject *value = pyValue;
-            if (PyErr_Occurred()) {
-                return -1;
-            }
-
-            *at(self->list, static_cast<size_t>(pyIndex)) = PyLong_AsLong(value);
+            *at(self->list, static_cast<size_t>(pyIndex)) = value;
         }
     } catch (const std::exception &e) {
         PyErr_SetString(PyExc_RuntimeError, e.what());
@@ -570,88 +639,45 @@ static int IntLinkedList_setitem_slice(PyObject *pySelf, PyObject *slice, PyObje
         return -1;
     }
 
-    sliceLength = PySlice_AdjustIndices(static_cast<Py_ssize_t>(self->list.size()), &start, &stop, step);
-
-    if (!PySequence_Check(value)) {
-        PyErr_SetString(PyExc_TypeError, "can only assign an iterable");
-        return -1;
-    }
-
-    Py_ssize_t newLength = PySequence_Size(value);
-
     if (step != 1) {
         PyErr_SetString(PyExc_NotImplementedError, "step must be 1 for slice assignment");
         return -1;
     }
 
     try {
-        auto iter = at(self->list, static_cast<size_t>(start));
-
-        if (newLength == sliceLength) {  // only change elements
-            for (Py_ssize_t i = 0; i < sliceLength; i++) {
-                PyObject *item = PySequence_GetItem(value, i);
-                if (item == nullptr) {
-                    return -1;
-                }
-
-                *iter = PyLong_AsLong(item);
-                SAFE_DECREF(item);
-                if (PyErr_Occurred()) {
-                    return -1;
-                }
-
-                ++iter;
-            }
-        } else if (newLength < sliceLength) {  // less elements
-            for (Py_ssize_t i = 0; i < newLength; i++) {
-                PyObject *item = PySequence_GetItem(value, i);
-                if (item == nullptr) {
-                    return -1;
-                }
-
-                *iter = PyLong_AsLong(item);
-                SAFE_DECREF(item);
-                if (PyErr_Occurred()) {
-                    return -1;
-                }
-
-                ++iter;
+        // convert every new element before touching the list: this may run user code
+        std::list<int> values;
+        if (value != nullptr) {
+            PyObject *items = PySequence_List(value);
+            if (items == nullptr) {
+                return -1;
             }
 
-            auto eraseStart = iter;
-            for (Py_ssize_t i = newLength; i < sliceLength; i++) {
-                ++iter;
-            }
-            self->list.erase(eraseStart, iter);
-        } else {  // more elements
-            for (Py_ssize_t i = 0; i < sliceLength; i++) {
-                PyObject *item = PySequence_GetItem(value, i);
-                if (item == nullptr) {
-                    return -1;
+            const auto newLength = PyList_GET_SIZE(items);
+            for (Py_ssize_t i = 0; i < newLength; i++) {
+                try {
+                    values.push_back(PyLong_AsLong(PyList_GET_ITEM(items, i)));
+                } catch (const std::exception &) {
+                    SAFE_DECREF(items);
+                    throw;
                 }
-
-                *iter = PyLong_AsLong(item);
-                SAFE_DECREF(item);
                 if (PyErr_Occurred()) {
+                    SAFE_DECREF(items);
                     return -1;
                 }
-
-                ++iter;
             }
+            SAFE_DECREF(items);
+        }
 
-            for (Py_ssize_t i = sliceLength; i < newLength; i++) {
-                PyObject *item = PySequence_GetItem(value, i);
-                if (item == nullptr) {
-                    return -1;
-                }
+        // the list may have changed in the meantime
+        sliceLength = PySlice_AdjustIndices(static_cast<Py_ssize_t>(self->list.size()), &start, &stop, step);
 
-                self->list.insert(iter, PyLong_AsLong(item));
-                SAFE_DECREF(item);
-                if (PyErr_Occurred()) {
-                    return -1;
-                }
-            }
+        auto iter = at(self->list, static_cast<size_t>(start));
+        for (Py_ssize_t i = 0; i < sliceLength; i++) {
+            iter = self->list.erase(iter);
         }
+        self->list.splice(iter, values);
+        self->modCount++;
     } catch (const std::exception &e) {
         PyErr_SetString(PyExc_RuntimeError, e.what());
         return -1;
@@ -665,9 +691,9 @@ static PyObject *IntLinkedList_add(PyObject *pySelf, PyObject *pyValue) {
         // fast add -> IntLinkedList
         auto *value = reinterpret_cast<IntLinkedList *>(pyValue);
 
-        auto *result = Py_CreateObj<IntLinkedList>(IntLinkedListType, pySelf);
+        auto *result = reinterpret_cast<IntLinkedList *>(IntLinkedList_copy(pySelf));
         if (result == nullptr) {
-            return PyErr_NoMemory();
+            return nullptr;
         }
 
         try {
@@ -697,40 +723,12 @@ static PyObject *IntLinkedList_add(PyObject *pySelf, PyObject *pyValue) {
 }
 
 static PyObject *IntLinkedList_iadd(PyObject *pySelf, PyObject *iterable) {
-    auto *self = reinterpret_cast<IntLinkedList *>(pySelf);
-
-    // fast extend
-    if (Py_TYPE(iterable) == &IntLinkedListType) {
-        auto *iter = reinterpret_cast<IntLinkedList *>(iterable);
-        self->list.insert(self->list.end(), iter->list.begin(), iter->list.end());
-        Py_RETURN_NONE;
-    }
-
-    // python iterable extend
-    PyObject *iter = PyObject_GetIter(iterable);
-    if (iter == nullptr) {
-        return nullptr;
-    }
-
-    // do extend
-    PyObject *item;
-    while ((item = PyIter_Next(iter)) != nullptr) {
-        if (PyErr_Occurred()) {
-            SAFE_DECREF(iter);
-            SAFE_DECREF(item);
-            return nullptr;
-        }
-
-        self->list.push_back(PyLong_AsLong(item));
-        SAFE_DECREF(item);
-    }
-
-    if (PyErr_Occurred()) {
-        SAFE_DECREF(iter);
+    PyObject *result = IntLinkedList_extend(pySelf, &iterable, 1);
+    if (result == nullptr) {
         return nullptr;
     }
+    SAFE_DECREF(result);
 
-    SAFE_DECREF(iter);
     Py_INCREF(pySelf);
     return pySelf;
 }
@@ -745,7 +743,7 @@ static PyObject *IntLinkedList_mul(PyObject *pySelf, Py_ssize_t n) {
 
     auto *result = Py_CreateObj<IntLinkedList>(IntLinkedListType);
     if (result == nullptr) {
-        return PyErr_NoMemory();
+        return nullptr;
     }
 
     if (n == 0) {
@@ -790,12 +788,13 @@ static PyObject *IntLinkedList_imul(PyObject *pySelf, Py_ssize_t n) {
         if (n == 0) {
             self->list.clear();
         } else {
-            const auto begin = self->list.begin();
-            const auto end = self->list.end();
+            std::list<int> copies;
             for (Py_ssize_t i = 1; i < n; ++i) {
-                self->list.insert(self->list.end(), begin, end);
+                copies.insert(copies.end(), self->list.begin(), self->list.end());
             }
+            self->list.splice(self->list.end(), copies);
         }
+        self->modCount++;
 
         Py_INCREF(pySelf);
         return pySelf;
@@ -840,9 +839,7 @@ static PyObject *IntLinkedList_reversed(PyObject *pySelf) {
 static PyObject *IntLinkedList_reverse(PyObject *pySelf) {
     auto *self = reinterpret_cast<IntLinkedList *>(pySelf);
 
-    Py_BEGIN_ALLOW_THREADS
-        std::reverse(self->list.begin(), self->list.end());
-    Py_END_ALLOW_THREADS
+    std::reverse(self->list.begin(), self->list.end());
     Py_RETURN_NONE;
 }
 
@@ -850,6 +847,7 @@ static PyObject *IntLinkedList_clear(PyObject *pySelf) {
     auto *self = reinterpret_cast<IntLinkedList *>(pySelf);
 
     self->list.clear();
+    self->modCount++;
     Py_RETURN_NONE;
 }
 
@@ -860,23 +858,37 @@ static __forceinline PyObject *IntLinkedList_eq(PyObject *pySelf, PyObject *pyVa
         Py_RETURN_FALSE;
 
     Py_ssize_t seq_size = PySequence_Size(pyValue);
+    if (seq_size < 0) return nullptr;
     if (seq_size != static_cast<Py_ssize_t>(self->list.size()))
         Py_RETURN_FALSE;
 
     auto iter = self->list.begin();
+    auto modCount = self->modCount;
     for (Py_ssize_t i = 0; i < seq_size; i++, iter++) {
         PyObject *item = PySequence_GetItem(pyValue, i);
         if (item == nullptr)
             return nullptr;
 
-        int self_value = *iter;
-        int other_value = PyLong_AsLong(item);
-        if (PyErr_Occurred()) {  // can't be convert to int
+        if (!PyIndex_Check(item)) {  // can't be convert to int
             SAFE_DECREF(item);
             Py_RETURN_FALSE;
         }
 
+        PyObject *number = PyNumber_Index(item);
         SAFE_DECREF(item);
+        if (number == nullptr) return nullptr;
+        int overflow;
+        long other_value = PyLong_AsLongAndOverflow(number, &overflow);
+        SAFE_DECREF(number);
+        if (overflow != 0)
+            Py_RETURN_FALSE;
+        if (modCount != self->modCount) {  // changed by user code
+            if (static_cast<size_t>(i) >= self->list.size())
+                Py_RETURN_FALSE;
+            iter = at(self->list, static_cast<size_t>(i));
+            modCount = self->modCount;
+        }
+        int self_value = *iter;
         if (self_value != other_value)
             Py_RETURN_FALSE;
     }
@@ -886,7 +898,8 @@ static __forceinline PyObject *IntLinkedList_eq(PyObject *pySelf, PyObject *pyVa
 
 static __forceinline PyObject *IntLinkedList_ne(PyObject *pySelf, PyObject *pyValue) {
     PyObject *isEq = IntLinkedList_eq(pySelf, pyValue);
-    if (PyObject_IsTrue(isEq)) {
+    if (isEq == nullptr) return nullptr;
+    if (isEq == Py_True) {
         SAFE_DECREF(isEq);
         Py_RETURN_FALSE;
     } else {
@@ -907,24 +920,27 @@ static __forceinline PyObject *IntLinkedList_lt(PyObject *pySelf, PyObject *pyVa
         return nullptr;
     }
 
-    if (self->list.size() != static_cast<size_t>(seqSize)) {
-        Py_RETURN_BOOL(self->list.size() < static_cast<size_t>(seqSize))
-    }
-
     auto iter = self->list.begin();
-    for (Py_ssize_t i = 0; i < seqSize; i++, iter++) {
+    auto modCount = self->modCount;
+    for (Py_ssize_t i = 0; i < seqSize && static_cast<size_t>(i) < self->list.size(); i++, iter++) {
         PyObject *item = PySequence_GetItem(pyValue, i);
         if (item == nullptr) {
             return nullptr;
         }
 
-        int self_value = *iter;
-        int other_value = PyLong_AsLong(item);
+        long other_value = PyLong_AsLong(item);
         SAFE_DECREF(item);
+        if (other_value == -1 && PyErr_Occurred()) return nullptr;
+        if (modCount != self->modCount) {  // changed by user code
+            if (static_cast<size_t>(i) >= self->list.size()) break;
+            iter = at(self->list, static_cast<size_t>(i));
+            modCount = self->modCount;
+        }
+        int self_value = *iter;
         if (self_value != other_value) Py_RETURN_BOOL(self_value < other_value)
     }
 
-    Py_RETURN_FALSE;
+    Py_RETURN_BOOL(self->list.size() < static_cast<size_t>(seqSize))
 }
 
 static __forceinline PyObject *IntLinkedList_le(PyObject *pySelf, PyObject *pyValue) {
@@ -939,24 +955,27 @@ static __forceinline PyObject *IntLinkedList_le(PyObject *pySelf, PyObject *pyVa
         return nullptr;
     }
 
-    if (self->list.size() != static_cast<size_t>(seqSize)) {
-        Py_RETURN_BOOL(self->list.size() < static_cast<size_t>(seqSize))
-    }
-
     auto iter = self->list.begin();
-    for (Py_ssize_t i = 0; i < seqSize; i++, iter++) {
+    auto modCount = self->modCount;
+    for (Py_ssize_t i = 0; i < seqSize && static_cast<size_t>(i) < self->list.size(); i++, iter++) {
         PyObject *item = PySequence_GetItem(pyValue, i);
         if (item == nullptr) {
             return nullptr;
         }
 
-        int self_value = *iter;
-        int other_value = PyLong_AsLong(item);
+        long other_value = PyLong_AsLong(item);
         SAFE_DECREF(item);
+        if (other_value == -1 && PyErr_Occurred()) return nullptr;
+        if (modCount != self->modCount) {  // changed by user code
+            if (static_cast<size_t>(i) >= self->list.size()) break;
+            iter = at(self->list, static_cast<size_t>(i));
+            modCount = self->modCount;
+        }
+        int self_value = *iter;
         if (self_value != other_value) Py_RETURN_BOOL(self_value <= other_value)
     }
 
-    Py_RETURN_FALSE;
+    Py_RETURN_BOOL(self->list.size() <= static_cast<size_t>(seqSize))
 }
 
 static __forceinline PyObject *IntLinkedList_gt(PyObject *pySelf, PyObject *pyValue) {
@@ -971,24 +990,27 @@ static __forceinline PyObject *IntLinkedList_gt(PyObject *pySelf, PyObject *pyVa
         return nullptr;
     }
 
-    if (self->list.size() != static_cast<size_t>(seqSize)) {
-        Py_RETURN_BOOL(self->list.size() < static_cast<size_t>(seqSize))
-    }
-
     auto iter = self->list.begin();
-    for (Py_ssize_t i = 0; i < seqSize; i++, iter++) {
+    auto modCount = self->modCount;
+    for (Py_ssize_t i = 0; i < seqSize && static_cast<size_t>(i) < self->list.size(); i++, iter++) {
         PyObject *item = PySequence_GetItem(pyValue, i);
         if (item == nullptr) {
             return nullptr;
         }
 
-        int self_value = *iter;
-        int other_value = PyLong_AsLong(item);
+        long other_value = PyLong_AsLong(item);
         SAFE_DECREF(item);
+        if (other_value == -1 && PyErr_Occurred()) return nullptr;
+        if (modCount != self->modCount) {  // changed by user code
+            if (static_cast<size_t>(i) >= self->list.size()) break;
+            iter = at(self->list, static_cast<size_t>(i));
+            modCount = self->modCount;
+        }
+        int self_value = *iter;
         if (self_value != other_value) Py_RETURN_BOOL(self_value > other_value)
     }
 
-    Py_RETURN_FALSE;
+    Py_RETURN_BOOL(self->list.size() > static_cast<size_t>(seqSize))
 }
 
 static __forceinline PyObject *IntLinkedList_ge(PyObject *pySelf, PyObject *pyValue) {
@@ -1003,24 +1025,27 @@ static __forceinline PyObject *IntLinkedList_ge(PyObject *pySelf, PyObject *pyVa
         return nullptr;
     }
 
-    if (self->list.size() != static_cast<size_t>(seqSize)) {
-        Py_RETURN_BOOL(self->list.size() < static_cast<size_t>(seqSize))
-    }
-
     auto iter = self->list.begin();
-    for (Py_ssize_t i = 0; i < seqSize; i++, iter++) {
+    auto modCount = self->modCount;
+    for (Py_ssize_t i = 0; i < seqSize && static_cast<size_t>(i) < self->list.size(); i++, iter++) {
         PyObject *item = PySequence_GetItem(pyValue, i);
         if (item == nullptr) {
             return nullptr;
         }
 
-        int self_value = *iter;
-        int other_value = PyLong_AsLong(item);
+        long other_value = PyLong_AsLong(item);
         SAFE_DECREF(item);
+        if (other_value == -1 && PyErr_Occurred()) return nullptr;
+        if (modCount != self->modCount) {  // changed by user code
+            if (static_cast<size_t>(i) >= self->list.size()) break;
+            iter = at(self->list, static_cast<size_t>(i));
+            modCount = self->modCount;
+        }
+        int self_value = *iter;
         if (self_value != other_value) Py_RETURN_BOOL(self_value >= other_value)
     }
 
-    Py_RETURN_FALSE;
+    Py_RETURN_BOOL(self->list.size() >= static_cast<size_t>(seqSize))
 }
 
 static PyObject *IntLinkedList_compare(PyObject *pySelf, PyObject *pyValue, int op) {
@@ -1144,7 +1169,7 @@ void initializeIntLinkedListType(PyTypeObject &type) {
     type.tp_iter = IntLinkedList_iter;
     type.tp_methods = IntLinkedList_methods;
     type.tp_init = (initproc) IntLinkedList_init;
-    type.tp_new = PyType_GenericNew;
+    type.tp_new = IntLinkedList_new;
     type.tp_dealloc = (destructor) IntLinkedList_dealloc;
     type.tp_alloc = PyType_GenericAlloc;
     type.tp_free = PyObject_Del;
diff --git a/pyfastutil/src/ints/IntLinkedListIter.cpp b/pyfastutil/src/ints/IntLinkedListIter.cpp
index a573b02..3f1f193 100644
--- a/pyfastutil/src/ints/IntLinkedListIter.cpp
+++ b/pyfastutil/src/ints/IntLinkedListIter.cpp
@@ -19,13 +19,13 @@ IntLinkedListIter *IntLinkedListIter_create(IntLinkedList *list, bool reversed)
     Py_INCREF(list);
     instance->container = list;
     if (reversed) {
-        instance->index = (!list->list.empty()) ? list->list.size() - 1 : 0;
+        instance->index = list->list.size() - 1;  // SIZE_MAX if empty
         instance->reversed = true;
-        instance->cacheIter = --list->list.end();
+        new(&instance->cacheIter) std::list<int>::iterator(at(list->list, instance->index));
     } else {
         instance->index = 0;
         instance->reversed = false;
-        instance->cacheIter = list->list.begin();
+        new(&instance->cacheIter) std::list<int>::iterator(list->list.begin());
     }
     instance->cacheModCount = list->modCount;
 
@@ -43,11 +43,6 @@ static __forceinline void updateCache(IntLinkedListIter *&self) {
     }
 
     auto newIter = at(self->container->list, self->index);
-    if (self->reversed) {
-        self->index--;
-    } else {
-        self->index++;
-    }
     self->cacheIter = newIter;
     self->cacheModCount = self->container->modCount;
 }
@@ -55,41 +50,27 @@ static __forceinline void updateCache(IntLinkedListIter *&self) {
 static PyObject *IntLinkedListIter_next(PyObject *pySelf) {
     auto *self = reinterpret_cast<IntLinkedListIter *>(pySelf);
 
-    if (self->container->list.empty()) {
+    // SIZE_MAX is never a valid index: the iterator is finished for good
+    if (self->index >= self->container->list.size()) {
+        self->index = SIZE_MAX;
         PyErr_SetNone(PyExc_StopIteration);
         return nullptr;
     }
 
+    updateCache(self);
+    PyObject *element = PyFast_FromInt(*self->cacheIter);
+    if (element == nullptr) return nullptr;
+
     if (self->reversed) {
-        if (self->index == 0) {
-            // last iteration
-            int element = *(--self->container->list.end());
-            self->index = SIZE_MAX;
-            return PyFast_FromInt(element);
-        }
-        if (self->index == SIZE_MAX) {
-            // already finish iteration
-            PyErr_SetNone(PyExc_StopIteration);
-            return nullptr;
+        if (self->index != 0) {
+            self->cacheIter--;
         }
-
-        updateCache(self);
-        int element = *self->cacheIter;
         self->index--;
-        self->cacheIter--;
-        return PyFast_FromInt(element);
     } else {
-        if (self->index >= self->container->list.size()) {
-            PyErr_SetNone(PyExc_StopIteration);
-            return nullptr;
-        }
-
-        updateCache(self);
-        int element = *self->cacheIter;
         self->index++;
         self->cacheIter++;
-        return PyFast_FromInt(element);
     }
+    return element;
 }
 
 static PyObject *IntLinkedListIter_iter(PyObject *pySelf) {
-- 
2.43.0


From ee6e5c6ecafe1362dbeae8e91aee5841a35ca749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:10 +0000
Subject: [PATCH 12/24] fix: account for every reference in object lists,
 compare items as list does, survive errors and re-entry

---
 pyfastutil/src/objects/ObjectArrayList.cpp    | 663 +++++++++---------
 .../src/objects/ObjectArrayListIter.cpp       |  33 +-
 pyfastutil/src/objects/ObjectLinkedList.cpp   | 612 ++++++++--------
 .../src/objects/ObjectLinkedListIter.cpp      |  47 +-
 4 files changed, 692 insertions(+), 663 deletions(-)

diff --git a/pyfastutil/src/objects/ObjectArrayList.cpp b/pyfastutil/src/objects/ObjectArrayList.cpp
index 2437db3..c73d95f 100644
--- a/pyfastutil/src/objects/ObjectArrayList.cpp
+++ b/pyfastutil/src/objects/ObjectArrayList.cpp
@@ -20,83 +20,107 @@ static PyTypeObject ObjectArrayListType = {
         PyVarObject_HEAD_INIT(&PyType_Type, 0)
 };
 
-__forceinline void parseArgs(PyObject *&args, PyObject *&kwargs, PyObject *&pyIterable, Py_ssize_t &pySize) {
+// only for items that are no longer in a list: their finalizers may run any code
+static void releaseItems(const std::vector<PyObject *> &items) {
+    for (PyObject *item: items) {
+        Py_DECREF(item);
+    }
+}
+
+static __forceinline bool parseArgs(PyObject *&args, PyObject *&kwargs, PyObject *&pyIterable, Py_ssize_t &pySize) {
     static constexpr const char *kwlist[] = {"iterable", "exceptSize", nullptr};
 
     PyObject *arg1 = nullptr;
 
     // parse args
     if (!PyArg_ParseTupleAndKeywords(args, kwargs, "|On", const_cast<char **>(kwlist), &arg1, &pySize)) {
-        return;
+        return false;
     }
 
-    if (arg1 == nullptr) return;
+    if (arg1 == nullptr) return true;
 
     if (PyLong_Check(arg1)) {
         pySize = PyLong_AsSsize_t(arg1);
+        if (pySize == -1 && PyErr_Occurred()) {
+            return false;
+        }
     } else {
         pyIterable = arg1;
     }
+    return true;
 }
 
-static int ObjectArrayList_init(ObjectArrayList *self, PyObject *args, PyObject *kwargs) {
+static PyObject *ObjectArrayList_new(PyTypeObject *type, [[maybe_unused]] PyObject *args,
+                                     [[maybe_unused]] PyObject *kwargs) {
+    auto *self = reinterpret_cast<ObjectArrayList *>(type->tp_alloc(type, 0));
+    if (self == nullptr) return nullptr;
+
     new(&self->vector) std::vector<PyObject *>();
+    return reinterpret_cast<PyObject *>(self);
+}
+
+static int ObjectArrayList_init(ObjectArrayList *self, PyObject *args, PyObject *kwargs) {
+    // filled aside: user code may run below, and __init__ may be called again on a live list
+    std::vector<PyObject *> vector;
 
     PyObject *pyIterable = nullptr;
     Py_ssize_t pySize = -1;
 
-    parseArgs(args, kwargs, pyIterable, pySize);
+    if (!parseArgs(args, kwargs, pyIterable, pySize)) return -1;
 
     // init vector
     try {
         if (pySize > 0) {
-            self->vector.reserve(static_cast<size_t>(pySize));
+            vector.reserve(static_cast<size_t>(pySize));
         }
 
         if (pyIterable != nullptr) {
             if (Py_TYPE(pyIterable) == &ObjectArrayListType) {  // ObjectArrayList is a final class
                 auto *iter = reinterpret_cast<ObjectArrayList *>(pyIterable);
-                self->vector = iter->vector;
-                return 0;
-            }
-
-            if (PyList_Check(pyIterable) || PyTuple_Check(pyIterable)) {  // fast operation
-                auto fastIter = PySequence_Fast(pyIterable, "Shouldn't be happen (ObjectArrayList).");
-                if (fastIter == nullptr) {
-                    return -1;
+                vector = iter->vector;
+                for (const auto &item: vector) {
+                    Py_INCREF(item);
                 }
+            } else if (PyList_Check(pyIterable) || PyTuple_Check(pyIterable)) {  // fast operation
+                const auto size = PySequence_Fast_GET_SIZE(pyIterable);
+                auto items = PySequence_Fast_ITEMS(pyIterable);
 
-                const auto size = PySequence_Fast_GET_SIZE(fastIter);
-                auto items = PySequence_Fast_ITEMS(fastIter);
+                vector.insert(vector.end(), items, items + size);  // even faster than memcpy!!
 
                 for (Py_ssize_t i = 0; i < size; ++i) {
                     Py_INCREF(items[i]);
                 }
+            } else {
+                PyObject *iter = PyObject_GetIter(pyIterable);
+                if (iter == nullptr) {
+                    return -1;
+                }
 
-                self->vector.insert(self->vector.end(), items, items + size);  // even faster than memcpy!!
-
-                SAFE_DECREF(fastIter);
-                return 0;
-            }
-
-            PyObject *iter = PyObject_GetIter(pyIterable);
-            if (iter == nullptr) {
-                PyErr_SetString(PyExc_TypeError, "Arg '__iterable' is not iterable.");
-                return -1;
-            }
-
-            PyObject *item;
-            while ((item = PyIter_Next(iter)) != nullptr) {
-                self->vector.push_back(item);
+                PyObject *item;
+                while ((item = PyIter_Next(iter)) != nullptr) {
+                    try {
+                        vector.push_back(item);
+                    } catch (const std::exception &) {
+                        SAFE_DECREF(item);
+                        SAFE_DECREF(iter);
+                        throw;
+                    }
+                }
+                SAFE_DECREF(iter);
+                if (PyErr_Occurred()) {
+                    releaseItems(vector);
+                    return -1;
+                }
             }
-            SAFE_DECREF(iter);
-            if (PyErr_Occurred()) return -1;
         }
     } catch (const std::exception &e) {
+        releaseItems(vector);
         PyErr_SetString(PyExc_RuntimeError, e.what());
         return -1;
     }
 
+    self->vector.swap(vector);
+    releaseItems(vector);
     return 0;
 }
 
@@ -118,22 +142,24 @@ static PyObject *ObjectArrayList_resize(PyObject *pySelf, PyObject *pySize) {
 
     Py_ssize_t pySSize = PyLong_AsSsize_t(pySize);
     if (pySSize < 0) {
+        if (PyErr_Occurred()) return nullptr;
         PyErr_SetString(PyExc_ValueError, "Invalid size.");
         return nullptr;
     }
 
     try {
         const auto newSize = static_cast<size_t>(pySSize);
-        self->vector.resize(newSize, Py_None);
-        // No need to call Py_INCREF on Py_None or other constant objects
-        // because, the reference count operations on global singleton objects
-        // like None, True, and False have been optimized to be no-ops.
-//        if (newSize > size) {
-//            const auto addedNone = newSize - size;
-//            for (size_t i = 0; i < addedNone; ++i) {
-//                Py_INCREF(Py_None);
-//            }
-//        }
+        const auto size = self->vector.size();
+        if (newSize < size) {
+            const std::vector<PyObject *> removed(self->vector.begin() + pySSize, self->vector.end());
+            self->vector.resize(newSize);
+            releaseItems(removed);
+        } else {
+            self->vector.resize(newSize, Py_None);
+            for (size_t i = size; i < newSize; ++i) {
+                Py_INCREF(Py_None);
+            }
+        }
     } catch (const std::exception &e) {
         PyErr_SetString(PyExc_RuntimeError, e.what());
         return nullptr;
@@ -171,7 +197,7 @@ static PyObject *ObjectArrayList_copy(PyObject *pySelf) {
             Py_INCREF(item);
         }
     } catch (const std::exception &e) {
-        PyObject_Del(copy);
+        SAFE_DECREF(copy);
         PyErr_SetString(PyExc_RuntimeError, e.what());
         return nullptr;
     }
@@ -210,11 +236,20 @@ static PyObject *ObjectArrayList_extend(PyObject *pySelf, PyObject *const *args,
     PyObject *iterable = args[0];
 
     // fast extend
-    if (Py_TYPE(iterable) == &ObjectArrayListType) {
+    if (Py_TYPE(iterable) == &ObjectArrayListType || iterable == pySelf) {
         auto *iter = reinterpret_cast<ObjectArrayList *>(iterable);
-        self->vector.insert(self->vector.end(), iter->vector.begin(), iter->vector.end());
-        for (const auto &item: iter->vector) {
-            Py_INCREF(item);
+        try {
+            // iter may be self
+            const auto count = iter->vector.size();
+            self->vector.reserve(self->vector.size() + count);
+            for (size_t i = 0; i < count; ++i) {
+                PyObject *item = iter->vector[i];
+                self->vector.push_back(item);
+                Py_INCREF(item);
+            }
+        } catch (const std::exception &e) {
+            PyErr_SetString(PyExc_RuntimeError, e.what());
+            return nullptr;
         }
         Py_RETURN_NONE;
     }
@@ -222,7 +257,12 @@ static PyObject *ObjectArrayList_extend(PyObject *pySelf, PyObject *const *args,
     if (Py_TYPE(iterable) == &PyList_Type) {
         const auto *iter = reinterpret_cast<PyListObject *>(iterable);
         const auto last = iter->ob_item + PyList_GET_SIZE(iter);
-        self->vector.insert(self->vector.end(), iter->ob_item, last);
+        try {
+            self->vector.insert(self->vector.end(), iter->ob_item, last);
+        } catch (const std::exception &e) {
+            PyErr_SetString(PyExc_RuntimeError, e.what());
+            return nullptr;
+        }
         for (PyObject **item = iter->ob_item; item < last; ++item) {
             Py_INCREF(*item);
         }
@@ -237,19 +277,26 @@ static PyObject *ObjectArrayList_extend(PyObject *pySelf, PyObject *const *args,
 
     // pre alloc
     Py_ssize_t hint = PyObject_LengthHint(iterable, 0);
-    if (hint > 0) {
-        self->vector.reserve(self->vector.size() + hint);
+    if (hint < 0) {
+        SAFE_DECREF(iter);
+        return nullptr;
     }
 
-    // do extend
-    PyObject *item;
-    while ((item = PyIter_Next(iter)) != nullptr) {
-        if (PyErr_Occurred()) {
-            SAFE_DECREF(iter);
-            return nullptr;
+    PyObject *item = nullptr;
+    try {
+        if (hint > 0) {
+            self->vector.reserve(self->vector.size() + hint);
         }
 
-        self->vector.push_back(item);
+        // do extend
+        while ((item = PyIter_Next(iter)) != nullptr) {
+            self->vector.push_back(item);
+        }
+    } catch (const std::exception &e) {
+        Py_XDECREF(item);
+        SAFE_DECREF(iter);
+        PyErr_SetString(PyExc_RuntimeError, e.what());
+        return nullptr;
     }
 
     if (PyErr_Occurred()) {
@@ -265,20 +312,23 @@ static PyObject *ObjectArrayList_extend(PyObject *pySelf, PyObject *const *args,
 static PyObject *ObjectArrayList_pop(PyObject *pySelf, PyObject *const *args, const Py_ssize_t nargs) {
     auto *self = reinterpret_cast<ObjectArrayList *>(pySelf);
 
-    if (self->vector.empty()) {
+    Py_ssize_t index = -1;
+    if (nargs == 1) {
+        // may run user code: look at the list only afterwards
+        index = PyNumber_AsSsize_t(args[0], PyExc_IndexError);
+        if (index == -1 && PyErr_Occurred()) {
+            return nullptr;
+        }
+    }
+
+    if (nargs <= 1 && self->vector.empty()) {
         PyErr_SetString(PyExc_IndexError, "pop from empty list");
         return nullptr;
     }
 
     const auto vecSize = static_cast<Py_ssize_t>(self->vector.size());
-    Py_ssize_t index = vecSize - 1;
 
     if (nargs == 1) {
-        index = PyLong_AsSsize_t(args[0]);
-        if (index == -1 && PyErr_Occurred()) {
-            return nullptr;
-        }
-
         if (index < 0) {
             index += vecSize;
         }
@@ -291,7 +341,7 @@ static PyObject *ObjectArrayList_pop(PyObject *pySelf, PyObject *const *args, co
         PyErr_SetString(PyExc_TypeError, "pop() takes at most 1 argument");
         return nullptr;
     } else {
-        const auto popped = self->vector[static_cast<size_t>(index)];
+        const auto popped = self->vector.back();
         self->vector.pop_back();
 
         return popped;
@@ -303,12 +353,26 @@ static PyObject *ObjectArrayList_pop(PyObject *pySelf, PyObject *const *args, co
     return popped;
 }
 
+// @return index of the first equal item, -1 if there is none, -2 if a comparison failed
+static Py_ssize_t findItem(ObjectArrayList *self, PyObject *value, Py_ssize_t start, Py_ssize_t stop) {
+    // comparisons may run user code, which may change the list
+    for (Py_ssize_t i = start; i < stop && static_cast<size_t>(i) < self->vector.size(); ++i) {
+        PyObject *item = self->vector[static_cast<size_t>(i)];
+        Py_INCREF(item);
+        int cmpResult = PyObject_RichCompareBool(item, value, Py_EQ);
+        SAFE_DECREF(item);
+        if (cmpResult < 0) return -2;
+        if (cmpResult > 0) return i;
+    }
+    return -1;
+}
+
 static PyObject *ObjectArrayList_index(PyObject *pySelf, PyObject *args) {
     auto *self = reinterpret_cast<ObjectArrayList *>(pySelf);
 
     PyObject *value;
     Py_ssize_t start = 0;
-    auto stop = static_cast<Py_ssize_t>(self->vector.size());
+    Py_ssize_t stop = PY_SSIZE_T_MAX;
 
     if (!PyArg_ParseTuple(args, "O|nn", &value, &start, &stop)) {
         return nullptr;
@@ -333,28 +397,31 @@ static PyObject *ObjectArrayList_index(PyObject *pySelf, PyObject *args) {
         return nullptr;
     }
 
-    auto it = std::find(self->vector.begin() + start, self->vector.begin() + stop, value);
+    Py_ssize_t index = findItem(self, value, start, stop);
 
-    if (it == self->vector.begin() + stop) {
-        PyErr_SetString(PyExc_ValueError, "Value is not in list.");
+    if (index < 0) {
+        if (index == -1) PyErr_SetString(PyExc_ValueError, "Value is not in list.");
         return nullptr;
     }
 
-    Py_ssize_t index = std::distance(self->vector.begin(), it);
     return PyLong_FromSsize_t(index);
 }
 
 static PyObject *ObjectArrayList_count(PyObject *pySelf, PyObject *object) {
     auto *self = reinterpret_cast<ObjectArrayList *>(pySelf);
 
-    try {
-        size_t result = std::count(self->vector.begin(), self->vector.end(), object);
-
-        return PyLong_FromSize_t(result);
-    } catch (const std::exception &e) {
-        PyErr_SetString(PyExc_RuntimeError, e.what());
-        return nullptr;
+    size_t result = 0;
+    // comparisons may run user code, which may change the list
+    for (size_t i = 0; i < self->vector.size(); ++i) {
+        PyObject *item = self->vector[i];
+        Py_INCREF(item);
+        int cmpResult = PyObject_RichCompareBool(item, object, Py_EQ);
+        SAFE_DECREF(item);
+        if (cmpResult < 0) return nullptr;
+        if (cmpResult > 0) ++result;
     }
+
+    return PyLong_FromSize_t(result);
 }
 
 static PyObject *ObjectArrayList_insert(PyObject *pySelf, PyObject *args) {
@@ -390,25 +457,18 @@ static PyObject *ObjectArrayList_insert(PyObject *pySelf, PyObject *args) {
 static PyObject *ObjectArrayList_remove(PyObject *pySelf, PyObject *object) {
     auto *self = reinterpret_cast<ObjectArrayList *>(pySelf);
 
-    PyObject *value = object;
-    if (PyErr_Occurred()) {
+    const Py_ssize_t index = findItem(self, object, 0, PY_SSIZE_T_MAX);
+    if (index < 0) {
+        if (index == -1) PyErr_SetString(PyExc_ValueError, "Value is not in list.");
         return nullptr;
     }
 
-    try {
-        const auto end = self->vector.end();
-        const auto it = std::find(self->vector.begin(), end, value);
-
-        if (it != end) {
-            self->vector.erase(it);
-            SAFE_DECREF(value);
-        } else {
-            PyErr_SetString(PyExc_ValueError, "Value is not in list.");
-            return nullptr;
-        }
-    } catch (const std::exception &e) {
-        PyErr_SetString(PyExc_RuntimeError, e.what());
-        return nullptr;
+    // may have changed in the last comparison
+    if (static_cast<size_t>(index) < self->vector.size()) {
+        const auto it = self->vector.begin() + index;
+        PyObject *value = *it;
+        self->vector.erase(it);
+        SAFE_DECREF(value);
     }
 
     Py_RETURN_NONE;
@@ -426,9 +486,32 @@ static PyObject *ObjectArrayList_sort(PyObject *pySelf, PyObject *args, PyObject
     }
 
     // do sort
-    return CPython_sort(self->vector.data(),
-                        static_cast<Py_ssize_t>(self->vector.size()),
-                        keyFunc == Py_None ? nullptr : keyFunc, reverseInt);
+    // on a private copy: comparisons may run user code, which may use the list
+    try {
+        const auto before = self->vector;
+        auto sorted = before;
+        for (PyObject *item: before) {
+            Py_INCREF(item);
+        }
+
+        PyObject *result = CPython_sort(sorted.data(),
+                                        static_cast<Py_ssize_t>(sorted.size()),
+                                        keyFunc == Py_None ? nullptr : keyFunc, reverseInt != 0);
+        if (result != nullptr) {
+            if (self->vector == before) {
+                std::copy(sorted.begin(), sorted.end(), self->vector.begin());
+            } else {
+                SAFE_DECREF(result);
+                PyErr_SetString(PyExc_ValueError, "list modified during sort");
+            }
+        }
+
+        releaseItems(before);
+        return result;
+    } catch (const std::exception &e) {
+        PyErr_SetString(PyExc_RuntimeError, e.what());
+        return nullptr;
+    }
 }
 
 static Py_ssize_t ObjectArrayList_len(PyObject *pySelf) {
@@ -512,16 +595,19 @@ static int ObjectArrayList_setitem(PyObject *pySelf, Py_ssize_t pyIndex, PyObjec
 
     try {
         if (pyValue == nullptr) {
-            SAFE_DECREF(self->vector[static_cast<size_t>(pyIndex)]);
+            PyObject *removed = self->vector[static_cast<size_t>(pyIndex)];
             self->vector.erase(self->vector.begin() + pyIndex);
+            SAFE_DECREF(removed);
         } else {
             PyObject *value = pyValue;
             if (PyErr_Occurred()) {
                 return -1;
             }
 
-            self->vector[static_cast<size_t>(pyIndex)] = value;
+            PyObject *replaced = self->vector[static_cast<size_t>(pyIndex)];
             Py_INCREF(value);
+            self->vector[static_cast<size_t>(pyIndex)] = value;
+            SAFE_DECREF(replaced);
         }
     } catch (const std::exception &e) {
         PyErr_SetString(PyExc_RuntimeError, e.what());
@@ -546,108 +632,43 @@ static int ObjectArrayList_setitem_slice(PyObject *pySelf, PyObject *slice, PyOb
         return -1;
     }
 
-    sliceLength = PySlice_AdjustIndices(static_cast<Py_ssize_t>(self->vector.size()), &start, &stop, step);
-
-    if (!PySequence_Check(value)) {
-        PyErr_SetString(PyExc_TypeError, "can only assign an iterable");
-        return -1;
-    }
-
-    Py_ssize_t newLength = PySequence_Size(value);
-
     if (step != 1) {
         PyErr_SetString(PyExc_NotImplementedError, "step must be 1 for slice assignment");
         return -1;
     }
 
-    try {
-        PyObject **startPtr = self->vector.data() + start;
+    // collect every new element before touching the list: this may run user code
+    PyObject *items = nullptr;
+    if (value != nullptr) {
+        items = PySequence_List(value);
+        if (items == nullptr) {
+            return -1;
+        }
+    }
+    const Py_ssize_t newLength = items == nullptr ? 0 : PyList_GET_SIZE(items);
+    PyObject **newItems = items == nullptr ? nullptr : PySequence_Fast_ITEMS(items);
 
-        // Helper function to handle fast memcpy and reference counting
-        static const auto fastCopy = [](PyObject **dest, PyObject **src, Py_ssize_t length) {
-            for (Py_ssize_t i = 0; i < length; i++) {
-                SAFE_DECREF(dest[i]);  // Decrease reference for old item
-                Py_INCREF(src[i]);    // Increase reference for new item
-            }
-            fast_memcpy(dest, src, length * sizeof(PyObject *));
-        };
-
-        // Helper function to handle generic copy (non-optimized path)
-        static const auto genericCopy = [](PyObject **dest, PyObject *srcSeq, Py_ssize_t length) {
-            for (Py_ssize_t i = 0; i < length; i++) {
-                PyObject *item = PySequence_GetItem(srcSeq, i);
-                if (item == nullptr) {
-                    return -1;  // Exception already set
-                }
-                SAFE_DECREF(dest[i]);
-                dest[i] = item;
-            }
-            return 0;
-        };
-
-        if (newLength == sliceLength) {  // Case 1: Replace elements
-            if (Py_TYPE(value) == &ObjectArrayListType) {
-                auto *fastValue = reinterpret_cast<ObjectArrayList *>(value);
-                fastCopy(startPtr, fastValue->vector.data(), sliceLength);
-            } else if (Py_TYPE(value) == &PyList_Type) {
-                auto *fastValue = reinterpret_cast<PyListObject *>(value);
-                fastCopy(startPtr, fastValue->ob_item, sliceLength);
-            } else {
-                if (genericCopy(startPtr, value, sliceLength) < 0) {
-                    return -1;
-                }
-            }
-        } else if (newLength < sliceLength) {  // Case 2: Replace and remove extra elements
-            if (Py_TYPE(value) == &ObjectArrayListType) {
-                auto *fastValue = reinterpret_cast<ObjectArrayList *>(value);
-                fastCopy(startPtr, fastValue->vector.data(), newLength);
-            } else if (Py_TYPE(value) == &PyList_Type) {
-                auto *fastValue = reinterpret_cast<PyListObject *>(value);
-                fastCopy(startPtr, fastValue->ob_item, newLength);
-            } else {
-                if (genericCopy(startPtr, value, newLength) < 0) {
-                    return -1;
-                }
-            }
+    // the list may have changed in the meantime
+    sliceLength = PySlice_AdjustIndices(static_cast<Py_ssize_t>(self->vector.size()), &start, &stop, step);
+    stop = start + sliceLength;
 
-            // Remove extra elements
-            for (Py_ssize_t i = newLength; i < sliceLength; i++) {
-                SAFE_DECREF(startPtr[i]);
-            }
+    try {
+        const std::vector<PyObject *> removed(self->vector.begin() + start, self->vector.begin() + stop);
+
+        if (newLength > sliceLength) {  // Case 1: insert additional elements
+            self->vector.insert(self->vector.begin() + stop, newItems + sliceLength, newItems + newLength);
+        } else {  // Case 2: remove extra elements
             self->vector.erase(self->vector.begin() + start + newLength, self->vector.begin() + stop);
-        } else {  // Case 3: Replace and insert additional elements
-            if (Py_TYPE(value) == &ObjectArrayListType) {
-                auto *fastValue = reinterpret_cast<ObjectArrayList *>(value);
-                fastCopy(startPtr, fastValue->vector.data(), sliceLength);
-                self->vector.insert(
-                        self->vector.begin() + start + sliceLength,
-                        fastValue->vector.data() + sliceLength,
-                        fastValue->vector.data() + newLength
-                );
-            } else if (Py_TYPE(value) == &PyList_Type) {
-                auto *fastValue = reinterpret_cast<PyListObject *>(value);
-                fastCopy(startPtr, fastValue->ob_item, sliceLength);
-                self->vector.insert(
-                        self->vector.begin() + start + sliceLength,
-                        fastValue->ob_item + sliceLength,
-                        fastValue->ob_item + newLength
-                );
-            } else {
-                if (genericCopy(startPtr, value, sliceLength) < 0) {
-                    return -1;
-                }
+        }
+        std::copy_n(newItems, std::min(newLength, sliceLength), self->vector.begin() + start);
 
-                // Insert additional elements
-                for (Py_ssize_t i = sliceLength; i < newLength; i++) {
-                    PyObject *item = PySequence_GetItem(value, i);
-                    if (item == nullptr) {
-                        return -1;
-                    }
-                    self->vector.insert(self->vector.begin() + start + i, item);
-                }
-            }
+        for (Py_ssize_t i = 0; i < newLength; i++) {
+            Py_INCREF(newItems[i]);
         }
+        Py_XDECREF(items);
+        releaseItems(removed);
     } catch (const std::exception &e) {
+        Py_XDECREF(items);
         PyErr_SetString(PyExc_RuntimeError, e.what());
         return -1;
     }
@@ -660,16 +681,16 @@ static PyObject *ObjectArrayList_add(PyObject *pySelf, PyObject *pyValue) {
         // fast add -> ObjectArrayList
         auto *value = reinterpret_cast<ObjectArrayList *>(pyValue);
 
-        auto *result = Py_CreateObj<ObjectArrayList>(ObjectArrayListType, pySelf);
+        auto *result = reinterpret_cast<ObjectArrayList *>(ObjectArrayList_copy(pySelf));
         if (result == nullptr) {
-            return PyErr_NoMemory();
+            return nullptr;
         }
 
         try {
+            result->vector.insert(result->vector.end(), value->vector.begin(), value->vector.end());
             for (const auto &item: value->vector) {
                 Py_INCREF(item);
             }
-            result->vector.insert(result->vector.end(), value->vector.begin(), value->vector.end());
             return reinterpret_cast<PyObject *>(result);
         } catch (const std::exception &e) {
             SAFE_DECREF(result);
@@ -695,49 +716,12 @@ static PyObject *ObjectArrayList_add(PyObject *pySelf, PyObject *pyValue) {
 }
 
 static PyObject *ObjectArrayList_iadd(PyObject *pySelf, PyObject *iterable) {
-    auto *self = reinterpret_cast<ObjectArrayList *>(pySelf);
-
-    // fast extend
-    if (Py_TYPE(iterable) == &ObjectArrayListType) {
-        auto *iter = reinterpret_cast<ObjectArrayList *>(iterable);
-        for (const auto &item: iter->vector) {
-            Py_INCREF(item);
-        }
-        self->vector.insert(self->vector.end(), iter->vector.begin(), iter->vector.end());
-        Py_RETURN_NONE;
-    }
-
-    // python iterable extend
-    PyObject *iter = PyObject_GetIter(iterable);
-    if (iter == nullptr) {
-        return nullptr;
-    }
-
-    // pre alloc
-    Py_ssize_t hint = PyObject_LengthHint(iterable, 0);
-    if (hint > 0) {
-        self->vector.reserve(self->vector.size() + hint);
-    }
-
-    // do extend
-    PyObject *item;
-    while ((item = PyIter_Next(iter)) != nullptr) {
-        PyObject *value = item;
-
-        if (PyErr_Occurred()) {
-            SAFE_DECREF(iter);
-            return nullptr;
-        }
-
-        self->vector.push_back(value);
-    }
-
-    if (PyErr_Occurred()) {
-        SAFE_DECREF(iter);
+    PyObject *result = ObjectArrayList_extend(pySelf, &iterable, 1);
+    if (result == nullptr) {
         return nullptr;
     }
+    SAFE_DECREF(result);
 
-    SAFE_DECREF(iter);
     Py_INCREF(pySelf);
     return pySelf;
 }
@@ -761,6 +745,10 @@ static PyObject *ObjectArrayList_mul(PyObject *pySelf, Py_ssize_t n) {
 
     try {
         const auto selfSize = self->vector.size();
+        if (selfSize > static_cast<size_t>(PY_SSIZE_T_MAX / n)) {
+            SAFE_DECREF(result);
+            return PyErr_NoMemory();
+        }
 
         result->vector.reserve(selfSize * n);
         for (Py_ssize_t i = 0; i < n; ++i) {
@@ -801,13 +789,18 @@ static PyObject *ObjectArrayList_imul(PyObject *pySelf, Py_ssize_t n) {
 
     try {
         if (n == 0) {
-            self->vector.clear();
+            std::vector<PyObject *> removed;
+            self->vector.swap(removed);
+            releaseItems(removed);
         } else {
             const auto selfSize = self->vector.size();
+            if (selfSize > static_cast<size_t>(PY_SSIZE_T_MAX / n)) {
+                return PyErr_NoMemory();
+            }
 
             self->vector.reserve(selfSize * n);
             for (Py_ssize_t i = 1; i < n; ++i) {
-                for (size_t j = 0; j < self->vector.size(); ++j) {
+                for (size_t j = 0; j < selfSize; ++j) {
                     self->vector.push_back(self->vector[j]);
                     Py_INCREF(self->vector[j]);
                 }
@@ -823,27 +816,14 @@ static PyObject *ObjectArrayList_imul(PyObject *pySelf, Py_ssize_t n) {
 }
 
 static int ObjectArrayList_contains(PyObject *pySelf, PyObject *key) {
-    if (!PyLong_Check(key)) {
-        return 0;
-    }
-
     auto *self = reinterpret_cast<ObjectArrayList *>(pySelf);
 
-    PyObject *value = key;
-    if (PyErr_Occurred()) {
+    const Py_ssize_t index = findItem(self, key, 0, PY_SSIZE_T_MAX);
+    if (index == -2) {
         return -1;
     }
 
-    try {
-        if (std::find(self->vector.begin(), self->vector.end(), value) != self->vector.end()) {
-            return 1;  // true
-        } else {
-            return 0;  // false
-        }
-    } catch (const std::exception &e) {
-        PyErr_SetString(PyExc_RuntimeError, e.what());
-        return -1;
-    }
+    return index >= 0;
 }
 
 static PyObject *ObjectArrayList_reversed(PyObject *pySelf) {
@@ -857,19 +837,16 @@ static PyObject *ObjectArrayList_reversed(PyObject *pySelf) {
 static PyObject *ObjectArrayList_reverse(PyObject *pySelf) {
     auto *self = reinterpret_cast<ObjectArrayList *>(pySelf);
 
-    Py_BEGIN_ALLOW_THREADS
-        simd::simdReverse(self->vector.data(), self->vector.size());
-    Py_END_ALLOW_THREADS
+    simd::simdReverse(self->vector.data(), self->vector.size());
     Py_RETURN_NONE;
 }
 
 static PyObject *ObjectArrayList_clear(PyObject *pySelf) {
     auto *self = reinterpret_cast<ObjectArrayList *>(pySelf);
 
-    for (auto &item: self->vector) {
-        SAFE_DECREF(item);
-    }
-    self->vector.clear();
+    std::vector<PyObject *> removed;
+    self->vector.swap(removed);
+    releaseItems(removed);
     Py_RETURN_NONE;
 }
 
@@ -880,6 +857,8 @@ static __forceinline PyObject *ObjectArrayList_eq(PyObject *pySelf, PyObject *py
         Py_RETURN_FALSE;
 
     Py_ssize_t seq_size = PySequence_Size(pyValue);
+    if (seq_size < 0)
+        return nullptr;
     if (seq_size != static_cast<Py_ssize_t>(self->vector.size()))
         Py_RETURN_FALSE;
 
@@ -888,11 +867,18 @@ static __forceinline PyObject *ObjectArrayList_eq(PyObject *pySelf, PyObject *py
         if (item == nullptr)
             return nullptr;
 
+        if (static_cast<size_t>(i) >= self->vector.size()) {  // changed by user code
+            SAFE_DECREF(item);
+            Py_RETURN_FALSE;
+        }
+
         PyObject *self_value = self->vector[i];
         PyObject *other_value = item;
+        Py_INCREF(self_value);
 
         // compare
         int cmpResult = PyObject_RichCompareBool(self_value, other_value, Py_EQ);
+        SAFE_DECREF(self_value);
         SAFE_DECREF(item);
         if (cmpResult < 0) {
             return nullptr;
@@ -907,34 +893,15 @@ static __forceinline PyObject *ObjectArrayList_eq(PyObject *pySelf, PyObject *py
 }
 
 static __forceinline PyObject *ObjectArrayList_ne(PyObject *pySelf, PyObject *pyValue) {
-    auto *self = reinterpret_cast<ObjectArrayList *>(pySelf);
-
-    if (!PySequence_Check(pyValue))
-        Py_RETURN_TRUE;
-
-    // compare
-    Py_ssize_t seq_size = PySequence_Size(pyValue);
-    if (seq_size != static_cast<Py_ssize_t>(self->vector.size()))
+    PyObject *isEq = ObjectArrayList_eq(pySelf, pyValue);
+    if (isEq == nullptr) return nullptr;
+    if (isEq == Py_True) {
+        SAFE_DECREF(isEq);
+        Py_RETURN_FALSE;
+    } else {
+        SAFE_DECREF(isEq);
         Py_RETURN_TRUE;
-
-    for (Py_ssize_t i = 0; i < seq_size; i++) {
-        PyObject *item = PySequence_GetItem(pyValue, i);
-        if (item == nullptr) return nullptr;
-        PyObject *self_value = self->vector[i];
-        PyObject *other_value = item;
-
-        int cmpResult = PyObject_RichCompareBool(self_value, other_value, Py_NE);
-        SAFE_DECREF(item);
-        if (cmpResult < 0) {
-            return nullptr;
-        }
-
-        if (cmpResult != 0) {
-            Py_RETURN_TRUE;
-        }
     }
-
-    Py_RETURN_FALSE;
 }
 
 static __forceinline PyObject *ObjectArrayList_lt(PyObject *pySelf, PyObject *pyValue) {
@@ -949,26 +916,34 @@ static __forceinline PyObject *ObjectArrayList_lt(PyObject *pySelf, PyObject *py
         return nullptr;
     }
 
-    if (self->vector.size() != static_cast<size_t>(seqSize)) {
-        Py_RETURN_BOOL(self->vector.size() < static_cast<size_t>(seqSize))
-    }
-
-    for (Py_ssize_t i = 0; i < seqSize; ++i) {
+    for (Py_ssize_t i = 0; i < seqSize && static_cast<size_t>(i) < self->vector.size(); ++i) {
         PyObject *item = PySequence_GetItem(pyValue, i);
         if (item == nullptr) {
             return nullptr;
         }
 
+        if (static_cast<size_t>(i) >= self->vector.size()) {  // changed by user code
+            SAFE_DECREF(item);
+            break;
+        }
+
         // compare
-        int cmpResult = PyObject_RichCompareBool(self->vector[i], item, Py_LT);
+        PyObject *self_value = self->vector[i];
+        Py_INCREF(self_value);
+        int cmpResult = PyObject_RichCompareBool(self_value, item, Py_EQ);
+        const bool differs = cmpResult == 0;
+        if (differs) {
+            cmpResult = PyObject_RichCompareBool(self_value, item, Py_LT);
+        }
+        SAFE_DECREF(self_value);
         SAFE_DECREF(item);
         if (cmpResult < 0) {
             return nullptr;
         }
-        Py_RETURN_BOOL(cmpResult == 1)  // self->vector[i] < item
+        if (differs) Py_RETURN_BOOL(cmpResult == 1)  // self->vector[i] < item
     }
 
-    Py_RETURN_FALSE;
+    Py_RETURN_BOOL(self->vector.size() < static_cast<size_t>(seqSize))
 }
 
 static __forceinline PyObject *ObjectArrayList_le(PyObject *pySelf, PyObject *pyValue) {
@@ -983,26 +958,34 @@ static __forceinline PyObject *ObjectArrayList_le(PyObject *pySelf, PyObject *py
         return nullptr;
     }
 
-    if (self->vector.size() != static_cast<size_t>(seqSize)) {
-        Py_RETURN_BOOL(self->vector.size() < static_cast<size_t>(seqSize))
-    }
-
-    for (Py_ssize_t i = 0; i < seqSize; ++i) {
+    for (Py_ssize_t i = 0; i < seqSize && static_cast<size_t>(i) < self->vector.size(); ++i) {
         PyObject *item = PySequence_GetItem(pyValue, i);
         if (item == nullptr) {
             return nullptr;
         }
 
+        if (static_cast<size_t>(i) >= self->vector.size()) {  // changed by user code
+            SAFE_DECREF(item);
+            break;
+        }
+
         // compare
-        int cmpResult = PyObject_RichCompareBool(self->vector[i], item, Py_LE);
+        PyObject *self_value = self->vector[i];
+        Py_INCREF(self_value);
+        int cmpResult = PyObject_RichCompareBool(self_value, item, Py_EQ);
+        const bool differs = cmpResult == 0;
+        if (differs) {
+            cmpResult = PyObject_RichCompareBool(self_value, item, Py_LE);
+        }
+        SAFE_DECREF(self_value);
         SAFE_DECREF(item);
         if (cmpResult < 0) {
             return nullptr;
         }
-        Py_RETURN_BOOL(cmpResult == 1)  // self->vector[i] <= item
+        if (differs) Py_RETURN_BOOL(cmpResult == 1)  // self->vector[i] <= item
     }
 
-    Py_RETURN_FALSE;
+    Py_RETURN_BOOL(self->vector.size() <= static_cast<size_t>(seqSize))
 }
 
 static __forceinline PyObject *ObjectArrayList_gt(PyObject *pySelf, PyObject *pyValue) {
@@ -1017,26 +1000,34 @@ static __forceinline PyObject *ObjectArrayList_gt(PyObject *pySelf, PyObject *py
         return nullptr;
     }
 
-    if (self->vector.size() != static_cast<size_t>(seqSize)) {
-        Py_RETURN_BOOL(self->vector.size() < static_cast<size_t>(seqSize))
-    }
-
-    for (Py_ssize_t i = 0; i < seqSize; ++i) {
+    for (Py_ssize_t i = 0; i < seqSize && static_cast<size_t>(i) < self->vector.size(); ++i) {
         PyObject *item = PySequence_GetItem(pyValue, i);
         if (item == nullptr) {
             return nullptr;
         }
 
+        if (static_cast<size_t>(i) >= self->vector.size()) {  // changed by user code
+            SAFE_DECREF(item);
+            break;
+        }
+
         // compare
-        int cmpResult = PyObject_RichCompareBool(self->vector[i], item, Py_GT);
+        PyObject *self_value = self->vector[i];
+        Py_INCREF(self_value);
+        int cmpResult = PyObject_RichCompareBool(self_value, item, Py_EQ);
+        const bool differs = cmpResult == 0;
+        if (differs) {
+            cmpResult = PyObject_RichCompareBool(self_value, item, Py_GT);
+        }
+        SAFE_DECREF(self_value);
         SAFE_DECREF(item);
         if (cmpResult < 0) {
             return nullptr;
         }
-        Py_RETURN_BOOL(cmpResult == 1)  // self->vector[i] > item
+        if (differs) Py_RETURN_BOOL(cmpResult == 1)  // self->vector[i] > item
     }
 
-    Py_RETURN_FALSE;
+    Py_RETURN_BOOL(self->vector.size() > static_cast<size_t>(seqSize))
 }
 
 static __forceinline PyObject *ObjectArrayList_ge(PyObject *pySelf, PyObject *pyValue) {
@@ -1051,26 +1042,34 @@ static __forceinline PyObject *ObjectArrayList_ge(PyObject *pySelf, PyObject *py
         return nullptr;
     }
 
-    if (self->vector.size() != static_cast<size_t>(seqSize)) {
-        Py_RETURN_BOOL(self->vector.size() < static_cast<size_t>(seqSize))
-    }
-
-    for (Py_ssize_t i = 0; i < seqSize; ++i) {
+    for (Py_ssize_t i = 0; i < seqSize && static_cast<size_t>(i) < self->vector.size(); ++i) {
         PyObject *item = PySequence_GetItem(pyValue, i);
         if (item == nullptr) {
             return nullptr;
         }
 
+        if (static_cast<size_t>(i) >= self->vector.size()) {  // changed by user code
+            SAFE_DECREF(item);
+            break;
+        }
+
         // compare
-        int cmpResult = PyObject_RichCompareBool(self->vector[i], item, Py_GE);
+        PyObject *self_value = self->vector[i];
+        Py_INCREF(self_value);
+        int cmpResult = PyObject_RichCompareBool(self_value, item, Py_EQ);
+        const bool differs = cmpResult == 0;
+        if (differs) {
+            cmpResult = PyObject_RichCompareBool(self_value, item, Py_GE);
+        }
+        SAFE_DECREF(self_value);
         SAFE_DECREF(item);
         if (cmpResult < 0) {
             return nullptr;
         }
-        Py_RETURN_BOOL(cmpResult == 1)  // self->vector[i] >= item
+        if (differs) Py_RETURN_BOOL(cmpResult == 1)  // self->vector[i] >= item
     }
 
-    Py_RETURN_FALSE;
+    Py_RETURN_BOOL(self->vector.size() >= static_cast<size_t>(seqSize))
 }
 
 static PyObject *ObjectArrayList_compare(PyObject *pySelf, PyObject *pyValue, int op) {
@@ -1108,27 +1107,35 @@ static __forceinline PyObject *ObjectArrayList_repr(PyObject *pySelf) {
         return PyUnicode_FromString("[]");
     }
 
-    PyObject *reprList = PyUnicode_FromString("[");
-    if (reprList == nullptr) {
-        return nullptr;
+    const int entered = Py_ReprEnter(pySelf);
+    if (entered != 0) {
+        return entered > 0 ? PyUnicode_FromString("[...]") : nullptr;
     }
 
-    // generate string
-    for (size_t i = 0; i < vec.size() - 1; ++i) {
-        PyObject *itemRepr = PyObject_Repr(vec[i]);
+    PyObject *reprList = PyUnicode_FromString("[");
+
+    // generate string: PyObject_Repr may run user code, which may change the list
+    for (size_t i = 0; reprList != nullptr && i < vec.size(); ++i) {
+        PyObject *item = vec[i];
+        Py_INCREF(item);
+        PyObject *itemRepr = PyObject_Repr(item);
+        SAFE_DECREF(item);
         if (itemRepr == nullptr) {
             SAFE_DECREF(reprList);
-            return nullptr;
+            break;
         }
 
+        if (i > 0) {
+            PyUnicode_AppendAndDel(&reprList, PyUnicode_FromString(", "));
+        }
         PyUnicode_AppendAndDel(&reprList, itemRepr);
-        PyUnicode_AppendAndDel(&reprList, PyUnicode_FromString(", "));
     }
 
-    PyObject *itemRepr = PyObject_Repr(vec[vec.size() - 1]);
-    PyUnicode_AppendAndDel(&reprList, itemRepr);
-    PyUnicode_AppendAndDel(&reprList, PyUnicode_FromString("]"));
+    if (reprList != nullptr) {
+        PyUnicode_AppendAndDel(&reprList, PyUnicode_FromString("]"));
+    }
 
+    Py_ReprLeave(pySelf);
     return reprList;
 }
 
@@ -1195,7 +1202,7 @@ void initializeObjectArrayListType(PyTypeObject &type) {
     type.tp_iter = ObjectArrayList_iter;
     type.tp_methods = ObjectArrayList_methods;
     type.tp_init = (initproc) ObjectArrayList_init;
-    type.tp_new = PyType_GenericNew;
+    type.tp_new = ObjectArrayList_new;
     type.tp_dealloc = (destructor) ObjectArrayList_dealloc;
     type.tp_alloc = PyType_GenericAlloc;
     type.tp_free = PyObject_Del;
diff --git a/pyfastutil/src/objects/ObjectArrayListIter.cpp b/pyfastutil/src/objects/ObjectArrayListIter.cpp
index 5676c84..a981ac7 100644
--- a/pyfastutil/src/objects/ObjectArrayListIter.cpp
+++ b/pyfastutil/src/objects/ObjectArrayListIter.cpp
@@ -18,7 +18,7 @@ ObjectArrayListIter *ObjectArrayListIter_create(ObjectArrayList *list, bool reve
     Py_INCREF(list);
     instance->container = list;
     if (reversed) {
-        instance->index = (!list->vector.empty()) ? list->vector.size() - 1 : 0;
+        instance->index = list->vector.size() - 1;  // SIZE_MAX if empty
         instance->reversed = true;
     } else {
         instance->index = 0;
@@ -36,40 +36,21 @@ static void ObjectArrayListIter_dealloc(ObjectArrayListIter *self) {
 static PyObject *ObjectArrayListIter_next(PyObject *pySelf) {
     auto *self = reinterpret_cast<ObjectArrayListIter *>(pySelf);
 
-    if (self->container->vector.empty()) {
+    // SIZE_MAX is never a valid index: the iterator is finished for good
+    if (self->index >= self->container->vector.size()) {
+        self->index = SIZE_MAX;
         PyErr_SetNone(PyExc_StopIteration);
         return nullptr;
     }
 
+    PyObject *element = self->container->vector[self->index];
     if (self->reversed) {
-        if (self->index == 0) {
-            // last iteration
-            PyObject *element = self->container->vector[self->index];
-            self->index = SIZE_MAX;
-            Py_INCREF(element);
-            return element;
-        }
-        if (self->index == SIZE_MAX) {
-            // already finish iteration
-            PyErr_SetNone(PyExc_StopIteration);
-            return nullptr;
-        }
-
-        PyObject *element = self->container->vector[self->index];
         self->index--;
-        Py_INCREF(element);
-        return element;
     } else {
-        if (self->index >= self->container->vector.size()) {
-            PyErr_SetNone(PyExc_StopIteration);
-            return nullptr;
-        }
-
-        PyObject *element = self->container->vector[self->index];
         self->index++;
-        Py_INCREF(element);
-        return element;
     }
+    Py_INCREF(element);
+    return element;
 }
 
 static PyObject *ObjectArrayListIter_iter(PyObject *pySelf) {
diff --git a/pyfastutil/src/objects/ObjectLinkedList.cpp b/pyfastutil/src/objects/ObjectLinkedList.cpp
index 41500ee..29a3db7 100644
--- a/pyfastutil/src/objects/ObjectLinkedList.cpp
+++ b/pyfastutil/src/objects/ObjectLinkedList.cpp
@@ -4,6 +4,7 @@
 
 #include "ObjectLinkedList.h"
 #include <list>
+#include <vector>
 #include <algorithm>
 #include <stdexcept>
 #include "utils/PythonUtils.h"
@@ -20,9 +21,26 @@ static PyTypeObject ObjectLinkedListType = {
         PyVarObject_HEAD_INIT(&PyType_Type, 0)
 };
 
-static int ObjectLinkedList_init(ObjectLinkedList *self, PyObject *args, PyObject *kwargs) {
+// only for items that are no longer in a list: their finalizers may run any code
+static void releaseItems(const std::list<PyObject *> &items) {
+    for (PyObject *item: items) {
+        Py_DECREF(item);
+    }
+}
+
+static PyObject *ObjectLinkedList_new(PyTypeObject *type, [[maybe_unused]] PyObject *args,
+                                      [[maybe_unused]] PyObject *kwargs) {
+    auto *self = reinterpret_cast<ObjectLinkedList *>(type->tp_alloc(type, 0));
+    if (self == nullptr) return nullptr;
+
     new(&self->list) std::list<PyObject *>();
     self->modCount = 0;
+    return reinterpret_cast<PyObject *>(self);
+}
+
+static int ObjectLinkedList_init(ObjectLinkedList *self, PyObject *args, PyObject *kwargs) {
+    // filled aside: user code may run below, and __init__ may be called again on a live list
+    std::list<PyObject *> list;
 
     PyObject *pyIterable = nullptr;
 
@@ -38,45 +56,50 @@ static int ObjectLinkedList_init(ObjectLinkedList *self, PyObject *args, PyObjec
         if (pyIterable != nullptr) {
             if (Py_TYPE(pyIterable) == &ObjectLinkedListType) {  // ObjectLinkedList is a final class
                 auto *iter = reinterpret_cast<ObjectLinkedList *>(pyIterable);
-                self->list = iter->list;
-                return 0;
-            }
-
-            if (PyList_Check(pyIterable) || PyTuple_Check(pyIterable)) {  // fast operation
-                auto fastKeys = PySequence_Fast(pyIterable, "Shouldn't be happen (ObjectLinkedList).");
-                if (fastKeys == nullptr) {
-                    return -1;
+                list = iter->list;
+                for (const auto &item: list) {
+                    Py_INCREF(item);
                 }
-
-                const auto size = PySequence_Fast_GET_SIZE(fastKeys);
-                auto items = PySequence_Fast_ITEMS(fastKeys);
+            } else if (PyList_Check(pyIterable) || PyTuple_Check(pyIterable)) {  // fast operation
+                const auto size = PySequence_Fast_GET_SIZE(pyIterable);
+                auto items = PySequence_Fast_ITEMS(pyIterable);
                 for (Py_ssize_t i = 0; i < size; ++i) {
                     PyObject *value = items[i];
+                    list.push_back(value);
                     Py_INCREF(value);
-                    self->list.push_back(value);
                 }
-                SAFE_DECREF(fastKeys);
-                return 0;
-            }
-
-            PyObject *iter = PyObject_GetIter(pyIterable);
-            if (iter == nullptr) {
-                PyErr_SetString(PyExc_TypeError, "Arg '__iterable' is not iterable.");
-                return -1;
-            }
+            } else {
+                PyObject *iter = PyObject_GetIter(pyIterable);
+                if (iter == nullptr) {
+                    return -1;
+                }
 
-            PyObject *item;
-            while ((item = PyIter_Next(iter)) != nullptr) {
-                self->list.push_back(item);
+                PyObject *item;
+                while ((item = PyIter_Next(iter)) != nullptr) {
+                    try {
+                        list.push_back(item);
+                    } catch (const std::exception &) {
+                        SAFE_DECREF(item);
+                        SAFE_DECREF(iter);
+                        throw;
+                    }
+                }
+                SAFE_DECREF(iter);
+                if (PyErr_Occurred()) {
+                    releaseItems(list);
+                    return -1;
+                }
             }
-            SAFE_DECREF(iter);
-            if (PyErr_Occurred()) return -1;
         }
     } catch (const std::exception &e) {
+        releaseItems(list);
         PyErr_SetString(PyExc_RuntimeError, e.what());
         return -1;
     }
 
+    self->list.swap(list);
+    self->modCount++;
+    releaseItems(list);
     return 0;
 }
 
@@ -122,7 +145,7 @@ static PyObject *ObjectLinkedList_copy(PyObject *pySelf) {
             Py_INCREF(item);
         }
     } catch (const std::exception &e) {
-        PyObject_Del(copy);
+        SAFE_DECREF(copy);
         PyErr_SetString(PyExc_RuntimeError, e.what());
         return nullptr;
     }
@@ -162,13 +185,19 @@ static PyObject *ObjectLinkedList_extend(PyObject *pySelf, PyObject *const *args
     PyObject *iterable = args[0];
 
     // fast extend
-    if (Py_TYPE(iterable) == &ObjectLinkedListType) {
+    if (Py_TYPE(iterable) == &ObjectLinkedListType || iterable == pySelf) {
         auto *iter = reinterpret_cast<ObjectLinkedList *>(iterable);
-        self->list.insert(self->list.end(), iter->list.begin(), iter->list.end());
-        for (const auto &item: iter->list) {
-            Py_INCREF(item);
+        try {
+            std::list<PyObject *> items = iter->list;
+            for (const auto &item: items) {
+                Py_INCREF(item);
+            }
+            self->list.splice(self->list.end(), items);
+            self->modCount++;
+        } catch (const std::exception &e) {
+            PyErr_SetString(PyExc_RuntimeError, e.what());
+            return nullptr;
         }
-        self->modCount++;
         Py_RETURN_NONE;
     }
 
@@ -181,14 +210,16 @@ static PyObject *ObjectLinkedList_extend(PyObject *pySelf, PyObject *const *args
     // do extend
     PyObject *item;
     while ((item = PyIter_Next(iter)) != nullptr) {
-        if (PyErr_Occurred()) {
+        try {
+            self->list.push_back(item);
+            self->modCount++;
+        } catch (const std::exception &e) {
+            SAFE_DECREF(item);
             SAFE_DECREF(iter);
+            PyErr_SetString(PyExc_RuntimeError, e.what());
             return nullptr;
         }
-
-        self->list.push_back(item);
     }
-    self->modCount++;
 
     if (PyErr_Occurred()) {
         SAFE_DECREF(iter);
@@ -203,20 +234,23 @@ static PyObject *ObjectLinkedList_extend(PyObject *pySelf, PyObject *const *args
 static PyObject *ObjectLinkedList_pop(PyObject *pySelf, PyObject *const *args, const Py_ssize_t nargs) {
     auto *self = reinterpret_cast<ObjectLinkedList *>(pySelf);
 
-    if (self->list.empty()) {
+    Py_ssize_t index = -1;
+    if (nargs == 1) {
+        // may run user code: look at the list only afterwards
+        index = PyNumber_AsSsize_t(args[0], PyExc_IndexError);
+        if (index == -1 && PyErr_Occurred()) {
+            return nullptr;
+        }
+    }
+
+    if (nargs <= 1 && self->list.empty()) {
         PyErr_SetString(PyExc_IndexError, "pop from empty list");
         return nullptr;
     }
 
     const auto vecSize = static_cast<Py_ssize_t>(self->list.size());
-    Py_ssize_t index;
 
     if (nargs == 1) {
-        index = PyLong_AsSsize_t(args[0]);
-        if (index == -1 && PyErr_Occurred()) {
-            return nullptr;
-        }
-
         if (index < 0) {
             index += vecSize;
         }
@@ -235,10 +269,50 @@ static PyObject *ObjectLinkedList_pop(PyObject *pySelf, PyObject *const *args, c
         return popped;
     }
 
-    auto popped = at(self->list, index);
-    self->list.erase(popped);
+    auto iter = at(self->list, index);
+    PyObject *popped = *iter;
+    self->list.erase(iter);
     self->modCount++;
-    return *popped;
+    return popped;
+}
+
+// a position in a list that user code may change at any time
+struct Cursor {
+    std::list<PyObject *>::iterator iter;
+    size_t index;
+    uint64_t modCount;
+
+    explicit Cursor(ObjectLinkedList *self) : iter(self->list.begin()), index(0), modCount(self->modCount) {}
+
+    // @return new reference to the item at index i, or nullptr (without exception) if the list ends before it
+    PyObject *get(ObjectLinkedList *self, const size_t i) {
+        if (i >= self->list.size()) return nullptr;
+        if (modCount == self->modCount && i == index + 1) {
+            ++iter;
+        } else if (modCount != self->modCount || i != index) {
+            iter = at(self->list, i);
+        }
+        index = i;
+        modCount = self->modCount;
+
+        PyObject *item = *iter;
+        Py_INCREF(item);
+        return item;
+    }
+};
+
+// @return index of the first equal item, -1 if there is none, -2 if a comparison failed
+static Py_ssize_t findItem(ObjectLinkedList *self, PyObject *value, Py_ssize_t start, Py_ssize_t stop) {
+    Cursor cursor(self);
+    for (Py_ssize_t i = start; i < stop; ++i) {
+        PyObject *item = cursor.get(self, static_cast<size_t>(i));
+        if (item == nullptr) break;
+        int cmpResult = PyObject_RichCompareBool(item, value, Py_EQ);
+        SAFE_DECREF(item);
+        if (cmpResult < 0) return -2;
+        if (cmpResult > 0) return i;
+    }
+    return -1;
 }
 
 static PyObject *ObjectLinkedList_index(PyObject *pySelf, PyObject *args) {
@@ -246,7 +320,7 @@ static PyObject *ObjectLinkedList_index(PyObject *pySelf, PyObject *args) {
 
     PyObject *value;
     Py_ssize_t start = 0;
-    auto stop = static_cast<Py_ssize_t>(self->list.size());
+    Py_ssize_t stop = PY_SSIZE_T_MAX;
 
     if (!PyArg_ParseTuple(args, "O|nn", &value, &start, &stop)) {
         return nullptr;
@@ -271,29 +345,30 @@ static PyObject *ObjectLinkedList_index(PyObject *pySelf, PyObject *args) {
         return nullptr;
     }
 
-    auto stopIter = at(self->list, stop);
-    auto it = std::find(at(self->list, start), stopIter, value);
+    Py_ssize_t index = findItem(self, value, start, stop);
 
-    if (it == stopIter) {
-        PyErr_SetString(PyExc_ValueError, "Value is not in list.");
+    if (index < 0) {
+        if (index == -1) PyErr_SetString(PyExc_ValueError, "Value is not in list.");
         return nullptr;
     }
 
-    Py_ssize_t index = std::distance(self->list.begin(), it);
     return PyLong_FromSsize_t(index);
 }
 
 static PyObject *ObjectLinkedList_count(PyObject *pySelf, PyObject *object) {
     auto *self = reinterpret_cast<ObjectLinkedList *>(pySelf);
 
-    try {
-        size_t result = std::count(self->list.begin(), self->list.end(), object);
-
-        return PyLong_FromSize_t(result);
-    } catch (const std::exception &e) {
-        PyErr_SetString(PyExc_RuntimeError, e.what());
-        return nullptr;
+    size_t result = 0;
+    Cursor cursor(self);
+    PyObject *item;
+    for (size_t i = 0; (item = cursor.get(self, i)) != nullptr; ++i) {
+        int cmpResult = PyObject_RichCompareBool(item, object, Py_EQ);
+        SAFE_DECREF(item);
+        if (cmpResult < 0) return nullptr;
+        if (cmpResult > 0) ++result;
     }
+
+    return PyLong_FromSize_t(result);
 }
 
 static PyObject *ObjectLinkedList_insert(PyObject *pySelf, PyObject *args) {
@@ -330,25 +405,19 @@ static PyObject *ObjectLinkedList_insert(PyObject *pySelf, PyObject *args) {
 static PyObject *ObjectLinkedList_remove(PyObject *pySelf, PyObject *object) {
     auto *self = reinterpret_cast<ObjectLinkedList *>(pySelf);
 
-    PyObject *value = object;
-    if (PyErr_Occurred()) {
+    const Py_ssize_t index = findItem(self, object, 0, PY_SSIZE_T_MAX);
+    if (index < 0) {
+        if (index == -1) PyErr_SetString(PyExc_ValueError, "Value is not in list.");
         return nullptr;
     }
 
-    try {
-        auto it = std::find(self->list.begin(), self->list.end(), value);
-
-        if (it != self->list.end()) {
-            self->list.erase(it);
-            SAFE_DECREF(value);
-            self->modCount++;
-        } else {
-            PyErr_SetString(PyExc_ValueError, "Value is not in list.");
-            return nullptr;
-        }
-    } catch (const std::exception &e) {
-        PyErr_SetString(PyExc_RuntimeError, e.what());
-        return nullptr;
+    // may have changed in the last comparison
+    if (static_cast<size_t>(index) < self->list.size()) {
+        auto it = at(self->list, static_cast<size_t>(index));
+        PyObject *value = *it;
+        self->list.erase(it);
+        self->modCount++;
+        SAFE_DECREF(value);
     }
 
     Py_RETURN_NONE;
@@ -366,31 +435,49 @@ static PyObject *ObjectLinkedList_sort(PyObject *pySelf, PyObject *args, PyObjec
     }
 
     // costs extra memory
-    const auto vecSize = self->list.size();
+    // sorts a private copy: comparisons may run user code, which may use the list
+    std::vector<PyObject *> before;
+    try {
+        before.assign(self->list.begin(), self->list.end());
+    } catch (const std::exception &e) {
+        PyErr_SetString(PyExc_RuntimeError, e.what());
+        return nullptr;
+    }
+    const auto vecSize = before.size();
     auto **pyData = static_cast<PyObject **>(PyMem_Malloc(sizeof(PyObject *) * vecSize));
     if (pyData == nullptr) {
         PyErr_NoMemory();
         return nullptr;
     }
 
-    auto iter = self->list.begin();
-    for (size_t i = 0; i < vecSize; ++i, ++iter) {
-        pyData[i] = *iter;
+    for (size_t i = 0; i < vecSize; ++i) {
+        pyData[i] = before[i];
+        Py_INCREF(pyData[i]);
     }
 
-    CPython_sort(pyData,
+    PyObject *result = CPython_sort(pyData,
                  static_cast<Py_ssize_t>(vecSize),
-                 keyFunc == Py_None ? nullptr : keyFunc, reverseInt);
+                 keyFunc == Py_None ? nullptr : keyFunc, reverseInt != 0);
 
-    iter = self->list.begin();
-    for (size_t i = 0; i < vecSize; ++i, ++iter) {
-        *iter = pyData[i];
+    if (result != nullptr) {
+        if (std::equal(before.begin(), before.end(), self->list.begin(), self->list.end())) {
+            auto iter = self->list.begin();
+            for (size_t i = 0; i < vecSize; ++i, ++iter) {
+                *iter = pyData[i];
+            }
+            self->modCount++;
+        } else {
+            SAFE_DECREF(result);
+            PyErr_SetString(PyExc_ValueError, "list modified during sort");
+        }
     }
 
     PyMem_FREE(pyData);
-    self->modCount++;
+    for (size_t i = 0; i < vecSize; ++i) {
+        Py_DECREF(before[i]);
+    }
 
-    Py_RETURN_NONE;
+    return result;
 }
 
 static Py_ssize_t ObjectLinkedList_len(PyObject *pySelf) {
@@ -484,16 +571,21 @@ static int ObjectLinkedList_setitem(PyObject *pySelf, Py_ssize_t pyIndex, PyObje
     try {
         if (pyValue == nullptr) {
             auto iter = at(self->list, static_cast<size_t>(pyIndex));
-            SAFE_DECREF(*iter);
+            PyObject *removed = *iter;
             self->list.erase(iter);
+            self->modCount++;
+            SAFE_DECREF(removed);
         } else {
             PyObject *value = pyValue;
             if (PyErr_Occurred()) {
                 return -1;
             }
 
-            *at(self->list, static_cast<size_t>(pyIndex)) = value;
+            auto iter = at(self->list, static_cast<size_t>(pyIndex));
+            PyObject *replaced = *iter;
             Py_INCREF(value);
+            *iter = value;
+            SAFE_DECREF(replaced);
         }
     } catch (const std::exception &e) {
         PyErr_SetString(PyExc_RuntimeError, e.what());
@@ -519,55 +611,46 @@ static int ObjectLinkedList_setitem_slice(PyObject *pySelf, PyObject *slice, PyO
         return -1;
     }
 
-    sliceLength = PySlice_AdjustIndices(static_cast<Py_ssize_t>(self->list.size()), &start, &stop, step);
-
-    if (!PySequence_Check(value)) {
-        PyErr_SetString(PyExc_TypeError, "can only assign an iterable");
+    if (step != 1) {
+        PyErr_SetString(PyExc_NotImplementedError, "step must be 1 for slice assignment");
         return -1;
     }
 
-    Py_ssize_t newLength = PySequence_Size(value);
-    if (newLength < 0) {
-        return -1;
+    // collect every new element before touching the list: this may run user code
+    PyObject *items = nullptr;
+    if (value != nullptr) {
+        items = PySequence_List(value);
+        if (items == nullptr) {
+            return -1;
+        }
     }
 
-    PyObject *item = nullptr;
+    std::list<PyObject *> values;
     try {
-        if (newLength < sliceLength) {
-            auto iter = at(self->list, static_cast<size_t>(start + newLength * step));
-            for (Py_ssize_t i = newLength; i < sliceLength; i++) {
-                SAFE_DECREF(*iter);
-                iter = self->list.erase(iter);
-            }
-        } else if (newLength > sliceLength) {
-            auto iter = at(self->list, static_cast<size_t>(stop));
-            for (Py_ssize_t i = sliceLength; i < newLength; i++) {
-                item = PySequence_GetItem(value, i);
-                if (item == nullptr) {
-                    return -1;
-                }
-                iter = self->list.insert(iter, item);
-                ++iter;
-            }
-        }
-
-        for (Py_ssize_t i = 0; i < newLength; i++) {
-            Py_ssize_t index = start + i * step;
-            auto iter = at(self->list, static_cast<size_t>(index));
-
-            item = PySequence_GetItem(value, i);
-            if (item == nullptr) {
-                return -1;
-            }
-
-            SAFE_DECREF(*iter);
-            *iter = item;
+        if (items != nullptr) {
+            PyObject **newItems = PySequence_Fast_ITEMS(items);
+            values.assign(newItems, newItems + PyList_GET_SIZE(items));
         }
     } catch (const std::exception &e) {
-        SAFE_DECREF(item);
+        SAFE_DECREF(items);
         PyErr_SetString(PyExc_RuntimeError, e.what());
         return -1;
     }
+    for (const auto &item: values) {
+        Py_INCREF(item);
+    }
+    Py_XDECREF(items);
+
+    // the list may have changed in the meantime
+    sliceLength = PySlice_AdjustIndices(static_cast<Py_ssize_t>(self->list.size()), &start, &stop, step);
+
+    std::list<PyObject *> removed;
+    const auto first = at(self->list, static_cast<size_t>(start));
+    const auto last = at(self->list, static_cast<size_t>(start + sliceLength));
+    removed.splice(removed.end(), self->list, first, last);
+    self->list.splice(last, values);
+    self->modCount++;
+    releaseItems(removed);
 
     return 0;
 }
@@ -577,16 +660,16 @@ static PyObject *ObjectLinkedList_add(PyObject *pySelf, PyObject *pyValue) {
         // fast add -> ObjectLinkedList
         auto *value = reinterpret_cast<ObjectLinkedList *>(pyValue);
 
-        auto *result = Py_CreateObj<ObjectLinkedList>(ObjectLinkedListType, pySelf);
+        auto *result = reinterpret_cast<ObjectLinkedList *>(ObjectLinkedList_copy(pySelf));
         if (result == nullptr) {
-            return PyErr_NoMemory();
+            return nullptr;
         }
 
         try {
+            result->list.insert(result->list.end(), value->list.begin(), value->list.end());
             for (const auto &item: value->list) {
                 Py_INCREF(item);
             }
-            result->list.insert(result->list.end(), value->list.begin(), value->list.end());
             return reinterpret_cast<PyObject *>(result);
         } catch (const std::exception &e) {
             SAFE_DECREF(result);
@@ -612,43 +695,12 @@ static PyObject *ObjectLinkedList_add(PyObject *pySelf, PyObject *pyValue) {
 }
 
 static PyObject *ObjectLinkedList_iadd(PyObject *pySelf, PyObject *iterable) {
-    auto *self = reinterpret_cast<ObjectLinkedList *>(pySelf);
-
-    // fast extend
-    if (Py_TYPE(iterable) == &ObjectLinkedListType) {
-        auto *iter = reinterpret_cast<ObjectLinkedList *>(iterable);
-        for (const auto &item: iter->list) {
-            Py_INCREF(item);
-        }
-        self->list.insert(self->list.end(), iter->list.begin(), iter->list.end());
-        Py_RETURN_NONE;
-    }
-
-    // python iterable extend
-    PyObject *iter = PyObject_GetIter(iterable);
-    if (iter == nullptr) {
-        return nullptr;
-    }
-
-    // do extend
-    PyObject *item;
-    while ((item = PyIter_Next(iter)) != nullptr) {
-        PyObject *value = item;
-
-        if (PyErr_Occurred()) {
-            SAFE_DECREF(iter);
-            return nullptr;
-        }
-
-        self->list.push_back(value);
-    }
-
-    if (PyErr_Occurred()) {
-        SAFE_DECREF(iter);
+    PyObject *result = ObjectLinkedList_extend(pySelf, &iterable, 1);
+    if (result == nullptr) {
         return nullptr;
     }
+    SAFE_DECREF(result);
 
-    SAFE_DECREF(iter);
     Py_INCREF(pySelf);
     return pySelf;
 }
@@ -709,16 +761,20 @@ static PyObject *ObjectLinkedList_imul(PyObject *pySelf, Py_ssize_t n) {
 
     try {
         if (n == 0) {
-            self->list.clear();
+            std::list<PyObject *> removed;
+            self->list.swap(removed);
+            self->modCount++;
+            releaseItems(removed);
         } else {
-            const auto size = self->list.size();
+            std::list<PyObject *> added;
             for (Py_ssize_t i = 1; i < n; ++i) {
-                auto iter = self->list.begin();
-                for (size_t j = 0; j < size; ++j, ++iter) {
-                    self->list.push_back(*iter);
-                    Py_INCREF(*iter);
-                }
+                added.insert(added.end(), self->list.begin(), self->list.end());
             }
+            for (PyObject *item: added) {
+                Py_INCREF(item);
+            }
+            self->list.splice(self->list.end(), added);
+            self->modCount++;
         }
 
         Py_INCREF(pySelf);
@@ -730,24 +786,14 @@ static PyObject *ObjectLinkedList_imul(PyObject *pySelf, Py_ssize_t n) {
 }
 
 static int ObjectLinkedList_contains(PyObject *pySelf, PyObject *key) {
-    if (!PyLong_Check(key)) {
-        return 0;
-    }
-
     auto *self = reinterpret_cast<ObjectLinkedList *>(pySelf);
 
-    PyObject *value = key;
-
-    try {
-        if (std::find(self->list.begin(), self->list.end(), value) != self->list.end()) {
-            return 1;  // true
-        } else {
-            return 0;  // false
-        }
-    } catch (const std::exception &e) {
-        PyErr_SetString(PyExc_RuntimeError, e.what());
+    const Py_ssize_t index = findItem(self, key, 0, PY_SSIZE_T_MAX);
+    if (index == -2) {
         return -1;
     }
+
+    return index >= 0;
 }
 
 static PyObject *ObjectLinkedList_reversed(PyObject *pySelf) {
@@ -761,19 +807,17 @@ static PyObject *ObjectLinkedList_reversed(PyObject *pySelf) {
 static PyObject *ObjectLinkedList_reverse(PyObject *pySelf) {
     auto *self = reinterpret_cast<ObjectLinkedList *>(pySelf);
 
-    Py_BEGIN_ALLOW_THREADS
-        std::reverse(self->list.begin(), self->list.end());
-    Py_END_ALLOW_THREADS
+    std::reverse(self->list.begin(), self->list.end());
     Py_RETURN_NONE;
 }
 
 static PyObject *ObjectLinkedList_clear(PyObject *pySelf) {
     auto *self = reinterpret_cast<ObjectLinkedList *>(pySelf);
 
-    for (auto &item: self->list) {
-        SAFE_DECREF(item);
-    }
-    self->list.clear();
+    std::list<PyObject *> removed;
+    self->list.swap(removed);
+    self->modCount++;
+    releaseItems(removed);
     Py_RETURN_NONE;
 }
 
@@ -784,20 +828,27 @@ static __forceinline PyObject *ObjectLinkedList_eq(PyObject *pySelf, PyObject *p
         Py_RETURN_FALSE;
 
     Py_ssize_t seq_size = PySequence_Size(pyValue);
+    if (seq_size < 0)
+        return nullptr;
     if (seq_size != static_cast<Py_ssize_t>(self->list.size()))
         Py_RETURN_FALSE;
 
-    auto iter = self->list.begin();
-    for (Py_ssize_t i = 0; i < seq_size; i++, iter++) {
+    Cursor cursor(self);
+    for (Py_ssize_t i = 0; i < seq_size; i++) {
         PyObject *item = PySequence_GetItem(pyValue, i);
         if (item == nullptr)
             return nullptr;
 
-        PyObject *self_value = *iter;
+        PyObject *self_value = cursor.get(self, static_cast<size_t>(i));
         PyObject *other_value = item;
+        if (self_value == nullptr) {  // changed by user code
+            SAFE_DECREF(item);
+            Py_RETURN_FALSE;
+        }
 
         // compare
         int cmpResult = PyObject_RichCompareBool(self_value, other_value, Py_EQ);
+        SAFE_DECREF(self_value);
         SAFE_DECREF(item);
         if (cmpResult < 0) {
             return nullptr;
@@ -812,35 +863,15 @@ static __forceinline PyObject *ObjectLinkedList_eq(PyObject *pySelf, PyObject *p
 }
 
 static __forceinline PyObject *ObjectLinkedList_ne(PyObject *pySelf, PyObject *pyValue) {
-    auto *self = reinterpret_cast<ObjectLinkedList *>(pySelf);
-
-    if (!PySequence_Check(pyValue))
-        Py_RETURN_TRUE;
-
-    // compare
-    Py_ssize_t seq_size = PySequence_Size(pyValue);
-    if (seq_size != static_cast<Py_ssize_t>(self->list.size()))
+    PyObject *isEq = ObjectLinkedList_eq(pySelf, pyValue);
+    if (isEq == nullptr) return nullptr;
+    if (isEq == Py_True) {
+        SAFE_DECREF(isEq);
+        Py_RETURN_FALSE;
+    } else {
+        SAFE_DECREF(isEq);
         Py_RETURN_TRUE;
-
-    auto iter = self->list.begin();
-    for (Py_ssize_t i = 0; i < seq_size; i++, iter++) {
-        PyObject *item = PySequence_GetItem(pyValue, i);
-        if (item == nullptr) return nullptr;
-        PyObject *self_value = *iter;
-        PyObject *other_value = item;
-
-        int cmpResult = PyObject_RichCompareBool(self_value, other_value, Py_NE);
-        SAFE_DECREF(item);
-        if (cmpResult < 0) {
-            return nullptr;
-        }
-
-        if (cmpResult != 0) {
-            Py_RETURN_TRUE;
-        }
     }
-
-    Py_RETURN_FALSE;
 }
 
 static __forceinline PyObject *ObjectLinkedList_lt(PyObject *pySelf, PyObject *pyValue) {
@@ -855,27 +886,34 @@ static __forceinline PyObject *ObjectLinkedList_lt(PyObject *pySelf, PyObject *p
         return nullptr;
     }
 
-    if (self->list.size() != static_cast<size_t>(seqSize)) {
-        Py_RETURN_BOOL(self->list.size() < static_cast<size_t>(seqSize))
-    }
-
-    auto iter = self->list.begin();
-    for (Py_ssize_t i = 0; i < seqSize; i++, iter++) {
+    Cursor cursor(self);
+    for (Py_ssize_t i = 0; i < seqSize && static_cast<size_t>(i) < self->list.size(); ++i) {
         PyObject *item = PySequence_GetItem(pyValue, i);
         if (item == nullptr) {
             return nullptr;
         }
 
+        PyObject *self_value = cursor.get(self, static_cast<size_t>(i));
+        if (self_value == nullptr) {  // changed by user code
+            SAFE_DECREF(item);
+            break;
+        }
+
         // compare
-        int cmpResult = PyObject_RichCompareBool(*iter, item, Py_LT);
+        int cmpResult = PyObject_RichCompareBool(self_value, item, Py_EQ);
+        const bool differs = cmpResult == 0;
+        if (differs) {
+            cmpResult = PyObject_RichCompareBool(self_value, item, Py_LT);
+        }
+        SAFE_DECREF(self_value);
         SAFE_DECREF(item);
         if (cmpResult < 0) {
             return nullptr;
         }
-        Py_RETURN_BOOL(cmpResult == 1)  // self->list[i] < item
+        if (differs) Py_RETURN_BOOL(cmpResult == 1)  // self_value < item
     }
 
-    Py_RETURN_FALSE;
+    Py_RETURN_BOOL(self->list.size() < static_cast<size_t>(seqSize))
 }
 
 static __forceinline PyObject *ObjectLinkedList_le(PyObject *pySelf, PyObject *pyValue) {
@@ -890,27 +928,34 @@ static __forceinline PyObject *ObjectLinkedList_le(PyObject *pySelf, PyObject *p
         return nullptr;
     }
 
-    if (self->list.size() != static_cast<size_t>(seqSize)) {
-        Py_RETURN_BOOL(self->list.size() < static_cast<size_t>(seqSize))
-    }
-
-    auto iter = self->list.begin();
-    for (Py_ssize_t i = 0; i < seqSize; i++, iter++) {
+    Cursor cursor(self);
+    for (Py_ssize_t i = 0; i < seqSize && static_cast<size_t>(i) < self->list.size(); ++i) {
         PyObject *item = PySequence_GetItem(pyValue, i);
         if (item == nullptr) {
             return nullptr;
         }
 
+        PyObject *self_value = cursor.get(self, static_cast<size_t>(i));
+        if (self_value == nullptr) {  // changed by user code
+            SAFE_DECREF(item);
+            break;
+        }
+
         // compare
-        int cmpResult = PyObject_RichCompareBool(*iter, item, Py_LE);
+        int cmpResult = PyObject_RichCompareBool(self_value, item, Py_EQ);
+        const bool differs = cmpResult == 0;
+        if (differs) {
+            cmpResult = PyObject_RichCompareBool(self_value, item, Py_LE);
+        }
+        SAFE_DECREF(self_value);
         SAFE_DECREF(item);
         if (cmpResult < 0) {
             return nullptr;
         }
-        Py_RETURN_BOOL(cmpResult == 1)  // self->list[i] <= item
+        if (differs) Py_RETURN_BOOL(cmpResult == 1)  // self_value <= item
     }
 
-    Py_RETURN_FALSE;
+    Py_RETURN_BOOL(self->list.size() <= static_cast<size_t>(seqSize))
 }
 
 static __forceinline PyObject *ObjectLinkedList_gt(PyObject *pySelf, PyObject *pyValue) {
@@ -925,27 +970,34 @@ static __forceinline PyObject *ObjectLinkedList_gt(PyObject *pySelf, PyObject *p
         return nullptr;
     }
 
-    if (self->list.size() != static_cast<size_t>(seqSize)) {
-        Py_RETURN_BOOL(self->list.size() < static_cast<size_t>(seqSize))
-    }
-
-    auto iter = self->list.begin();
-    for (Py_ssize_t i = 0; i < seqSize; i++, iter++) {
+    Cursor cursor(self);
+    for (Py_ssize_t i = 0; i < seqSize && static_cast<size_t>(i) < self->list.size(); ++i) {
         PyObject *item = PySequence_GetItem(pyValue, i);
         if (item == nullptr) {
             return nullptr;
         }
 
+        PyObject *self_value = cursor.get(self, static_cast<size_t>(i));
+        if (self_value == nullptr) {  // changed by user code
+            SAFE_DECREF(item);
+            break;
+        }
+
         // compare
-        int cmpResult = PyObject_RichCompareBool(*iter, item, Py_GT);
+        int cmpResult = PyObject_RichCompareBool(self_value, item, Py_EQ);
+        const bool differs = cmpResult == 0;
+        if (differs) {
+            cmpResult = PyObject_RichCompareBool(self_value, item, Py_GT);
+        }
+        SAFE_DECREF(self_value);
         SAFE_DECREF(item);
         if (cmpResult < 0) {
             return nullptr;
         }
-        Py_RETURN_BOOL(cmpResult == 1)  // self->list[i] > item
+        if (differs) Py_RETURN_BOOL(cmpResult == 1)  // self_value > item
     }
 
-    Py_RETURN_FALSE;
+    Py_RETURN_BOOL(self->list.size() > static_cast<size_t>(seqSize))
 }
 
 static __forceinline PyObject *ObjectLinkedList_ge(PyObject *pySelf, PyObject *pyValue) {
@@ -960,27 +1012,34 @@ static __forceinline PyObject *ObjectLinkedList_ge(PyObject *pySelf, PyObject *p
         return nullptr;
     }
 
-    if (self->list.size() != static_cast<size_t>(seqSize)) {
-        Py_RETURN_BOOL(self->list.size() < static_cast<size_t>(seqSize))
-    }
-
-    auto iter = self->list.begin();
-    for (Py_ssize_t i = 0; i < seqSize; i++, iter++) {
+    Cursor cursor(self);
+    for (Py_ssize_t i = 0; i < seqSize && static_cast<size_t>(i) < self->list.size(); ++i) {
         PyObject *item = PySequence_GetItem(pyValue, i);
         if (item == nullptr) {
             return nullptr;
         }
 
+        PyObject *self_value = cursor.get(self, static_cast<size_t>(i));
+        if (self_value == nullptr) {  // changed by user code
+            SAFE_DECREF(item);
+            break;
+        }
+
         // compare
-        int cmpResult = PyObject_RichCompareBool(*iter, item, Py_GE);
+        int cmpResult = PyObject_RichCompareBool(self_value, item, Py_EQ);
+        const bool differs = cmpResult == 0;
+        if (differs) {
+            cmpResult = PyObject_RichCompareBool(self_value, item, Py_GE);
+        }
+        SAFE_DECREF(self_value);
         SAFE_DECREF(item);
         if (cmpResult < 0) {
             return nullptr;
         }
-        Py_RETURN_BOOL(cmpResult == 1)  // self->list[i] >= item
+        if (differs) Py_RETURN_BOOL(cmpResult == 1)  // self_value >= item
     }
 
-    Py_RETURN_FALSE;
+    Py_RETURN_BOOL(self->list.size() >= static_cast<size_t>(seqSize))
 }
 
 static PyObject *ObjectLinkedList_compare(PyObject *pySelf, PyObject *pyValue, int op) {
@@ -1012,34 +1071,39 @@ static PyObject *ObjectLinkedList_class_getitem(PyObject *cls, PyObject *item) {
 static __forceinline PyObject *ObjectLinkedList_repr(PyObject *pySelf) {
     auto *self = reinterpret_cast<ObjectLinkedList *>(pySelf);
 
-    const auto &vec = self->list;
-
-    if (vec.empty()) {
+    if (self->list.empty()) {
         return PyUnicode_FromString("[]");
     }
 
-    PyObject *reprList = PyUnicode_FromString("[");
-    if (reprList == nullptr) {
-        return nullptr;
+    const int entered = Py_ReprEnter(pySelf);
+    if (entered != 0) {
+        return entered > 0 ? PyUnicode_FromString("[...]") : nullptr;
     }
 
-    // generate string
-    auto iter = self->list.begin();
-    for (size_t i = 0; i < vec.size() - 1; ++i, ++iter) {
-        PyObject *itemRepr = PyObject_Repr(*iter);
+    PyObject *reprList = PyUnicode_FromString("[");
+
+    // generate string: PyObject_Repr may run user code, which may change the list
+    Cursor cursor(self);
+    PyObject *item;
+    for (size_t i = 0; reprList != nullptr && (item = cursor.get(self, i)) != nullptr; ++i) {
+        PyObject *itemRepr = PyObject_Repr(item);
+        SAFE_DECREF(item);
         if (itemRepr == nullptr) {
             SAFE_DECREF(reprList);
-            return nullptr;
+            break;
         }
 
+        if (i > 0) {
+            PyUnicode_AppendAndDel(&reprList, PyUnicode_FromString(", "));
+        }
         PyUnicode_AppendAndDel(&reprList, itemRepr);
-        PyUnicode_AppendAndDel(&reprList, PyUnicode_FromString(", "));
     }
 
-    PyObject *itemRepr = PyObject_Repr(vec.back());
-    PyUnicode_AppendAndDel(&reprList, itemRepr);
-    PyUnicode_AppendAndDel(&reprList, PyUnicode_FromString("]"));
+    if (reprList != nullptr) {
+        PyUnicode_AppendAndDel(&reprList, PyUnicode_FromString("]"));
+    }
 
+    Py_ReprLeave(pySelf);
     return reprList;
 }
 
@@ -1105,7 +1169,7 @@ void initializeObjectLinkedListType(PyTypeObject &type) {
     type.tp_iter = ObjectLinkedList_iter;
     type.tp_methods = ObjectLinkedList_methods;
     type.tp_init = (initproc) ObjectLinkedList_init;
-    type.tp_new = PyType_GenericNew;
+    type.tp_new = ObjectLinkedList_new;
     type.tp_dealloc = (destructor) ObjectLinkedList_dealloc;
     type.tp_alloc = PyType_GenericAlloc;
     type.tp_free = PyObject_Del;
diff --git a/pyfastutil/src/objects/ObjectLinkedListIter.cpp b/pyfastutil/src/objects/ObjectLinkedListIter.cpp
index 8a3913e..51f4293 100644
--- a/pyfastutil/src/objects/ObjectLinkedListIter.cpp
+++ b/pyfastutil/src/objects/ObjectLinkedListIter.cpp
@@ -19,13 +19,13 @@ ObjectLinkedListIter *ObjectLinkedListIter_create(ObjectLinkedList *list, bool r
     Py_INCREF(list);
     instance->container = list;
     if (reversed) {
-        instance->index = (!list->list.empty()) ? list->list.size() - 1 : 0;
+        instance->index = list->list.size() - 1;  // SIZE_MAX if empty
         instance->reversed = true;
-        instance->cacheIter = --list->list.end();
+        new(&instance->cacheIter) std::list<PyObject *>::iterator(at(list->list, instance->index));
     } else {
         instance->index = 0;
         instance->reversed = false;
-        instance->cacheIter = list->list.begin();
+        new(&instance->cacheIter) std::list<PyObject *>::iterator(list->list.begin());
     }
     instance->cacheModCount = list->modCount;
 
@@ -43,11 +43,6 @@ static __forceinline void updateCache(ObjectLinkedListIter *&self) {
     }
 
     auto newIter = at(self->container->list, self->index);
-    if (self->reversed) {
-        self->index--;
-    } else {
-        self->index++;
-    }
     self->cacheIter = newIter;
     self->cacheModCount = self->container->modCount;
 }
@@ -55,44 +50,26 @@ static __forceinline void updateCache(ObjectLinkedListIter *&self) {
 static PyObject *ObjectLinkedListIter_next(PyObject *pySelf) {
     auto *self = reinterpret_cast<ObjectLinkedListIter *>(pySelf);
 
-    if (self->container->list.empty()) {
+    // SIZE_MAX is never a valid index: the iterator is finished for good
+    if (self->index >= self->container->list.size()) {
+        self->index = SIZE_MAX;
         PyErr_SetNone(PyExc_StopIteration);
         return nullptr;
     }
 
+    updateCache(self);
+    PyObject *element = *self->cacheIter;
     if (self->reversed) {
-        if (self->index == 0) {
-            // last iteration
-            PyObject *element = *(--self->container->list.end());
-            self->index = SIZE_MAX;
-            Py_INCREF(element);
-            return element;
+        if (self->index != 0) {
+            self->cacheIter--;
         }
-        if (self->index == SIZE_MAX) {
-            // already finish iteration
-            PyErr_SetNone(PyExc_StopIteration);
-            return nullptr;
-        }
-
-        updateCache(self);
-        PyObject *element = *self->cacheIter;
         self->index--;
-        self->cacheIter--;
-        Py_INCREF(element);
-        return element;
     } else {
-        if (self->index >= self->container->list.size()) {
-            PyErr_SetNone(PyExc_StopIteration);
-            return nullptr;
-        }
-
-        updateCache(self);
-        PyObject *element = *self->cacheIter;
         self->index++;
         self->cacheIter++;
-        Py_INCREF(element);
-        return element;
     }
+    Py_INCREF(element);
+    return element;
 }
 
 static PyObject *ObjectLinkedListIter_iter(PyObject *pySelf) {
-- 
2.43.0


From 903fb17dd9360daa5f40b719e29e7cf4d23772a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:56 +0000
Subject: [PATCH 13/24] fix: report memory exhaustion in repr of integer lists

---
 pyfastutil/src/ints/BigIntArrayList.cpp | 37 +++++++++++++----------
 pyfastutil/src/ints/IntArrayList.cpp    | 37 +++++++++++++----------
 pyfastutil/src/ints/IntLinkedList.cpp   | 39 ++++++++++++++-----------
 3 files changed, 64 insertions(+), 49 deletions(-)

diff --git a/pyfastutil/src/ints/BigIntArrayList.cpp b/pyfastutil/src/ints/BigIntArrayList.cpp
index 4b64fe8..2179733 100644
--- a/pyfastutil/src/ints/BigIntArrayList.cpp
+++ b/pyfastutil/src/ints/BigIntArrayList.cpp
@@ -1200,26 +1200,31 @@ static __forceinline PyObject *BigIntArrayList_repr(PyObject *pySelf) {
         return PyUnicode_FromString("[]");
     }
 
-    size_t size = vec.size();
-    auto str = std::string("[");
-    str.reserve(size * 4);
-
-    char buffer[32];
+    try {
+        size_t size = vec.size();
+        auto str = std::string("[");
+        str.reserve(size * 4);
+
+        char buffer[32];
+
+        const size_t lastIdx = size - 1;
+        for (size_t i = 0; i < lastIdx; ++i) {
+            // to string
+            int len = snprintf(buffer, sizeof(buffer), "%lld", vec[i]);
+            str.append(buffer, len);
+            str += ", ";
+        }
 
-    const size_t lastIdx = size - 1;
-    for (size_t i = 0; i < lastIdx; ++i) {
-        // to string
-        int len = snprintf(buffer, sizeof(buffer), "%lld", vec[i]);
+        int len = snprintf(buffer, sizeof(buffer), "%lld", vec[lastIdx]);
         str.append(buffer, len);
-        str += ", ";
-    }
-
-    int len = snprintf(buffer, sizeof(buffer), "%lld", vec[lastIdx]);
-    str.append(buffer, len);
 
-    str += "]";
+        str += "]";
 
-    return PyUnicode_FromString(str.c_str());
+        return PyUnicode_FromString(str.c_str());
+    } catch (const std::exception &e) {
+        PyErr_SetString(PyExc_RuntimeError, e.what());
+        return nullptr;
+    }
 }
 
 static PyObject *BigIntArrayList_str(PyObject *pySelf) {
diff --git a/pyfastutil/src/ints/IntArrayList.cpp b/pyfastutil/src/ints/IntArrayList.cpp
index 789a917..3c37596 100644
--- a/pyfastutil/src/ints/IntArrayList.cpp
+++ b/pyfastutil/src/ints/IntArrayList.cpp
@@ -1198,26 +1198,31 @@ static __forceinline PyObject *IntArrayList_repr(PyObject *pySelf) {
         return PyUnicode_FromString("[]");
     }
 
-    size_t size = vec.size();
-    auto str = std::string("[");
-    str.reserve(size * 4);
-
-    char buffer[32];
+    try {
+        size_t size = vec.size();
+        auto str = std::string("[");
+        str.reserve(size * 4);
+
+        char buffer[32];
+
+        const size_t lastIdx = size - 1;
+        for (size_t i = 0; i < lastIdx; ++i) {
+            // to string
+            int len = snprintf(buffer, sizeof(buffer), "%d", vec[i]);
+            str.append(buffer, len);
+            str += ", ";
+        }
 
-    const size_t lastIdx = size - 1;
-    for (size_t i = 0; i < lastIdx; ++i) {
-        // to string
-        int len = snprintf(buffer, sizeof(buffer), "%d", vec[i]);
+        int len = snprintf(buffer, sizeof(buffer), "%d", vec[lastIdx]);
         str.append(buffer, len);
-        str += ", ";
-    }
-
-    int len = snprintf(buffer, sizeof(buffer), "%d", vec[lastIdx]);
-    str.append(buffer, len);
 
-    str += "]";
+        str += "]";
 
-    return PyUnicode_FromString(str.c_str());
+        return PyUnicode_FromString(str.c_str());
+    } catch (const std::exception &e) {
+        PyErr_SetString(PyExc_RuntimeError, e.what());
+        return nullptr;
+    }
 }
 
 static PyObject *IntArrayList_str(PyObject *pySelf) {
diff --git a/pyfastutil/src/ints/IntLinkedList.cpp b/pyfastutil/src/ints/IntLinkedList.cpp
index 02f1e45..7844c4f 100644
--- a/pyfastutil/src/ints/IntLinkedList.cpp
+++ b/pyfastutil/src/ints/IntLinkedList.cpp
@@ -1083,27 +1083,32 @@ static __forceinline PyObject *IntLinkedList_repr(PyObject *pySelf) {
         return PyUnicode_FromString("[]");
     }
 
-    size_t size = vec.size();
-    auto str = std::string("[");
-    str.reserve(size * 4);
-
-    char buffer[32];
+    try {
+        size_t size = vec.size();
+        auto str = std::string("[");
+        str.reserve(size * 4);
+
+        char buffer[32];
+
+        const size_t lastIdx = size - 1;
+        auto iter = vec.begin();
+        for (size_t i = 0; i < lastIdx; ++i, ++iter) {
+            // to string
+            int len = snprintf(buffer, sizeof(buffer), "%d", *iter);
+            str.append(buffer, len);
+            str += ", ";
+        }
 
-    const size_t lastIdx = size - 1;
-    auto iter = vec.begin();
-    for (size_t i = 0; i < lastIdx; ++i, ++iter) {
-        // to string
-        int len = snprintf(buffer, sizeof(buffer), "%d", *iter);
+        int len = snprintf(buffer, sizeof(buffer), "%d", *at(vec, lastIdx));
         str.append(buffer, len);
-        str += ", ";
-    }
-
-    int len = snprintf(buffer, sizeof(buffer), "%d", *at(vec, lastIdx));
-    str.append(buffer, len);
 
-    str += "]";
+        str += "]";
 
-    return PyUnicode_FromString(str.c_str());
+        return PyUnicode_FromString(str.c_str());
+    } catch (const std::exception &e) {
+        PyErr_SetString(PyExc_RuntimeError, e.what());
+        return nullptr;
+    }
 }
 
 static PyObject *IntLinkedList_str(PyObject *pySelf) {
-- 
2.43.0


From 5744725c95e748f244edc5cb52ff446c5e89b0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:07 +0000
Subject: [PATCH 14/24] fix: never lose, wrap or over-release blocks and
 objects in Unsafe

---
 pyfastutil/src/unsafe/Unsafe.cpp | 86 +++++++++++++++++++++++++++-----
 1 file changed, 74 insertions(+), 12 deletions(-)

diff --git a/pyfastutil/src/unsafe/Unsafe.cpp b/pyfastutil/src/unsafe/Unsafe.cpp
index ffd4ff3..708defd 100644
--- a/pyfastutil/src/unsafe/Unsafe.cpp
+++ b/pyfastutil/src/unsafe/Unsafe.cpp
@@ -33,6 +33,36 @@ static PyObject *Unsafe_exit([[maybe_unused]] PyObject *self,
     Py_RETURN_NONE;
 }
 
+/**
+ * Hand a fresh block to the caller, or give it back if its address can't be returned.
+ */
+static PyObject *fromBlock(void *ptr) {
+    PyObject *result = PyLong_FromSize_t(reinterpret_cast<uintptr_t>(ptr));
+    if (result == nullptr) {
+        free(ptr);
+    }
+    return result;
+}
+
+/**
+ * "O&" converter: a size that fits in size_t, or an exception.
+ */
+static int convertSize(PyObject *object, void *result) {
+    PyObject *index = PyNumber_Index(object);
+    if (index == nullptr) {
+        return 0;
+    }
+
+    const size_t size = PyLong_AsSize_t(index);
+    Py_DECREF(index);
+    if (size == static_cast<size_t>(-1) && PyErr_Occurred()) {
+        return 0;
+    }
+
+    *static_cast<size_t *>(result) = size;
+    return 1;
+}
+
 static PyObject *Unsafe_malloc([[maybe_unused]] PyObject *self, PyObject *pySize) {
     const size_t size = PyLong_AsSize_t(pySize);
     if (PyErr_Occurred()) {
@@ -44,12 +74,12 @@ static PyObject *Unsafe_malloc([[maybe_unused]] PyObject *self, PyObject *pySize
         PyErr_SetString(PyExc_MemoryError, "Failed to alloc memory.");
         return nullptr;
     }
-    return PyLong_FromSize_t(reinterpret_cast<uintptr_t>(ptr));
+    return fromBlock(ptr);
 }
 
 static PyObject *Unsafe_calloc([[maybe_unused]] PyObject *self, PyObject *args) {
     size_t num, size;
-    if (!PyArg_ParseTuple(args, "KK", &num, &size)) {
+    if (!PyArg_ParseTuple(args, "O&O&", convertSize, &num, convertSize, &size)) {
         return nullptr;
     }
 
@@ -58,21 +88,37 @@ static PyObject *Unsafe_calloc([[maybe_unused]] PyObject *self, PyObject *args)
         PyErr_SetString(PyExc_MemoryError, "Failed to alloc memory.");
         return nullptr;
     }
-    return PyLong_FromSize_t(reinterpret_cast<uintptr_t>(ptr));
+    return fromBlock(ptr);
 }
 
 static PyObject *Unsafe_realloc([[maybe_unused]] PyObject *self, PyObject *args) {
     uintptr_t address;
     size_t newSize;
-    if (!PyArg_ParseTuple(args, "KK", &address, &newSize)) {
+    if (!PyArg_ParseTuple(args, "KO&", &address, convertSize, &newSize)) {
+        return nullptr;
+    }
+
+    // made before the block can move, so that there is memory for the new address.
+    PyObject *result = PyLong_FromSize_t(address);
+    if (result == nullptr) {
         return nullptr;
     }
 
-    void *ptr = realloc(reinterpret_cast<void *>(address), newSize);
+    // realloc(ptr, 0) would free the block.
+    void *ptr = realloc(reinterpret_cast<void *>(address), newSize == 0 ? 1 : newSize);
     if (ptr == nullptr) {
+        Py_DECREF(result);
         PyErr_SetString(PyExc_MemoryError, "Failed to realloc memory.");
         return nullptr;
     }
+    if (reinterpret_cast<uintptr_t>(ptr) == address) {
+        return result;
+    }
+
+    Py_DECREF(result);
+    if (address == 0) {
+        return fromBlock(ptr);
+    }
     return PyLong_FromSize_t(reinterpret_cast<uintptr_t>(ptr));
 }
 
@@ -89,15 +135,17 @@ static PyObject *Unsafe_free([[maybe_unused]] PyObject *self, PyObject *pyAddres
 static PyObject *Unsafe_alignedMalloc([[maybe_unused]] PyObject *self, PyObject *args) {
     size_t size;
     size_t alignment;
-    if (!PyArg_ParseTuple(args, "KK", &size, &alignment)) {
-        return nullptr;
-    }
-    if (PyErr_Occurred()) {
+    if (!PyArg_ParseTuple(args, "O&O&", convertSize, &size, convertSize, &alignment)) {
         return nullptr;
     }
 
     try {
-        return PyLong_FromSize_t(reinterpret_cast<uintptr_t>(alignedAlloc(size, alignment)));
+        void *ptr = alignedAlloc(size, alignment);
+        PyObject *result = PyLong_FromSize_t(reinterpret_cast<uintptr_t>(ptr));
+        if (result == nullptr) {
+            alignedFree(ptr);
+        }
+        return result;
     } catch (const std::exception &e) {
         PyErr_SetString(PyExc_MemoryError, e.what());
         return nullptr;
@@ -117,7 +165,12 @@ static PyObject *Unsafe_alignedFree([[maybe_unused]] PyObject *self, PyObject *p
 static PyObject *Unsafe_get([[maybe_unused]] PyObject *self, PyObject *args) {
     uintptr_t address;
     Py_ssize_t size;
-    if (!PyArg_ParseTuple(args, "KK", &address, &size)) {
+    if (!PyArg_ParseTuple(args, "Kn", &address, &size)) {
+        return nullptr;
+    }
+
+    if (size < 0) {
+        PyErr_SetString(PyExc_ValueError, "Size must not be negative.");
         return nullptr;
     }
 
@@ -247,7 +300,16 @@ static PyObject *Unsafe_getAddress([[maybe_unused]] PyObject *self, PyObject *py
 }
 
 static PyObject *Unsafe_as_object([[maybe_unused]] PyObject *self, PyObject *pyAddress) {
-    return reinterpret_cast<PyObject *>(PyLong_AsVoidPtr(pyAddress));
+    auto *object = reinterpret_cast<PyObject *>(PyLong_AsVoidPtr(pyAddress));
+    if (object == nullptr) {
+        if (!PyErr_Occurred()) {
+            PyErr_SetString(PyExc_ValueError, "NULL is not an object.");
+        }
+        return nullptr;
+    }
+
+    Py_INCREF(object);
+    return object;
 }
 
 static PyObject *Unsafe_memcpy([[maybe_unused]] PyObject *self, PyObject *const *args, Py_ssize_t nargs) {
-- 
2.43.0


From 8e9fbb7d58c08d63673762aa081fbdf5e7d8bd6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:04 +0000
Subject: [PATCH 15/24] fix: report stdio errors, end of input and memory
 exhaustion in Unsafe stdio calls

---
 pyfastutil/src/unsafe/Unsafe.cpp | 42 ++++++++++++++++++++++++++------
 1 file changed, 34 insertions(+), 8 deletions(-)

diff --git a/pyfastutil/src/unsafe/Unsafe.cpp b/pyfastutil/src/unsafe/Unsafe.cpp
index 708defd..aaa63b0 100644
--- a/pyfastutil/src/unsafe/Unsafe.cpp
+++ b/pyfastutil/src/unsafe/Unsafe.cpp
@@ -4,6 +4,10 @@
 
 #include "Unsafe.h"
 #include "mutex"
+#include <cerrno>
+#include <cstdio>
+#include <cstring>
+#include <new>
 #include "utils/memory/AlignedAllocator.h"
 #include "utils/memory/FastMemcpy.h"
 #include "utils/PythonUtils.h"
@@ -377,18 +381,25 @@ static PyObject *Unsafe_fputs([[maybe_unused]] PyObject *pySelf, PyObject *pyStr
         return nullptr;
     }
 
-    const char *str = PyUnicode_AsUTF8(pyStr);
+    Py_ssize_t size;
+    const char *str = PyUnicode_AsUTF8AndSize(pyStr, &size);
     if (str == nullptr) {
         return nullptr;
     }
 
-    fputs(str, stdout);
+    if (fwrite(str, 1, static_cast<size_t>(size), stdout) != static_cast<size_t>(size)) {
+        PyErr_SetFromErrno(PyExc_OSError);
+        return nullptr;
+    }
 
     Py_RETURN_NONE;
 }
 
 static PyObject *Unsafe_fflush([[maybe_unused]] PyObject *pySelf) {
-    fflush(stdout);
+    if (fflush(stdout) != 0) {
+        PyErr_SetFromErrno(PyExc_OSError);
+        return nullptr;
+    }
 
     Py_RETURN_NONE;
 }
@@ -399,20 +410,35 @@ static PyObject *Unsafe_fgets([[maybe_unused]] PyObject *pySelf, PyObject *pyBuf
         return nullptr;
     }
 
-    int bufferSize = (int) PyLong_AsLong(pyBufferSize);
+    const int bufferSize = PyFast_AsInt(pyBufferSize);
+    if (bufferSize == -1 && PyErr_Occurred()) {
+        return nullptr;
+    }
     if (bufferSize <= 0) {
         PyErr_SetString(PyExc_ValueError, "Buffer size must be positive.");
         return nullptr;
     }
 
-    char *buffer = new char[bufferSize];
+    char *buffer = new (std::nothrow) char[bufferSize];
+    if (buffer == nullptr) {
+        return PyErr_NoMemory();
+    }
 
     if (fgets(buffer, bufferSize, stdin) == nullptr) {
-        PyErr_SetString(PyExc_RuntimeError, "Error reading from stdin.");
-        return nullptr;
+        const int error = errno;
+        delete[] buffer;
+
+        if (ferror(stdin)) {
+            clearerr(stdin);
+            PyErr_Format(PyExc_RuntimeError, "Error reading from stdin: %s", strerror(error));
+            return nullptr;
+        }
+        return PyUnicode_FromString("");
     }
 
-    return Py_BuildValue("s", buffer);
+    PyObject *result = Py_BuildValue("s", buffer);
+    delete[] buffer;
+    return result;
 }
 
 static PyMethodDef Unsafe_methods[] = {
-- 
2.43.0


From c3926d33db8ef04c0c8b5acaedbe46211ae0b974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:10 +0000
Subject: [PATCH 16/24] fix: fail the import cleanly when a part of the module
 can't be made

---
 pyfastutil/src/PyFastUtil.cpp | 41 +++++++++++++++++++++++------------
 1 file changed, 27 insertions(+), 14 deletions(-)

diff --git a/pyfastutil/src/PyFastUtil.cpp b/pyfastutil/src/PyFastUtil.cpp
index 8677f81..2b26184 100644
--- a/pyfastutil/src/PyFastUtil.cpp
+++ b/pyfastutil/src/PyFastUtil.cpp
@@ -28,6 +28,19 @@ static struct PyModuleDef pyfastutilModule = {
         nullptr, nullptr, nullptr, nullptr, nullptr
 };
 
+/**
+ * Add a module to its parent. If either can't be made, release both.
+ */
+static bool addModule(PyObject *parent, const char *name, PyObject *module) {
+    if (module != nullptr && PyModule_AddObject(parent, name, module) == 0) {
+        return true;
+    }
+
+    Py_XDECREF(module);
+    Py_DECREF(parent);
+    return false;
+}
+
 #pragma clang diagnostic push
 #pragma ide diagnostic ignored "bugprone-reserved-identifier"
 #pragma ide diagnostic ignored "OCUnusedGlobalDeclarationInspection"
@@ -38,23 +51,23 @@ PyMODINIT_FUNC PyInit___pyfastutil() {
     if (parent == nullptr)
         return nullptr;
 
-    PyModule_AddObject(parent, "IntArrayList", PyInit_IntArrayList());
-    PyModule_AddObject(parent, "IntArrayListIter", PyInit_IntArrayListIter());
-    PyModule_AddObject(parent, "BigIntArrayList", PyInit_BigIntArrayList());
-    PyModule_AddObject(parent, "BigIntArrayListIter", PyInit_BigIntArrayListIter());
-    PyModule_AddObject(parent, "IntLinkedList", PyInit_IntLinkedList());
-    PyModule_AddObject(parent, "IntLinkedListIter", PyInit_IntLinkedListIter());
+    if (!addModule(parent, "IntArrayList", PyInit_IntArrayList())) return nullptr;
+    if (!addModule(parent, "IntArrayListIter", PyInit_IntArrayListIter())) return nullptr;
+    if (!addModule(parent, "BigIntArrayList", PyInit_BigIntArrayList())) return nullptr;
+    if (!addModule(parent, "BigIntArrayListIter", PyInit_BigIntArrayListIter())) return nullptr;
+    if (!addModule(parent, "IntLinkedList", PyInit_IntLinkedList())) return nullptr;
+    if (!addModule(parent, "IntLinkedListIter", PyInit_IntLinkedListIter())) return nullptr;
 //    PyModule_AddObject(parent, "IntIntHashMap", PyInit_IntIntHashMap());
 
-    PyModule_AddObject(parent, "ObjectArrayList", PyInit_ObjectArrayList());
-    PyModule_AddObject(parent, "ObjectArrayListIter", PyInit_ObjectArrayListIter());
-    PyModule_AddObject(parent, "ObjectLinkedList", PyInit_ObjectLinkedList());
-    PyModule_AddObject(parent, "ObjectLinkedListIter", PyInit_ObjectLinkedListIter());
+    if (!addModule(parent, "ObjectArrayList", PyInit_ObjectArrayList())) return nullptr;
+    if (!addModule(parent, "ObjectArrayListIter", PyInit_ObjectArrayListIter())) return nullptr;
+    if (!addModule(parent, "ObjectLinkedList", PyInit_ObjectLinkedList())) return nullptr;
+    if (!addModule(parent, "ObjectLinkedListIter", PyInit_ObjectLinkedListIter())) return nullptr;
 
-    PyModule_AddObject(parent, "Unsafe", PyInit_Unsafe());
-    PyModule_AddObject(parent, "SIMD", PyInit_SIMD());
-    PyModule_AddObject(parent, "SIMDLowAVX512", PyInit_SIMDLowAVX512());
-    PyModule_AddObject(parent, "ASM", PyInit_ASM());
+    if (!addModule(parent, "Unsafe", PyInit_Unsafe())) return nullptr;
+    if (!addModule(parent, "SIMD", PyInit_SIMD())) return nullptr;
+    if (!addModule(parent, "SIMDLowAVX512", PyInit_SIMDLowAVX512())) return nullptr;
+    if (!addModule(parent, "ASM", PyInit_ASM())) return nullptr;
 
     return parent;
 }
-- 
2.43.0


From 5372eb960d19cab9734460c217e6760743e39937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:08 +0000
Subject: [PATCH 17/24] fix: run every task of the thread pool once, outside
 the lock, and survive failed thread creation

---
 .../src/utils/thread/ScheduledThreadPool.cpp  | 23 +++++++++++++++----
 .../src/utils/thread/ScheduledThreadPool.h    | 18 ++++++++++-----
 2 files changed, 30 insertions(+), 11 deletions(-)

diff --git a/pyfastutil/src/utils/thread/ScheduledThreadPool.cpp b/pyfastutil/src/utils/thread/ScheduledThreadPool.cpp
index aa341fd..565e863 100644
--- a/pyfastutil/src/utils/thread/ScheduledThreadPool.cpp
+++ b/pyfastutil/src/utils/thread/ScheduledThreadPool.cpp
@@ -3,12 +3,20 @@
 //
 
 #include "ScheduledThreadPool.h"
+#include <algorithm>
 
 static const unsigned int HARDWARE_THREADS = std::thread::hardware_concurrency();
 
 __forceinline void ScheduledThreadPool::initThreads(const unsigned int count) {
-    for (unsigned int i = 0; i < count; ++i) {
-        threads.emplace_back([this]() { worker(); });
+    try {
+        // without any worker, no task would ever run.
+        for (unsigned int i = 0; i < std::max(count, 1u); ++i) {
+            threads.emplace_back([this]() { worker(); });
+        }
+    } catch (...) {
+        // a pool that can't be made must not leave running threads behind.
+        stop();
+        throw;
     }
 }
 
@@ -17,13 +25,14 @@ __forceinline void ScheduledThreadPool::worker() {
         std::unique_lock<std::mutex> curLock(mutex);
         tasksReady.wait(curLock, [this]() { return shutdown || !tasks.empty(); });
 
-        if (shutdown) {
-            return;
+        if (tasks.empty()) {
+            return;  // shutdown, and every accepted task has been taken.
         }
 
-        std::function<void()> task = tasks.front();
+        std::function<void()> task = std::move(tasks.front());
         tasks.pop();
 
+        curLock.unlock();
         task();
     }
 }
@@ -37,6 +46,10 @@ ScheduledThreadPool::ScheduledThreadPool(const unsigned int threadCount) {
 }
 
 ScheduledThreadPool::~ScheduledThreadPool() {
+    stop();
+}
+
+__forceinline void ScheduledThreadPool::stop() {
     {
         std::lock_guard<std::mutex> lock(this->mutex);
         shutdown = true;
diff --git a/pyfastutil/src/utils/thread/ScheduledThreadPool.h b/pyfastutil/src/utils/thread/ScheduledThreadPool.h
index ef6c2c5..119aa28 100644
--- a/pyfastutil/src/utils/thread/ScheduledThreadPool.h
+++ b/pyfastutil/src/utils/thread/ScheduledThreadPool.h
@@ -10,6 +10,10 @@
 #include <future>
 #include <atomic>
 #include <queue>
+#include <memory>
+#include <mutex>
+#include <thread>
+#include <vector>
 #include "Compat.h"
 
 class ScheduledThreadPool {
@@ -22,11 +26,11 @@ public:
 
     template<typename T>
     inline std::future<T> submit(const std::function<T()> &func) {
-        auto task = std::packaged_task<T()>(func);
-        std::future<T> future = task.get_future();
+        auto task = std::make_shared<std::packaged_task<T()>>(func);
+        std::future<T> future = task->get_future();
 
         std::lock_guard<std::mutex> lock(mutex);
-        std::function<void()> finalTask = [&task]() { task(); };
+        std::function<void()> finalTask = [task]() { (*task)(); };
         tasks.emplace(finalTask);
 
         tasksReady.notify_one();
@@ -35,11 +39,11 @@ public:
     }
 
     inline std::future<void> submit(const std::function<void()> &func) {
-        auto task = std::packaged_task<void()>(func);
-        std::future<void> future = task.get_future();
+        auto task = std::make_shared<std::packaged_task<void()>>(func);
+        std::future<void> future = task->get_future();
 
         std::lock_guard<std::mutex> lock(mutex);
-        std::function<void()> finalTask = [&task]() { task(); };
+        std::function<void()> finalTask = [task]() { (*task)(); };
         tasks.emplace(finalTask);
 
         tasksReady.notify_one();
@@ -57,6 +61,8 @@ private:
     __forceinline void initThreads(unsigned int count);
 
     __forceinline void worker();
+
+    __forceinline void stop();
 };
 
 #endif //PYFASTUTIL_SCHEDULEDTHREADPOOL_H
-- 
2.43.0


From 409e379dcce8cfd4d1b4ea838648a102b9fb1e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:06 +0000
Subject: [PATCH 18/24] fix: keep native functions executable and the registry
 usable when a call fails

---
 pyfastutil/src/unsafe/ASM.cpp | 92 ++++++++++++++++++++++++++---------
 1 file changed, 69 insertions(+), 23 deletions(-)

diff --git a/pyfastutil/src/unsafe/ASM.cpp b/pyfastutil/src/unsafe/ASM.cpp
index 98cfa86..001797f 100644
--- a/pyfastutil/src/unsafe/ASM.cpp
+++ b/pyfastutil/src/unsafe/ASM.cpp
@@ -6,15 +6,24 @@
 #include "utils/memory/AlignedAllocator.h"
 #include "utils/memory/FastMemcpy.h"
 #include "Compat.h"
-#include "utils/include/UnorderedDense.h"
 
 #ifdef WINDOWS
 
 #include "windows.h"
+#include <map>
+#include <mutex>
 
-static auto map = ankerl::unordered_dense::map<void *, std::pair<size_t, DWORD>>();
+// an insertion that fails must leave the other functions registered
+static auto map = std::map<void *, std::pair<size_t, DWORD>>();
 static auto lock = std::mutex();
 
+// protection applies to whole pages: functions must not share theirs with anything else
+static constexpr size_t CODE_PAGE = 4096;
+
+static void *allocFunction(const size_t size) {
+    return alignedAlloc((size / CODE_PAGE + 1) * CODE_PAGE, CODE_PAGE);
+}
+
 #endif
 
 extern "C" {
@@ -197,28 +206,42 @@ static PyObject *ASM_makeFunction([[maybe_unused]] PyObject *__restrict self,
 
     unsigned char *__restrict target;
     try {
-        target = (unsigned char *) alignedAlloc(size, 16);
+        target = (unsigned char *) allocFunction(size);
     } catch (const std::exception &e) {
         PyErr_SetString(PyExc_MemoryError, e.what());
         return nullptr;
     }
     fast_memcpy(target, code, size);
 
+    PyObject *result = PyLong_FromVoidPtr(target);
+    if (result == nullptr) {
+        alignedFree(target);
+        return nullptr;
+    }
+
     DWORD oldProtect;
     if (!VirtualProtect((LPVOID) target, size,
                         PAGE_EXECUTE_READWRITE, &oldProtect)) {
         PyErr_SetString(PyExc_OSError, "Failed to make ASM executable.");
+        Py_DECREF(result);
         alignedFree(target);
         return nullptr;
     }
 
-    lock.lock();
+    const std::lock_guard<std::mutex> guard(lock);
 
     assert(map.find(target) == map.end());
-    map[target] = std::pair(size, oldProtect);
+    try {
+        map[target] = std::pair(size, oldProtect);
+    } catch (const std::exception &e) {
+        PyErr_SetString(PyExc_MemoryError, e.what());
+        VirtualProtect((LPVOID) target, size, oldProtect, &oldProtect);
+        Py_DECREF(result);
+        alignedFree(target);
+        return nullptr;
+    }
 
-    lock.unlock();
-    return PyLong_FromVoidPtr(target);
+    return result;
 #else
     PyErr_SetString(PyExc_NotImplementedError, "ASM is not supported on this architecture.");
     return nullptr;
@@ -233,23 +256,38 @@ static PyObject *ASM_makeFunctionFast([[maybe_unused]] PyObject *__restrict self
 
     unsigned char *__restrict target;
     try {
-        target = (unsigned char *) alignedAlloc(size, 16);
+        target = (unsigned char *) allocFunction(size);
     } catch (const std::exception &e) {
         PyErr_SetString(PyExc_MemoryError, e.what());
         return nullptr;
     }
     fast_memcpy(target, code, size);
 
+    PyObject *result = PyLong_FromVoidPtr(target);
+    if (result == nullptr) {
+        alignedFree(target);
+        return nullptr;
+    }
+
     DWORD oldProtect;
     if (!VirtualProtect((LPVOID) target, size,
                         PAGE_EXECUTE_READWRITE, &oldProtect)) {
         PyErr_SetString(PyExc_OSError, "Failed to make ASM executable.");
+        Py_DECREF(result);
         alignedFree(target);
         return nullptr;
     }
 
-    map[target] = std::pair(size, oldProtect);
-    return PyLong_FromVoidPtr(target);
+    try {
+        map[target] = std::pair(size, oldProtect);
+    } catch (const std::exception &e) {
+        PyErr_SetString(PyExc_MemoryError, e.what());
+        VirtualProtect((LPVOID) target, size, oldProtect, &oldProtect);
+        Py_DECREF(result);
+        alignedFree(target);
+        return nullptr;
+    }
+    return result;
 #else
     PyErr_SetString(PyExc_NotImplementedError, "ASM is not supported on this architecture.");
     return nullptr;
@@ -265,21 +303,20 @@ static PyObject *ASM_freeFunction([[maybe_unused]] PyObject *__restrict self,
     }
 
     void *target = PyLong_AsVoidPtr(args[0]);
-    std::pair<size_t, DWORD> metadata;
+    if (target == nullptr && PyErr_Occurred()) {
+        return nullptr;
+    }
 
-    lock.lock();
+    const std::lock_guard<std::mutex> guard(lock);
 
-    try {
-        metadata = map.at(target);
-    } catch (const std::out_of_range& e) {
-        PyErr_SetString(
-                PyExc_ValueError,
-                (std::string("Invalid argument, does this function still exist? (") + e.what() + ")").c_str());
+    const auto metadata = map.find(target);
+    if (metadata == map.end()) {
+        PyErr_SetString(PyExc_ValueError, "Invalid argument, does this function still exist?");
         return nullptr;
     }
 
-    size_t size = metadata.first;
-    DWORD oldProtect = metadata.second;
+    size_t size = metadata->second.first;
+    DWORD oldProtect = metadata->second.second;
 
     if (!VirtualProtect((LPVOID) target, size, oldProtect, &oldProtect)) {
         PyErr_SetString(PyExc_OSError, "Failed to restore memory protection.");
@@ -289,7 +326,6 @@ static PyObject *ASM_freeFunction([[maybe_unused]] PyObject *__restrict self,
     alignedFree(target);
     map.erase(target);
 
-    lock.unlock();
     Py_RETURN_NONE;
 #else
     PyErr_SetString(PyExc_NotImplementedError, "ASM is not supported on this architecture.");
@@ -301,10 +337,20 @@ static PyObject *ASM_freeFunctionFast([[maybe_unused]] PyObject *__restrict self
                               PyObject *const *__restrict args, [[maybe_unused]] Py_ssize_t nargs) noexcept {
 #ifdef WINDOWS
     void *__restrict target = PyLong_AsVoidPtr(*args);
-    const std::pair<size_t, DWORD> metadata = map[(void *) target];
+    if (target == nullptr && PyErr_Occurred()) {
+        return nullptr;
+    }
+
+    const auto found = map.find((void *) target);
+    if (found == map.end()) {
+        PyErr_SetString(PyExc_ValueError, "Invalid argument, does this function still exist?");
+        return nullptr;
+    }
+
+    std::pair<size_t, DWORD> metadata = found->second;
 
     if (!VirtualProtect((LPVOID) target, metadata.first,
-                        metadata.second, (DWORD *) &(metadata.second))) {
+                        metadata.second, &metadata.second)) {
         PyErr_SetString(PyExc_OSError, "Failed to restore memory protection.");
         return nullptr;
     }
-- 
2.43.0


From 0839a8264c53f1e79426de45dccb2924335e721a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:50 +0000
Subject: [PATCH 19/24] fix: report a line that fputs could not flush

---
 pyfastutil/src/unsafe/Unsafe.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyfastutil/src/unsafe/Unsafe.cpp b/pyfastutil/src/unsafe/Unsafe.cpp
index aaa63b0..8470d1f 100644
--- a/pyfastutil/src/unsafe/Unsafe.cpp
+++ b/pyfastutil/src/unsafe/Unsafe.cpp
@@ -387,8 +387,10 @@ static PyObject *Unsafe_fputs([[maybe_unused]] PyObject *pySelf, PyObject *pyStr
         return nullptr;
     }
 
-    if (fwrite(str, 1, static_cast<size_t>(size), stdout) != static_cast<size_t>(size)) {
+    // fwrite may count data as written although the line could not be flushed.
+    if (fwrite(str, 1, static_cast<size_t>(size), stdout) != static_cast<size_t>(size) || ferror(stdout)) {
         PyErr_SetFromErrno(PyExc_OSError);
+        clearerr(stdout);
         return nullptr;
     }
 
@@ -398,6 +400,7 @@ static PyObject *Unsafe_fputs([[maybe_unused]] PyObject *pySelf, PyObject *pyStr
 static PyObject *Unsafe_fflush([[maybe_unused]] PyObject *pySelf) {
     if (fflush(stdout) != 0) {
         PyErr_SetFromErrno(PyExc_OSError);
+        clearerr(stdout);
         return nullptr;
     }
 
-- 
2.43.0


From aa0901f36648f8365d2c95710f9f9e99d2ca772b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:38 +0000
Subject: [PATCH 20/24] fix: count range elements without signed overflow

---
 pyfastutil/src/ints/BigIntArrayList.cpp | 13 +++++++------
 pyfastutil/src/ints/IntArrayList.cpp    | 13 +++++++------
 pyfastutil/src/ints/IntLinkedList.cpp   | 13 +++++++------
 3 files changed, 21 insertions(+), 18 deletions(-)

diff --git a/pyfastutil/src/ints/BigIntArrayList.cpp b/pyfastutil/src/ints/BigIntArrayList.cpp
index 2179733..d85821d 100644
--- a/pyfastutil/src/ints/BigIntArrayList.cpp
+++ b/pyfastutil/src/ints/BigIntArrayList.cpp
@@ -152,25 +152,26 @@ static PyObject *BigIntArrayList_from_range([[maybe_unused]] PyObject *cls, PyOb
     if (list == nullptr) return nullptr;
 
     try {
-        Py_ssize_t elements;
+        // unsigned: the distance between the bounds may not fit in Py_ssize_t.
+        size_t elements;
         if (step > 0) {
             if (start >= stop) {
                 return reinterpret_cast<PyObject *>(list);
             }
-            elements = (stop - start + step - 1) / step;
+            elements = (static_cast<size_t>(stop) - static_cast<size_t>(start) - 1) / static_cast<size_t>(step) + 1;
         } else { // step < 0
             if (start <= stop) {
                 return reinterpret_cast<PyObject *>(list);
             }
-            elements = (start - stop + (-step) - 1) / (-step);
+            elements = (static_cast<size_t>(start) - static_cast<size_t>(stop) - 1) / (0 - static_cast<size_t>(step)) + 1;
         }
 
         list->vector.resize(elements);
 
-        Py_ssize_t current = start;
-        for (Py_ssize_t idx = 0; idx < elements; ++idx) {
+        auto current = static_cast<size_t>(start);
+        for (size_t idx = 0; idx < elements; ++idx) {
             list->vector[idx] = static_cast<long long>(current);
-            current += step;
+            current += static_cast<size_t>(step);
         }
 
     } catch (const std::exception &e) {
diff --git a/pyfastutil/src/ints/IntArrayList.cpp b/pyfastutil/src/ints/IntArrayList.cpp
index 3c37596..e9e0315 100644
--- a/pyfastutil/src/ints/IntArrayList.cpp
+++ b/pyfastutil/src/ints/IntArrayList.cpp
@@ -152,25 +152,26 @@ static PyObject *IntArrayList_from_range([[maybe_unused]] PyObject *cls, PyObjec
     if (list == nullptr) return nullptr;
 
     try {
-        Py_ssize_t elements;
+        // unsigned: the distance between the bounds may not fit in Py_ssize_t.
+        size_t elements;
         if (step > 0) {
             if (start >= stop) {
                 return reinterpret_cast<PyObject *>(list);
             }
-            elements = (stop - start + step - 1) / step;
+            elements = (static_cast<size_t>(stop) - static_cast<size_t>(start) - 1) / static_cast<size_t>(step) + 1;
         } else { // step < 0
             if (start <= stop) {
                 return reinterpret_cast<PyObject *>(list);
             }
-            elements = (start - stop + (-step) - 1) / (-step);
+            elements = (static_cast<size_t>(start) - static_cast<size_t>(stop) - 1) / (0 - static_cast<size_t>(step)) + 1;
         }
 
         list->vector.resize(elements);
 
-        Py_ssize_t current = start;
-        for (Py_ssize_t idx = 0; idx < elements; ++idx) {
+        auto current = static_cast<size_t>(start);
+        for (size_t idx = 0; idx < elements; ++idx) {
             list->vector[idx] = static_cast<int>(current);
-            current += step;
+            current += static_cast<size_t>(step);
         }
 
     } catch (const std::exception &e) {
diff --git a/pyfastutil/src/ints/IntLinkedList.cpp b/pyfastutil/src/ints/IntLinkedList.cpp
index 7844c4f..b549fb5 100644
--- a/pyfastutil/src/ints/IntLinkedList.cpp
+++ b/pyfastutil/src/ints/IntLinkedList.cpp
@@ -125,23 +125,24 @@ static PyObject *IntLinkedList_from_range([[maybe_unused]] PyObject *cls, PyObje
     if (list == nullptr) return nullptr;
 
     try {
-        Py_ssize_t elements;
+        // unsigned: the distance between the bounds may not fit in Py_ssize_t.
+        size_t elements;
         if (step > 0) {
             if (start >= stop) {
                 return reinterpret_cast<PyObject *>(list);
             }
-            elements = (stop - start + step - 1) / step;
+            elements = (static_cast<size_t>(stop) - static_cast<size_t>(start) - 1) / static_cast<size_t>(step) + 1;
         } else { // step < 0
             if (start <= stop) {
                 return reinterpret_cast<PyObject *>(list);
             }
-            elements = (start - stop + (-step) - 1) / (-step);
+            elements = (static_cast<size_t>(start) - static_cast<size_t>(stop) - 1) / (0 - static_cast<size_t>(step)) + 1;
         }
 
-        Py_ssize_t current = start;
-        for (Py_ssize_t idx = 0; idx < elements; ++idx) {
+        auto current = static_cast<size_t>(start);
+        for (size_t idx = 0; idx < elements; ++idx) {
             list->list.push_back(static_cast<int>(current));
-            current += step;
+            current += static_cast<size_t>(step);
         }
 
     } catch (const std::exception &e) {
-- 
2.43.0


From 6d541ff175fadbd42ba1761bf128c73094e32e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:21 +0000
Subject: [PATCH 21/24] fix: reject list indices that are neither integers nor
 slices

---
 pyfastutil/src/ints/BigIntArrayList.cpp     | 10 ++++++++++
 pyfastutil/src/ints/IntArrayList.cpp        | 10 ++++++++++
 pyfastutil/src/ints/IntLinkedList.cpp       | 10 ++++++++++
 pyfastutil/src/objects/ObjectArrayList.cpp  | 10 ++++++++++
 pyfastutil/src/objects/ObjectLinkedList.cpp | 10 ++++++++++
 5 files changed, 50 insertions(+)

diff --git a/pyfastutil/src/ints/BigIntArrayList.cpp b/pyfastutil/src/ints/BigIntArrayList.cpp
index d85821d..e92b42c 100644
--- a/pyfastutil/src/ints/BigIntArrayList.cpp
+++ b/pyfastutil/src/ints/BigIntArrayList.cpp
@@ -647,6 +647,11 @@ static PyObject *BigIntArrayList_getitem_slice(PyObject *pySelf, PyObject *slice
         return BigIntArrayList_getitem(pySelf, pyIndex);
     }
 
+    if (!PySlice_Check(slice)) {
+        PyErr_Format(PyExc_TypeError, "list indices must be integers or slices, not %.200s", Py_TYPE(slice)->tp_name);
+        return nullptr;
+    }
+
     auto *self = reinterpret_cast<BigIntArrayList *>(pySelf);
 
     Py_ssize_t start, stop, step, sliceLength;
@@ -719,6 +724,11 @@ static int BigIntArrayList_setitem_slice(PyObject *pySelf, PyObject *slice, PyOb
         return BigIntArrayList_setitem(pySelf, index, value);
     }
 
+    if (!PySlice_Check(slice)) {
+        PyErr_Format(PyExc_TypeError, "list indices must be integers or slices, not %.200s", Py_TYPE(slice)->tp_name);
+        return -1;
+    }
+
     auto *self = reinterpret_cast<BigIntArrayList *>(pySelf);
 
     Py_ssize_t start, stop, step, sliceLength;
diff --git a/pyfastutil/src/ints/IntArrayList.cpp b/pyfastutil/src/ints/IntArrayList.cpp
index e9e0315..0a9e580 100644
--- a/pyfastutil/src/ints/IntArrayList.cpp
+++ b/pyfastutil/src/ints/IntArrayList.cpp
@@ -645,6 +645,11 @@ static PyObject *IntArrayList_getitem_slice(PyObject *pySelf, PyObject *slice) {
         return IntArrayList_getitem(pySelf, pyIndex);
     }
 
+    if (!PySlice_Check(slice)) {
+        PyErr_Format(PyExc_TypeError, "list indices must be integers or slices, not %.200s", Py_TYPE(slice)->tp_name);
+        return nullptr;
+    }
+
     auto *self = reinterpret_cast<IntArrayList *>(pySelf);
 
     Py_ssize_t start, stop, step, sliceLength;
@@ -717,6 +722,11 @@ static int IntArrayList_setitem_slice(PyObject *pySelf, PyObject *slice, PyObjec
         return IntArrayList_setitem(pySelf, index, value);
     }
 
+    if (!PySlice_Check(slice)) {
+        PyErr_Format(PyExc_TypeError, "list indices must be integers or slices, not %.200s", Py_TYPE(slice)->tp_name);
+        return -1;
+    }
+
     auto *self = reinterpret_cast<IntArrayList *>(pySelf);
 
     Py_ssize_t start, stop, step, sliceLength;
diff --git a/pyfastutil/src/ints/IntLinkedList.cpp b/pyfastutil/src/ints/IntLinkedList.cpp
index b549fb5..dba6141 100644
--- a/pyfastutil/src/ints/IntLinkedList.cpp
+++ b/pyfastutil/src/ints/IntLinkedList.cpp
@@ -560,6 +560,11 @@ static PyObject *IntLinkedList_getitem_slice(PyObject *pySelf, PyObject *slice)
         return IntLinkedList_getitem(pySelf, pyIndex);
     }
 
+    if (!PySlice_Check(slice)) {
+        PyErr_Format(PyExc_TypeError, "list indices must be integers or slices, not %.200s", Py_TYPE(slice)->tp_name);
+        return nullptr;
+    }
+
     auto *self = reinterpret_cast<IntLinkedList *>(pySelf);
 
     Py_ssize_t start, stop, step, sliceLength;
@@ -633,6 +638,11 @@ static int IntLinkedList_setitem_slice(PyObject *pySelf, PyObject *slice, PyObje
         return IntLinkedList_setitem(pySelf, index, value);
     }
 
+    if (!PySlice_Check(slice)) {
+        PyErr_Format(PyExc_TypeError, "list indices must be integers or slices, not %.200s", Py_TYPE(slice)->tp_name);
+        return -1;
+    }
+
     auto *self = reinterpret_cast<IntLinkedList *>(pySelf);
 
     Py_ssize_t start, stop, step, sliceLength;
diff --git a/pyfastutil/src/objects/ObjectArrayList.cpp b/pyfastutil/src/objects/ObjectArrayList.cpp
index c73d95f..c168ae9 100644
--- a/pyfastutil/src/objects/ObjectArrayList.cpp
+++ b/pyfastutil/src/objects/ObjectArrayList.cpp
@@ -557,6 +557,11 @@ static PyObject *ObjectArrayList_getitem_slice(PyObject *pySelf, PyObject *slice
         return ObjectArrayList_getitem(pySelf, pyIndex);
     }
 
+    if (!PySlice_Check(slice)) {
+        PyErr_Format(PyExc_TypeError, "list indices must be integers or slices, not %.200s", Py_TYPE(slice)->tp_name);
+        return nullptr;
+    }
+
     auto *self = reinterpret_cast<ObjectArrayList *>(pySelf);
 
     Py_ssize_t start, stop, step, sliceLength;
@@ -625,6 +630,11 @@ static int ObjectArrayList_setitem_slice(PyObject *pySelf, PyObject *slice, PyOb
         return ObjectArrayList_setitem(pySelf, index, value);
     }
 
+    if (!PySlice_Check(slice)) {
+        PyErr_Format(PyExc_TypeError, "list indices must be integers or slices, not %.200s", Py_TYPE(slice)->tp_name);
+        return -1;
+    }
+
     auto *self = reinterpret_cast<ObjectArrayList *>(pySelf);
 
     Py_ssize_t start, stop, step, sliceLength;
diff --git a/pyfastutil/src/objects/ObjectLinkedList.cpp b/pyfastutil/src/objects/ObjectLinkedList.cpp
index 29a3db7..739e556 100644
--- a/pyfastutil/src/objects/ObjectLinkedList.cpp
+++ b/pyfastutil/src/objects/ObjectLinkedList.cpp
@@ -528,6 +528,11 @@ static PyObject *ObjectLinkedList_getitem_slice(PyObject *pySelf, PyObject *slic
         return ObjectLinkedList_getitem(pySelf, pyIndex);
     }
 
+    if (!PySlice_Check(slice)) {
+        PyErr_Format(PyExc_TypeError, "list indices must be integers or slices, not %.200s", Py_TYPE(slice)->tp_name);
+        return nullptr;
+    }
+
     auto *self = reinterpret_cast<ObjectLinkedList *>(pySelf);
 
     Py_ssize_t start, stop, step, sliceLength;
@@ -604,6 +609,11 @@ static int ObjectLinkedList_setitem_slice(PyObject *pySelf, PyObject *slice, PyO
         return ObjectLinkedList_setitem(pySelf, index, value);
     }
 
+    if (!PySlice_Check(slice)) {
+        PyErr_Format(PyExc_TypeError, "list indices must be integers or slices, not %.200s", Py_TYPE(slice)->tp_name);
+        return -1;
+    }
+
     auto *self = reinterpret_cast<ObjectLinkedList *>(pySelf);
 
     Py_ssize_t start, stop, step, sliceLength;
-- 
2.43.0


From c1687d2cd2fd564ff7eb19cc62b35f3c69b62e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:15 +0000
Subject: [PATCH 22/24] fix: multiply empty lists at once and refuse impossible
 lengths

---
 pyfastutil/src/ints/BigIntArrayList.cpp     |  4 ++--
 pyfastutil/src/ints/IntArrayList.cpp        |  4 ++--
 pyfastutil/src/ints/IntLinkedList.cpp       | 16 ++++++++++++++--
 pyfastutil/src/objects/ObjectArrayList.cpp  |  4 ++--
 pyfastutil/src/objects/ObjectLinkedList.cpp | 11 +++++++++--
 5 files changed, 29 insertions(+), 10 deletions(-)

diff --git a/pyfastutil/src/ints/BigIntArrayList.cpp b/pyfastutil/src/ints/BigIntArrayList.cpp
index e92b42c..32f80e1 100644
--- a/pyfastutil/src/ints/BigIntArrayList.cpp
+++ b/pyfastutil/src/ints/BigIntArrayList.cpp
@@ -855,7 +855,7 @@ static PyObject *BigIntArrayList_mul(PyObject *pySelf, Py_ssize_t n) {
         return nullptr;
     }
 
-    if (n == 0) {
+    if (n == 0 || self->vector.empty()) {
         return reinterpret_cast<PyObject *>(result);
     }
 
@@ -903,7 +903,7 @@ static PyObject *BigIntArrayList_imul(PyObject *pySelf, Py_ssize_t n) {
     if (n != 1 && !self->vector.empty() && !checkResizable(self)) return nullptr;
 
     try {
-        if (n == 0) {
+        if (n == 0 || self->vector.empty()) {
             self->vector.clear();
         } else {
             const auto selfSize = self->vector.size();
diff --git a/pyfastutil/src/ints/IntArrayList.cpp b/pyfastutil/src/ints/IntArrayList.cpp
index 0a9e580..0d67b51 100644
--- a/pyfastutil/src/ints/IntArrayList.cpp
+++ b/pyfastutil/src/ints/IntArrayList.cpp
@@ -853,7 +853,7 @@ static PyObject *IntArrayList_mul(PyObject *pySelf, Py_ssize_t n) {
         return nullptr;
     }
 
-    if (n == 0) {
+    if (n == 0 || self->vector.empty()) {
         return reinterpret_cast<PyObject *>(result);
     }
 
@@ -901,7 +901,7 @@ static PyObject *IntArrayList_imul(PyObject *pySelf, Py_ssize_t n) {
     if (n != 1 && !self->vector.empty() && !checkResizable(self)) return nullptr;
 
     try {
-        if (n == 0) {
+        if (n == 0 || self->vector.empty()) {
             self->vector.clear();
         } else {
             const auto selfSize = self->vector.size();
diff --git a/pyfastutil/src/ints/IntLinkedList.cpp b/pyfastutil/src/ints/IntLinkedList.cpp
index dba6141..f181cc4 100644
--- a/pyfastutil/src/ints/IntLinkedList.cpp
+++ b/pyfastutil/src/ints/IntLinkedList.cpp
@@ -139,6 +139,11 @@ static PyObject *IntLinkedList_from_range([[maybe_unused]] PyObject *cls, PyObje
             elements = (static_cast<size_t>(start) - static_cast<size_t>(stop) - 1) / (0 - static_cast<size_t>(step)) + 1;
         }
 
+        if (elements > list->list.max_size()) {
+            SAFE_DECREF(list);
+            return PyErr_NoMemory();
+        }
+
         auto current = static_cast<size_t>(start);
         for (size_t idx = 0; idx < elements; ++idx) {
             list->list.push_back(static_cast<int>(current));
@@ -757,10 +762,15 @@ static PyObject *IntLinkedList_mul(PyObject *pySelf, Py_ssize_t n) {
         return nullptr;
     }
 
-    if (n == 0) {
+    if (n == 0 || self->list.empty()) {
         return reinterpret_cast<PyObject *>(result);
     }
 
+    if (self->list.size() > self->list.max_size() / static_cast<size_t>(n)) {
+        SAFE_DECREF(result);
+        return PyErr_NoMemory();
+    }
+
     try {
         for (Py_ssize_t i = 0; i < n; ++i) {
             result->list.insert(result->list.end(), self->list.begin(), self->list.end());
@@ -796,8 +806,10 @@ static PyObject *IntLinkedList_imul(PyObject *pySelf, Py_ssize_t n) {
     }
 
     try {
-        if (n == 0) {
+        if (n == 0 || self->list.empty()) {
             self->list.clear();
+        } else if (self->list.size() > self->list.max_size() / static_cast<size_t>(n)) {
+            return PyErr_NoMemory();
         } else {
             std::list<int> copies;
             for (Py_ssize_t i = 1; i < n; ++i) {
diff --git a/pyfastutil/src/objects/ObjectArrayList.cpp b/pyfastutil/src/objects/ObjectArrayList.cpp
index c168ae9..bd7844b 100644
--- a/pyfastutil/src/objects/ObjectArrayList.cpp
+++ b/pyfastutil/src/objects/ObjectArrayList.cpp
@@ -749,7 +749,7 @@ static PyObject *ObjectArrayList_mul(PyObject *pySelf, Py_ssize_t n) {
         return PyErr_NoMemory();
     }
 
-    if (n == 0) {
+    if (n == 0 || self->vector.empty()) {
         return reinterpret_cast<PyObject *>(result);
     }
 
@@ -798,7 +798,7 @@ static PyObject *ObjectArrayList_imul(PyObject *pySelf, Py_ssize_t n) {
     }
 
     try {
-        if (n == 0) {
+        if (n == 0 || self->vector.empty()) {
             std::vector<PyObject *> removed;
             self->vector.swap(removed);
             releaseItems(removed);
diff --git a/pyfastutil/src/objects/ObjectLinkedList.cpp b/pyfastutil/src/objects/ObjectLinkedList.cpp
index 739e556..91e015e 100644
--- a/pyfastutil/src/objects/ObjectLinkedList.cpp
+++ b/pyfastutil/src/objects/ObjectLinkedList.cpp
@@ -728,10 +728,15 @@ static PyObject *ObjectLinkedList_mul(PyObject *pySelf, Py_ssize_t n) {
         return PyErr_NoMemory();
     }
 
-    if (n == 0) {
+    if (n == 0 || self->list.empty()) {
         return reinterpret_cast<PyObject *>(result);
     }
 
+    if (self->list.size() > self->list.max_size() / static_cast<size_t>(n)) {
+        SAFE_DECREF(result);
+        return PyErr_NoMemory();
+    }
+
     try {
         for (Py_ssize_t i = 0; i < n; ++i) {
             for (const auto obj: self->list) {
@@ -770,11 +775,13 @@ static PyObject *ObjectLinkedList_imul(PyObject *pySelf, Py_ssize_t n) {
     }
 
     try {
-        if (n == 0) {
+        if (n == 0 || self->list.empty()) {
             std::list<PyObject *> removed;
             self->list.swap(removed);
             self->modCount++;
             releaseItems(removed);
+        } else if (self->list.size() > self->list.max_size() / static_cast<size_t>(n)) {
+            return PyErr_NoMemory();
         } else {
             std::list<PyObject *> added;
             for (Py_ssize_t i = 1; i < n; ++i) {
-- 
2.43.0


From 1d45cd77cae47e32789e76f9f3dd6886fb3eca50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:02 +0000
Subject: [PATCH 23/24] fix: release deeply nested object lists without
 overflowing the stack

Dropping an ObjectArrayList or ObjectLinkedList released its items
recursively: lists holding each other some hundred thousand levels deep
ended the process. Beyond a fixed depth the items are now queued and
released by the outermost call.
---
 pyfastutil/src/objects/ObjectArrayList.cpp  | 11 +------
 pyfastutil/src/objects/ObjectLinkedList.cpp | 11 +------
 pyfastutil/src/utils/PythonUtils.h          | 35 +++++++++++++++++++++
 3 files changed, 37 insertions(+), 20 deletions(-)

diff --git a/pyfastutil/src/objects/ObjectArrayList.cpp b/pyfastutil/src/objects/ObjectArrayList.cpp
index bd7844b..dbe8724 100644
--- a/pyfastutil/src/objects/ObjectArrayList.cpp
+++ b/pyfastutil/src/objects/ObjectArrayList.cpp
@@ -20,13 +20,6 @@ static PyTypeObject ObjectArrayListType = {
         PyVarObject_HEAD_INIT(&PyType_Type, 0)
 };
 
-// only for items that are no longer in a list: their finalizers may run any code
-static void releaseItems(const std::vector<PyObject *> &items) {
-    for (PyObject *item: items) {
-        Py_DECREF(item);
-    }
-}
-
 static __forceinline bool parseArgs(PyObject *&args, PyObject *&kwargs, PyObject *&pyIterable, Py_ssize_t &pySize) {
     static constexpr const char *kwlist[] = {"iterable", "exceptSize", nullptr};
 
@@ -125,9 +118,7 @@ static int ObjectArrayList_init(ObjectArrayList *self, PyObject *args, PyObject
 }
 
 static void ObjectArrayList_dealloc(ObjectArrayList *self) {
-    for (PyObject *item: self->vector) {
-        SAFE_DECREF(item);
-    }
+    releaseItems(self->vector);
     self->vector.~vector();
     Py_TYPE(self)->tp_free((PyObject *) self);
 }
diff --git a/pyfastutil/src/objects/ObjectLinkedList.cpp b/pyfastutil/src/objects/ObjectLinkedList.cpp
index 91e015e..a9fe4e4 100644
--- a/pyfastutil/src/objects/ObjectLinkedList.cpp
+++ b/pyfastutil/src/objects/ObjectLinkedList.cpp
@@ -21,13 +21,6 @@ static PyTypeObject ObjectLinkedListType = {
         PyVarObject_HEAD_INIT(&PyType_Type, 0)
 };
 
-// only for items that are no longer in a list: their finalizers may run any code
-static void releaseItems(const std::list<PyObject *> &items) {
-    for (PyObject *item: items) {
-        Py_DECREF(item);
-    }
-}
-
 static PyObject *ObjectLinkedList_new(PyTypeObject *type, [[maybe_unused]] PyObject *args,
                                       [[maybe_unused]] PyObject *kwargs) {
     auto *self = reinterpret_cast<ObjectLinkedList *>(type->tp_alloc(type, 0));
@@ -104,9 +97,7 @@ static int ObjectLinkedList_init(ObjectLinkedList *self, PyObject *args, PyObjec
 }
 
 static void ObjectLinkedList_dealloc(ObjectLinkedList *self) {
-    for (PyObject *item: self->list) {
-        SAFE_DECREF(item);
-    }
+    releaseItems(self->list);
     self->list.~list();
     Py_TYPE(self)->tp_free((PyObject *) self);
 }
diff --git a/pyfastutil/src/utils/PythonUtils.h b/pyfastutil/src/utils/PythonUtils.h
index 44c4340..8ab7015 100644
--- a/pyfastutil/src/utils/PythonUtils.h
+++ b/pyfastutil/src/utils/PythonUtils.h
@@ -6,6 +6,7 @@
 #define PYFASTUTIL_PYTHONUTILS_H
 
 #include <iostream>
+#include <vector>
 #include "PythonPCH.h"
 #include "Compat.h"
 
@@ -34,6 +35,40 @@ static __forceinline constexpr void SAFE_DECREF(T *&object) noexcept {
     PyFast_DECREF(old);
 }
 
+/**
+ * Release the items of a container. Only for items that can't be reached from a live list any more: their finalizers
+ * may run any code.
+ * Containers that hold each other very deeply are released one after another, the stack could overflow otherwise.
+ */
+template<typename Container>
+static void releaseItems(const Container &items) noexcept {
+    static thread_local unsigned int depth = 0;
+    static thread_local std::vector<PyObject *> later;
+
+    if (depth >= 50) {
+        try {
+            later.insert(later.end(), items.begin(), items.end());
+            return;
+        } catch (const std::exception &) {
+            // no memory to remember them
+        }
+    }
+
+    ++depth;
+    for (PyObject *item: items) {
+        Py_DECREF(item);
+    }
+    if (depth == 1 && later.capacity() > 0) {
+        while (!later.empty()) {
+            PyObject *item = later.back();
+            later.pop_back();
+            Py_DECREF(item);
+        }
+        std::vector<PyObject *>().swap(later);
+    }
+    --depth;
+}
+
 template<typename T>
 static __forceinline T *Py_CreateObj(PyTypeObject &typeObj) noexcept {
     return (T *) PyObject_CallObject((PyObject *) &typeObj, nullptr);
-- 
2.43.0


From 25d90e9fa9787af20d89e07319a98637e38d535e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:04 +0000
Subject: [PATCH 24/24] fix: build object lists from list and tuple subclasses
 through their own iteration

---
 pyfastutil/src/objects/ObjectArrayList.cpp  | 2 +-
 pyfastutil/src/objects/ObjectLinkedList.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyfastutil/src/objects/ObjectArrayList.cpp b/pyfastutil/src/objects/ObjectArrayList.cpp
index dbe8724..a2f5e98 100644
--- a/pyfastutil/src/objects/ObjectArrayList.cpp
+++ b/pyfastutil/src/objects/ObjectArrayList.cpp
@@ -74,7 +74,7 @@ static int ObjectArrayList_init(ObjectArrayList *self, PyObject *args, PyObject
                 for (const auto &item: vector) {
                     Py_INCREF(item);
                 }
-            } else if (PyList_Check(pyIterable) || PyTuple_Check(pyIterable)) {  // fast operation
+            } else if (PyList_CheckExact(pyIterable) || PyTuple_CheckExact(pyIterable)) {  // fast operation
                 const auto size = PySequence_Fast_GET_SIZE(pyIterable);
                 auto items = PySequence_Fast_ITEMS(pyIterable);
 
diff --git a/pyfastutil/src/objects/ObjectLinkedList.cpp b/pyfastutil/src/objects/ObjectLinkedList.cpp
index a9fe4e4..e079399 100644
--- a/pyfastutil/src/objects/ObjectLinkedList.cpp
+++ b/pyfastutil/src/objects/ObjectLinkedList.cpp
@@ -53,7 +53,7 @@ static int ObjectLinkedList_init(ObjectLinkedList *self, PyObject *args, PyObjec
                 for (const auto &item: list) {
                     Py_INCREF(item);
                 }
-            } else if (PyList_Check(pyIterable) || PyTuple_Check(pyIterable)) {  // fast operation
+            } else if (PyList_CheckExact(pyIterable) || PyTuple_CheckExact(pyIterable)) {  // fast operation
                 const auto size = PySequence_Fast_GET_SIZE(pyIterable);
                 auto items = PySequence_Fast_ITEMS(pyIterable);
                 for (Py_ssize_t i = 0; i < size; ++i) {
-- 
2.43.0

