From f473b8068e09134ed5bb8ba6befb69c180d70ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:07 +0000
Subject: [PATCH 01/68] fix: compute strides of rank 0 tensors in the C++
 runtime helpers

computeStridesFromShape formed the range [dataSizes + 1, dataSizes), so
creating a scalar tensor with omTensorCreateWithShape threw length_error.
---
 src/Runtime/OMTensor.inc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Runtime/OMTensor.inc b/src/Runtime/OMTensor.inc
index 04bf16c..f08b8c4 100644
--- a/src/Runtime/OMTensor.inc
+++ b/src/Runtime/OMTensor.inc
@@ -749,6 +749,8 @@ static inline std::vector<std::vector<int64_t>> CartProduct(
 /* Helper function to compute data strides from a size array */
 static inline std::vector<int64_t> computeStridesFromShape(
     const int64_t *dataSizes, int rank) {
+  if (rank == 0)
+    return {};
   std::vector<int64_t> sizesVec(dataSizes + 1, dataSizes + rank);
   sizesVec.push_back(1);
   std::vector<int64_t> dimStrides(rank);
-- 
2.43.0


From e8a89e97240f73a2c1a9f231345748ec3132432f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:07 +0000
Subject: [PATCH 02/68] fix: honour fractional tolerances when comparing
 integer tensors

omTensorAreTwoOmtsClose converted rtol and atol to the element type, so for
integer tensors rtol=0.25 was treated as 0.
---
 src/Runtime/OMTensor.inc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/Runtime/OMTensor.inc b/src/Runtime/OMTensor.inc
index f08b8c4..2790e2c 100644
--- a/src/Runtime/OMTensor.inc
+++ b/src/Runtime/OMTensor.inc
@@ -886,9 +886,10 @@ inline bool omTensorAreTwoOmtsClose(
   auto nElems = omTensorGetNumElems(a);
   std::vector<T> absoluteDiff(nElems);
   std::vector<T> absb(nElems);
-  std::vector<T> eqAllclose(nElems);
-  std::vector<T> rtolT(nElems, rtol);
-  std::vector<T> atolT(nElems, atol);
+  // Tolerances may be fractional, also when T is an integer type.
+  std::vector<double> eqAllclose(nElems);
+  std::vector<double> rtolT(nElems, rtol);
+  std::vector<double> atolT(nElems, atol);
   // abs(a - b)
   std::transform((T *)a->_alignedPtr, (T *)a->_alignedPtr + nElems,
       (T *)b->_alignedPtr, absoluteDiff.begin(), std::minus<>());
@@ -906,7 +907,7 @@ inline bool omTensorAreTwoOmtsClose(
   std::transform(eqAllclose.begin(), eqAllclose.end(), absoluteDiff.begin(),
       eqAllclose.begin(), std::minus<>());
   bool satisfied = std::all_of(
-      eqAllclose.begin(), eqAllclose.end(), [&](T eq) { return eq >= 0; });
+      eqAllclose.begin(), eqAllclose.end(), [&](double eq) { return eq >= 0; });
 
   if (!satisfied) {
     // Figure out where and what went wrong, this can be slow; but hopefully
-- 
2.43.0


From b723137d1b677fae6e8182dbd44991c11ed85010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:07 +0000
Subject: [PATCH 03/68] fix: draw random unsigned tensor data within the full
 unsigned range

Bounds of 32- and 64-bit unsigned types above the signed maximum became
negative, giving an inverted range: undefined behaviour (stack overflow).
---
 src/Runtime/OMTensorHelper.cpp | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/src/Runtime/OMTensorHelper.cpp b/src/Runtime/OMTensorHelper.cpp
index 2e91679..76e3b39 100644
--- a/src/Runtime/OMTensorHelper.cpp
+++ b/src/Runtime/OMTensorHelper.cpp
@@ -61,17 +61,13 @@ static void fillBufferWithRandom(T *buf, int64_t n, T lbound, T ubound) {
     return;
   }
   if constexpr (std::is_integral<T>::value) {
-    if constexpr (sizeof(T) <= 4) {
-      std::uniform_int_distribution<int32_t> dis(
-          static_cast<int32_t>(lbound), static_cast<int32_t>(ubound));
-      std::generate(buf, buf + n,
-          [&]() { return static_cast<T>(dis(omRandomGenerator)); });
-    } else {
-      std::uniform_int_distribution<int64_t> dis(
-          static_cast<int64_t>(lbound), static_cast<int64_t>(ubound));
-      std::generate(buf, buf + n,
-          [&]() { return static_cast<T>(dis(omRandomGenerator)); });
-    }
+    // Draw from the widest integer type of the same signedness, so that the
+    // whole range of T (unsigned types included) can be used as bounds.
+    using D = std::conditional_t<std::is_signed<T>::value, int64_t, uint64_t>;
+    std::uniform_int_distribution<D> dis(
+        static_cast<D>(lbound), static_cast<D>(ubound));
+    std::generate(buf, buf + n,
+        [&]() { return static_cast<T>(dis(omRandomGenerator)); });
   } else {
     std::uniform_real_distribution<T> dis(lbound, ubound);
     std::generate(buf, buf + n, [&]() { return dis(omRandomGenerator); });
-- 
2.43.0


From fb9d98d7dbd18c11b6653eb8b978efc467821ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:00 +0000
Subject: [PATCH 04/68] fix: prefer the lowest index among equal values in
 omTensorTopK

The heap evicted equal values in the order of the reversed comparator, whose
tie-break still puts the lowest index first, so the lowest index was dropped.
Use one total order for the heap and the final sort.
---
 src/Runtime/OMTopK.c | 33 ++++++++++++++++-----------------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/src/Runtime/OMTopK.c b/src/Runtime/OMTopK.c
index 71dc4b1..10d7aa0 100644
--- a/src/Runtime/OMTopK.c
+++ b/src/Runtime/OMTopK.c
@@ -53,18 +53,18 @@ static void heap_sift_down(uint64_t *heap, int64_t start, int64_t end,
     int64_t child = root * 2 + 1;
     int64_t swap_idx = root;
 
-    // Check if root is "worse" than left child
+    // Check if root is "better" than left child
     int comparison = 0;
 #if defined(__APPLE__) || defined(_MSC_VER)
     comparison = compare(data, &heap[swap_idx], &heap[child]);
 #else
     comparison = compare(&heap[swap_idx], &heap[child], data);
 #endif
-    if (comparison > 0) {
+    if (comparison < 0) {
       swap_idx = child;
     }
 
-    // Check if right child exists and is "better" than current swap_idx
+    // Check if right child exists and is "worse" than current swap_idx
     if (child + 1 <= end) {
       comparison = 0;
 #if defined(__APPLE__) || defined(_MSC_VER)
@@ -72,7 +72,7 @@ static void heap_sift_down(uint64_t *heap, int64_t start, int64_t end,
 #else
       comparison = compare(&heap[swap_idx], &heap[child + 1], data);
 #endif
-      if (comparison > 0) {
+      if (comparison < 0) {
         swap_idx = child + 1;
       }
     }
@@ -145,19 +145,18 @@ void omTensorTopK(OMTensor *orderTensor, const OMTensor *inputTensor,
     return;
   }
 
-  // 1. Get the heap comparator.
-  // To get Top-K "Largest" (ascending=0), we build a MIN-heap.
-  // To get Top-K "Smallest" (ascending=1), we build a MAX-heap.
-  // This uses the opposite ascending direction.
-  compareFunctionType *heapCompare =
-      getCompareFunction(1 - ascending, dataType);
-  if (!heapCompare)
-    return; // Unsupported data type
-
-  // 2. Get the loop comparator.
+  // 1. Get the loop comparator.
   // This checks if a new element is "better" than the heap root.
   // This uses the correct ascending direction.
   compareFunctionType *loopCompare = getCompareFunction(ascending, dataType);
+  if (!loopCompare)
+    return; // Unsupported data type
+
+  // 2. Get the heap comparator.
+  // The heap keeps the "worst" element of the K-set at its root. The comparator
+  // is a total order (lower index first among equal values), the heap must use
+  // the same one so that the highest index among equal values is evicted first.
+  compareFunctionType *heapCompare = loopCompare;
 
   // 3. Get the final sort comparator (same as loop).
   compareFunctionType *sortCompare = loopCompare;
@@ -197,9 +196,9 @@ void omTensorTopK(OMTensor *orderTensor, const OMTensor *inputTensor,
             // --- Stable TopK Logic (Partial Heapsort) ---
 
             // STEP 1: Build the initial K-heap using the heap comparator.
-            // This builds a Min-Heap (for TopK-Largest) or Max-Heap (for
-            // TopK-Smallest). The root (idx[0]) is the "worst" item in the
-            // K-set.
+            // The root (idx[0]) is the "worst" item in the K-set: the smallest
+            // (for TopK-Largest) or the largest (for TopK-Smallest) value, and
+            // the highest index among equal values.
             make_heap(idx, k, heapCompare, data);
 
             // STEP 2: Iterate through the remaining N-K elements.
-- 
2.43.0


From 7464f4f93f80fba831ecbdcfa798435cd4b84cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:00 +0000
Subject: [PATCH 05/68] fix: compare floating point values by value in
 omTensorUnique

-0.0 and 0.0 were reported as two unique values, in no definite order.
---
 src/Runtime/OMUnique.c | 38 +++++++++++++++++++++++++++++++++++---
 1 file changed, 35 insertions(+), 3 deletions(-)

diff --git a/src/Runtime/OMUnique.c b/src/Runtime/OMUnique.c
index a33221b..16bae4d 100644
--- a/src/Runtime/OMUnique.c
+++ b/src/Runtime/OMUnique.c
@@ -119,7 +119,39 @@ static int isLessNum(void *arg1, void *arg2, OM_DATA_TYPE dataType) {
   return 0;
 }
 
-// Check if
+// Check if the two arguments are the same value. Floating point zeros are equal
+// whatever their sign is.
+static int isEqualNum(void *arg1, void *arg2, OM_DATA_TYPE dataType) {
+  switch (dataType) {
+  case ONNX_TYPE_FLOAT:
+    if (*((float *)arg1) == *((float *)arg2))
+      return 1;
+    break;
+  case ONNX_TYPE_DOUBLE:
+    if (*((double *)arg1) == *((double *)arg2))
+      return 1;
+    break;
+  default:
+    break;
+  }
+  return memcmp(arg1, arg2, getDataTypeSize(dataType)) == 0;
+}
+
+// Check if all the elements of the two slices are the same
+static int isEqualSlice(
+    void *elem1, void *elem2, uint64_t elemSize, OM_DATA_TYPE dataType) {
+  uint64_t dataSize = getDataTypeSize(dataType);
+  assert(dataSize > 0); // Test for unsupported types.
+  int64_t elemNum = elemSize / dataSize;
+  for (int64_t i = 0; i < elemNum; i++) {
+    if (!isEqualNum(((char *)elem1) + (dataSize * i),
+            ((char *)elem2) + (dataSize * i), dataType))
+      return 0;
+  }
+  return 1;
+}
+
+// Check if the first slice is less than the second one
 static int isLessSlice(
     void *elem1, void *elem2, uint64_t elemSize, OM_DATA_TYPE dataType) {
   uint64_t dataSize = getDataTypeSize(dataType);
@@ -128,7 +160,7 @@ static int isLessSlice(
   for (int i = 0; i < elemNum; i++) {
     void *num1 = ((char *)elem1) + (dataSize * i);
     void *num2 = ((char *)elem2) + (dataSize * i);
-    if (memcmp(num1, num2, dataSize)) // if num1 != num2
+    if (!isEqualNum(num1, num2, dataType)) // if num1 != num2
       return isLessNum(num1, num2, dataType);
   }
   return 0;
@@ -217,7 +249,7 @@ static int sliceTableRegister(sliceTable *table, void *slice, uint64_t off) {
   int found = 0;
   for (insertIdx = 0; insertIdx < table->numberOfSlices; insertIdx++) {
     void *sliceInTable = (void *)(sliceDataPtr + sliceSizeInBytes * insertIdx);
-    if (!memcmp(sliceInTable, slice, sliceSizeInBytes)) {
+    if (isEqualSlice(sliceInTable, slice, sliceSizeInBytes, table->dataType)) {
       found = 1;
       if (table->countsPtr != NULL)
         ((table->countsPtr)[insertIdx])++;
-- 
2.43.0


From e7d025c5e58f4b18d548fb4dcc74e60d99587072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:00 +0000
Subject: [PATCH 06/68] fix: support omTensorUnique calls that omit optional
 outputs

The compiler passes an empty tensor for every output that is not requested:
omTensorUnique wrote past its end and, along an axis, left Y in the order of
its internal table. With a NULL indices tensor it dereferenced NULL.
---
 src/Runtime/OMUnique.c | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/src/Runtime/OMUnique.c b/src/Runtime/OMUnique.c
index 16bae4d..56ec754 100644
--- a/src/Runtime/OMUnique.c
+++ b/src/Runtime/OMUnique.c
@@ -297,8 +297,8 @@ static int sliceTableRegister(sliceTable *table, void *slice, uint64_t off) {
 // If the axis attr is not given, sliceTableRegister generates the output Y
 //  directly, since the output is a simple array of unique elements.
 //
-static void produceY(const OMTensor *inputTensor, OMTensor *indices,
-    int64_t sliceAxis, OMTensor *Y) {
+static void produceY(const OMTensor *inputTensor, const int64_t *indicesPtr,
+    int64_t count, int64_t sliceAxis, OMTensor *Y) {
   const int64_t inputRank = omTensorGetRank(inputTensor);
   assert(inputRank <= 6); // Error: "input rank should be 6 or less".
   assert(sliceAxis <
@@ -306,11 +306,6 @@ static void produceY(const OMTensor *inputTensor, OMTensor *indices,
   const int64_t *inputShape = omTensorGetShape(inputTensor);
   const int64_t *inputStrides = omTensorGetStrides(inputTensor);
   void *inputPtr = omTensorGetDataPtr(inputTensor);
-  const int64_t indicesRank = omTensorGetRank(indices);
-  assert(indicesRank == 1); // Error: "indices rank should be 1".
-  const int64_t *indicesShape = omTensorGetShape(indices);
-  const int64_t count = indicesShape[0];
-  int64_t *indicesPtr = (int64_t *)omTensorGetDataPtr(indices);
   void *YPtr = omTensorGetDataPtr(Y);
 
   const OM_DATA_TYPE dataType = omTensorGetDataType(inputTensor);
@@ -365,6 +360,16 @@ static void produceY(const OMTensor *inputTensor, OMTensor *indices,
   }
 }
 
+//
+// An optional output that is not requested is either NULL or, in the code
+// generated by the compiler, an empty tensor. Nothing must be written to it.
+//
+static void *getOptionalDataPtr(const OMTensor *tensor) {
+  if (tensor == NULL || omTensorGetNumElems(tensor) == 0)
+    return NULL;
+  return omTensorGetDataPtr(tensor);
+}
+
 //
 // "omTensorUnique" handles two cases, where are (1) case with no axis given
 // (2) case with axis given.
@@ -390,10 +395,9 @@ void omTensorUnique(OMTensor *totalTensor, OMTensor *Y, OMTensor *indices,
   const int64_t *inputShape = omTensorGetShape(inputTensor);
   void *inputPtr = omTensorGetDataPtr(inputTensor);
   void *YPtr = (Y != NULL) ? omTensorGetDataPtr(Y) : NULL;
-  void *indicesPtr = (indices != NULL) ? omTensorGetDataPtr(indices) : NULL;
-  void *inverseIndicesPtr =
-      (inverse_indices != NULL) ? omTensorGetDataPtr(inverse_indices) : NULL;
-  void *countsPtr = (counts != NULL) ? omTensorGetDataPtr(counts) : NULL;
+  void *indicesPtr = getOptionalDataPtr(indices);
+  void *inverseIndicesPtr = getOptionalDataPtr(inverse_indices);
+  void *countsPtr = getOptionalDataPtr(counts);
   uint64_t dataSize = getDataTypeSize(dataType);
   assert(dataSize > 0); // Test for unsupported types.
 
@@ -422,7 +426,7 @@ void omTensorUnique(OMTensor *totalTensor, OMTensor *Y, OMTensor *indices,
     void *sliceDataPtr =
         (YPtr == NULL) ? alloca(numOfElementsInSlice * numOfSlices * dataSize)
                        : YPtr;
-    if ((Y != NULL) && (indices == NULL)) {
+    if ((Y != NULL) && (indicesPtr == NULL)) {
       // temporal indices buffer is necessary to generate Y from indices
       indicesPtr = alloca(numOfSlices * sizeof(int64_t));
     }
@@ -438,7 +442,7 @@ void omTensorUnique(OMTensor *totalTensor, OMTensor *Y, OMTensor *indices,
       }
     }
     if ((count > 0) && (Y != NULL)) {
-      produceY(inputTensor, indices, sliceAxis, Y);
+      produceY(inputTensor, (const int64_t *)indicesPtr, count, sliceAxis, Y);
     }
   }
   *totalPtr = count;
-- 
2.43.0


From eb45442c001591a095b11cc5fea90971407344f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:53 +0000
Subject: [PATCH 07/68] fix: sort the slices of omTensorUnique in row-major
 lexicographic order

Slices of rank 2 or more were gathered in column-major order, so sorted slices
did not come in the order ONNX (numpy.unique) defines.
---
 src/Runtime/OMUnique.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/Runtime/OMUnique.c b/src/Runtime/OMUnique.c
index 56ec754..f17b942 100644
--- a/src/Runtime/OMUnique.c
+++ b/src/Runtime/OMUnique.c
@@ -196,16 +196,17 @@ static void getSliceData(const OMTensor *inputTensor, int64_t sliceAxis,
     shapeInUniqueAxis[i] = (i == sliceAxis) ? 1 : inputShape[i];
     strides[i] = inputStrides[i];
   }
-  // Gather all data in the slice
+  // Gather all data in the slice, in row-major order since slices are sorted in
+  // the lexicographic order of their elements
   uint64_t dim[6];
   int64_t outputIdx = 0;
 
-  for (dim[5] = 0; dim[5] < shapeInUniqueAxis[5]; dim[5]++) {
-    for (dim[4] = 0; dim[4] < shapeInUniqueAxis[4]; dim[4]++) {
-      for (dim[3] = 0; dim[3] < shapeInUniqueAxis[3]; dim[3]++) {
-        for (dim[2] = 0; dim[2] < shapeInUniqueAxis[2]; dim[2]++) {
-          for (dim[1] = 0; dim[1] < shapeInUniqueAxis[1]; dim[1]++) {
-            for (dim[0] = 0; dim[0] < shapeInUniqueAxis[0]; dim[0]++) {
+  for (dim[0] = 0; dim[0] < shapeInUniqueAxis[0]; dim[0]++) {
+    for (dim[1] = 0; dim[1] < shapeInUniqueAxis[1]; dim[1]++) {
+      for (dim[2] = 0; dim[2] < shapeInUniqueAxis[2]; dim[2]++) {
+        for (dim[3] = 0; dim[3] < shapeInUniqueAxis[3]; dim[3]++) {
+          for (dim[4] = 0; dim[4] < shapeInUniqueAxis[4]; dim[4]++) {
+            for (dim[5] = 0; dim[5] < shapeInUniqueAxis[5]; dim[5]++) {
               uint64_t tdim[6] = {
                   dim[0], dim[1], dim[2], dim[3], dim[4], dim[5]};
               tdim[sliceAxis] = idxInSliceAxis;
-- 
2.43.0


From 038e261eadda8b4685ea95b8ffef0339c1fdebe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:37 +0000
Subject: [PATCH 08/68] fix: seed the float64 random normal generator

get_random_normal_value_f64 ignored its seed, unlike the float32 generator, so
its values depended on what ran before.
---
 src/Runtime/OMRandomNormal.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Runtime/OMRandomNormal.c b/src/Runtime/OMRandomNormal.c
index 4243bcd..95441c1 100644
--- a/src/Runtime/OMRandomNormal.c
+++ b/src/Runtime/OMRandomNormal.c
@@ -28,6 +28,7 @@ double normalRandom() {
 
 void get_random_normal_value_f64(
     double *result, long long size, double mean, double scale, double seed) {
+  srand(seed);
   for (long long index = 0; index < size; ++index)
     result[index] = normalRandom() * scale + mean;
 }
-- 
2.43.0


From 155a35a3ff6ca32813d1d859a395a85fcf8dd345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:37 +0000
Subject: [PATCH 09/68] fix: hash all the digits of 64-bit integer keys at run
 time

The buffer was one character short for 20-character keys such as
-1000000000000000000, so the hash differed from the one used to build the
table and the wrong category was returned.
---
 src/Runtime/OMIndexLookup.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Runtime/OMIndexLookup.c b/src/Runtime/OMIndexLookup.c
index 4c27f0b..92511d5 100644
--- a/src/Runtime/OMIndexLookup.c
+++ b/src/Runtime/OMIndexLookup.c
@@ -33,7 +33,7 @@ static inline uint32_t hash_string(uint32_t hval, const char *str) {
 
 // Adaptation of 32-bit FNV for int64_t values.
 static inline uint32_t hash_int64(uint32_t hval, int64_t val) {
-  char str[20];
+  char str[21]; // "-9223372036854775808" and the terminating null character
   int num_chars_written = snprintf(str, sizeof(str), "%lld", (long long)val);
   assert(num_chars_written >= 0); // Error: "snprintf write error to str".
   return hash_string(hval, str);
-- 
2.43.0


From 57401c5a9a3a31b56b2206bfb1e867e4f5e363c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:37 +0000
Subject: [PATCH 10/68] fix: use the actual rank in the runtime resize

The interpolation always assumed rank 4 and read outside the shape, scale and
data of tensors of other ranks.
---
 src/Runtime/OMResize.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Runtime/OMResize.c b/src/Runtime/OMResize.c
index fbc7b1b..249004d 100644
--- a/src/Runtime/OMResize.c
+++ b/src/Runtime/OMResize.c
@@ -294,7 +294,7 @@ static void interpolate_nd_OMTensor(OMTensor *output_OMT, OMTensor *data,
     }
     float r = interpolate_nd_with_x(
         /*OMTensor */ data,
-        /* n */ 4,
+        /* n */ rank,
         /*float scale_factor*/ scale_factor,
         /*floats *x*/ Xs,
         /* Coeff_Func_t*/ get_coeffs,
-- 
2.43.0


From 54b4401456a8f015b4a52872bd780630144f2185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:30 +0000
Subject: [PATCH 11/68] fix: pick the neighbors of the runtime resize with the
 ratio of the coefficients

Adding the pad rounded coordinates just above an integer down to it, so the
element before the right one was read.
---
 src/Runtime/OMResize.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/Runtime/OMResize.c b/src/Runtime/OMResize.c
index 249004d..f86d218 100644
--- a/src/Runtime/OMResize.c
+++ b/src/Runtime/OMResize.c
@@ -76,16 +76,17 @@ static void get_neighbor(float x, int64_t n, int limit, float *data,
   // If the central idx is right to x (>= x), favor the left one
   // == from the example
 
+  // Compute the ratio before padding: adding the pad may round x to the next
+  // integer, and the neighbors would not match the coefficients.
   int pad_width = ceil(n / 2);
-  x += pad_width;
   float r = x - floor(x);
 
   int start, end;
   int c;
   if (r > 0.5) {
-    c = (int)(floor(x)) + 1;
+    c = (int)(floor(x)) + 1 + pad_width;
   } else {
-    c = (int)(floor(x));
+    c = (int)(floor(x)) + pad_width;
   }
 
   int rest = n - 1;
-- 
2.43.0


From 29571498da2dc742b51f1cfd8acb11aa50999dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:45 +0000
Subject: [PATCH 12/68] fix: always terminate when building a perfect hash
 table

For some key sets of even size (e.g. {1, 3}) no hash function exists for a
minimal table and the compiler looped forever. Use a larger table then.
---
 src/Conversion/ONNXToKrnl/PerfectHash.cpp | 23 +++++++++++++++++------
 src/Conversion/ONNXToKrnl/PerfectHash.hpp |  5 +++--
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/Conversion/ONNXToKrnl/PerfectHash.cpp b/src/Conversion/ONNXToKrnl/PerfectHash.cpp
index be8ba0f..ab6c4f5 100644
--- a/src/Conversion/ONNXToKrnl/PerfectHash.cpp
+++ b/src/Conversion/ONNXToKrnl/PerfectHash.cpp
@@ -111,21 +111,25 @@ template <typename KeyTy, typename ValueTy>
 PerfectHash<KeyTy, ValueTy>::PerfectHash(const std::map<KeyTy, ValueTy> &dict)
     : dict(dict) {
   assert(!dict.empty() && "Dictionary should not be empty");
+  // Try to create a minimal table. The hash values of some keys are equal modulo
+  // an even size whatever hash function is chosen (e.g. "1" and "3" modulo 2),
+  // use a larger table in such a case.
   size_t size = dict.size();
-  G.resize(size, 0);
-  V.resize(size, -1);
-  createPerfectHash();
+  while (!createPerfectHash(size))
+    ++size;
 }
 
 // Note: KeyTy is expected to be either a char* or a int64_t.
 // TODO: add a trait to ensure template cannot be instantiated with an
 // unexpected type.
 template <typename KeyTy, typename ValueTy>
-void PerfectHash<KeyTy, ValueTy>::createPerfectHash() {
+bool PerfectHash<KeyTy, ValueTy>::createPerfectHash(size_t size) {
+  constexpr int32_t maxHashValue = 100000;
+  G.assign(size, 0);
+  V.assign(size, -1);
   LLVM_DEBUG({ Utilities::print(dict, "dict", llvm::dbgs()); });
 
   // Step 1: place all of the keys into buckets.
-  size_t size = dict.size();
   llvm::SmallVector<KeyTy> keys = Utilities::extractKeys<KeyTy, ValueTy>(dict);
   LLVM_DEBUG({ Utilities::print(keys, "keys", llvm::dbgs()); });
 
@@ -157,7 +161,8 @@ void PerfectHash<KeyTy, ValueTy>::createPerfectHash() {
       uint32_t slot = Utilities::hash(hval, bucket[item]) % size;
       if (V[slot] != -1 ||
           std::find(slots.begin(), slots.end(), slot) != slots.end()) {
-        hval++;
+        if (++hval > maxHashValue)
+          return false;
         item = 0;
         slots.clear();
       } else {
@@ -199,6 +204,12 @@ void PerfectHash<KeyTy, ValueTy>::createPerfectHash() {
     LLVM_DEBUG({ Utilities::print(G, "G", llvm::dbgs()); });
     LLVM_DEBUG({ Utilities::print(V, "V", llvm::dbgs()); });
   }
+
+  // Looking up a key that is not in the dictionary may use any slot, give the
+  // unused ones a valid index.
+  for (uint32_t slot : freeList)
+    V[slot] = 0;
+  return true;
 }
 
 template class PerfectHash<int64_t, int32_t>;
diff --git a/src/Conversion/ONNXToKrnl/PerfectHash.hpp b/src/Conversion/ONNXToKrnl/PerfectHash.hpp
index b66339d..16cbd23 100644
--- a/src/Conversion/ONNXToKrnl/PerfectHash.hpp
+++ b/src/Conversion/ONNXToKrnl/PerfectHash.hpp
@@ -53,8 +53,9 @@ public:
   const llvm::SmallVector<int32_t> &getV() const { return V; }
 
 private:
-  // Creates a minimal perfect hash for the dictionary.
-  void createPerfectHash();
+  // Creates a perfect hash for the dictionary, in tables of the given size.
+  // Returns false if no suitable hash function is found.
+  bool createPerfectHash(size_t size);
 };
 
 } // namespace onnx_mlir
-- 
2.43.0


From ec9f662a0ef6c6a94f4341b105653e645f9cd40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:57 +0000
Subject: [PATCH 13/68] fix: mark external constants as not loaded once they
 are unloaded

A load following an unload returned success with the unmapped address, and a
second unload unmapped (or freed) it again.
---
 src/Runtime/OMExternalConstant.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Runtime/OMExternalConstant.c b/src/Runtime/OMExternalConstant.c
index 02cfbce..2efa7cf 100644
--- a/src/Runtime/OMExternalConstant.c
+++ b/src/Runtime/OMExternalConstant.c
@@ -189,6 +189,7 @@ bool omUnloadConstantData(void **constAddr, int64_t size) {
 #else
   munmap(ptr, size);
 #endif
+  constAddr[0] = NULL;
   return true;
 }
 
-- 
2.43.0


From 7371e50ad67bcc9e29e15b44f41a9d8d852ff463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:57 +0000
Subject: [PATCH 14/68] fix: do not leave a freed address behind when reading
 constants fails

A retry took the dangling address for loaded constants.
---
 src/Runtime/OMExternalConstant.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Runtime/OMExternalConstant.c b/src/Runtime/OMExternalConstant.c
index 2efa7cf..e917df4 100644
--- a/src/Runtime/OMExternalConstant.c
+++ b/src/Runtime/OMExternalConstant.c
@@ -229,6 +229,7 @@ static int mallocAndReadFile(void **constAddr, int fd, int64_t fileSize) {
         fprintf(stderr, "Error reading constants at offset %lld: %s\n",
             (long long)(offset + totalRead), strerror(errno));
         free(constAddr[0]);
+        constAddr[0] = NULL;
         return 1;
       }
 
@@ -236,6 +237,7 @@ static int mallocAndReadFile(void **constAddr, int fd, int64_t fileSize) {
         fprintf(stderr, "Unexpected EOF reading constants at offset %lld\n",
             (long long)(offset + totalRead));
         free(constAddr[0]);
+        constAddr[0] = NULL;
         return 1;
       }
 
-- 
2.43.0


From 77b101b3b9b0878ba75044cf877565009c04f779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:57 +0000
Subject: [PATCH 15/68] fix: refuse to map a truncated constants file

Mapping it succeeded and the model crashed when it used the constants.
---
 src/Runtime/OMExternalConstant.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/Runtime/OMExternalConstant.c b/src/Runtime/OMExternalConstant.c
index e917df4..d48386c 100644
--- a/src/Runtime/OMExternalConstant.c
+++ b/src/Runtime/OMExternalConstant.c
@@ -262,6 +262,18 @@ static int mallocAndReadFile(void **constAddr, int fd, int64_t fileSize) {
 /// This function is thread-safe.
 ///
 static int mmapAndReadFile(void **constAddr, int fd, int64_t fileSize) {
+  // Pages past the end of the file can be mapped but not accessed.
+  struct stat fileStat;
+  if (fstat(fd, &fileStat) != 0) {
+    fprintf(stderr, "Error while reading the file size: %s\n", strerror(errno));
+    return 1;
+  }
+  if (fileStat.st_size < fileSize) {
+    fprintf(stderr, "Unexpected EOF reading constants at offset %lld\n",
+        (long long)fileStat.st_size);
+    return 1;
+  }
+
 #ifdef __MVS__
   void *tempAddr = mmap(0, fileSize, PROT_READ, __MAP_MEGA, fd, 0);
 #else
-- 
2.43.0


From 6f958cfa8cbb3d37f5e146964d76d2d1f50c61a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:02 +0000
Subject: [PATCH 16/68] fix: report instrumentation points according to their
 before/after bits

---
 src/Runtime/OMInstrument.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Runtime/OMInstrument.c b/src/Runtime/OMInstrument.c
index d5ccb2f..adc2b89 100644
--- a/src/Runtime/OMInstrument.c
+++ b/src/Runtime/OMInstrument.c
@@ -250,7 +250,7 @@ static void flushRecordBuffer() {
     bool isBefore = IS_INSTRUMENT_BEFORE_OP(tag);
     if (isBefore)
       PrintTime(&timeRecordBuffer[i].beforeTime, /*before*/ true);
-    bool isAfter = IS_INSTRUMENT_BEFORE_OP(tag);
+    bool isAfter = IS_INSTRUMENT_AFTER_OP(tag);
     if (isAfter)
       PrintTime(&timeRecordBuffer[i].afterTime, /*before*/ false);
   }
-- 
2.43.0


From f172fc07694c5b23beecfc5451ba53680c815599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:02 +0000
Subject: [PATCH 17/68] fix: keep the time records of consecutive executions of
 the same op

---
 src/Runtime/OMInstrument.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/Runtime/OMInstrument.c b/src/Runtime/OMInstrument.c
index adc2b89..be3f4eb 100644
--- a/src/Runtime/OMInstrument.c
+++ b/src/Runtime/OMInstrument.c
@@ -262,8 +262,11 @@ static void updateRecordBuffer(
     const char *opName, uint64_t tag, const char *nodeName) {
   int64_t i = bufferIndex - 1;
   if (i >= 0 && timeRecordBuffer[i].opName == opName &&
-      timeRecordBuffer[i].nodeName == nodeName) {
-    // Can reuse entry, or the tags so we have bits for both.
+      timeRecordBuffer[i].nodeName == nodeName && IS_INSTRUMENT_AFTER_OP(tag) &&
+      !IS_INSTRUMENT_AFTER_OP(timeRecordBuffer[i].tag)) {
+    // Can reuse entry for the after point that closes the before point just
+    // recorded (but not for another execution of the same op, e.g. in a loop),
+    // or the tags so we have bits for both.
     timeRecordBuffer[i].tag = timeRecordBuffer[i].tag | tag;
   } else {
     // Need a new entry; flush if full, then initialize entry.
-- 
2.43.0


From 8ab857b08529a73958de4ac40a8d9386a7086208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:02 +0000
Subject: [PATCH 18/68] fix: close the instrumentation file once the report is
 printed

---
 src/Runtime/OMInstrument.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Runtime/OMInstrument.c b/src/Runtime/OMInstrument.c
index be3f4eb..25aba22 100644
--- a/src/Runtime/OMInstrument.c
+++ b/src/Runtime/OMInstrument.c
@@ -89,6 +89,9 @@ static void resetLocalState() {
   instrumentReportMemoryDisabled = false;
   instrumentCounter = 0;
   psErrorCount = 0;
+  // The next run opens its own file; close this one to write out its content.
+  if (instrumentFout && instrumentFout != stdout)
+    fclose(instrumentFout);
   instrumentFout = 0;
   instrumentInitialized = false;
   startReportPrinted = false;
-- 
2.43.0


From e093127715ba02af5e75cb78f17844b8ac26b7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:42 +0000
Subject: [PATCH 19/68] fix: do not report the compilation info of another
 model

---
 src/Runtime/OMInstrument.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Runtime/OMInstrument.c b/src/Runtime/OMInstrument.c
index 25aba22..da61ef2 100644
--- a/src/Runtime/OMInstrument.c
+++ b/src/Runtime/OMInstrument.c
@@ -401,6 +401,8 @@ void OMInstrumentPoint(const char *opName, int64_t iTag, const char *nodeName) {
   uint64_t tag = iTag;
   bool isInit = IS_INSTRUMENT_INIT(tag);
   if (isInit) {
+    // Old protocol: no compilation info, forget the one of a previous model.
+    instrumentCompilationInfo = NULL;
     startInstrumentation();
   }
   // Report.
-- 
2.43.0


From f73427001b03db926f8f716272ce6ece06857b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:19 +0000
Subject: [PATCH 20/68] fix: restore all signal handlers and the signal mask
 after running a model

---
 src/Runtime/ExecutionSession.cpp | 14 ++++++++------
 src/Runtime/ExecutionSession.hpp |  2 +-
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/Runtime/ExecutionSession.cpp b/src/Runtime/ExecutionSession.cpp
index aa512d0..135f1b1 100644
--- a/src/Runtime/ExecutionSession.cpp
+++ b/src/Runtime/ExecutionSession.cpp
@@ -41,7 +41,7 @@ namespace onnx_mlir {
 // =============================================================================
 // Static member initialization for signal handling (POSIX only)
 
-std::jmp_buf ExecutionSession::signalJumpBuffer;
+sigjmp_buf ExecutionSession::signalJumpBuffer;
 volatile sig_atomic_t ExecutionSession::signalCaught = 0;
 volatile sig_atomic_t ExecutionSession::signalNumber = 0;
 
@@ -51,7 +51,8 @@ volatile sig_atomic_t ExecutionSession::signalNumber = 0;
 void ExecutionSession::signalHandler(int signum) {
   signalCaught = 1;
   signalNumber = signum;
-  std::longjmp(signalJumpBuffer, signum);
+  // Also restores the signal mask, so that signum is not left blocked.
+  siglongjmp(signalJumpBuffer, signum);
 }
 #endif
 
@@ -435,7 +436,7 @@ OMTensorList *ExecutionSession::runWithSignalHandler(OMTensorList *input) {
   return nullptr;
 #else
   // Save old signal handlers
-  struct sigaction oldSigsegv, oldSigbus, oldSigfpe, oldSigill;
+  struct sigaction oldSigsegv, oldSigbus, oldSigfpe, oldSigill, oldSigabrt;
   struct sigaction newAction;
 
   // Setup new signal handler
@@ -448,7 +449,7 @@ OMTensorList *ExecutionSession::runWithSignalHandler(OMTensorList *input) {
   sigaction(SIGBUS, &newAction, &oldSigbus);
   sigaction(SIGFPE, &newAction, &oldSigfpe);
   sigaction(SIGILL, &newAction, &oldSigill);
-  sigaction(SIGABRT, &newAction, &oldSigill);
+  sigaction(SIGABRT, &newAction, &oldSigabrt);
 
   // Reset signal state
   signalCaught = 0;
@@ -457,7 +458,7 @@ OMTensorList *ExecutionSession::runWithSignalHandler(OMTensorList *input) {
   OMTensorList *output = nullptr;
 
   // Set up the jump point for signal handler
-  int signum = setjmp(signalJumpBuffer);
+  int signum = sigsetjmp(signalJumpBuffer, /*save mask*/ 1);
 
   if (signum == 0) {
     // First time through - run the inference
@@ -469,7 +470,7 @@ OMTensorList *ExecutionSession::runWithSignalHandler(OMTensorList *input) {
     sigaction(SIGBUS, &oldSigbus, nullptr);
     sigaction(SIGFPE, &oldSigfpe, nullptr);
     sigaction(SIGILL, &oldSigill, nullptr);
-    sigaction(SIGABRT, &oldSigill, nullptr);
+    sigaction(SIGABRT, &oldSigabrt, nullptr);
     // Throw error if nullptr output (list expected in successful executions).
     if (!output)
       throw ExecutionSessionException(reportErrnoError());
@@ -483,6 +484,7 @@ OMTensorList *ExecutionSession::runWithSignalHandler(OMTensorList *input) {
     sigaction(SIGBUS, &oldSigbus, nullptr);
     sigaction(SIGFPE, &oldSigfpe, nullptr);
     sigaction(SIGILL, &oldSigill, nullptr);
+    sigaction(SIGABRT, &oldSigabrt, nullptr);
     // Set errno to the signal number for error reporting
     errno = signum;
     throw ExecutionSessionException(reportErrnoError(/*from signal*/ true));
diff --git a/src/Runtime/ExecutionSession.hpp b/src/Runtime/ExecutionSession.hpp
index c46fd8e..730da91 100644
--- a/src/Runtime/ExecutionSession.hpp
+++ b/src/Runtime/ExecutionSession.hpp
@@ -144,7 +144,7 @@ protected:
 #if !defined(_WIN32)
   // Signal handling infrastructure (POSIX only)
   static void signalHandler(int signum);
-  static std::jmp_buf signalJumpBuffer;
+  static sigjmp_buf signalJumpBuffer;
   static volatile sig_atomic_t signalCaught;
   static volatile sig_atomic_t signalNumber;
 #endif
-- 
2.43.0


From 81627361e8ee7817651e6820525726b19962d519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:19 +0000
Subject: [PATCH 21/68] fix: initialize the library handle of a session without
 model

---
 src/Runtime/ExecutionSession.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Runtime/ExecutionSession.hpp b/src/Runtime/ExecutionSession.hpp
index 730da91..103ee52 100644
--- a/src/Runtime/ExecutionSession.hpp
+++ b/src/Runtime/ExecutionSession.hpp
@@ -153,7 +153,7 @@ protected:
   bool isInitialized = false;
 
   // Handler to the shared library file being loaded.
-  DynamicLibraryHandleType _sharedLibraryHandle;
+  DynamicLibraryHandleType _sharedLibraryHandle{};
 
   // Entry point function.
   std::string _entryPointName;
-- 
2.43.0


From 7c0d25c36f8d9d6e97f7cb31bff5c33aeb69a11e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:45 +0000
Subject: [PATCH 22/68] fix: unset OM_CONSTANT_PATH when loading a model fails

---
 src/Runtime/ExecutionSession.cpp | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/Runtime/ExecutionSession.cpp b/src/Runtime/ExecutionSession.cpp
index 135f1b1..7ddafd4 100644
--- a/src/Runtime/ExecutionSession.cpp
+++ b/src/Runtime/ExecutionSession.cpp
@@ -79,7 +79,20 @@ void ExecutionSession::loadModel(const std::string &sharedLibPath,
 
   // If OM_CONSTANT_PATH is not set, set it for loading constants from file. Do
   // this before dlopen since OM_CONSTANT_PATH is used by constructors.
-  bool setOMConstantPath = false;
+  // Unset it again in all cases, to avoid conflict with the load of another
+  // model.
+  struct OMConstantPathGuard {
+    bool isSet = false;
+    ~OMConstantPathGuard() {
+      if (!isSet)
+        return;
+#if defined(_WIN32)
+      _putenv_s("OM_CONSTANT_PATH", "");
+#else
+      unsetenv("OM_CONSTANT_PATH");
+#endif
+    }
+  } omConstantPathGuard;
   if (!std::getenv("OM_CONSTANT_PATH")) {
     std::size_t found = sharedLibPath.find_last_of("/\\");
     if (found != std::string::npos) {
@@ -89,7 +102,7 @@ void ExecutionSession::loadModel(const std::string &sharedLibPath,
 #else
       setenv("OM_CONSTANT_PATH", basePath.c_str(), /*overwrite=*/0);
 #endif
-      setOMConstantPath = true;
+      omConstantPathGuard.isSet = true;
     }
   }
 
@@ -214,15 +227,6 @@ void ExecutionSession::loadModel(const std::string &sharedLibPath,
   // Successful completion of initialization.
   isInitialized = true;
 
-  // Unset OM_CONSTANT_PATH to avoid conflict with the load of another model.
-  if (setOMConstantPath) {
-#if defined(_WIN32)
-    _putenv_s("OM_CONSTANT_PATH", "");
-#else
-    unsetenv("OM_CONSTANT_PATH");
-#endif
-  }
-
   // Set default entry point if requested.
   if (defaultEntryPoint)
     setEntryPoint("run_main_graph" + lowDashTag);
-- 
2.43.0


From 240ed74dd7f3020f1ce636e1398a5d03b2bb0226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:45 +0000
Subject: [PATCH 23/68] fix: close the model library when a session fails to
 load it

---
 src/Runtime/ExecutionSession.cpp | 19 ++++++++++++++++---
 src/Runtime/ExecutionSession.hpp |  3 +++
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/Runtime/ExecutionSession.cpp b/src/Runtime/ExecutionSession.cpp
index 7ddafd4..4dbc57a 100644
--- a/src/Runtime/ExecutionSession.cpp
+++ b/src/Runtime/ExecutionSession.cpp
@@ -140,7 +140,15 @@ void ExecutionSession::loadModel(const std::string &sharedLibPath,
     lowDashTag = "_" + tag;
 #endif
 
-  // Init symbols used by execution session.
+  // Init symbols used by execution session. Close the library again when a
+  // symbol is missing.
+  struct LibraryGuard {
+    ExecutionSession *session;
+    ~LibraryGuard() {
+      if (session)
+        session->closeModel();
+    }
+  } libraryGuard{this};
 #if defined(_WIN32)
   _sharedLibraryHandle =
       llvm::sys::DynamicLibrary::getLibrary(sharedLibPath.c_str());
@@ -231,10 +239,11 @@ void ExecutionSession::loadModel(const std::string &sharedLibPath,
   if (defaultEntryPoint)
     setEntryPoint("run_main_graph" + lowDashTag);
 
-  errno = 0; // No errors.
+  libraryGuard.session = nullptr; // Keep the library.
+  errno = 0;                      // No errors.
 }
 
-ExecutionSession::~ExecutionSession() {
+void ExecutionSession::closeModel() {
 #if defined(_WIN32)
   if (_sharedLibraryHandle.isValid())
     llvm::sys::DynamicLibrary::closeLibrary(_sharedLibraryHandle);
@@ -242,8 +251,12 @@ ExecutionSession::~ExecutionSession() {
   if (_sharedLibraryHandle)
     dlclose(_sharedLibraryHandle);
 #endif
+  _sharedLibraryHandle = DynamicLibraryHandleType();
+  isInitialized = false;
 }
 
+ExecutionSession::~ExecutionSession() { closeModel(); }
+
 // =============================================================================
 // Setter and getter.
 
diff --git a/src/Runtime/ExecutionSession.hpp b/src/Runtime/ExecutionSession.hpp
index 103ee52..7933ecf 100644
--- a/src/Runtime/ExecutionSession.hpp
+++ b/src/Runtime/ExecutionSession.hpp
@@ -186,6 +186,9 @@ protected:
   OMTensorList *runImplementation(OMTensorList *input, bool useSignalHandler);
 
 private:
+  // Close the library, if any.
+  void closeModel();
+
   // Run with without signal handler.
   OMTensorList *runWithoutSignalHandler(OMTensorList *input);
 
-- 
2.43.0


From 2e3a5ca13407373678cb00151e82ce43fd4680fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:45 +0000
Subject: [PATCH 24/68] fix: remember the path of a model loaded after
 construction

---
 src/Runtime/ExecutionSession.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Runtime/ExecutionSession.cpp b/src/Runtime/ExecutionSession.cpp
index 4dbc57a..70ef81c 100644
--- a/src/Runtime/ExecutionSession.cpp
+++ b/src/Runtime/ExecutionSession.cpp
@@ -74,6 +74,7 @@ void ExecutionSession::loadModel(const std::string &sharedLibPath,
   if (isInitialized)
     throw ExecutionSessionException(
         "Execution session must be initialized once at most.");
+  this->sharedLibPath = sharedLibPath;
 
   std::string tag = modelTag;
 
-- 
2.43.0


From 0f484428948720d22009d0d0ad8c75624650055f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:45 +0000
Subject: [PATCH 25/68] fix: return the entry point names as the C strings they
 are

---
 src/Runtime/ExecutionSession.cpp | 5 ++---
 src/Runtime/ExecutionSession.hpp | 2 +-
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/Runtime/ExecutionSession.cpp b/src/Runtime/ExecutionSession.cpp
index 70ef81c..70a47bb 100644
--- a/src/Runtime/ExecutionSession.cpp
+++ b/src/Runtime/ExecutionSession.cpp
@@ -261,13 +261,12 @@ ExecutionSession::~ExecutionSession() { closeModel(); }
 // =============================================================================
 // Setter and getter.
 
-const std::string *ExecutionSession::queryEntryPoints(
+const char **ExecutionSession::queryEntryPoints(
     int64_t *numOfEntryPoints) const {
   if (!isInitialized)
     throw ExecutionSessionException(
         "Execution session must be initialized once.");
-  return reinterpret_cast<const std::string *>(
-      _queryEntryPointsFunc(numOfEntryPoints));
+  return _queryEntryPointsFunc(numOfEntryPoints);
 }
 
 void ExecutionSession::setEntryPoint(const std::string &entryPointName) {
diff --git a/src/Runtime/ExecutionSession.hpp b/src/Runtime/ExecutionSession.hpp
index 7933ecf..8f6aab3 100644
--- a/src/Runtime/ExecutionSession.hpp
+++ b/src/Runtime/ExecutionSession.hpp
@@ -85,7 +85,7 @@ public:
   // For example {"run_addition, "run_subtraction", NULL}
   // In order to get the number of entry points, pass an integer pointer to the
   // function.
-  const std::string *queryEntryPoints(int64_t *numOfEntryPoints) const;
+  const char **queryEntryPoints(int64_t *numOfEntryPoints) const;
 
   // Set entry point for this session.
   // Call this before running the session or querying signatures if
-- 
2.43.0


From 076a22adb237cb3e26dfe54145ed690d7add4c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:35 +0000
Subject: [PATCH 26/68] fix: reject input signatures without a type

---
 src/Runtime/OMTensorListHelper.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Runtime/OMTensorListHelper.cpp b/src/Runtime/OMTensorListHelper.cpp
index 6c6fbd9..5b77010 100644
--- a/src/Runtime/OMTensorListHelper.cpp
+++ b/src/Runtime/OMTensorListHelper.cpp
@@ -272,7 +272,7 @@ static OM_DATA_TYPE typeStringToOMDataType(const std::string &typeStr) {
 }
 
 struct SigEntry {
-  OM_DATA_TYPE type;
+  OM_DATA_TYPE type = ONNX_TYPE_UNDEFINED;
   std::vector<int64_t> dims;
 };
 
@@ -349,6 +349,8 @@ static bool parseSignatureInfo(
         parseJsonStr(s, tmp);
       }
     }
+    if (entry.type == ONNX_TYPE_UNDEFINED)
+      return reportFailure("parseSignatureInfo: missing type");
     entries.push_back(std::move(entry));
   }
   return !entries.empty();
-- 
2.43.0


From 5aa23a912e88dc7a6b3e74f949b9add4c5ff6728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:35 +0000
Subject: [PATCH 27/68] fix: reject truncated input signatures

---
 src/Runtime/OMTensorListHelper.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Runtime/OMTensorListHelper.cpp b/src/Runtime/OMTensorListHelper.cpp
index 5b77010..728136d 100644
--- a/src/Runtime/OMTensorListHelper.cpp
+++ b/src/Runtime/OMTensorListHelper.cpp
@@ -287,7 +287,9 @@ static bool parseSignatureInfo(
 
   while (true) {
     skipWS(s);
-    if (s.empty() || s[0] == ']')
+    if (s.empty())
+      return reportFailure("parseSignatureInfo: unterminated signature");
+    if (s[0] == ']')
       break;
     if (s[0] == ',') {
       s = s.substr(1);
-- 
2.43.0


From b596f5fe07210c3756a40fcc2324d37b942cd062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:35 +0000
Subject: [PATCH 28/68] fix: reject shape and bound information with trailing
 characters

---
 src/Runtime/OMTensorListHelper.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/Runtime/OMTensorListHelper.cpp b/src/Runtime/OMTensorListHelper.cpp
index 728136d..01dc929 100644
--- a/src/Runtime/OMTensorListHelper.cpp
+++ b/src/Runtime/OMTensorListHelper.cpp
@@ -75,12 +75,15 @@ static bool parseEntry(const std::string &entry, int numInputs, int64_t &idLow,
       iss.get();
       if (!(iss >> idHigh))
         return reportFailure("Failed to parse range end from '" + entry + "'");
+      iss >> std::ws;
       if (idHigh < idLow || idHigh >= numInputs)
         return reportFailure("Range end " + std::to_string(idHigh) +
                              " invalid (must be " + std::to_string(idLow) +
                              ".." + std::to_string(numInputs - 1) + ")");
     }
   }
+  if (!(iss >> std::ws).eof())
+    return reportFailure("Failed to parse input ID from '" + entry + "'");
   return true;
 }
 
@@ -104,7 +107,7 @@ static bool parseShapeInfo(const char *shapeInfo, int numInputs,
       std::istringstream ds(dimStr);
       ds >> std::ws;
       int64_t d;
-      if (!(ds >> d))
+      if (!(ds >> d) || !(ds >> std::ws).eof())
         return reportFailure("Failed to parse dimension from '" + dimStr + "'");
       if (d < -1)
         return reportFailure("expected dimension value: -1 or positive, got " +
@@ -469,7 +472,7 @@ static bool parseBoundOverrides(const char *bounds, double *arr) {
       return reportFailure("Empty type name in bound entry '" + entry + "'");
     std::istringstream valStream(parts[1]);
     double val;
-    if (!(valStream >> val))
+    if (!(valStream >> val) || !(valStream >> std::ws).eof())
       return reportFailure(
           "Failed to parse bound value from '" + parts[1] + "'");
     OM_DATA_TYPE t = runONNXModelNameToOMType(typeName);
-- 
2.43.0


From 621cf34580e76174ed8ac491566e57019684898d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:35 +0000
Subject: [PATCH 29/68] fix: reject value bounds that leave no value for an
 input

---
 src/Runtime/OMTensorListHelper.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Runtime/OMTensorListHelper.cpp b/src/Runtime/OMTensorListHelper.cpp
index 01dc929..827982f 100644
--- a/src/Runtime/OMTensorListHelper.cpp
+++ b/src/Runtime/OMTensorListHelper.cpp
@@ -541,6 +541,12 @@ OMTensorList *omTensorListCreateFromInputSignature(
     }
     double lo = vspec.hasMin ? vspec.minVal : lb[entry.type];
     double hi = vspec.hasMax ? vspec.maxVal : ub[entry.type];
+    if (!vspec.hasSoz && !(lo <= hi)) {
+      reportFailure("tensor " + std::to_string(i) + ": lower bound " +
+                    std::to_string(lo) + " exceeds upper bound " +
+                    std::to_string(hi));
+      return abortWithCleanup(i);
+    }
     if (vspec.hasSoz)
       tensor = omTensorCreateSozData(entry.dims, entry.type, vspec.sozCount);
     else
-- 
2.43.0


From bd87920514349c83bc9f10c00b26ee258ad2585f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:35 +0000
Subject: [PATCH 30/68] fix: do not write ones past rows of length zero

---
 src/Runtime/OMTensorHelper.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Runtime/OMTensorHelper.cpp b/src/Runtime/OMTensorHelper.cpp
index 76e3b39..0e77edc 100644
--- a/src/Runtime/OMTensorHelper.cpp
+++ b/src/Runtime/OMTensorHelper.cpp
@@ -242,7 +242,9 @@ OMTensor *omTensorCreateSozData(
   };
 
   for (int64_t row = 0; row < numRows; ++row) {
-    int64_t n = (sozCount < 0) ? dist(omRandomGenerator) : fixedN;
+    int64_t n = (sozCount < 0)
+                    ? std::min(dist(omRandomGenerator), innerDim)
+                    : fixedN;
     char *rowPtr = (char *)buf + row * innerDim * elemSize;
     switch (omType) {
     case ONNX_TYPE_BOOL:
-- 
2.43.0


From 1b7f5534c6b2b2693bf0aef8a96075f6bc7032a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:54 +0000
Subject: [PATCH 31/68] fix: pass the strides of the flattened input in
 PyRuntime

---
 src/Runtime/python/PyRuntime.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/Runtime/python/PyRuntime.py b/src/Runtime/python/PyRuntime.py
index 86e5960..6db9cea 100644
--- a/src/Runtime/python/PyRuntime.py
+++ b/src/Runtime/python/PyRuntime.py
@@ -33,9 +33,14 @@ class OMExecutionSession(OMExecutionSession_):
         pyrun_shapes = []
         pyrun_strides = []
         for inp in inputs:
-            pyrun_inputs.append(inp.ravel())
+            # The flattened array is a row-major copy when inp is not contiguous:
+            # pass the strides of the data that is handed over.
+            flat = inp.ravel()
+            pyrun_inputs.append(flat)
             pyrun_shapes.append(np.array(inp.shape, dtype=np.int64))
-            pyrun_strides.append(np.array(inp.strides, dtype=np.int64))
+            pyrun_strides.append(
+                np.array(flat.reshape(inp.shape).strides, dtype=np.int64)
+            )
         return super(OMExecutionSession, self)._runImplementation(
             pyrun_inputs,
             pyrun_shapes,
@@ -52,9 +57,14 @@ class OMExecutionSession(OMExecutionSession_):
         pyrun_shapes = []
         pyrun_strides = []
         for inp in inputs:
-            pyrun_inputs.append(inp.ravel())
+            # The flattened array is a row-major copy when inp is not contiguous:
+            # pass the strides of the data that is handed over.
+            flat = inp.ravel()
+            pyrun_inputs.append(flat)
             pyrun_shapes.append(np.array(inp.shape, dtype=np.int64))
-            pyrun_strides.append(np.array(inp.strides, dtype=np.int64))
+            pyrun_strides.append(
+                np.array(flat.reshape(inp.shape).strides, dtype=np.int64)
+            )
         return super(OMExecutionSession, self)._runImplementation(
             pyrun_inputs,
             pyrun_shapes,
-- 
2.43.0


From 23d447d7fc0172c6babf39f631374168caab355e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:04 +0000
Subject: [PATCH 32/68] fix: return string tensors as object arrays in
 PyExecutionSession

---
 src/Runtime/python/PyExecutionSession.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Runtime/python/PyExecutionSession.cpp b/src/Runtime/python/PyExecutionSession.cpp
index 2c0efdb..d03f112 100644
--- a/src/Runtime/python/PyExecutionSession.cpp
+++ b/src/Runtime/python/PyExecutionSession.cpp
@@ -113,6 +113,10 @@ static py::array copyTensorToPyArray(
 // Map OM_DATA_TYPE to the numpy dtype string expected by py::dtype().
 // Driven by OnnxDataTypeMetaData.inc. Returns nullptr for unmapped types.
 static const char *omDataTypeToNumpyDtypeName(OM_DATA_TYPE type) {
+  // Strings are returned as arrays of Python objects; numpy's "str" is a fixed
+  // width character type.
+  if (type == ONNX_TYPE_STRING)
+    return "object";
   static const char *names[] = {
 #define OM_TYPE_METADATA_DEF(E, V, S, D, M, N) N,
 #include "onnx-mlir/Runtime/OnnxDataTypeMetaData.inc"
@@ -344,7 +348,7 @@ std::vector<py::array> PyExecutionSession::pyRunImplementation(
     // Check if the return value is a static constant, which cannot be freed and
     // thus would have been created with the "owning" flag being false.
     if (omTensorGetOwning(omt)) {
-      if (forceOutputDataCopy) {
+      if (forceOutputDataCopy || omTensorGetDataType(omt) == ONNX_TYPE_STRING) {
         // force copy of result, leaving ownership on so that it be destroyed at
         // the end.
         outputPyArrays.emplace_back(copyTensorToPyArray(dtype, shape, omt));
-- 
2.43.0


From 4cabfb73641a77aea62d6222bc3ff42cb2c77f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:39 +0000
Subject: [PATCH 33/68] fix: free every buffer exactly once in
 PyExecutionSession, also when an error is raised

---
 src/Runtime/python/PyExecutionSession.cpp | 136 ++++++++++++----------
 1 file changed, 74 insertions(+), 62 deletions(-)

diff --git a/src/Runtime/python/PyExecutionSession.cpp b/src/Runtime/python/PyExecutionSession.cpp
index d03f112..889356f 100644
--- a/src/Runtime/python/PyExecutionSession.cpp
+++ b/src/Runtime/python/PyExecutionSession.cpp
@@ -17,6 +17,10 @@
 #include "PyFloat16.hpp"
 #include "src/Runtime/OMTensorHelper.hpp"
 
+#include <cstdlib>
+#include <map>
+#include <memory>
+
 #define OM_DRIVER_TIMING 0 /* 1 for timing, 0 for no timing/overheads */
 #include "src/Runtime/OMInstrumentHelper.h"
 
@@ -127,6 +131,16 @@ static const char *omDataTypeToNumpyDtypeName(OM_DATA_TYPE type) {
   return nullptr;
 }
 
+// Owners of the runtime's objects, which release them when an error is raised.
+struct OMTensorDeleter {
+  void operator()(OMTensor *omt) const { omTensorDestroy(omt); }
+};
+struct OMTensorListDeleter {
+  void operator()(OMTensorList *list) const { omTensorListDestroy(list); }
+};
+using OMTensorOwner = std::unique_ptr<OMTensor, OMTensorDeleter>;
+using OMTensorListOwner = std::unique_ptr<OMTensorList, OMTensorListDeleter>;
+
 // =============================================================================
 // Run.
 
@@ -151,7 +165,7 @@ std::vector<py::array> PyExecutionSession::pyRunImplementation(
 
   // 1. Process inputs.
   TIMING_INIT_START(process_input);
-  std::vector<OMTensor *> omts;
+  std::vector<OMTensorOwner> omtOwners;
   if (inputsPyArray.size() != shapesPyArray.size())
     throw onnx_mlir::ExecutionSessionException(
         "numbers of inputs and shapes should be the same");
@@ -166,9 +180,12 @@ std::vector<py::array> PyExecutionSession::pyRunImplementation(
     if (!(inputPyArray.flags() & py::array::c_style))
       throw onnx_mlir::ExecutionSessionException(
           "Expect contiguous python array.");
-    void *dataPtr;
+    void *dataPtr = nullptr;
+    std::unique_ptr<void, decltype(&free)> copiedDataOwner(nullptr, free);
     int64_t ownData = 0;
-    if (inputPyArray.writeable()) {
+    if (inputPyArray.dtype().kind() == 'O') {
+      // Strings are copied to a buffer of their own below.
+    } else if (inputPyArray.writeable()) {
       dataPtr = inputPyArray.mutable_data();
     } else {
       // If data is not writable, copy them to a writable buffer.
@@ -178,6 +195,7 @@ std::vector<py::array> PyExecutionSession::pyRunImplementation(
             "Failed to allocate data buffer for copied data.");
       memcpy(copiedData, inputPyArray.data(), inputPyArray.nbytes());
       dataPtr = copiedData;
+      copiedDataOwner.reset(copiedData);
       // We want OMTensor to free up the memory space upon destruction.
       ownData = 1;
     }
@@ -268,18 +286,25 @@ std::vector<py::array> PyExecutionSession::pyRunImplementation(
             "fail to allocate Tensor for input data");
       omTensorSetStridesWithPyArrayStrides(inputOMTensor, safeStrides.data());
     }
-    omts.emplace_back(inputOMTensor);
+    omtOwners.emplace_back(inputOMTensor);
+    copiedDataOwner.release(); // Now owned by the tensor.
   }
   TIMING_STOP_PRINT(process_input);
 
   // 2. Call entry point: create list.
   TIMING_INIT_START(inference);
-  OMTensorList *wrappedInput = omTensorListCreate(omts.data(), omts.size());
+  std::vector<OMTensor *> omts;
+  for (const OMTensorOwner &omt : omtOwners)
+    omts.emplace_back(omt.get());
+  OMTensorListOwner wrappedInput(omTensorListCreate(omts.data(), omts.size()));
   if (!wrappedInput)
     throw onnx_mlir::ExecutionSessionException(
         "fail to allocate Tensor List for input data");
+  // The tensors are now owned by the list.
+  for (OMTensorOwner &omt : omtOwners)
+    omt.release();
   // Call
-  OMTensorList *wrappedOutput = nullptr;
+  OMTensorListOwner wrappedOutput;
   {
     // TODO: Consider releasing Python's GIL during inference to allow other
     // Python threads to run concurrently. This would improve performance in
@@ -287,28 +312,41 @@ std::vector<py::array> PyExecutionSession::pyRunImplementation(
     // code.
     //     py::gil_scoped_release release;  // Release GIL
 
-    wrappedOutput = runImplementation(wrappedInput, useSignalHandler);
+    wrappedOutput.reset(
+        runImplementation(wrappedInput.get(), useSignalHandler));
   } // TODO from above: GIL would automatically be reacquired here.
   TIMING_STOP_PRINT(inference);
 
   // Check if inference succeeded and returned valid output
-  if (!wrappedOutput) {
-    omTensorListDestroy(wrappedInput);
+  if (!wrappedOutput)
     throw onnx_mlir::ExecutionSessionException("error while runing the model");
-  }
 
   // 3. Process outputs.
   TIMING_INIT_START(process_output);
   std::vector<py::array> outputPyArrays;
-  // Maintain an 1-to-1 mapping between data pointers and py::capsules, to avoid
-  // creating two capsules for the same pointer. Otherwise, it causes double
-  // free error.
+  // Transfer the ownership of every output buffer to a py::capsule, with a
+  // 1-to-1 mapping between allocated pointers and capsules: outputs may share a
+  // buffer, which must be freed only once.
   std::map<void *, py::capsule> mapPtrCapsule{};
-  for (int64_t i = 0; i < omTensorListGetSize(wrappedOutput); i++) {
-    auto *omt = omTensorListGetOmtByIndex(wrappedOutput, i);
+  for (int64_t i = 0; i < omTensorListGetSize(wrappedOutput.get()); i++) {
+    auto *omt = omTensorListGetOmtByIndex(wrappedOutput.get(), i);
+    if (!omt || !omTensorGetOwning(omt))
+      continue;
+    void *omtAllocPtr = omTensorGetAllocatedPtr(omt);
+    // Set owning to false as we migrate the ownership to python
+    omTensorSetOwning(omt, false);
+    if (!omtAllocPtr || mapPtrCapsule.count(omtAllocPtr))
+      continue;
+    mapPtrCapsule.try_emplace(omtAllocPtr,
+        py::capsule(
+            omtAllocPtr, /* Address that will be passed to lambda function. */
+            [](void *ptr) { /* Lambda function that performs the freeing. */
+              free(ptr);
+            }));
+  }
+  for (int64_t i = 0; i < omTensorListGetSize(wrappedOutput.get()); i++) {
+    auto *omt = omTensorListGetOmtByIndex(wrappedOutput.get(), i);
     if (!omt) {
-      omTensorListDestroy(wrappedOutput);
-      omTensorListDestroy(wrappedInput);
       std::stringstream errStr;
       errStr << "Failed to get output tensor at index " << i;
       throw onnx_mlir::ExecutionSessionException(errStr.str());
@@ -319,13 +357,10 @@ std::vector<py::array> PyExecutionSession::pyRunImplementation(
 
     const char *dtypeName =
         omDataTypeToNumpyDtypeName(omTensorGetDataType(omt));
-    if (!dtypeName) {
-      omTensorListDestroy(wrappedOutput);
-      omTensorListDestroy(wrappedInput);
+    if (!dtypeName)
       throw onnx_mlir::ExecutionSessionException(
           "Unsupported ONNX type in OMTensor: " +
           std::to_string(omTensorGetDataType(omt)));
-    }
     py::dtype dtype(dtypeName);
     TIMING_STOP_PRINT(process_output_types);
 
@@ -345,39 +380,19 @@ std::vector<py::array> PyExecutionSession::pyRunImplementation(
       throw onnx_mlir::ExecutionSessionException(
           "case where data ptr is out of bound of the allocated ptr");
     }
-    // Check if the return value is a static constant, which cannot be freed and
-    // thus would have been created with the "owning" flag being false.
-    if (omTensorGetOwning(omt)) {
-      if (forceOutputDataCopy || omTensorGetDataType(omt) == ONNX_TYPE_STRING) {
-        // force copy of result, leaving ownership on so that it be destroyed at
-        // the end.
-        outputPyArrays.emplace_back(copyTensorToPyArray(dtype, shape, omt));
-      } else {
-        // We have a regular tensor which we will need to free at the right
-        // time. Create the capsule that points to the data to be freed
-        // (allocated pointer).
-        py::capsule free_data_with_allocate_ptr;
-        auto it = mapPtrCapsule.find(omtDataPtr);
-        if (it != mapPtrCapsule.end()) {
-          free_data_with_allocate_ptr = it->second;
-        } else {
-          free_data_with_allocate_ptr = py::capsule(
-              omtAllocPtr, /* Address that will be passed to lambda function. */
-              [](void *ptr) { /* Lambda function that performs the freeing. */
-                free(ptr);
-              });
-          mapPtrCapsule.try_emplace(omtDataPtr, free_data_with_allocate_ptr);
-        }
-        // Set owning to false as we migrate the ownership to python
-        omTensorSetOwning(omt, false);
-        // Pass the py::capsule to the numpy array for proper bookkeeping.
-        outputPyArrays.emplace_back(py::array(dtype, shape,
+    auto it = mapPtrCapsule.find(omtAllocPtr);
+    if (it != mapPtrCapsule.end() && !forceOutputDataCopy &&
+        omTensorGetDataType(omt) != ONNX_TYPE_STRING) {
+      // Pass the py::capsule, which frees the data (allocated pointer) at the
+      // right time, to the numpy array for proper bookkeeping.
+      outputPyArrays.emplace_back(py::array(dtype, shape,
           omtDataPtr, // Data pointer used to access the values.
-          free_data_with_allocate_ptr /* Capsule that save the deallocation. */));
-      }
+          it->second /* Capsule that save the deallocation. */));
     } else {
-      // We have a constant, its a very rare case, just do like in the past:
-      // copy.
+      // Either a copy is requested, or the return value is a static constant,
+      // which cannot be freed and thus would have been created with the
+      // "owning" flag being false (its a very rare case). Strings become Python
+      // objects.
       outputPyArrays.emplace_back(copyTensorToPyArray(dtype, shape, omt));
     }
     TIMING_STOP_PRINT(process_output_pyarray);
@@ -385,11 +400,11 @@ std::vector<py::array> PyExecutionSession::pyRunImplementation(
   TIMING_STOP_PRINT(process_output);
 
   TIMING_INIT_START(delete_out_lists);
-  omTensorListDestroy(wrappedOutput);
+  wrappedOutput.reset();
   TIMING_STOP_PRINT(delete_out_lists);
 
   TIMING_INIT_START(delete_in_lists);
-  omTensorListDestroy(wrappedInput);
+  wrappedInput.reset();
   TIMING_STOP_PRINT(delete_in_lists);
 
   return outputPyArrays;
@@ -403,12 +418,12 @@ std::vector<py::array> PyExecutionSession::pyFillInputDebug(
     const std::string &defaultLowerBound, const std::string &defaultUpperBound,
     int seed, bool verbose) {
   // fillInputDebug throws ExecutionSessionException on failure.
-  OMTensorList *inputs =
+  OMTensorListOwner inputs(
       fillInputDebug(shapeInfo.empty() ? nullptr : shapeInfo.c_str(),
           valueInfo.empty() ? nullptr : valueInfo.c_str(),
           defaultLowerBound.empty() ? nullptr : defaultLowerBound.c_str(),
           defaultUpperBound.empty() ? nullptr : defaultUpperBound.c_str(), seed,
-          verbose);
+          verbose));
 
   // Convert the C++ OMTensorList to a Python list of numpy arrays so that:
   // 1. Python callers can inspect and modify individual inputs before
@@ -417,21 +432,18 @@ std::vector<py::array> PyExecutionSession::pyFillInputDebug(
   // 3. Memory ownership transfers to numpy/Python; OMTensorList is destroyed
   //    below once all tensors have been copied out.
   std::vector<py::array> result;
-  for (int64_t i = 0; i < omTensorListGetSize(inputs); i++) {
-    auto *omt = omTensorListGetOmtByIndex(inputs, i);
+  for (int64_t i = 0; i < omTensorListGetSize(inputs.get()); i++) {
+    auto *omt = omTensorListGetOmtByIndex(inputs.get(), i);
     auto shape = std::vector<int64_t>(
         omTensorGetShape(omt), omTensorGetShape(omt) + omTensorGetRank(omt));
     const char *dtypeName =
         omDataTypeToNumpyDtypeName(omTensorGetDataType(omt));
-    if (!dtypeName) {
-      omTensorListDestroy(inputs);
+    if (!dtypeName)
       throw onnx_mlir::ExecutionSessionException(
           "pyFillInputDebug: unsupported tensor type at index " +
           std::to_string(i));
-    }
     result.emplace_back(copyTensorToPyArray(py::dtype(dtypeName), shape, omt));
   }
-  omTensorListDestroy(inputs);
   return result;
 }
 
-- 
2.43.0


From 9721a25ff53be2355a83dfa175d90d064c0aca00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:07 +0000
Subject: [PATCH 34/68] fix: let readArray and readElementsArray compile

---
 src/Dialect/ONNX/ElementsAttr/DisposableElementsAttr.hpp.inc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Dialect/ONNX/ElementsAttr/DisposableElementsAttr.hpp.inc b/src/Dialect/ONNX/ElementsAttr/DisposableElementsAttr.hpp.inc
index ae8a350..308f52d 100644
--- a/src/Dialect/ONNX/ElementsAttr/DisposableElementsAttr.hpp.inc
+++ b/src/Dialect/ONNX/ElementsAttr/DisposableElementsAttr.hpp.inc
@@ -87,5 +87,5 @@ inline onnx_mlir::ArrayBuffer<X> DisposableElementsAttr::getArray() const {
 template <typename X>
 inline void DisposableElementsAttr::readArray(MutableArrayRef<X> dst) const {
   assert(onnx_mlir::toBType<X> == getBType() && "X must match element type");
-  readRawBytes(onnx_mlir::castArrayRef<X>(dst));
+  readRawBytes(onnx_mlir::castMutableArrayRef<char>(dst));
 }
-- 
2.43.0


From cc5891dc870b194588192051e06a58a3931b90d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:07 +0000
Subject: [PATCH 35/68] fix: count negative ScatterND indices from the end of
 the axis

---
 src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp b/src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp
index ffbd8a2..872138a 100644
--- a/src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp
+++ b/src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp
@@ -823,8 +823,12 @@ ElementsAttr ElementsAttrBuilder::scatterND(
     ArrayBuffer<int64_t> indicesBuffer = getElementsArray<int64_t>(indices);
     const int64_t *indicesIter = indicesBuffer.get().begin();
     for (int64_t i = 0; i < n_slices; ++i) {
-      ArrayRef<uint64_t> idxs =
-          castArrayRef<uint64_t>(ArrayRef(indicesIter, indices_nd));
+      SmallVector<uint64_t, 4> idxs;
+      for (int64_t k = 0; k < indices_nd; ++k) {
+        // Negative indices count from the end of the axis.
+        int64_t idx = indicesIter[k];
+        idxs.push_back(idx < 0 ? idx + inputShape[k] : idx);
+      }
       int64_t pos = getStridesPosition(idxs, sliceStrides);
       for (int64_t j = 0; j < slice_size; ++j) {
         dst[pos] = updatesData.get()[updatesIter->at(0)];
-- 
2.43.0


From 58dd5ea78427ca638bdc59b630661e7e301adebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:49 +0000
Subject: [PATCH 36/68] fix: handle constants without elements in split, pad,
 expand and reshape

---
 .../ONNX/ElementsAttr/ElementsAttrBuilder.cpp   | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp b/src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp
index 872138a..a3075f4 100644
--- a/src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp
+++ b/src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp
@@ -569,8 +569,7 @@ std::vector<ElementsAttr> ElementsAttrBuilder::split(
   auto type = elms.getShapedType();
   auto shape = type.getShape();
   assert(axis < shape.size());
-  auto axisSize = shape[axis];
-  assert(std::accumulate(sizes.begin(), sizes.end(), 0) == axisSize);
+  assert(std::accumulate(sizes.begin(), sizes.end(), 0) == shape[axis]);
   if (sizes.empty()) {
     return {};
   }
@@ -583,7 +582,7 @@ std::vector<ElementsAttr> ElementsAttrBuilder::split(
 
   ArrayBuffer<WideNum> data = getElementsWideNums(elms);
   size_t stride = ShapedType::getNumElements(shape.drop_front(axis));
-  size_t substride = stride / axisSize;
+  size_t substride = ShapedType::getNumElements(shape.drop_front(axis + 1));
   size_t offset = 0;
   SmallVector<int64_t, 4> splitShape(shape.begin(), shape.end());
   splitShape[axis] = 0; // Is set in every iteration.
@@ -674,6 +673,8 @@ namespace {
 ElementsAttr splat(ShapedType type, WideNum num) {
   Type elemType = type.getElementType();
   BType btype = btypeOfMlirType(elemType);
+  if (type.getNumElements() == 0)
+    return DenseElementsAttr::get(type, ArrayRef<Attribute>{});
   if (isFloatBType(btype))
     return DenseElementsAttr::get(type, num.toAPFloat(btype));
   if (isIntBType(btype))
@@ -1228,6 +1229,16 @@ ElementsAttr ElementsAttrBuilder::create(ShapedType type, BType bufferBType,
     ArrayRef<int64_t> strides,
     const std::shared_ptr<llvm::MemoryBuffer> &buffer,
     Transformer transformer) {
+  if (type.getNumElements() == 0) {
+    // Nothing can be read from an empty constant: don't refer to the data of
+    // the (possibly non-empty, e.g. if broadcast to empty) source.
+    return disposablePool.createElementsAttr(type,
+        btypeOfMlirType(type.getElementType()),
+        getDefaultStrides(type.getShape()),
+        std::shared_ptr<llvm::MemoryBuffer>(
+            llvm::WritableMemoryBuffer::getNewUninitMemBuffer(0)),
+        /*transformer=*/nullptr);
+  }
   return disposablePool.createElementsAttr(
       type, bufferBType, strides, buffer, std::move(transformer));
 }
-- 
2.43.0


From 7a42220df5e5f54497d6a57acc25e2e789657c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:49 +0000
Subject: [PATCH 37/68] fix: widen dense bool constants to 0 and 1 like
 disposable ones

---
 src/Dialect/ONNX/ElementsAttr/ElementsAttrHelper.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/Dialect/ONNX/ElementsAttr/ElementsAttrHelper.cpp b/src/Dialect/ONNX/ElementsAttr/ElementsAttrHelper.cpp
index ded0661..c0e8259 100644
--- a/src/Dialect/ONNX/ElementsAttr/ElementsAttrHelper.cpp
+++ b/src/Dialect/ONNX/ElementsAttr/ElementsAttrHelper.cpp
@@ -22,6 +22,13 @@ using namespace mlir;
 
 namespace onnx_mlir {
 
+namespace {
+// Like BType, treats bool as unsigned: true is 1, not -1.
+bool isWideSigned(IntegerType itype) {
+  return !itype.isUnsigned() && itype.getWidth() != 1;
+}
+} // namespace
+
 WideNum getElementsSplatWideNum(ElementsAttr elms) {
   if (auto disposable = mlir::dyn_cast<DisposableElementsAttr>(elms))
     return disposable.getSplatValue<WideNum>();
@@ -29,7 +36,7 @@ WideNum getElementsSplatWideNum(ElementsAttr elms) {
   if (isa<FloatType>(elementType))
     return WideNum::fromAPFloat(elms.getSplatValue<APFloat>());
   if (auto itype = dyn_cast<IntegerType>(elementType))
-    return WideNum::fromAPInt(elms.getSplatValue<APInt>(), !itype.isUnsigned());
+    return WideNum::fromAPInt(elms.getSplatValue<APInt>(), isWideSigned(itype));
   llvm_unreachable("WideNum only supports integer and float types");
 }
 
@@ -44,7 +51,7 @@ void readDenseElementsWideNums(
     llvm::transform(elms.getValues<APFloat>(), dst.begin(),
         [](APFloat f) { return WideNum::fromAPFloat(f); });
   } else if (auto itype = dyn_cast<IntegerType>(elementType)) {
-    bool isSigned = !itype.isUnsigned();
+    bool isSigned = isWideSigned(itype);
     llvm::transform(elms.getValues<APInt>(), dst.begin(),
         [isSigned](APInt i) { return WideNum::fromAPInt(i, isSigned); });
   } else {
-- 
2.43.0


From 778952646e3639557fd006504ede73207c5ccc13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:23 +0000
Subject: [PATCH 38/68] fix: read splat constants of 16-bit floats in
 getElementsArray

---
 .../ONNX/ElementsAttr/ElementsAttrHelper.hpp.inc    | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/Dialect/ONNX/ElementsAttr/ElementsAttrHelper.hpp.inc b/src/Dialect/ONNX/ElementsAttr/ElementsAttrHelper.hpp.inc
index 3d86b02..4b845cd 100644
--- a/src/Dialect/ONNX/ElementsAttr/ElementsAttrHelper.hpp.inc
+++ b/src/Dialect/ONNX/ElementsAttr/ElementsAttrHelper.hpp.inc
@@ -8,12 +8,11 @@ template <typename X>
 ArrayBuffer<X> getElementsArray(mlir::ElementsAttr elms) {
   if (auto disposable = mlir::dyn_cast<mlir::DisposableElementsAttr>(elms))
     return disposable.getArray<X>();
-  if (elms.isSplat())
-    return
-        typename ArrayBuffer<X>::Vector(elms.size(), elms.getSplatValue<X>());
   if (!elms.getElementType().isInteger(1)) {
     if (auto dense = mlir::dyn_cast<mlir::DenseElementsAttr>(elms)) {
       llvm::ArrayRef<X> data = castArrayRef<X>(dense.getRawData());
+      if (elms.isSplat())
+        return typename ArrayBuffer<X>::Vector(elms.size(), data.front());
       assert(data.size() == static_cast<size_t>(elms.size()));
       return data;
     }
@@ -27,13 +26,13 @@ template <typename X>
 void readElementsArray(mlir::ElementsAttr elms, llvm::MutableArrayRef<X> dst) {
   if (auto disposable = mlir::dyn_cast<mlir::DisposableElementsAttr>(elms))
     return disposable.readArray<X>(dst);
-  if (elms.isSplat()) {
-    assert(dst.size() == static_cast<size_t>(elms.size()));
-    return std::fill(dst.begin(), dst.end(), elms.getSplatValue<X>());
-  }
   if (!elms.getElementType().isInteger(1)) {
     if (auto dense = mlir::dyn_cast<mlir::DenseElementsAttr>(elms)) {
       llvm::ArrayRef<X> data = castArrayRef<X>(dense.getRawData());
+      if (elms.isSplat()) {
+        assert(dst.size() == static_cast<size_t>(elms.size()));
+        return std::fill(dst.begin(), dst.end(), data.front());
+      }
       auto end = std::copy(data.begin(), data.end(), dst.begin());
       assert(end == dst.end());
       return;
-- 
2.43.0


From bf006e137eb7052cd91d68710fa0be24abd97ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:23 +0000
Subject: [PATCH 39/68] fix: cast bool constants to signed integers

---
 src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp b/src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp
index a3075f4..4c3920b 100644
--- a/src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp
+++ b/src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp
@@ -404,7 +404,10 @@ ElementsAttr ElementsAttrBuilder::castToIntElementType(
     //
     // TODO: Add configuration options to support other behaviors.
     //       See https://github.com/onnx/onnx-mlir/issues/2209
-    if (newElementType.isUnsigned() != oldElementType.isUnsignedInteger()) {
+    // Bool is represented as an unsigned number.
+    bool isOldUnsigned =
+        oldElementType.isUnsignedInteger() || oldElementType.isInteger(1);
+    if (newElementType.isUnsigned() != isOldUnsigned) {
       // DisposableElementsAttr requires transformation between integers with
       // different signs.
       // TODO: Consider relaxing the requirement and omit this transformation.
-- 
2.43.0


From 82d033dd138f159a84966e3d88410c3af3340d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:22 +0000
Subject: [PATCH 40/68] fix: truncate wide integers explicitly when read as
 APInt

---
 src/Dialect/ONNX/ElementsAttr/WideNum.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Dialect/ONNX/ElementsAttr/WideNum.cpp b/src/Dialect/ONNX/ElementsAttr/WideNum.cpp
index 7b11568..5b7a3fd 100644
--- a/src/Dialect/ONNX/ElementsAttr/WideNum.cpp
+++ b/src/Dialect/ONNX/ElementsAttr/WideNum.cpp
@@ -44,10 +44,10 @@ APFloat WideNum::toAPFloat(BType tag) const {
 APInt WideNum::toAPInt(BType tag) const {
   unsigned bitwidth = bitwidthOfBType(tag);
   if (isSignedIntBType(tag))
-    // Actually, isSigned flag is ignored because bitwidth <= 64.
-    return APInt(bitwidth, i64, /*isSigned=*/true);
+    // Numbers are truncated when they are read, see castToIntElementType().
+    return APInt(64, i64, /*isSigned=*/true).trunc(bitwidth);
   if (isUnsignedIntBType(tag))
-    return APInt(bitwidth, u64);
+    return APInt(64, u64).trunc(bitwidth);
   llvm_unreachable("BType must be an integer");
 }
 
-- 
2.43.0


From d8d3f89aa90a89efcf437b8cadd08d54ae115157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:59 +0000
Subject: [PATCH 41/68] fix: accept dimensions above 2^31 in shape information

---
 src/Support/TypeUtilities.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Support/TypeUtilities.cpp b/src/Support/TypeUtilities.cpp
index 1187661..4f686c1 100644
--- a/src/Support/TypeUtilities.cpp
+++ b/src/Support/TypeUtilities.cpp
@@ -135,7 +135,7 @@ std::map<int64_t, std::vector<int64_t>> parseShapeInformation(
       std::string dimStr;
       std::vector<int64_t> dims;
       while (std::getline(dimSizes, dimStr, DIM_SEP)) {
-        int64_t dimSize = std::stoi(dimStr);
+        int64_t dimSize = std::stoll(dimStr);
         assert((dimSize == kUserDynamic || dimSize > 0) &&
                "dim must be -1 or > 0");
         if (dimSize == kUserDynamic)
-- 
2.43.0


From acbe4fcc3af21594b3ffad365bad1174ec40ac09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:47 +0000
Subject: [PATCH 42/68] fix: derive output names from the flags as the compiler
 does

---
 src/Compiler/CommandUtils.cpp | 139 ++++++++++++++++++++--------------
 src/Compiler/OMCompile.cpp    |   3 +-
 2 files changed, 86 insertions(+), 56 deletions(-)

diff --git a/src/Compiler/CommandUtils.cpp b/src/Compiler/CommandUtils.cpp
index 15c2b03..a1722b7 100644
--- a/src/Compiler/CommandUtils.cpp
+++ b/src/Compiler/CommandUtils.cpp
@@ -79,27 +79,50 @@ std::vector<std::string> parseFlags(const std::string &flags) {
   return flagVect;
 }
 
+// Match the output option of the compiler, "-o value" or "-o=value" (with one or
+// two dashes). When it is matched, "valueFlag" is the index of the flag that
+// holds the value and "valuePos" the position of the value in that flag.
+static bool matchOutputFlag(const std::vector<std::string> &flagVect, int index,
+    int &valueFlag, size_t &valuePos) {
+  const std::string &flag = flagVect[index];
+  if (flag == "-o" || flag == "--o") {
+    valueFlag = index + 1;
+    valuePos = 0;
+    return true;
+  }
+  if (flag.rfind("-o=", 0) == 0 || flag.rfind("--o=", 0) == 0) {
+    valueFlag = index;
+    valuePos = flag.find('=') + 1;
+    return true;
+  }
+  return false;
+}
+
 static std::string getOutputBasenameFromFlags(
     const std::vector<std::string> &flagVect) {
-  // Get output file name from the flags.
+  // Get output file name from the flags. As in the compiler, the last one wins.
+  std::string outputBasename;
   int num = flagVect.size();
   for (int i = 0; i < num; ++i) {
-    if (flagVect[i].find("-o=", 0, 3) == 0) {
-      if (flagVect[i].length() > 3) {
-        return flagVect[i].substr(3);
-      } else
-        fprintf(
-            stderr, "Parsing `-o=` option, expected a name. Use default.\n");
-    } else if (flagVect[i].find("-o") == 0) {
-      if (i < num - 1) {
-        return flagVect[i + 1];
-        break;
-      } else {
-        fprintf(stderr, "Parsing `-o` option, expected a name. Use default.\n");
-      }
-    }
+    int valueFlag;
+    size_t valuePos;
+    if (!matchOutputFlag(flagVect, i, valueFlag, valuePos))
+      continue;
+    if (valueFlag < num)
+      outputBasename = flagVect[valueFlag].substr(valuePos);
+    else
+      outputBasename.clear();
+    if (outputBasename.empty())
+      fprintf(stderr, "Parsing `-o` option, expected a name. Use default.\n");
+    i = valueFlag;
   }
-  return "";
+  // As in the compiler, ignore values that do not name a file ("-", ".", "..",
+  // "dir/", etc.).
+  size_t nameStart = outputBasename.find_last_of("/\\") + 1;
+  if (outputBasename == "-" ||
+      outputBasename.find_first_not_of('.', nameStart) == std::string::npos)
+    return "";
+  return outputBasename;
 }
 
 static EmissionTargetType getEmissionTargetFromFlags(
@@ -110,21 +133,28 @@ static EmissionTargetType getEmissionTargetFromFlags(
   // have their own. That is why the Emit target has to be part of the flags
   // and cannot be a direct enum, as there is none that encompass all the
   // possible options.
+  // Default is EmitLib. As in the compiler, the last one wins.
+  EmissionTargetType target = EmissionTargetType::EmitLib;
   int num = flagVect.size();
   for (int i = 0; i < num; ++i) {
+    int valueFlag;
+    size_t valuePos;
+    if (matchOutputFlag(flagVect, i, valueFlag, valuePos)) {
+      i = valueFlag;
+      continue;
+    }
     if (flagVect[i].find("-Emit") == 0 || flagVect[i].find("--Emit") == 0) {
       if (flagVect[i].find("Lib") <= 6)
-        return EmissionTargetType::EmitLib;
+        target = EmissionTargetType::EmitLib;
       else if (flagVect[i].find("JNI") <= 6)
-        return EmissionTargetType::EmitJNI;
+        target = EmissionTargetType::EmitJNI;
       else if (flagVect[i].find("Obj") <= 6)
-        return EmissionTargetType::EmitObj;
+        target = EmissionTargetType::EmitObj;
       else // There are many other targets, all of the MLIR type.
-        return EmissionTargetType::EmitMLIR;
+        target = EmissionTargetType::EmitMLIR;
     }
   }
-  // Default is EmitLib.
-  return EmissionTargetType::EmitLib;
+  return target;
 }
 
 std::string getAbsolutePathUsingCurrentDir(const std::string &filename) {
@@ -144,6 +174,13 @@ std::string getInputFilename(
   if (!inputFilename.empty())
     return inputFilename;
   for (size_t i = 0; i < flags.size(); ++i) {
+    int valueFlag;
+    size_t valuePos;
+    if (matchOutputFlag(flags, i, valueFlag, valuePos)) {
+      // The value of the output option is not an input.
+      i = valueFlag;
+      continue;
+    }
     const std::string &arg = flags[i];
     if (!arg.empty() && arg[0] == '-')
       continue;
@@ -195,16 +232,16 @@ std::string getOutputFilename(const std::string &inputFilename,
 }
 
 std::string getModelTag(const std::vector<std::string> &flagVect) {
+  // As in the compiler, the last one wins.
   std::string modelTag = "";
   for (int i = 0; i < (int)flagVect.size(); ++i) {
-    if (flagVect[i].find("--tag=") == 0) {
+    if (flagVect[i].find("--tag=") == 0)
       modelTag = flagVect[i].substr(6);
-      break;
-    }
-    if (flagVect[i].find("-tag=") == 0) {
+    else if (flagVect[i].find("-tag=") == 0)
       modelTag = flagVect[i].substr(5);
-      break;
-    }
+    else if ((flagVect[i] == "--tag" || flagVect[i] == "-tag") &&
+             i + 1 < (int)flagVect.size())
+      modelTag = flagVect[++i];
   }
   return modelTag;
 }
@@ -216,38 +253,30 @@ void applyOutputPath(std::vector<std::string> &flagVect,
     return;
 
   // Loop through flags to find -o option.
+  bool hasOutputFlag = false;
   int num = flagVect.size();
   for (int i = 0; i < num; ++i) {
-    if (flagVect[i].find("-o=", 0, 3) == 0 && flagVect[i].length() > 3) {
-      // Found -o=value format.
-      std::string outputBasename = flagVect[i].substr(3);
-      fs::path p(outputBasename);
-      fs::path parentPath = p.parent_path();
-
-      if (parentPath.empty()) {
-        // No path component, prepend outputPath.
-        fs::path newPath = fs::path(outputPath) / p.filename();
-        flagVect[i] = "-o=" + newPath.string();
-      }
-      // Otherwise path exists, leave unchanged.
-      return;
-    } else if (flagVect[i] == "-o" && i < num - 1) {
-      // Found -o value format.
-      std::string outputBasename = flagVect[i + 1];
-      fs::path p(outputBasename);
-      fs::path parentPath = p.parent_path();
-
-      if (parentPath.empty()) {
-        // No path component, prepend outputPath.
-        fs::path newPath = fs::path(outputPath) / p.filename();
-        flagVect[i + 1] = newPath.string();
-      }
-      // Otherwise path exists, leave unchanged.
-      return;
+    int valueFlag;
+    size_t valuePos;
+    if (!matchOutputFlag(flagVect, i, valueFlag, valuePos))
+      continue;
+    i = valueFlag;
+    if (valueFlag >= num || valuePos >= flagVect[valueFlag].length())
+      continue;
+    hasOutputFlag = true;
+    fs::path p(flagVect[valueFlag].substr(valuePos));
+    if (p.parent_path().empty()) {
+      // No path component, prepend outputPath.
+      fs::path newPath = fs::path(outputPath) / p.filename();
+      flagVect[valueFlag].replace(
+          valuePos, std::string::npos, newPath.string());
     }
+    // Otherwise path exists, leave unchanged.
   }
+  if (hasOutputFlag)
+    return;
 
-  // Mo -o option found, add one based on outputPath and input basename.
+  // No -o option found, add one based on outputPath and input basename.
   fs::path inputPath(inputFilename);
   std::string inputBasename = inputPath.stem().string();
   fs::path outputFilePath = fs::path(outputPath) / inputBasename;
diff --git a/src/Compiler/OMCompile.cpp b/src/Compiler/OMCompile.cpp
index f7b30bb..9887735 100644
--- a/src/Compiler/OMCompile.cpp
+++ b/src/Compiler/OMCompile.cpp
@@ -765,7 +765,8 @@ std::string OMCompile::getContainerEngineName() const {
     const std::string &outputPath) {
   std::vector<std::string> flagVect = parseFlags(flags);
   // Apply the output path as needed.
-  onnx_mlir::applyOutputPath(flagVect, outputPath, modelPath);
+  onnx_mlir::applyOutputPath(flagVect, outputPath,
+      onnx_mlir::getInputFilename(modelPath, flagVect));
   // Success, save filename of output, using an absolute path to increase
   // success of dlopen calls.
   std::string name = onnx_mlir::getOutputFilename(modelPath, flagVect);
-- 
2.43.0


From 78a4906cf30c947e8ffe2b56f178dfc321d28978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:10 +0000
Subject: [PATCH 43/68] fix: report commands that could not be logged, awaited
 or started exactly once

---
 src/Compiler/Command.cpp | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/Compiler/Command.cpp b/src/Compiler/Command.cpp
index 88b5155..45dd97e 100644
--- a/src/Compiler/Command.cpp
+++ b/src/Compiler/Command.cpp
@@ -230,6 +230,11 @@ int Command::exec(const std::string &wdir) {
     // Child process.
     if (!stdFilename.empty()) {
       int fd = open(stdFilename.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
+      if (fd == -1) {
+        fprintf(stderr, "Failed in Command to open '%s': errno=%d\n",
+            stdFilename.c_str(), errno);
+        _exit(onnx_mlir::CommandExecutionFailed);
+      }
       dup2(fd, STDOUT_FILENO); // Redirect stdout.
       dup2(fd, STDERR_FILENO); // Redirect stderr.
       close(fd);
@@ -246,20 +251,24 @@ int Command::exec(const std::string &wdir) {
     // This is most likely due to the fact that either the onnx-mlir library was
     // not installed a the default place, or that the PATH environment variable
     // does not include a path to the desired onnx-mlir bin directory.
+    // Leave with _exit: the exit handlers and buffered output are the parent's.
     switch (err) {
     case ENOENT:
       // Install and/or set PATH environemnt variable.
-      exit(onnx_mlir::CommandNotFound);
+      _exit(onnx_mlir::CommandNotFound);
     case EACCES:
-      exit(onnx_mlir::CommandNotExecutable);
+      _exit(onnx_mlir::CommandNotExecutable);
     default:
-      exit(onnx_mlir::CommandExecutionFailed);
+      _exit(onnx_mlir::CommandExecutionFailed);
     }
   }
 
   // Parent process.
-  int status;
-  waitpid(pid, &status, 0);
+  int status = 0;
+  pid_t waited;
+  do {
+    waited = waitpid(pid, &status, 0);
+  } while (waited == -1 && errno == EINTR);
 
   // Restore working directory.
   if (requestedNewDir) {
@@ -270,6 +279,9 @@ int Command::exec(const std::string &wdir) {
     }
   }
 
+  if (waited == -1)
+    throw CommandException("Failed to wait for command '" + path + "'");
+
   // Check how the child process terminated.
   if (WIFEXITED(status)) {
     // Process exited normally.
-- 
2.43.0


From ba51347195e87aedb6c4ec0aa4049a6db995beb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:45 +0000
Subject: [PATCH 44/68] fix: run the container's compiler on the files and
 flags it was given

---
 src/Compiler/CommandUtils.cpp | 17 +++++++
 src/Compiler/CommandUtils.hpp |  4 ++
 src/Compiler/OMCompile.cpp    | 86 +++++++++++++++++++++++------------
 3 files changed, 78 insertions(+), 29 deletions(-)

diff --git a/src/Compiler/CommandUtils.cpp b/src/Compiler/CommandUtils.cpp
index a1722b7..4340825 100644
--- a/src/Compiler/CommandUtils.cpp
+++ b/src/Compiler/CommandUtils.cpp
@@ -246,6 +246,23 @@ std::string getModelTag(const std::vector<std::string> &flagVect) {
   return modelTag;
 }
 
+void makeOutputFlagsAbsolute(std::vector<std::string> &flagVect) {
+  int num = flagVect.size();
+  for (int i = 0; i < num; ++i) {
+    int valueFlag;
+    size_t valuePos;
+    if (!matchOutputFlag(flagVect, i, valueFlag, valuePos))
+      continue;
+    i = valueFlag;
+    if (valueFlag >= num)
+      continue;
+    std::string value = flagVect[valueFlag].substr(valuePos);
+    if (value != "-")
+      flagVect[valueFlag].replace(valuePos, std::string::npos,
+          getAbsolutePathUsingCurrentDir(value));
+  }
+}
+
 void applyOutputPath(std::vector<std::string> &flagVect,
     const std::string &outputPath, const std::string &inputFilename) {
   // If outputPath is empty, do nothing.
diff --git a/src/Compiler/CommandUtils.hpp b/src/Compiler/CommandUtils.hpp
index 0ec1779..0a9355a 100644
--- a/src/Compiler/CommandUtils.hpp
+++ b/src/Compiler/CommandUtils.hpp
@@ -46,6 +46,10 @@ std::string getInputFilename(
 void applyOutputPath(std::vector<std::string> &flagVect,
     const std::string &outputPath, const std::string &inputFilename);
 
+// Turn the values of -o options into absolute paths, so that they mean the same
+// in any working directory. Modifies flagVect in place.
+void makeOutputFlagsAbsolute(std::vector<std::string> &flagVect);
+
 // Get the name of the output, first from scanning the compiler flags for a -o
 // option, and if not found, from the basename of the input file name (using
 // getInputFilename above).
diff --git a/src/Compiler/OMCompile.cpp b/src/Compiler/OMCompile.cpp
index 9887735..6b8a4aa 100644
--- a/src/Compiler/OMCompile.cpp
+++ b/src/Compiler/OMCompile.cpp
@@ -158,9 +158,11 @@ bool ContainerSupport::isImageAvailable(
     const std::string &engineName, const std::string &imageName) {
   try {
     Command imageCheck(engineName, verbose);
-    imageCheck.appendStr("images");
-    imageCheck.appendStr("-q");
+    // Unlike "images", "image inspect" fails when there is no such image.
+    imageCheck.appendStr("image");
+    imageCheck.appendStr("inspect");
     imageCheck.appendStr(imageName);
+    imageCheck.redirectExecStreams("/dev/null");
     return imageCheck.exec() == 0;
   } catch (...) {
     return false;
@@ -306,7 +308,10 @@ std::string ContainerSupport::resolveHostPath(
   if (hostPrefix && std::strlen(hostPrefix) > 0) {
     std::string prefix(hostPrefix);
 
-    if (pathStr.find(prefix) == 0) {
+    while (!prefix.empty() && prefix.back() == '/')
+      prefix.pop_back();
+    if (pathStr.find(prefix) == 0 && (pathStr.size() == prefix.size() ||
+                                         pathStr[prefix.size()] == '/')) {
       if (verbose)
         std::cout << "Path already has host prefix: " << pathStr << std::endl;
       return pathStr;
@@ -327,6 +332,18 @@ std::string ContainerSupport::resolveHostPath(
   return pathStr;
 }
 
+// Quote an argument for use in a shell command.
+std::string shellQuote(const std::string &arg) {
+  std::string quoted = "'";
+  for (char c : arg) {
+    if (c == '\'')
+      quoted += "'\\''";
+    else
+      quoted += c;
+  }
+  return quoted + "'";
+}
+
 } // anonymous namespace
 
 namespace onnx_mlir {
@@ -450,8 +467,10 @@ void OMCompile::verifyContainerSetup() {
     }
   }
 
-  // Verify compiler path is set.
-  if (compilerPathInContainer.empty()) {
+  // Verify compiler path is set; known images without one have the compiler as
+  // their entrypoint.
+  if (compilerPathInContainer.empty() &&
+      knownImageConfigs.count(containerImage) == 0) {
     throw OMCompileException(
         "Compiler path in container not set. Use a known image or specify "
         "compiler path.");
@@ -499,26 +518,16 @@ std::unique_ptr<Command> OMCompile::createContainerCompileCommand(
     hostOutputDir = support.resolveHostPath(outputDir);
   }
 
-  // Build the compiler command string that will run inside the container.
-  std::ostringstream cmdStream;
-  cmdStream << compilerPathInContainer;
-
-  // Add flags.
-  for (const auto &flag : flagVect) {
-    // Escape any quotes in the flag.
-    std::string escapedFlag = flag;
-    size_t pos = 0;
-    while ((pos = escapedFlag.find('"', pos)) != std::string::npos) {
-      escapedFlag.insert(pos, "\\");
-      pos += 2;
-    }
-    cmdStream << " " << escapedFlag;
-  }
-
-  // Add input file (using container path - same as modelDir).
+  // Input file (using container path - same as modelDir).
   std::string containerInputPath =
       (fs::path(modelDir) / fs::path(inputFilename).filename()).string();
-  cmdStream << " " << containerInputPath;
+
+  // Build the compiler command string that will run inside the container.
+  std::ostringstream cmdStream;
+  cmdStream << shellQuote(compilerPathInContainer);
+  for (const auto &flag : flagVect)
+    cmdStream << " " << shellQuote(flag);
+  cmdStream << " " << shellQuote(containerInputPath);
 
   std::string containerCmd = cmdStream.str();
 
@@ -539,8 +548,12 @@ std::unique_ptr<Command> OMCompile::createContainerCompileCommand(
 
   // Override the container's entrypoint to use sh.
   // This is necessary because some images have onnx-mlir as the entrypoint.
-  cmd->appendStr("--entrypoint");
-  cmd->appendStr("sh");
+  // Without a compiler path, that entrypoint is the compiler to use.
+  bool useEntrypoint = compilerPathInContainer.empty();
+  if (!useEntrypoint) {
+    cmd->appendStr("--entrypoint");
+    cmd->appendStr("sh");
+  }
 
   // Mount model directory (using host path for DinD).
   cmd->appendStr("-v");
@@ -555,9 +568,14 @@ std::unique_ptr<Command> OMCompile::createContainerCompileCommand(
   // Specify the image.
   cmd->appendStr(containerImage);
 
-  // Use -c to execute the command string.
-  cmd->appendStr("-c");
-  cmd->appendStr(containerCmd);
+  if (useEntrypoint) {
+    cmd->appendList(flagVect);
+    cmd->appendStr(containerInputPath);
+  } else {
+    // Use -c to execute the command string.
+    cmd->appendStr("-c");
+    cmd->appendStr(containerCmd);
+  }
 
   return cmd;
 }
@@ -630,8 +648,18 @@ void OMCompile::compile(const std::string &modelPath, const std::string &flags,
       localCmd->appendStr(inputFilename);
     cmd = std::move(localCmd);
   } else {
+    // The container has a working directory of its own, and gets the input
+    // file by its own argument.
+    std::vector<std::string> containerFlags = flagVect;
+    onnx_mlir::makeOutputFlagsAbsolute(containerFlags);
+    if (modelPath.empty()) {
+      auto it = std::find(
+          containerFlags.begin(), containerFlags.end(), inputFilename);
+      if (it != containerFlags.end())
+        containerFlags.erase(it);
+    }
     cmd = createContainerCompileCommand(
-        flagVect, inputFilename, modelDir, outputDir);
+        containerFlags, inputFilename, modelDir, outputDir);
   }
 
   // Redirect logs if specified (shared logic).
-- 
2.43.0


From dd0d1d95413986bf1d1b301e06a2c92072a238c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:45 +0000
Subject: [PATCH 45/68] fix: find the constants file next to the model, not in
 the current directory

---
 src/Compiler/OMCompile.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Compiler/OMCompile.cpp b/src/Compiler/OMCompile.cpp
index 6b8a4aa..5bd7dd7 100644
--- a/src/Compiler/OMCompile.cpp
+++ b/src/Compiler/OMCompile.cpp
@@ -704,8 +704,8 @@ void OMCompile::compile(const std::string &modelPath, const std::string &flags,
   successfullyCompiled = true;
 
   // Check for constant file (shared logic).
-  std::string constFilename = fs::path(outputFilename).stem().string();
-  constFilename += ".constants.bin";
+  std::string constFilename =
+      fs::path(outputFilename).replace_extension(".constants.bin").string();
   if (fs::exists(constFilename))
     outputConstantFilename = constFilename;
 
-- 
2.43.0


From 53ba062865c038ef37ecd232ec3002b16f775082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:16 +0000
Subject: [PATCH 46/68] fix: tell simple from regular-expression notation for
 each element of a list

---
 src/Compiler/OptionUtils.cpp | 44 +++++++++++++++++++++---------------
 1 file changed, 26 insertions(+), 18 deletions(-)

diff --git a/src/Compiler/OptionUtils.cpp b/src/Compiler/OptionUtils.cpp
index 19d1405..3f3f1f0 100644
--- a/src/Compiler/OptionUtils.cpp
+++ b/src/Compiler/OptionUtils.cpp
@@ -28,6 +28,29 @@ namespace onnx_mlir {
 // Support for enabled ops by regex option
 // =============================================================================
 
+// Turn one element of the list into a regex.
+static std::string toRegex(std::string regexString) {
+  // Check if the string already contains regex patterns (like ".*")
+  // If it does, treat it as a proper regex and skip the simple transformations
+  bool hasRegexPattern = regexString.find(".*") != std::string::npos ||
+                         regexString.find("\\.") != std::string::npos ||
+                         regexString.find("^") != std::string::npos ||
+                         regexString.find("$") != std::string::npos ||
+                         regexString.find("[") != std::string::npos ||
+                         regexString.find("+") != std::string::npos ||
+                         regexString.find("?") != std::string::npos;
+
+  // A regex cannot start with '*'.
+  if (!hasRegexPattern || regexString[0] == '*') {
+    // The '.' character in regex string is recognized as normal character, not
+    // regular expression.
+    regexString = std::regex_replace(regexString, std::regex("\\."), "\\.");
+    // The '*' character in regex string is recognized as '.*' pattern.
+    regexString = std::regex_replace(regexString, std::regex("\\*"), ".*");
+  }
+  return regexString;
+}
+
 EnableByRegexOption::EnableByRegexOption(
     bool emptyIsNone, std::string regexString)
     : emptyIsNone(emptyIsNone) {
@@ -58,28 +81,13 @@ void EnableByRegexOption::setRegexString(std::string regexString) {
   // Separate multiple expressions with space.
   regexString = std::regex_replace(regexString, std::regex(","), " ");
 
-  // Check if the string already contains regex patterns (like ".*")
-  // If it does, treat it as a proper regex and skip the simple transformations
-  bool hasRegexPattern = regexString.find(".*") != std::string::npos ||
-                         regexString.find("\\.") != std::string::npos ||
-                         regexString.find("^") != std::string::npos ||
-                         regexString.find("$") != std::string::npos ||
-                         regexString.find("[") != std::string::npos ||
-                         regexString.find("+") != std::string::npos ||
-                         regexString.find("?") != std::string::npos;
-
-  if (!hasRegexPattern) {
-    // The '.' character in regex string is recognized as normal character, not
-    // regular expression.
-    regexString = std::regex_replace(regexString, std::regex("\\."), "\\.");
-    // The '*' character in regex string is recognized as '.*' pattern.
-    regexString = std::regex_replace(regexString, std::regex("\\*"), ".*");
-  }
   std::stringstream ss(regexString);
   std::istream_iterator<std::string> begin(ss);
   std::istream_iterator<std::string> end;
   // Create the set of regex defined by the original regexString.
-  regexOfAllowedNames = std::set<std::string>(begin, end);
+  regexOfAllowedNames.clear();
+  for (auto it = begin; it != end; ++it)
+    regexOfAllowedNames.insert(toRegex(*it));
 }
 
 bool EnableByRegexOption::isEnabled(const std::string &name) {
-- 
2.43.0


From c0219571c4084e7845796bdf20197a285081201a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:57 +0000
Subject: [PATCH 47/68] fix: do not take an option's value for the input model
 when locating omconfig.json

---
 src/Compiler/CompilerOptions.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/Compiler/CompilerOptions.cpp b/src/Compiler/CompilerOptions.cpp
index 7a8d315..8a1350d 100644
--- a/src/Compiler/CompilerOptions.cpp
+++ b/src/Compiler/CompilerOptions.cpp
@@ -1621,8 +1621,16 @@ bool loadCompileOptionsFromConfig(
   std::string inputFileVar = "";
   for (int i = 1; i < argc; ++i) {
     std::string arg(argv[i]);
-    if (arg.size() > 1 && arg[0] == '-')
+    if (arg.size() > 1 && arg[0] == '-') {
+      // The value of an option given as "-option value" is not an input file.
+      const auto &options = llvm::cl::getRegisteredOptions();
+      auto it = options.find(llvm::StringRef(arg).drop_front(
+          arg.compare(0, 2, "--") == 0 ? 2 : 1));
+      if (it != options.end() &&
+          it->second->getValueExpectedFlag() == llvm::cl::ValueRequired)
+        ++i;
       continue;
+    }
     // First positional argument becomes the input file name.
     if (inputFileVar.empty()) {
       inputFileVar = arg;
-- 
2.43.0


From 330afb0bbf2e4ae708ff87cf55e6e157d7d90e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:57 +0000
Subject: [PATCH 48/68] fix: a configuration file lists an option and its value
 separately

---
 docs/JsonConfigFile.md | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/docs/JsonConfigFile.md b/docs/JsonConfigFile.md
index 7efd0a2..1dfe311 100644
--- a/docs/JsonConfigFile.md
+++ b/docs/JsonConfigFile.md
@@ -80,7 +80,7 @@ onnx-mlir -O3 -march=z16 --parallel -j 8 model.onnx
 Convert it to a config file:
 ```json
 {
-  "compile_options": ["-O3", "-march=z16", "--parallel", "-j 8"]
+  "compile_options": ["-O3", "-march=z16", "--parallel", "-j", "8"]
 }
 ```
 
-- 
2.43.0


From 31af61c8a97d6889ddf5678f6dfb580219ae3ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:57 +0000
Subject: [PATCH 49/68] fix: --customEnvFlags without = or with an empty name
 ended in an abort

---
 src/Compiler/CompilerOptions.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/Compiler/CompilerOptions.cpp b/src/Compiler/CompilerOptions.cpp
index 8a1350d..146140e 100644
--- a/src/Compiler/CompilerOptions.cpp
+++ b/src/Compiler/CompilerOptions.cpp
@@ -983,14 +983,22 @@ bool parseCustomEnvFlagsCommandLineOption(
   // Customized version? -customEnvFlags=val and save its value.
   for (int i = 1; i < argc; ++i) {
     std::string arg(argv[i]);
-    if (arg.find("--customEnvFlags") == 0) {
+    if (arg.find("--customEnvFlags=") == 0) {
       envVar = arg.substr(sizeof("--customEnvFlags"));
-    } else if (arg.find("-customEnvFlags") == 0) {
+    } else if (arg.find("-customEnvFlags=") == 0) {
       envVar = arg.substr(sizeof("-customEnvFlags"));
+    } else if ((arg == "--customEnvFlags" || arg == "-customEnvFlags") &&
+               i + 1 < argc) {
+      envVar = argv[++i];
     } else if (arg.compare("-v") == 0) {
       verbose = true;
     }
   }
+  if (envVar.empty()) {
+    if (errs)
+      *errs << "\nWarning: --customEnvFlags needs the name of a variable\n\n";
+    return false;
+  }
   // Check that the env var does not recursively hold another -customEnvFlags.
   const char *envValCstr;
   if ((envValCstr = std::getenv(envVar.c_str()))) {
-- 
2.43.0


From 1d8df80a87d8f3c427250abf3d6810f53c839886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:18 +0000
Subject: [PATCH 50/68] fix: report directives without a configuration; only
 dictionaries are configurations

---
 docs/doc_check/directive.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/docs/doc_check/directive.py b/docs/doc_check/directive.py
index 499785f..3979ac3 100644
--- a/docs/doc_check/directive.py
+++ b/docs/doc_check/directive.py
@@ -60,7 +60,7 @@ class Directive(object):
             raise ValueError("more than one directives in a line")
 
         match = matches[0] if len(matches) else None
-        if match:
+        if match is not None:
             for parser in self.config_parsers:
                 if succeeded(parser(match, directive_config)):
                     return success()
@@ -85,7 +85,10 @@ def generic_config_parser(
     @return: parsing result.
     """
     try:
-        directive_config.append(ast.literal_eval(match))
+        config = ast.literal_eval(match)
+        if not isinstance(config, dict):
+            return failure()
+        directive_config.append(config)
         return success()
     except (SyntaxError, ValueError):
         # If literal_eval failed, return parsing failure.
-- 
2.43.0


From 75bfa2cbbf2a42371101e626816d3d7a926d9c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:18 +0000
Subject: [PATCH 51/68] fix: excluding a directory excluded others starting
 with its name

---
 docs/doc_check/check.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/docs/doc_check/check.py b/docs/doc_check/check.py
index b56ea4d..7dc1612 100644
--- a/docs/doc_check/check.py
+++ b/docs/doc_check/check.py
@@ -45,7 +45,12 @@ def main(root_dir, exclude_dirs):
     for doc_file in chain(Path(root_dir).rglob("*.md"), Path(root_dir).rglob("*.dc")):
         doc_file = os.path.normpath(doc_file)
         # Skip, if doc file is in directories to be excluded.
-        if any([str(doc_file).startswith(exclude_dir) for exclude_dir in exclude_dirs]):
+        if any(
+            [
+                str(doc_file).startswith(os.path.join(exclude_dir, ""))
+                for exclude_dir in exclude_dirs
+            ]
+        ):
             continue
 
         logger.info("Checking {}...".format(doc_file))
-- 
2.43.0


From 28c201af1824b807c06ef669953d382699754ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:18 +0000
Subject: [PATCH 52/68] fix: file-same-as-stdout directives in Markdown files
 were skipped silently

---
 docs/doc_check/directive_impl/file_same_as_stdout.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/docs/doc_check/directive_impl/file_same_as_stdout.py b/docs/doc_check/directive_impl/file_same_as_stdout.py
index 87d0623..925e33e 100644
--- a/docs/doc_check/directive_impl/file_same_as_stdout.py
+++ b/docs/doc_check/directive_impl/file_same_as_stdout.py
@@ -53,4 +53,7 @@ def handle(config, ctx):
         raise ValueError("Check file-same-as-stdout failed")
 
 
-ext_to_patterns = {".dc": "file-same-as-stdout\\((.*)\\)"}
+ext_to_patterns = {
+    ".dc": "file-same-as-stdout\\((.*)\\)",
+    ".md": "\\[file-same-as-stdout\\]: <> \\((.*)\\)",
+}
-- 
2.43.0


From ef6e0fc42dac71df0e6d1a034493cc89109c2152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:15 +0000
Subject: [PATCH 53/68] fix: binary-decoder printed 8-bit integers as
 characters and ignored invalid ranges and types

---
 src/Tools/binary-decoder/BinaryDecoder.cpp | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/Tools/binary-decoder/BinaryDecoder.cpp b/src/Tools/binary-decoder/BinaryDecoder.cpp
index 8fc6e1d..a53c39a 100644
--- a/src/Tools/binary-decoder/BinaryDecoder.cpp
+++ b/src/Tools/binary-decoder/BinaryDecoder.cpp
@@ -21,6 +21,7 @@
 #include "onnx/onnx_pb.h"
 #include "llvm/Support/CommandLine.h"
 #include "llvm/Support/FileSystem.h"
+#include "llvm/Support/raw_ostream.h"
 
 #if defined(_WIN32)
 
@@ -63,10 +64,11 @@ llvm::cl::opt<onnx::TensorProto::DataType> DataType(
 
 template <typename T>
 int printBuffer(std::vector<char> buffer) {
-  auto *ptr = reinterpret_cast<T *>(&buffer[0]);
+  auto *ptr = reinterpret_cast<T *>(buffer.data());
   auto data = std::vector<T>(ptr, ptr + buffer.size() / sizeof(T));
   for (const auto &elem : data)
-    std::cout << elem << " ";
+    // Promote, as 8-bit integers are printed as characters.
+    std::cout << +elem << " ";
   std::cout << std::endl;
   return 0;
 }
@@ -86,12 +88,20 @@ int printBuffer<bool>(std::vector<char> buffer) {
 
 int main(int argc, char **argv) {
   llvm::cl::ParseCommandLineOptions(argc, argv);
+  if (Start < 0 || Size < 0) {
+    llvm::errs() << "The range of bytes to decode is invalid\n";
+    return -1;
+  }
   std::vector<char> buffer(Size);
   std::ifstream file(Filename, std::ios::in | std::ios::binary);
   if (!file)
     return -1;
   file.seekg(Start, file.beg);
-  file.read(&buffer[0], Size);
+  file.read(buffer.data(), Size);
+  if (!file) {
+    llvm::errs() << "The file has fewer bytes than there are to decode\n";
+    return -1;
+  }
   file.close();
 
   if (Remove)
@@ -103,6 +113,7 @@ int main(int argc, char **argv) {
 
   PRINT_BUFFER_FOR_TYPE(onnx::TensorProto::BOOL, bool);
   PRINT_BUFFER_FOR_TYPE(onnx::TensorProto::UINT8, u_int8_t);
+  PRINT_BUFFER_FOR_TYPE(onnx::TensorProto::INT8, int8_t);
   PRINT_BUFFER_FOR_TYPE(onnx::TensorProto::UINT16, u_int16_t);
   PRINT_BUFFER_FOR_TYPE(onnx::TensorProto::INT16, int16_t);
   PRINT_BUFFER_FOR_TYPE(onnx::TensorProto::INT32, int32_t);
@@ -112,4 +123,7 @@ int main(int argc, char **argv) {
   PRINT_BUFFER_FOR_TYPE(onnx::TensorProto::DOUBLE, double);
   PRINT_BUFFER_FOR_TYPE(onnx::TensorProto::UINT32, u_int32_t);
   PRINT_BUFFER_FOR_TYPE(onnx::TensorProto::UINT64, u_int64_t);
+
+  llvm::errs() << "Decoding this data type is not supported\n";
+  return -1;
 }
-- 
2.43.0


From 83bd34f28e640ec4410847f57fb21df1be344740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:50 +0000
Subject: [PATCH 54/68] fix: the session cache evicted the most recently used
 entry

---
 .../python/torch_onnxmlir/src/torch_onnxmlir/sessioncache.py    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Runtime/python/torch_onnxmlir/src/torch_onnxmlir/sessioncache.py b/src/Runtime/python/torch_onnxmlir/src/torch_onnxmlir/sessioncache.py
index 054d73e..6c12813 100644
--- a/src/Runtime/python/torch_onnxmlir/src/torch_onnxmlir/sessioncache.py
+++ b/src/Runtime/python/torch_onnxmlir/src/torch_onnxmlir/sessioncache.py
@@ -161,7 +161,7 @@ class SessionCache:
     # If the cache is full, delete the oldest key and return its index.
     def victim(self):
         if len(self.cache) >= self.capacity:
-            oldest_key = self.access_order.pop()
+            oldest_key = self.access_order.pop(0)
             cache_value = self.cache[oldest_key]
             del self.cache[oldest_key]
             return cache_value.tag
-- 
2.43.0


From a592a14b8c69c9a7dd2a6f1aab51a3ad0abfd3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:50 +0000
Subject: [PATCH 55/68] fix: entries loaded from disk or put twice exceeded the
 session cache's capacity

---
 .../python/torch_onnxmlir/src/torch_onnxmlir/sessioncache.py   | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Runtime/python/torch_onnxmlir/src/torch_onnxmlir/sessioncache.py b/src/Runtime/python/torch_onnxmlir/src/torch_onnxmlir/sessioncache.py
index 6c12813..7203339 100644
--- a/src/Runtime/python/torch_onnxmlir/src/torch_onnxmlir/sessioncache.py
+++ b/src/Runtime/python/torch_onnxmlir/src/torch_onnxmlir/sessioncache.py
@@ -68,12 +68,15 @@ class SessionCache:
         # Get from the cache dir.
         cache_value = self.load_from_disk(key)
         if cache_value:
+            self.victim()
             self.put(key, cache_value, False)
         return cache_value
 
     # The put is assumed to be called after victim()
     def put(self, key, value: CacheValue, write_to_disk=True):
         self.cache[key] = value
+        if key in self.access_order:
+            self.access_order.remove(key)
         self.access_order.append(key)
         if len(self.cache) != len(self.access_order):
             print("Error: the len of cache and access_order doesnot match")
-- 
2.43.0


From 976eb4a0ed82885a36807b12c849ad73bc6431ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:50 +0000
Subject: [PATCH 56/68] fix: a process killed while writing a session cache
 entry left an incomplete one

---
 .../src/torch_onnxmlir/sessioncache.py        | 24 ++++++++++++-------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/Runtime/python/torch_onnxmlir/src/torch_onnxmlir/sessioncache.py b/src/Runtime/python/torch_onnxmlir/src/torch_onnxmlir/sessioncache.py
index 7203339..c2ede05 100644
--- a/src/Runtime/python/torch_onnxmlir/src/torch_onnxmlir/sessioncache.py
+++ b/src/Runtime/python/torch_onnxmlir/src/torch_onnxmlir/sessioncache.py
@@ -132,16 +132,15 @@ class SessionCache:
         # Cache folder: create if it does not exist.
         dst_dir = os.path.join(self.cache_path, key)
         os.makedirs(dst_dir, exist_ok=True)
-        # Write the compiled model (.so file).
         compiled_model = value.sess.get_shared_lib_path()
         src_dir = Path(compiled_model).resolve().parent
-        for filename in os.listdir(src_dir):
-            if not filename.lower().endswith(tuple(OM_COMPILED_FILE_EXTS)):
-                continue
-            src_file = os.path.join(src_dir, filename)
-            dst_file = os.path.join(dst_dir, filename)
-            if os.path.isfile(src_file):
-                shutil.copy2(src_file, dst_file)
+        if os.path.samefile(src_dir, dst_dir):
+            return
+        # The model in the cache makes the entry valid: remove an old one first
+        # and write the new one last, so that an interrupted write leaves none.
+        model_so = f"model{key}.so"
+        if os.path.exists(os.path.join(dst_dir, model_so)):
+            os.remove(os.path.join(dst_dir, model_so))
         # Create a config json file.
         example_inputs_indices = value.example_inputs_indices
         if example_inputs_indices is not None:
@@ -158,6 +157,15 @@ class SessionCache:
             )
             with open(config_file, "w") as f:
                 f.write(json_data)
+        # Write the compiled model (.so file) and its constants.
+        for filename in sorted(os.listdir(src_dir), key=lambda f: f == model_so):
+            if not filename.lower().endswith(tuple(OM_COMPILED_FILE_EXTS)):
+                continue
+            src_file = os.path.join(src_dir, filename)
+            dst_file = os.path.join(dst_dir, filename)
+            if os.path.isfile(src_file):
+                shutil.copy2(src_file, dst_file + ".tmp")
+                os.replace(dst_file + ".tmp", dst_file)
 
     # Find the index of the victim entry.
     # If the cache is not full, get the next free entry.
-- 
2.43.0


From d045f7b9691d07bc4e660ccb2c0ebff7c2f666f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:48 +0000
Subject: [PATCH 57/68] fix: compare_result failed on booleans and length
 mismatch and mishandled infinities, NaNs and narrow floats

---
 .../python/om_pyrt/src/om_pyrt/utils.py       | 33 ++++++++++++-------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/src/Runtime/python/om_pyrt/src/om_pyrt/utils.py b/src/Runtime/python/om_pyrt/src/om_pyrt/utils.py
index 8650c28..a4c192e 100644
--- a/src/Runtime/python/om_pyrt/src/om_pyrt/utils.py
+++ b/src/Runtime/python/om_pyrt/src/om_pyrt/utils.py
@@ -117,7 +117,7 @@ def compare_result(actual_outs, ref_outs, atol=1e-8, rtol=1e-5, debug=0):
 
     if len(ref_outs) != len(actual_outs):
         print(
-            f"FAIL: list length mismatch: reference={len(reference)}, actual={len(actual)}"
+            f"FAIL: list length mismatch: reference={len(ref_outs)}, actual={len(actual_outs)}"
         )
         return False
 
@@ -141,23 +141,32 @@ def compare_result(actual_outs, ref_outs, atol=1e-8, rtol=1e-5, debug=0):
         mismatched_elements = 0
         max_atol = 0
         max_rtol = 0
+        kind = q_actual_outs.dtype.kind
         for index, actual_val in np.ndenumerate(q_actual_outs):
             total_elements += 1
             ref_val = q_ref_outs[index]
-            this_atol = abs(ref_val - actual_val)
-            if abs(ref_val) > 1e-10:
-                max_rtol = max(abs((ref_val - actual_val) / ref_val), max_rtol)
-            max_atol = max(this_atol, max_atol)
-            if np.issubdtype(q_actual_outs.dtype, np.dtype(bool).type):
-                if ref_val == actual_val:
+            # Compute with Python numbers, which have no overflow or wraparound.
+            if kind in "biu":
+                ref_val, actual_val = int(ref_val), int(actual_val)
+            elif kind == "c":
+                ref_val, actual_val = complex(ref_val), complex(actual_val)
+            elif kind in "fV":
+                ref_val, actual_val = float(ref_val), float(actual_val)
+            if kind in "biucfV" and np.isfinite(complex(ref_val - actual_val)):
+                this_atol = abs(ref_val - actual_val)
+                if abs(ref_val) > 1e-10:
+                    max_rtol = max(this_atol / abs(ref_val), max_rtol)
+                max_atol = max(this_atol, max_atol)
+            if ref_val == actual_val:
+                continue
+            if kind in "cfV":
+                # As assert_allclose, treat NaNs as equal and an infinity as equal
+                # to itself only.
+                if ref_val != ref_val and actual_val != actual_val:
                     continue
-            elif np.issubdtype(q_actual_outs.dtype, np.integer):
-                if ref_val == actual_val:
-                    continue
-            else:
                 # Use equation atol + rtol * abs(desired), that is used in assert_allclose.
                 diff = float(atol) + float(rtol) * abs(ref_val)
-                if abs(actual_val - ref_val) <= diff:
+                if np.isfinite(ref_val) and abs(actual_val - ref_val) <= diff:
                     continue
             all_pass = False
             mismatched_elements += 1
-- 
2.43.0


From 05a1da77104334feab5dab853351de181453140b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:53 +0000
Subject: [PATCH 58/68] fix: RunONNXModel's verification wrapped around on
 unsigned integers, ignored shapes and mishandled infinities and NaNs

---
 utils/RunONNXModel.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/utils/RunONNXModel.py b/utils/RunONNXModel.py
index 38f630d..77db24b 100755
--- a/utils/RunONNXModel.py
+++ b/utils/RunONNXModel.py
@@ -561,18 +561,29 @@ def read_output_from_refs(num_outputs, load_ref_filename, is_load_ref):
 
 
 def verify_outs(actual_outs, ref_outs, atol, rtol):
+    if actual_outs.shape != ref_outs.shape:
+        raise AssertionError(
+            "  got shape {} vs {} (reference), abort.\n".format(
+                actual_outs.shape, ref_outs.shape
+            )
+        )
     total_elements = 0
     mismatched_elements = 0
     for index, actual_val in np.ndenumerate(actual_outs):
         total_elements += 1
         ref_val = ref_outs[index]
-        if np.issubdtype(actual_outs.dtype, np.dtype(bool).type):
-            if ref_val == actual_val:
+        if ref_val == actual_val:
+            continue
+        if actual_outs.dtype.kind not in "bOSU":
+            # Compute with Python numbers, which have no overflow or wraparound.
+            a, r = actual_val.item(), ref_val.item()
+            # As assert_allclose, treat NaNs as equal and an infinity as equal to
+            # itself only.
+            if r != r and a != a:
                 continue
-        else:
             # Use equation atol + rtol * abs(desired), that is used in assert_allclose.
-            diff = float(atol) + float(rtol) * abs(ref_val)
-            if abs(actual_val - ref_val) <= diff:
+            diff = float(atol) + float(rtol) * abs(r)
+            if np.isfinite(complex(r)) and abs(a - r) <= diff:
                 continue
         mismatched_elements += 1
         print(
-- 
2.43.0


From 8c34780aa1e3d1d6a3b96479272b7e84c70898ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:55 +0000
Subject: [PATCH 59/68] fix: removing identities renamed graph outputs and left
 references in subgraphs undefined

---
 .../src/torch_onnxmlir/onnx_utils.py          | 34 +++++++++++++------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/src/Runtime/python/torch_onnxmlir/src/torch_onnxmlir/onnx_utils.py b/src/Runtime/python/torch_onnxmlir/src/torch_onnxmlir/onnx_utils.py
index 1853834..1b2e111 100644
--- a/src/Runtime/python/torch_onnxmlir/src/torch_onnxmlir/onnx_utils.py
+++ b/src/Runtime/python/torch_onnxmlir/src/torch_onnxmlir/onnx_utils.py
@@ -10,8 +10,12 @@
 #
 ################################################################################
 
+import logging
+
 import onnx
 
+logger = logging.getLogger(__name__)
+
 
 # ---------------------------------------
 # Sanitize Identity nodes. The exporter sometimes produces
@@ -22,10 +26,15 @@ def remove_identity_ops(graph):
     new_nodes = []
     rename_map = {}
     counter = 0
+    output_names = {out.name for out in graph.output}
     for node in graph.node:
-        if node.op_type == "Identity":
-            src = node.input[0]
-            dst = node.output[0]
+        is_identity = node.op_type == "Identity" and node.domain in ("", "ai.onnx")
+        src = node.input[0] if is_identity else None
+        dst = node.output[0] if is_identity else None
+        if is_identity and src == dst:
+            counter += 1
+        # The outputs of the graph keep their names, and the nodes defining them.
+        elif is_identity and dst not in output_names:
             rename_map[dst] = src
             counter += 1
         else:
@@ -43,13 +52,18 @@ def remove_identity_ops(graph):
             name = rename_map[name]
         return name
 
-    # Rewrite inputs.
-    for node in new_nodes:
-        for i in range(len(node.input)):
-            node.input[i] = resolve(node.input[i])
-    # Rewrite outputs.
-    for out in graph.output:
-        out.name = resolve(out.name)
+    # Rewrite inputs, including those that subgraphs take from this graph.
+    def rewrite(nodes):
+        for node in nodes:
+            for i in range(len(node.input)):
+                node.input[i] = resolve(node.input[i])
+            for attr in node.attribute:
+                for subgraph in [attr.g, *attr.graphs]:
+                    rewrite(subgraph.node)
+                    for out in subgraph.output:
+                        out.name = resolve(out.name)
+
+    rewrite(new_nodes)
     # Replace node list.
     graph.ClearField("node")
     graph.node.extend(new_nodes)
-- 
2.43.0


From 3f8511dc288d95354c65f6a7dc1abfd7672834fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:41 +0000
Subject: [PATCH 60/68] fix: fold Clip of signed integers without a bound
 against the signed limits

---
 src/Dialect/ONNX/Transforms/ConstProp.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/Dialect/ONNX/Transforms/ConstProp.cpp b/src/Dialect/ONNX/Transforms/ConstProp.cpp
index dfa51dc..2e8d2a9 100644
--- a/src/Dialect/ONNX/Transforms/ConstProp.cpp
+++ b/src/Dialect/ONNX/Transforms/ConstProp.cpp
@@ -173,7 +173,10 @@ Value createMaximumValueForClip(
     return value;
 
   return getClipConstantOfType(rewriter, type, value.getLoc(),
-      llvm::APFloat::getLargest, false, llvm::APInt::getMaxValue);
+      llvm::APFloat::getLargest, false,
+      type.getElementType().isUnsignedInteger()
+          ? llvm::APInt::getMaxValue
+          : llvm::APInt::getSignedMaxValue);
 }
 
 Value createMinimumValueForClip(
@@ -184,7 +187,10 @@ Value createMinimumValueForClip(
     return value;
 
   return getClipConstantOfType(rewriter, type, value.getLoc(),
-      llvm::APFloat::getLargest, true, llvm::APInt::getMinValue);
+      llvm::APFloat::getLargest, true,
+      type.getElementType().isUnsignedInteger()
+          ? llvm::APInt::getMinValue
+          : llvm::APInt::getSignedMinValue);
 }
 
 // Extracts number from a scalar constant value.
-- 
2.43.0


From 2342b46cccfc3ebe47f49547a31292ca2867a88c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:41 +0000
Subject: [PATCH 61/68] fix: fold Mod of unsigned integers instead of aborting

---
 src/Dialect/ONNX/Transforms/ConstProp.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Dialect/ONNX/Transforms/ConstProp.cpp b/src/Dialect/ONNX/Transforms/ConstProp.cpp
index 2e8d2a9..5119441 100644
--- a/src/Dialect/ONNX/Transforms/ConstProp.cpp
+++ b/src/Dialect/ONNX/Transforms/ConstProp.cpp
@@ -306,6 +306,11 @@ struct ElementWiseBinaryOpImpl<ONNXModOp, int64_t, EnableNotBool<int64_t>> {
   }
 };
 
+template <>
+struct ElementWiseBinaryOpImpl<ONNXModOp, uint64_t, EnableNotBool<uint64_t>> {
+  static uint64_t eval(uint64_t lhs, uint64_t rhs) { return lhs % rhs; }
+};
+
 template <>
 struct ElementWiseBinaryOpImpl<ONNXModOp, double, EnableNotBool<double>> {
   static double eval(double lhs, double rhs) {
-- 
2.43.0


From 911322166097a3ce232fc109217e2ba85762dd61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:41 +0000
Subject: [PATCH 62/68] fix: honour select_last_index in ArgMax and ArgMin

---
 src/Conversion/ONNXToKrnl/Tensor/ArgMinMax.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/Conversion/ONNXToKrnl/Tensor/ArgMinMax.cpp b/src/Conversion/ONNXToKrnl/Tensor/ArgMinMax.cpp
index c167984..d589668 100644
--- a/src/Conversion/ONNXToKrnl/Tensor/ArgMinMax.cpp
+++ b/src/Conversion/ONNXToKrnl/Tensor/ArgMinMax.cpp
@@ -21,18 +21,21 @@ using namespace mlir;
 namespace onnx_mlir {
 
 template <typename ARG_OP>
-inline Value getCondition(MathBuilder createMath, Value next, Value dstVal);
+inline Value getCondition(
+    MathBuilder createMath, Value next, Value dstVal, bool selectLast);
 
 template <>
 inline Value getCondition<ONNXArgMinOp>(
-    MathBuilder createMath, Value next, Value dstVal) {
-  return createMath.slt(next, dstVal);
+    MathBuilder createMath, Value next, Value dstVal, bool selectLast) {
+  return selectLast ? createMath.sle(next, dstVal)
+                    : createMath.slt(next, dstVal);
 }
 
 template <>
 inline Value getCondition<ONNXArgMaxOp>(
-    MathBuilder createMath, Value next, Value dstVal) {
-  return createMath.sgt(next, dstVal);
+    MathBuilder createMath, Value next, Value dstVal, bool selectLast) {
+  return selectLast ? createMath.sge(next, dstVal)
+                    : createMath.sgt(next, dstVal);
 }
 
 template <typename ARG_OP>
@@ -142,7 +145,9 @@ struct ONNXArgMinMaxOpLowering : public OpConversionPattern<ARG_OP> {
           Value dstVal = createKrnl.load(data, dstLoopIVs);
 
           // if next value is smaller/larger than current value, update index
-          Value newDstVal = getCondition<ARG_OP>(create.math, next, dstVal);
+          // (or equal to it when the last one is asked for)
+          Value newDstVal = getCondition<ARG_OP>(
+              create.math, next, dstVal, argOp.getSelectLastIndex() != 0);
           Value pos =
               create.math.cast(rewriter.getIntegerType(64), inLoopIVs[axis]);
           idx = create.math.select(newDstVal, pos, idx);
-- 
2.43.0


From 5e8f0c82c25706417f50564b3c072300d72cad95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:41 +0000
Subject: [PATCH 63/68] fix: import Slice with steps but without axes

---
 src/Builder/FrontendDialectTransformer.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Builder/FrontendDialectTransformer.cpp b/src/Builder/FrontendDialectTransformer.cpp
index 3d33df2..d46c729 100644
--- a/src/Builder/FrontendDialectTransformer.cpp
+++ b/src/Builder/FrontendDialectTransformer.cpp
@@ -1071,6 +1071,9 @@ private:
     };
 
     for (const auto &item : llvm::enumerate(node.input())) {
+      // An empty name stands for an omitted optional input.
+      if (item.value().empty())
+        continue;
       if (const Value *valuePtr =
               frontend_symbols_.GetByOnnxName(item.value())) {
         inVals[item.index()] = *valuePtr;
-- 
2.43.0


From 2d7df1a235626b3f164ef8478eff899c60a0a77a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:04 +0000
Subject: [PATCH 64/68] fix: do not fold Pow with an exponent of another
 element type

---
 src/Dialect/ONNX/Transforms/ConstProp.td | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Dialect/ONNX/Transforms/ConstProp.td b/src/Dialect/ONNX/Transforms/ConstProp.td
index f2547cf..6f571f9 100644
--- a/src/Dialect/ONNX/Transforms/ConstProp.td
+++ b/src/Dialect/ONNX/Transforms/ConstProp.td
@@ -92,6 +92,10 @@ def ValuesHaveSameType : Constraint<
   CPred<"$0.getType() == $1.getType()">,
   "Values have same type">;
 
+def ValuesHaveSameElementType : Constraint<
+  CPred<"getElementType($0.getType()) == getElementType($1.getType())">,
+  "Values have same element type">;
+
 def IsMatMulIntegerLhsZero: Constraint<
     CPred<"isMatMulIntegerLhsZero($0, $1)">,
     "MatMulInteger lhs matrix is zero for given zero point">;
@@ -1214,6 +1218,7 @@ def PowConstProp : NamedPat<"PowConstProp",
     (CreatePowOfTwoConst $powOp, $lhs, $rhs),
     // Power constraints
     [(IsFromDenseONNXConstantOp:$lhs), (IsFromDenseONNXConstantOp:$rhs),
+     (ValuesHaveSameElementType $lhs, $rhs),
      (SatisfiesExpansionBound:$powOp)]>;
 
 #endif // ONNX_CONSTPROP
-- 
2.43.0


From 22f7527d495198c6752a97de2b31b621e4f9896a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:04 +0000
Subject: [PATCH 65/68] fix: do not fold Pad with negative pads

---
 src/Dialect/ONNX/Transforms/ConstProp.cpp | 5 +++++
 src/Dialect/ONNX/Transforms/ConstProp.td  | 6 +++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/Dialect/ONNX/Transforms/ConstProp.cpp b/src/Dialect/ONNX/Transforms/ConstProp.cpp
index 5119441..b8ffad6 100644
--- a/src/Dialect/ONNX/Transforms/ConstProp.cpp
+++ b/src/Dialect/ONNX/Transforms/ConstProp.cpp
@@ -972,6 +972,11 @@ Value ConstPropSlice(
 // Code to perform constant propagation for PadOp.
 //===----------------------------------------------------------------------===//
 
+bool isConstOfNonNegatives(Value value) {
+  return llvm::none_of(getConstValueElements(value).getValues<APInt>(),
+      [](const APInt &i) { return i.isNegative(); });
+}
+
 Value ConstPropPad(PatternRewriter &rewriter, Value replacingValue, Value data,
     Value padValue) {
   Operation *op = replacingValue.getDefiningOp();
diff --git a/src/Dialect/ONNX/Transforms/ConstProp.td b/src/Dialect/ONNX/Transforms/ConstProp.td
index 6f571f9..a666fd7 100644
--- a/src/Dialect/ONNX/Transforms/ConstProp.td
+++ b/src/Dialect/ONNX/Transforms/ConstProp.td
@@ -84,6 +84,10 @@ def IsConstOfOnes : Constraint<
   CPred<"isDenseONNXConstant($_self) && isConstOf($_self, 1.0)">,
   "Value is an all-ones constant tensor">;
 
+def IsConstOfNonNegatives : Constraint<
+  CPred<"isConstOfNonNegatives($_self)">,
+  "Value is a constant tensor of non-negative integers">;
+
 def IsNotScalar: Constraint<
   CPred<"!isScalarTensor($_self)">,
   "Value is not a scalar value">;
@@ -1097,7 +1101,7 @@ def PadOfConst : NamedPat<"PadOfConst",
                       $pads, $constant_value, $axes, $mode),
     // To c where c is the padded value.
     (CreatePadOfConst $resOp, $input, $constant_value),
-    [(IsFromDenseONNXConstantOp:$pads),
+    [(IsFromDenseONNXConstantOp:$pads), (IsConstOfNonNegatives:$pads),
      (IsFromDenseONNXConstantOpOrNone:$constant_value),
      (IsNoneType:$axes),
      (EqualString<"constant"> $mode)]>;
-- 
2.43.0


From 2a30682462075b96a6c3c60fd7fe838fe49cad1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:23 +0000
Subject: [PATCH 66/68] fix: shape inference of MatMul with a vector B of
 unknown length crashed

---
 src/Dialect/ONNX/ONNXOps/Math/MatMul.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Dialect/ONNX/ONNXOps/Math/MatMul.cpp b/src/Dialect/ONNX/ONNXOps/Math/MatMul.cpp
index cb781e3..9697f65 100644
--- a/src/Dialect/ONNX/ONNXOps/Math/MatMul.cpp
+++ b/src/Dialect/ONNX/ONNXOps/Math/MatMul.cpp
@@ -143,7 +143,7 @@ LogicalResult ONNXGenericMatMulOpShapeHelper<OP_TYPE>::computeShape() {
     // Save aK dims into bK dims, in case bK dims was runtime.
     bDims[bK] = aDims[aK];
     // Update bK dim to the literal aK.
-    this->updateInputDimAt(B, aDims[aK].getLiteral(), -2);
+    this->updateInputDimAt(B, aDims[aK].getLiteral(), bRank == 1 ? -1 : -2);
   } else if (bDims[bK].isLiteral()) {
     // Save bK dims into aK dims, in case aK dims was runtime.
     aDims[aK] = bDims[bK];
-- 
2.43.0


From 8a3f31ecffd56a12da3671de5b5a34218d583c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:23 +0000
Subject: [PATCH 67/68] fix: GridSample with one unknown batch dimension was
 refused

---
 src/Dialect/ONNX/ONNXOps/Tensor/GridSample.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Dialect/ONNX/ONNXOps/Tensor/GridSample.cpp b/src/Dialect/ONNX/ONNXOps/Tensor/GridSample.cpp
index daa94e3..3d845f5 100644
--- a/src/Dialect/ONNX/ONNXOps/Tensor/GridSample.cpp
+++ b/src/Dialect/ONNX/ONNXOps/Tensor/GridSample.cpp
@@ -101,7 +101,8 @@ LogicalResult ONNXGridSampleOp::verify() {
                          << ") have different dim sizes.";
   }
 
-  if (inputShape[0] != gridShape[0]) {
+  if (!ShapedType::isDynamic(inputShape[0]) &&
+      !ShapedType::isDynamic(gridShape[0]) && inputShape[0] != gridShape[0]) {
     return emitOpError() << "Input and grid must have the same batch value.";
   }
 
-- 
2.43.0


From ed0c0ca8519bd5f682aa3e5efc6d132aadc870d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:23 +0000
Subject: [PATCH 68/68] fix: Pow with exponent 0 on unknown dimensions aborted
 the compiler

---
 src/Dialect/ONNX/ONNXOps/Canonicalize.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/Dialect/ONNX/ONNXOps/Canonicalize.cpp b/src/Dialect/ONNX/ONNXOps/Canonicalize.cpp
index 824da49..1b156cf 100644
--- a/src/Dialect/ONNX/ONNXOps/Canonicalize.cpp
+++ b/src/Dialect/ONNX/ONNXOps/Canonicalize.cpp
@@ -1233,8 +1233,12 @@ public:
 private:
   // Check if a Pow can be simply rewritten as a sequence of multiply ops.
   bool CanExpandPowOpToMul(ONNXPowOp op, int64_t &powVal) const {
-    return (hasIntegerPowerExponent(&op, powVal) && powVal >= 0 &&
-            powVal <= maxPower);
+    if (!hasIntegerPowerExponent(&op, powVal) || powVal < 0 ||
+        powVal > maxPower)
+      return false;
+    // Power 0 is replaced by a constant, which needs a static shape.
+    return powVal != 0 ||
+           mlir::cast<ShapedType>(op.getZ().getType()).hasStaticShape();
   }
   // Data.
   int64_t maxPower;
-- 
2.43.0

