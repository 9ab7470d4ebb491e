From 7fa9b4815bf027f71068784694e0ae0ddd119847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:55 +0000
Subject: [PATCH 01/84] fix: broadcast the scalar operators over complex double
 arrays

---
 lube/math.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lube/math.cpp b/lube/math.cpp
index ae82f76..50681cf 100644
--- a/lube/math.cpp
+++ b/lube/math.cpp
@@ -76,7 +76,7 @@ using namespace libube;
 ind type(var iVar)
 {
     ind type = iVar.type();
-    if (iVar.atype<cdouble>())
+    if (iVar.atype<cdouble>() && (iVar.size() == 1))
         type = TYPE_CDOUBLE;
     return type;
 }
-- 
2.43.0


From 1adb76c776b8269dc45d156682c8130cb7629c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:55 +0000
Subject: [PATCH 02/84] fix: allocate complex double storage for polynomials of
 complex doubles

---
 lube/math.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lube/math.cpp b/lube/math.cpp
index 50681cf..cac2968 100644
--- a/lube/math.cpp
+++ b/lube/math.cpp
@@ -1141,7 +1141,7 @@ var Poly::alloc(var iVar) const
         r = view(s, cfloat(0.0f, 0.0f));
         break;
     case TYPE_CDOUBLE:
-        r = view(s, cfloat(0.0, 0.0));
+        r = view(s, cdouble(0.0, 0.0));
         break;
     }
     return r;
-- 
2.43.0


From d472207cfe4ecdfe728782919951d74855341240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:55 +0000
Subject: [PATCH 03/84] fix: swap one row at a time when broadcasting

---
 lube/math.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lube/math.cpp b/lube/math.cpp
index cac2968..09e3381 100644
--- a/lube/math.cpp
+++ b/lube/math.cpp
@@ -288,7 +288,7 @@ void Swap::vector(
 ) const
 {
     assert(type(iVar1) == TYPE_ARRAY);
-    int size = iVar1.size();
+    int size = iVar1.shape(-1);
     switch(iVar1.atype())
     {
     case TYPE_FLOAT:
-- 
2.43.0


From ea7b2b23b783abc6e21db009e9681620b1370b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:55 +0000
Subject: [PATCH 04/84] fix: asum of a complex scalar writes a real value

---
 lube/math.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lube/math.cpp b/lube/math.cpp
index 09e3381..4344a88 100644
--- a/lube/math.cpp
+++ b/lube/math.cpp
@@ -835,10 +835,10 @@ void ASum::scalar(const var& iVar, var& oVar) const
         *oVar.ptr<double>() = std::abs(iVar.get<double>());
         break;
     case TYPE_CFLOAT:
-        *oVar.ptr<cfloat>() = std::abs(iVar.get<cfloat>());
+        *oVar.ptr<float>() = std::abs(iVar.get<cfloat>());
         break;
     case TYPE_CDOUBLE:
-        *oVar.ptr<cdouble>() = std::abs(iVar.get<cdouble>());
+        *oVar.ptr<double>() = std::abs(iVar.get<cdouble>());
         break;
     default:
         throw error("ASum::operator(): Unknown type");
-- 
2.43.0


From 4fe0e5b7e79123c1acbedfd1034b4acdf1016101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:55 +0000
Subject: [PATCH 05/84] fix: array set writes to the output rather than the
 first operand

---
 lube/math.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lube/math.cpp b/lube/math.cpp
index 4344a88..63f191e 100644
--- a/lube/math.cpp
+++ b/lube/math.cpp
@@ -252,20 +252,20 @@ void Set::vector(
 {
     assert(type(iVar1) == TYPE_ARRAY);
     int size = iVar2.size();
-    switch(iVar1.atype())
+    switch(oVar.atype())
     {
     case TYPE_FLOAT:
         blas::copy(
             size,
             iVar2.ptr<float>(iOffset2),
-            iVar1.ptr<float>(iOffset1)
+            oVar.ptr<float>(iOffsetO)
         );
         break;
     case TYPE_DOUBLE:
         blas::copy(
             size,
             iVar2.ptr<double>(iOffset2),
-            iVar1.ptr<double>(iOffset1)
+            oVar.ptr<double>(iOffsetO)
         );
         break;
     default:
-- 
2.43.0


From 850d29da9bc7f7b64549616de605e2f05c8b5eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:55 +0000
Subject: [PATCH 06/84] fix: array addition and subtraction leave the operands
 alone when not in place

---
 lube/math.cpp | 52 +++++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 44 insertions(+), 8 deletions(-)

diff --git a/lube/math.cpp b/lube/math.cpp
index 63f191e..73d13bb 100644
--- a/lube/math.cpp
+++ b/lube/math.cpp
@@ -366,36 +366,60 @@ void Add::vector(
 ) const
 {
     assert(type(iVar1) == TYPE_ARRAY);
-    assert(iVar1.is(oVar));
+    bool inPlace = iVar1.is(oVar);
     int size = iVar2.size();
     switch(iVar1.atype())
     {
     case TYPE_FLOAT:
+        if (!inPlace)
+            blas::copy(
+                size,
+                iVar1.ptr<float>(iOffset1),
+                oVar.ptr<float>(iOffsetO)
+            );
         blas::axpy(
             size, 1.0f,
             iVar2.ptr<float>(iOffset2),
-            iVar1.ptr<float>(iOffset1)
+            oVar.ptr<float>(iOffsetO)
         );
         break;
     case TYPE_DOUBLE:
+        if (!inPlace)
+            blas::copy(
+                size,
+                iVar1.ptr<double>(iOffset1),
+                oVar.ptr<double>(iOffsetO)
+            );
         blas::axpy(
             size, 1.0,
             iVar2.ptr<double>(iOffset2),
-            iVar1.ptr<double>(iOffset1)
+            oVar.ptr<double>(iOffsetO)
         );
         break;
     case TYPE_CFLOAT:
+        if (!inPlace)
+            blas::copy(
+                size,
+                iVar1.ptr<cfloat>(iOffset1),
+                oVar.ptr<cfloat>(iOffsetO)
+            );
         blas::axpy(
             size, cfloat(1.0f,0.0f),
             iVar2.ptr<cfloat>(iOffset2),
-            iVar1.ptr<cfloat>(iOffset1)
+            oVar.ptr<cfloat>(iOffsetO)
         );
         break;
     case TYPE_CDOUBLE:
+        if (!inPlace)
+            blas::copy(
+                size,
+                iVar1.ptr<cdouble>(iOffset1),
+                oVar.ptr<cdouble>(iOffsetO)
+            );
         blas::axpy(
             size, cdouble(1.0,0.0),
             iVar2.ptr<cdouble>(iOffset2),
-            iVar1.ptr<cdouble>(iOffset1)
+            oVar.ptr<cdouble>(iOffsetO)
         );
         break;
     default:
@@ -445,22 +469,34 @@ void Sub::vector(
 ) const
 {
     assert(type(iVar1) == TYPE_ARRAY);
-    assert(iVar1.is(oVar));
+    bool inPlace = iVar1.is(oVar);
     int size = iVar2.size();
     switch(iVar1.atype())
     {
     case TYPE_FLOAT:
+        if (!inPlace)
+            blas::copy(
+                size,
+                iVar1.ptr<float>(iOffset1),
+                oVar.ptr<float>(iOffsetO)
+            );
         blas::axpy(
             size, -1.0f,
             iVar2.ptr<float>(iOffset2),
-            iVar1.ptr<float>(iOffset1)
+            oVar.ptr<float>(iOffsetO)
         );
         break;
     case TYPE_DOUBLE:
+        if (!inPlace)
+            blas::copy(
+                size,
+                iVar1.ptr<double>(iOffset1),
+                oVar.ptr<double>(iOffsetO)
+            );
         blas::axpy(
             size, -1.0,
             iVar2.ptr<double>(iOffset2),
-            iVar1.ptr<double>(iOffset1)
+            oVar.ptr<double>(iOffsetO)
         );
         break;
     default:
-- 
2.43.0


From 0d122a9c597b22e1a93097d1643cb8a5c11ddfaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:43 +0000
Subject: [PATCH 07/84] fix: allow arrays of complex values to be copied

---
 lube/heap.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lube/heap.cpp b/lube/heap.cpp
index cd160cf..bacbcaf 100644
--- a/lube/heap.cpp
+++ b/lube/heap.cpp
@@ -297,6 +297,12 @@ void Heap::copy(const Heap* iHeap, int iSize)
     case TYPE_DOUBLE:
         memcpy(mData.dp, iHeap->mData.dp, mSize*sizeof(double));
         break;
+    case TYPE_CFLOAT:
+        memcpy(mData.cp, iHeap->mData.cp, mSize*sizeof(cfloat));
+        break;
+    case TYPE_CDOUBLE:
+        memcpy(mData.cp, iHeap->mData.cp, mSize*sizeof(cdouble));
+        break;
     case TYPE_VAR:
         for (int i=0; i<mSize; i++)
             mData.vp[i] = iHeap->mData.vp[i];
-- 
2.43.0


From a366ce982870780547079e5579654f3357b62eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:43 +0000
Subject: [PATCH 08/84] fix: var::copy() of a reference to a scalar returns a
 value

---
 lube/var.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lube/var.cpp b/lube/var.cpp
index 0d0764c..cc4fe59 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -584,11 +584,14 @@ bool var::operator <(var iVar) const
 var var::copy(bool iAllocOnly) const
 {
     // Deref and return if there's no heap
+    var r;
     if (!heap())
-        return *this;
+    {
+        r = *this;
+        return r;
+    }
 
     // It's a heap
-    var r;
     if (view())
         r.attach(new View(*heap(), iAllocOnly));
     else
-- 
2.43.0


From 33f6916b0f859164efb7e23b853ff961fb459a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:43 +0000
Subject: [PATCH 09/84] fix: var::pop() returns the value rather than a
 reference to freed space

---
 lube/var.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lube/var.cpp b/lube/var.cpp
index cc4fe59..cf9ddfc 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -1095,6 +1095,7 @@ var& var::push(var iVar)
 var var::pop()
 {
     var r = at(size()-1);
+    r.dereference();
     resize(size()-1);
     return r;
 }
-- 
2.43.0


From cd05c9b88be423c6cef830c47b9706869b71f7c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:43 +0000
Subject: [PATCH 10/84] fix: var::remove() on a map moves the keys with the
 values

---
 lube/var.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lube/var.cpp b/lube/var.cpp
index cf9ddfc..aad85d5 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -1152,7 +1152,11 @@ var var::remove(int iIndex)
 
     var r = at(iIndex).copy();
     for (int i=iIndex+1; i<size(); i++)
+    {
+        if (heap() && atype<pair>())
+            heap()->key(i-1) = heap()->key(i);
         at(i-1) = at(i);
+    }
     resize(size()-1);
     return r;
 }
-- 
2.43.0


From 4c74772817e84ca8ebbf4798cc901e01b160a34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:43 +0000
Subject: [PATCH 11/84] fix: check the index range in var::at(), insert() and
 remove()

---
 lube/var.cpp | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/lube/var.cpp b/lube/var.cpp
index aad85d5..6953d58 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -814,11 +814,11 @@ var var::at(int iIndex) const
     v.dereference();
     if (!v)
         throw error("var::at(): uninitialised");
+    if ((iIndex < 0) || (iIndex >= v.size()))
+        throw error("var::at(): Index out of bounds");
     if (v.type() == TYPE_ARRAY)
         return v.reference(iIndex);
-    if (iIndex == 0)
-        return v;
-    throw error("var::at(): Index out of bounds");
+    return v;
 }
 
 
@@ -1107,8 +1107,8 @@ var var::pop()
  */
 var& var::insert(var iVar, int iIndex)
 {
-    if (iIndex > size())
-        throw std::range_error("insert(): index too large");
+    if ((iIndex < 0) || (iIndex > size()))
+        throw std::range_error("insert(): index out of range");
 
     if (heap() && atype<var>())
     {
@@ -1146,9 +1146,8 @@ var& var::insert(var iVar, int iIndex)
 
 var var::remove(int iIndex)
 {
-    assert(iIndex >= 0);
-    if (iIndex > size()-1)
-        throw std::range_error("remove(): index too large");
+    if ((iIndex < 0) || (iIndex > size()-1))
+        throw std::range_error("remove(): index out of range");
 
     var r = at(iIndex).copy();
     for (int i=iIndex+1; i<size(); i++)
-- 
2.43.0


From 103f83b1346d4a91e3ed1d51cdab9fc2e75b382c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:43 +0000
Subject: [PATCH 12/84] fix: reject negative sizes and shifting an empty array

---
 lube/heap.cpp | 2 ++
 lube/var.cpp  | 3 ++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/lube/heap.cpp b/lube/heap.cpp
index bacbcaf..d43526e 100644
--- a/lube/heap.cpp
+++ b/lube/heap.cpp
@@ -482,6 +482,8 @@ var Heap::shift()
     // var and pair use placement delete on the overwritten element (to delete
     // it) and placement new on the exposed one (to reset it, rather than
     // actually construct a new one).
+    if (mSize < 1)
+        throw error("Heap::shift(): Array is empty");
     var r;
     switch (mType)
     {
diff --git a/lube/var.cpp b/lube/var.cpp
index 6953d58..0e90c66 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -918,7 +918,8 @@ var& var::array()
 var& var::resize(int iSize)
 {
     VDEBUG(std::cout << "var::resize(" << iSize << ")" << std::endl);
-    assert(iSize >= 0);
+    if (iSize < 0)
+        throw error("var::resize(): Negative size");
     var& v = dereference();
     if (!v.heap())
     {
-- 
2.43.0


From 9e6a71d7259826246f61722d2b8fc9e1c64a7009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:43 +0000
Subject: [PATCH 13/84] fix: unshift casts the value to the type of the array

---
 lube/heap.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/lube/heap.cpp b/lube/heap.cpp
index d43526e..168239a 100644
--- a/lube/heap.cpp
+++ b/lube/heap.cpp
@@ -547,31 +547,31 @@ void Heap::unshift(var iVar)
     {
     case TYPE_CHAR:
         memmove(mData.cp+1, mData.cp, (mSize-1)*sizeof(char));
-        mData.cp[0] = iVar.get<char>();
+        mData.cp[0] = iVar.cast<char>();
         break;
     case TYPE_INT:
         memmove(mData.ip+1, mData.ip, (mSize-1)*sizeof(int));
-        mData.ip[0] = iVar.get<int>();
+        mData.ip[0] = iVar.cast<int>();
         break;
     case TYPE_LONG:
         memmove(mData.lp+1, mData.lp, (mSize-1)*sizeof(long));
-        mData.lp[0] = iVar.get<long>();
+        mData.lp[0] = iVar.cast<long>();
         break;
     case TYPE_FLOAT:
         memmove(mData.fp+1, mData.fp, (mSize-1)*sizeof(float));
-        mData.fp[0] = iVar.get<float>();
+        mData.fp[0] = iVar.cast<float>();
         break;
     case TYPE_DOUBLE:
         memmove(mData.dp+1, mData.dp, (mSize-1)*sizeof(double));
-        mData.dp[0] = iVar.get<double>();
+        mData.dp[0] = iVar.cast<double>();
         break;
     case TYPE_CFLOAT:
         memmove(mData.cfp+1, mData.cfp, (mSize-1)*sizeof(cfloat));
-        mData.cfp[0] = iVar.get<cfloat>();
+        mData.cfp[0] = iVar.cast<cfloat>();
         break;
     case TYPE_CDOUBLE:
         memmove(mData.cdp+1, mData.cdp, (mSize-1)*sizeof(cdouble));
-        mData.cdp[0] = iVar.get<cdouble>();
+        mData.cdp[0] = iVar.cast<cdouble>();
         break;
     case TYPE_VAR:
         memmove(mData.vp+1, mData.vp, (mSize-1)*sizeof(var));
-- 
2.43.0


From 1d0a88c558bf3ddacf552559037a7681470a9df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:43 +0000
Subject: [PATCH 14/84] fix: refuse to append raw data of a different type to
 an array

---
 lube/heap.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lube/heap.cpp b/lube/heap.cpp
index 168239a..fdf10bc 100644
--- a/lube/heap.cpp
+++ b/lube/heap.cpp
@@ -169,18 +169,20 @@ var Heap::derefInt(ind iIndex, int iArrayIndex)
 }
 
 
-#define APPEND(T, P)                                \
+#define APPEND(T, P, E)                             \
     void Heap::append(int iSize, const T* iData)    \
     {                                               \
+        if (mType != E)                             \
+            throw error("append(): Wrong type");    \
         int beg = mSize;                            \
         resize(mSize + iSize);                      \
         for (int i=0; i<iSize; i++)                 \
             mData.P[beg+i] = iData[i];              \
     }
 
-APPEND(char, cp)
-APPEND(int, ip)
-APPEND(cdouble, cdp)
+APPEND(char, cp, TYPE_CHAR)
+APPEND(int, ip, TYPE_INT)
+APPEND(cdouble, cdp, TYPE_CDOUBLE)
 
 
 /**
-- 
2.43.0


From d0d951c1d89fbc903081e979a7eb09f5f4a25a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:43 +0000
Subject: [PATCH 15/84] fix: release the elements removed when an array shrinks

---
 lube/heap.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lube/heap.cpp b/lube/heap.cpp
index fdf10bc..c8cbc07 100644
--- a/lube/heap.cpp
+++ b/lube/heap.cpp
@@ -228,6 +228,15 @@ void Heap::resize(int iSize)
 {
     // It is possible to resize to zero; the capacity stays the same
     assert(mCapacity >= 0);
+    if (mCapacity > 0)
+        for (int i=iSize; i<mSize; i++)
+        {
+            // Drop the elements that are no longer visible
+            if (mType == TYPE_VAR)
+                mData.vp[i] = nil;
+            else if (mType == TYPE_PAIR)
+                mData.pp[i].key = mData.pp[i].val = nil;
+        }
     mSize = iSize;
 
     // strings have an extra '\0'
-- 
2.43.0


From c43de1f0c235f720496cd667b85bc01546ecd8fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:43 +0000
Subject: [PATCH 16/84] fix: an array keeps its size when growing it runs out
 of memory

---
 lube/heap.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lube/heap.cpp b/lube/heap.cpp
index c8cbc07..81527ae 100644
--- a/lube/heap.cpp
+++ b/lube/heap.cpp
@@ -237,7 +237,7 @@ void Heap::resize(int iSize)
             else if (mType == TYPE_PAIR)
                 mData.pp[i].key = mData.pp[i].val = nil;
         }
-    mSize = iSize;
+    int size = iSize;
 
     // strings have an extra '\0'
     if (mType == TYPE_CHAR)
@@ -247,8 +247,9 @@ void Heap::resize(int iSize)
     if (mCapacity == 0)
     {
         // Allocate
-        mCapacity = allocSize(iSize);
-        alloc(mCapacity);
+        int newSize = allocSize(iSize);
+        alloc(newSize);
+        mCapacity = newSize;
     }
 
     // Allocated
@@ -274,6 +275,8 @@ void Heap::resize(int iSize)
         }
     }
 
+    mSize = size;
+
     // Put in the null terminator
     if (mType == TYPE_CHAR)
         mData.cp[mSize] = 0;
-- 
2.43.0


From ab23d93cf97cf79d6592c33a2f04810d2d62de09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:43 +0000
Subject: [PATCH 17/84] fix: nil can be compared

---
 lube/var.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lube/var.cpp b/lube/var.cpp
index 0e90c66..e94f2e3 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -514,6 +514,8 @@ bool var::operator !=(var iVar) const
     switch (type())
     {
     case TYPE_ARRAY:
+        if (!heap() || !iVar.heap())
+            return heap() != iVar.heap();
         return heap()->neq(iVar.heap());
     case TYPE_CHAR:
         return (get<char>() != iVar.get<char>());
@@ -551,6 +553,8 @@ bool var::operator <(var iVar) const
     switch (type())
     {
     case TYPE_ARRAY:
+        if (!heap() || !iVar.heap())
+            return !heap() && iVar.heap();
         return heap()->lt(iVar.heap());
     case TYPE_CHAR:
         return (get<char>() < iVar.get<char>());
-- 
2.43.0


From 7ca825b6ca6614b0ecd4e03e920410299674553d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:43 +0000
Subject: [PATCH 18/84] fix: order arrays lexicographically

---
 lube/heap.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/lube/heap.cpp b/lube/heap.cpp
index 81527ae..c4ed413 100644
--- a/lube/heap.cpp
+++ b/lube/heap.cpp
@@ -477,11 +477,19 @@ bool Heap::neq(IHeap* iHeap)
 bool Heap::lt(IHeap* iHeap)
 {
     if ( (mType == TYPE_CHAR) && (iHeap->type() == TYPE_CHAR) )
-        return (std::strcmp(ptrchar(), iHeap->ptrchar()) < 0);
+    {
+        int n = std::min(size(), iHeap->size());
+        int c = std::memcmp(ptrchar(), iHeap->ptrchar(), n);
+        return c ? c < 0 : size() < iHeap->size();
+    }
     for (int i=0; i<std::min(size(), iHeap->size()); i++)
+    {
         if (at(i) < iHeap->at(i))
             return true;
-    return false;
+        if (iHeap->at(i) < at(i))
+            return false;
+    }
+    return size() < iHeap->size();
 }
 
 
-- 
2.43.0


From e35bbafcb917cd38c84f51e379cb42eeeb9155d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:22 +0000
Subject: [PATCH 19/84] fix: maps with different keys are not equal

---
 lube/heap.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lube/heap.cpp b/lube/heap.cpp
index c4ed413..c29607d 100644
--- a/lube/heap.cpp
+++ b/lube/heap.cpp
@@ -467,7 +467,11 @@ var& Heap::key(int iIndex)
 
 bool Heap::neq(IHeap* iHeap)
 {
-    for (int i=0; i<mSize; i++)
+    if (type() == TYPE_PAIR && iHeap->type() == TYPE_PAIR)
+        for (int i=0; i<size(); i++)
+            if (key(i) != iHeap->key(i))
+                return true;
+    for (int i=0; i<size(); i++)
         if (at(i) != iHeap->at(i))
             return true;
     return false;
-- 
2.43.0


From 2658690dc6a9377385ba99db678e93edf6eac029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:22 +0000
Subject: [PATCH 20/84] fix: compare and dereference the elements of a view,
 not its description

---
 lube/heap.cpp |  2 +-
 lube/heap.h   |  5 +++++
 lube/view.cpp | 16 ++++++++++++++++
 3 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/lube/heap.cpp b/lube/heap.cpp
index c29607d..c5527ae 100644
--- a/lube/heap.cpp
+++ b/lube/heap.cpp
@@ -480,7 +480,7 @@ bool Heap::neq(IHeap* iHeap)
 
 bool Heap::lt(IHeap* iHeap)
 {
-    if ( (mType == TYPE_CHAR) && (iHeap->type() == TYPE_CHAR) )
+    if ( (type() == TYPE_CHAR) && (iHeap->type() == TYPE_CHAR) )
     {
         int n = std::min(size(), iHeap->size());
         int c = std::memcmp(ptrchar(), iHeap->ptrchar(), n);
diff --git a/lube/heap.h b/lube/heap.h
index 7ecfd02..d950833 100644
--- a/lube/heap.h
+++ b/lube/heap.h
@@ -224,6 +224,11 @@ namespace libube
         virtual int& shape(int iDim) const;
         virtual int& stride(int iDim) const;
         virtual bool copyable(IHeap* iHeap);
+        virtual var at(int iIndex, bool iKey=false) const;
+        virtual var& key(int iIndex);
+        virtual var* deref(ind iIndex) {
+            return mHeap->deref(iIndex + mData.ip[0]);
+        };
         virtual int derefSize(ind iIndex) {
             return mHeap->derefSize(iIndex + mData.ip[0]);
         };
diff --git a/lube/view.cpp b/lube/view.cpp
index 551b9f8..c5cee08 100644
--- a/lube/view.cpp
+++ b/lube/view.cpp
@@ -126,6 +126,22 @@ int View::offset(int iOffset)
 }
 
 
+var View::at(int iIndex, bool iKey) const
+{
+    if ( (iIndex < 0) || (iIndex >= size()) )
+        throw std::range_error("View::at(): index out of bounds");
+    return mHeap->at(iIndex + mData.ip[0], iKey);
+}
+
+
+var& View::key(int iIndex)
+{
+    if ( (iIndex < 0) || (iIndex >= size()) )
+        throw std::range_error("View::key(): index out of bounds");
+    return mHeap->key(iIndex + mData.ip[0]);
+}
+
+
 int& View::shape(int iDim) const
 {
     int index = iDim*2 + 1;
-- 
2.43.0


From fd921142395c26081d7ecc01b4ab05f7d0e8e51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:22 +0000
Subject: [PATCH 21/84] fix: reject views that start before the array or have
 negative dimensions

---
 lube/view.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/lube/view.cpp b/lube/view.cpp
index c5cee08..700653c 100644
--- a/lube/view.cpp
+++ b/lube/view.cpp
@@ -8,6 +8,7 @@
  */
 
 #include <cassert>
+#include <climits>
 
 #include "lube/var.h"
 #include "lube/heap.h"
@@ -54,11 +55,17 @@ void View::setStrides(int iDim)
         throw error("View::setStrides(): view must have dim > 0");
 
     // The second of each pair is the stride
-    int p = 1;
+    if (mData.ip[0] < 0)
+        throw error("View::setStrides(): Negative offset");
+    long p = 1;
     for (int i=iDim-1; i>=0; i--)
     {
+        if (mData.ip[i*2+1] < 0)
+            throw error("View::setStrides(): Negative dimension");
         mData.ip[i*2+2] = p;
         p *= mData.ip[i*2+1];
+        if (p > INT_MAX)
+            throw error("View::setStrides(): Array too small for view");
     }
 
     // the p that drops out should be the overall size
@@ -119,8 +126,8 @@ View::~View()
 
 int View::offset(int iOffset)
 {
-    if (iOffset + size() > mHeap->size())
-        throw error("View::offset(): offset too large");
+    if ((iOffset < 0) || (iOffset > mHeap->size() - size()))
+        throw error("View::offset(): offset out of range");
     mData.ip[0] = iOffset;
     return iOffset;
 }
-- 
2.43.0


From a228eed1ec1cbf438eac74fa7c1e84de4c6a3e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:22 +0000
Subject: [PATCH 22/84] fix: resizing or shifting a view throws rather than
 corrupting it

---
 lube/heap.h   |  3 +++
 lube/view.cpp | 27 +++++++++++++++++++++++----
 2 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/lube/heap.h b/lube/heap.h
index d950833..f54f442 100644
--- a/lube/heap.h
+++ b/lube/heap.h
@@ -220,6 +220,9 @@ namespace libube
         virtual int dim() const { return (mSize-1) / 2; };
         virtual int offset() const { return mData.ip[0]; };
         virtual int offset(int iOffset);
+        virtual void resize(int iSize);
+        virtual var shift();
+        virtual void unshift(var iVar);
         virtual Heap* view() const { return mHeap; };
         virtual int& shape(int iDim) const;
         virtual int& stride(int iDim) const;
diff --git a/lube/view.cpp b/lube/view.cpp
index 700653c..8a01944 100644
--- a/lube/view.cpp
+++ b/lube/view.cpp
@@ -28,7 +28,7 @@ View::View(const IHeap& iHeap, bool iAllocOnly) : Heap()
 {
     assert(iHeap.view());
     mType = TYPE_INT;
-    resize(iHeap.dim()*2+1);
+    Heap::resize(iHeap.dim()*2+1);
     mHeap = new Heap(*iHeap.view(), iAllocOnly);
     mHeap->attach();
     copy(reinterpret_cast<const Heap*>(&iHeap), mSize);
@@ -43,7 +43,7 @@ View::View(IHeap* iHeap) : Heap()
 
     // Initialise the offset with the old one if it was a view
     mType = TYPE_INT;
-    resize(1);
+    Heap::resize(1);
     mData.ip[0] = iHeap->view() ? iHeap->offset() : 0;
 }
 
@@ -78,7 +78,7 @@ View::View(IHeap* iHeap, const std::initializer_list<int> iList, int iOffset)
     : View(iHeap)
 {
     int dim = iList.size();
-    resize(dim*2+1);
+    Heap::resize(dim*2+1);
 
     // The first entry is the offset
     mData.ip[0] += iOffset;;
@@ -100,7 +100,7 @@ View::View(IHeap* iHeap, const std::initializer_list<int> iList, int iOffset)
 View::View(IHeap* iHeap, var iShape, int iOffset) : View(iHeap)
 {
     int dim = iShape.size();
-    resize(dim*2+1);
+    Heap::resize(dim*2+1);
 
     // The first entry is the offset
     mData.ip[0] += iOffset;;
@@ -124,6 +124,25 @@ View::~View()
 }
 
 
+/* The size of a view is fixed by its shape */
+void View::resize(int iSize)
+{
+    throw error("View::resize(): can't resize a view");
+}
+
+
+var View::shift()
+{
+    throw error("View::shift(): can't shift a view");
+}
+
+
+void View::unshift(var iVar)
+{
+    throw error("View::unshift(): can't unshift a view");
+}
+
+
 int View::offset(int iOffset)
 {
     if ((iOffset < 0) || (iOffset > mHeap->size() - size()))
-- 
2.43.0


From 6f24c286ae1f216433e12867eb434b04a45d987a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:22 +0000
Subject: [PATCH 23/84] fix: looking up a key in a scalar is not a null
 dereference

---
 lube/var.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lube/var.cpp b/lube/var.cpp
index e94f2e3..9a96d8c 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -748,9 +748,9 @@ var var::operator [](var iVar)
         v.attach(new Heap(0, TYPE_PAIR));
     }
     else
-        if (v.heap() && !v.atype<pair>())
+        if (!v.heap() || !v.atype<pair>())
             // Fall back to normal array if the var can be cast to int
-            return operator [](iVar.cast<int>());
+            return v[iVar.cast<int>()];
     if (!iVar)
         return nil;
     int index = v.binary(iVar);
@@ -838,7 +838,7 @@ var var::at(var iVar) const
     if (!defined())
         throw error("var::at(): uninitialised");
     else
-        if (heap() && !atype<pair>())
+        if (!heap() || !atype<pair>())
             throw error("operator [var]: Not a map");
 
     int index = binary(iVar);
-- 
2.43.0


From f22ebe534a86ff316bf6ff43877464246235a37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:22 +0000
Subject: [PATCH 24/84] fix: broadcasting over an empty array does not divide
 by zero

---
 lube/func.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lube/func.cpp b/lube/func.cpp
index 0812928..db3f072 100644
--- a/lube/func.cpp
+++ b/lube/func.cpp
@@ -125,7 +125,7 @@ void UnaryFunctor::broadcast(var iVar, var& oVar) const
     int dimO = oVar.dim();
     int stepI = dimI-mDim > 0 ? iVar.stride(dimI-mDim-1) : iVar.size();
     int stepO = dimO-mDim > 0 ? oVar.stride(dimO-mDim-1) : oVar.size();
-    int nOps = iVar.size() / stepI;
+    int nOps = stepI ? iVar.size() / stepI : 0;
     for (int i=0; i<nOps; i++)
         vector(iVar, stepI*i, oVar, stepO*i);
 }
@@ -242,7 +242,7 @@ void BinaryFunctor::broadcast(var iVar1, var iVar2, var& oVar) const
     int step1 = cdim > 0 ? iVar1.stride(cdim-1) : 0;
     int step2 = cdim > 0 ? iVar2.stride(cdim-1) : 0;
     int stepO = cdim > 0 ?  oVar.stride(cdim-1) : 0;
-    int nOps = cdim > 0 ? iVar1.size() / step1 : 1;
+    int nOps = cdim > 0 ? (step1 ? iVar1.size() / step1 : 0) : 1;
     for (int i=0; i<nOps; i++)
         vector(iVar1, step1*i, iVar2, step2*i, oVar, stepO*i);
 }
@@ -293,7 +293,7 @@ void ArithmeticFunctor::broadcast(var iVar1, var iVar2, var& oVar) const
     int dimO = oVar.dim();
     int step1 = dim1-dim2 > 0 ? iVar1.stride(dim1-dim2-1) : iVar1.size();
     int stepO = dimO-dim2 > 0 ? oVar.stride(dimO-dim2-1) : oVar.size();
-    int nOps = iVar1.size() / step1;
+    int nOps = step1 ? iVar1.size() / step1 : 0;
     for (int i=0; i<nOps; i++)
         vector(iVar1, step1*i, iVar2, 0, oVar, stepO*i);
 }
@@ -391,7 +391,7 @@ void NaryFunctor::broadcast(var iVar, var& oVar) const
 
     // Assume that the common dimension is to be broadcast over.
     int stepO = cdim > 0 ?  oVar.stride(cdim-1) : 0;
-    int nOps = cdim > 0 ? oVar.size() / stepO : 1;
+    int nOps = cdim > 0 ? (stepO ? oVar.size() / stepO : 0) : 1;
     for (int i=0; i<nOps; i++)
     {
         var iv;
-- 
2.43.0


From dc2a41cfc916c43277aa0bca47663a798a0bdd17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:22 +0000
Subject: [PATCH 25/84] fix: cast view dimensions to int

---
 lube/view.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lube/view.cpp b/lube/view.cpp
index 8a01944..b448b17 100644
--- a/lube/view.cpp
+++ b/lube/view.cpp
@@ -108,7 +108,7 @@ View::View(IHeap* iHeap, var iShape, int iOffset) : View(iHeap)
     // First entry of each subsequent pair is the dimension
     for (int i=0; i<dim; i++)
     {
-        mData.ip[i*2+1] = iShape[i].get<int>();
+        mData.ip[i*2+1] = iShape[i].cast<int>();
         mData.ip[i*2+2] = 0;
     }
 
-- 
2.43.0


From 4c305fb7c134f4152c9a286b6684f5cfe3370070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:27 +0000
Subject: [PATCH 26/84] fix: varbuf returns bytes above 127 as characters
 rather than eof

---
 lube/stream.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lube/stream.cpp b/lube/stream.cpp
index 3fc3b76..d27038a 100644
--- a/lube/stream.cpp
+++ b/lube/stream.cpp
@@ -56,7 +56,7 @@ int varbuf::uflow()
     //
     // Following stringstream, this doesn't destroy the string
     if (mInd < mVar.size())
-        return mVar[mInd++].get<char>();
+        return traits_type::to_int_type(mVar[mInd++].get<char>());
     return traits_type::eof();
 }
 
@@ -64,7 +64,7 @@ int varbuf::underflow()
 {
     // Called for reads that do not consume data if not uflow().
     if (mInd < mVar.size())
-        return mVar[mInd].get<char>();
+        return traits_type::to_int_type(mVar[mInd].get<char>());
     return traits_type::eof();
 }
 
@@ -73,7 +73,7 @@ int varbuf::pbackfail(int iInt)
     // istreams are supposed to allow putting back one character.  Putting back
     // will always fail since it's bufferless, in which case this is called.
     if (mInd > 0)
-        return mVar[--mInd].get<char>();
+        return traits_type::to_int_type(mVar[--mInd].get<char>());
     return traits_type::eof();
 }
 
-- 
2.43.0


From c1bbc415fd1b889b37df035ae2ec3396b2c05352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:27 +0000
Subject: [PATCH 27/84] fix: seeking a varstream out of range fails

---
 lube/stream.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lube/stream.cpp b/lube/stream.cpp
index d27038a..5899d05 100644
--- a/lube/stream.cpp
+++ b/lube/stream.cpp
@@ -82,8 +82,9 @@ std::streampos varbuf::seekpos(
 )
 {
     // Ignore mode for the moment
-    if (iPos < mVar.size())
-        mInd = iPos;
+    if ((iPos < 0) || (iPos > mVar.size()))
+        return std::streampos(std::streamoff(-1));
+    mInd = iPos;
     return iPos;
 }
 
-- 
2.43.0


From d5a0b24fb5a6811f5643c5bde353aba9ae3eb76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:27 +0000
Subject: [PATCH 28/84] fix: getline() does not store the end of file as a
 character

---
 lube/string.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lube/string.cpp b/lube/string.cpp
index eb9353e..3a56a9d 100644
--- a/lube/string.cpp
+++ b/lube/string.cpp
@@ -107,7 +107,7 @@ var& var::getline(std::istream& iStream)
 {
     // Peek ahead to set eof if necessary, return nil if done
     iStream.peek();
-    if (iStream.eof())
+    if (!iStream.good())
         return clear();
 
     // Start off as a string as an array; re-use the existing array if possible
@@ -123,7 +123,9 @@ var& var::getline(std::istream& iStream)
     char* str = ptr<char>();
     while (!iStream.eof())
     {
-        char c = iStream.get();
+        int c = iStream.get();
+        if (c == std::istream::traits_type::eof())
+            break;
         if (c == '\n') // Unix specific?  ...no, I think c++ will change it to
                        // whatever is appropriate
             break;
-- 
2.43.0


From 344d0484d80b9be6f750e7c99a497962eca39241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:27 +0000
Subject: [PATCH 29/84] fix: splitting on an empty separator throws

---
 lube/string.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lube/string.cpp b/lube/string.cpp
index 3a56a9d..0ec7ed9 100644
--- a/lube/string.cpp
+++ b/lube/string.cpp
@@ -151,6 +151,8 @@ var var::split(const char* iStr, int iMax) const
 {
     var r;
     int strLen = std::strlen(iStr);
+    if (strLen == 0)
+        throw error("split(): empty separator");
     const char* source = this->str();
     const char* p;
     if (iMax != 1)
-- 
2.43.0


From f3b0ff32f4122e429889c6afdecb05ba5298e2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:27 +0000
Subject: [PATCH 30/84] fix: strip writes to the storage of the output after
 resizing

---
 lube/string.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lube/string.cpp b/lube/string.cpp
index 0ec7ed9..4eac66c 100644
--- a/lube/string.cpp
+++ b/lube/string.cpp
@@ -255,6 +255,7 @@ void Strip::string(const var& iVar, var& oVar) const
     {
         oVar = "";
         oVar.resize(newSize);
+        op = oVar.ptr<char>();
         for (int i=0; i<newSize; i++)
             op[i] = ip[i+leading];
     }
-- 
2.43.0


From 9522bdc2a1edb3c1964cdb52718730909fc0f30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:27 +0000
Subject: [PATCH 31/84] fix: JSON raw values leave the delimiter for the
 enclosing value

---
 lube/json.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lube/json.cpp b/lube/json.cpp
index e96ff29..f54fc1c 100644
--- a/lube/json.cpp
+++ b/lube/json.cpp
@@ -186,14 +186,15 @@ var JSON::doRaw(std::istream& iStream)
 {
     // Read up to a space or JSON delimiter
     var val = "";
-    char c;
-    while (iStream.get(c))
+    // The delimiter is left for the caller
+    int c;
+    while ((c = iStream.peek()) != char_traits<char>::eof())
     {
         if (isspace(c))
             break;
         if (strchr(",[]{}", c))
             break;
-        val.push(c);
+        val.push((char)iStream.get());
     }
 
     // These values have special meanings
-- 
2.43.0


From 41331c1aa9c7e61f3dfd38606511a0a55c26952a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:27 +0000
Subject: [PATCH 32/84] fix: unterminated JSON objects and arrays are rejected

---
 lube/json.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lube/json.cpp b/lube/json.cpp
index f54fc1c..c808f1c 100644
--- a/lube/json.cpp
+++ b/lube/json.cpp
@@ -104,7 +104,7 @@ var JSON::doObject(std::istream& iStream)
             throw error("Unknown character");
         }
     }
-    return obj;
+    throw error("Unterminated JSON object");
 }
 
 var JSON::doArray(std::istream& iStream)
@@ -128,7 +128,7 @@ var JSON::doArray(std::istream& iStream)
             arr.push(doValue(iStream));
         }
     }
-    return arr;
+    throw error("Unterminated JSON array");
 }
 
 var JSON::doString(std::istream& iStream)
-- 
2.43.0


From e4bb5af45f49fc395c59fb1aeb44e74871046dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:27 +0000
Subject: [PATCH 33/84] fix: JSON numbers must be numbers right to the end

---
 lube/json.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lube/json.cpp b/lube/json.cpp
index c808f1c..bed6e6e 100644
--- a/lube/json.cpp
+++ b/lube/json.cpp
@@ -167,7 +167,7 @@ var toNumber(var iStr)
     varstream vs(iStr);
     long l;
     vs >> l;
-    if (!vs.fail())
+    if (!vs.fail() && vs.eof())
         return l;
 
     // Try for double
@@ -175,7 +175,7 @@ var toNumber(var iStr)
     vs.seekg(0);
     double d;
     vs >> d;
-    if (!vs.fail())
+    if (!vs.fail() && vs.eof())
         return d;
 
     // Failed
-- 
2.43.0


From 9e650d38ca378748f9a04a406523ddb8f2e3caac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:27 +0000
Subject: [PATCH 34/84] fix: JSON strings escape quotes and backslashes

---
 lube/json.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lube/json.cpp b/lube/json.cpp
index bed6e6e..3aa47ed 100644
--- a/lube/json.cpp
+++ b/lube/json.cpp
@@ -148,6 +148,7 @@ var JSON::doString(std::istream& iStream)
             switch (got)
             {
             case '\"':
+            case '\\':
                 str.push(got);
                 break;
             default:
@@ -297,7 +298,13 @@ void JSON::formatArray(std::ostream& iStream, var iVar, int iIndent)
     {
     case TYPE_CHAR:
         iStream << "\"";
-        iStream << iVar.ptr<char>();
+        for (int i=0; i<iVar.size(); i++)
+        {
+            char c = *iVar.ptr<char>(i);
+            if ((c == '\"') || (c == '\\'))
+                iStream << '\\';
+            iStream << c;
+        }
         iStream << "\"";
         break;
     case TYPE_PAIR:
-- 
2.43.0


From d94a1cbd34d0625bb4dd0c281e68f3e4df0b6a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:27 +0000
Subject: [PATCH 35/84] fix: format the values of complex double arrays rather
 than their addresses

---
 lube/json.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lube/json.cpp b/lube/json.cpp
index 3aa47ed..29b2781 100644
--- a/lube/json.cpp
+++ b/lube/json.cpp
@@ -354,7 +354,7 @@ void JSON::formatArray(std::ostream& iStream, var iVar, int iIndent)
             {
                 for (int j=0; j<iIndent+2; j++)
                     iStream << " ";
-                iStream << iVar.ptr<cdouble>(i);
+                iStream << *iVar.ptr<cdouble>(i);
                 if (i < iVar.size()-1)
                     iStream << ",";
                 iStream << "\n";
-- 
2.43.0


From db830796d6182b42fc0208869b29994a3ef8fdf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:27 +0000
Subject: [PATCH 36/84] fix: arithmetic on arrays with different shapes throws

---
 lube/func.cpp | 21 ++++++++++++---------
 lube/func.h   |  1 +
 lube/math.cpp | 11 +++++++++++
 lube/math.h   |  1 +
 4 files changed, 25 insertions(+), 9 deletions(-)

diff --git a/lube/func.cpp b/lube/func.cpp
index db3f072..365ce70 100644
--- a/lube/func.cpp
+++ b/lube/func.cpp
@@ -248,6 +248,17 @@ void BinaryFunctor::broadcast(var iVar1, var iVar2, var& oVar) const
 }
 
 
+/**
+ * Checks that the trailing dimensions of iVar1 match those of iVar2
+ */
+void ArithmeticFunctor::conform(const var& iVar1, const var& iVar2) const
+{
+    for (int i=1; i<=iVar2.dim(); i++)
+        if (iVar1.shape(-i) != iVar2.shape(-i))
+            throw error("var::broadcast: dimension mismatch");
+}
+
+
 /**
  * Arithmetic broadcaster
  *
@@ -278,15 +289,7 @@ void ArithmeticFunctor::broadcast(var iVar1, var iVar2, var& oVar) const
         throw error("var::broadcast: input dimension too large");
     if (iVar1.atype() != iVar2.atype())
         throw error("var::broadcast: types must match (for now)");
-#if 0
-    // Does not work for matrix multiplication
-    for (int i=1; i<dim2; i++)
-    {
-        // The dimensions should match
-        if (iVar1.shape(dim1-i) != iVar2.shape(dim2-i))
-            throw error("var::broadcast: dimension mismatch");
-    }
-#endif
+    conform(iVar1, iVar2);
 
     // If it didn't throw, then the arrays are broadcastable
     // In this case, loop over iVar1 with different offsets
diff --git a/lube/func.h b/lube/func.h
index f267c34..d0e8f83 100644
--- a/lube/func.h
+++ b/lube/func.h
@@ -91,6 +91,7 @@ namespace libube
     {
     protected:
         virtual void broadcast(var iVar1, var iVar2, var& oVar) const;
+        virtual void conform(const var& iVar1, const var& iVar2) const;
     };
 
 
diff --git a/lube/math.cpp b/lube/math.cpp
index 73d13bb..a0b1983 100644
--- a/lube/math.cpp
+++ b/lube/math.cpp
@@ -692,6 +692,17 @@ var Dot::alloc(var iVar1, var iVar2) const
 }
 
 
+/**
+ * Unlike element-wise arithmetic, the last dimension of iVar1 is contracted
+ * with the first one of iVar2.
+ */
+void Dot::conform(const var& iVar1, const var& iVar2) const
+{
+    if (iVar1.shape(-1) != iVar2.shape(0))
+        throw error("Dot::conform: Shapes not compatible");
+}
+
+
 void Dot::vector(
     var iVar1, ind iOffset1,
     var iVar2, ind iOffset2,
diff --git a/lube/math.h b/lube/math.h
index 3be44ed..545485d 100644
--- a/lube/math.h
+++ b/lube/math.h
@@ -162,6 +162,7 @@ namespace libube
     {
     protected:
         var alloc(var iVar1, var iVar2) const;
+        void conform(const var& iVar1, const var& iVar2) const;
         void vector(
             var iVar1, ind iOffset1,
             var iVar2, ind iOffset2,
-- 
2.43.0


From b4926a5fe2d218f1bbd07e45da412b86be62dfad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:27 +0000
Subject: [PATCH 37/84] fix: matrix multiplication broadcasts over the last two
 dimensions

---
 lube/math.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lube/math.cpp b/lube/math.cpp
index a0b1983..7d6cf08 100644
--- a/lube/math.cpp
+++ b/lube/math.cpp
@@ -760,7 +760,7 @@ void Dot::vector(
     {
         // It's a two dimensional thing, so do it as a matrix multiplication
         // with blas::gemm()
-        if (iVar1.shape(1) != iVar2.shape(0))
+        if (iVar1.shape(-1) != iVar2.shape(0))
         {
             std::cout << iVar1.shape() << iVar2.shape() << std::endl;
             throw error("Dot::vector: Shapes not compatible");
@@ -769,7 +769,7 @@ void Dot::vector(
         {
         case TYPE_FLOAT:
             blas::gemm(
-                iVar1.shape(0), iVar2.shape(1), iVar1.shape(1),
+                iVar1.shape(-2), iVar2.shape(1), iVar1.shape(-1),
                 1.0f,
                 iVar1.ptr<float>(iOffset1),
                 iVar2.ptr<float>(iOffset2),
@@ -779,7 +779,7 @@ void Dot::vector(
             break;
         case TYPE_DOUBLE:
             blas::gemm(
-                iVar1.shape(0), iVar2.shape(1), iVar1.shape(1),
+                iVar1.shape(-2), iVar2.shape(1), iVar1.shape(-1),
                 1.0,
                 iVar1.ptr<double>(iOffset1),
                 iVar2.ptr<double>(iOffset2),
-- 
2.43.0


From 834ceba50b1301f65fd9a8cd2d5e1d58244ae699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:27 +0000
Subject: [PATCH 38/84] fix: format the elements of complex double views

---
 lube/json.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lube/json.cpp b/lube/json.cpp
index 29b2781..745ca4a 100644
--- a/lube/json.cpp
+++ b/lube/json.cpp
@@ -275,8 +275,7 @@ void JSON::format(std::ostream& iStream, var iVar, int iIndent)
         iStream << iVar.get<cfloat>();
         break;
     case TYPE_CDOUBLE:
-        //iStream << iVar.get<cdouble>();
-        throw error("var::format(): cdouble should be array");
+        iStream << *iVar.ptr<cdouble>();
         break;
     default:
         throw error("var::format(): Unknown type");
-- 
2.43.0


From 386608fd45909536e309f3d890fee0313f27c6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:12 +0000
Subject: [PATCH 39/84] fix: failing to open or write a file throws

---
 lube/graph.cpp   | 5 +++++
 lube/inifile.cpp | 3 +++
 lube/txtfile.cpp | 3 +++
 lube/xmlfile.cpp | 3 +++
 4 files changed, 14 insertions(+)

diff --git a/lube/graph.cpp b/lube/graph.cpp
index 16b1c1c..1087996 100644
--- a/lube/graph.cpp
+++ b/lube/graph.cpp
@@ -82,6 +82,11 @@ private:
 void Graph::writeGraphViz(var iFileName)
 {
     std::ofstream ofs(iFileName.str(), std::ofstream::out);
+    if (ofs.fail())
+        throw error("Graph::writeGraphViz(): Open failed");
     LabelWriter lw(mGraph);
     write_graphviz(ofs, mGraph, lw);
+    ofs.close();
+    if (ofs.fail())
+        throw error("Graph::writeGraphViz(): Write failed");
 }
diff --git a/lube/inifile.cpp b/lube/inifile.cpp
index 6bcc125..15ef989 100644
--- a/lube/inifile.cpp
+++ b/lube/inifile.cpp
@@ -78,4 +78,7 @@ void inifile::write(var iFile, var iVar)
         throw error("inifile::write(): Open failed");
     for (int i=0; i<iVar.size(); i++)
         os << iVar.at(i) << std::endl;
+    os.close();
+    if (os.fail())
+        throw error("inifile::write(): Write failed");
 }
diff --git a/lube/txtfile.cpp b/lube/txtfile.cpp
index 404ac12..1040532 100644
--- a/lube/txtfile.cpp
+++ b/lube/txtfile.cpp
@@ -50,4 +50,7 @@ void txtfile::write(var iFile, var iVar)
         throw error("txtfile::write(): Open failed");
     for (int i=0; i<iVar.size(); i++)
         os << iVar.at(i) << std::endl;
+    os.close();
+    if (os.fail())
+        throw error("txtfile::write(): Write failed");
 }
diff --git a/lube/xmlfile.cpp b/lube/xmlfile.cpp
index c2bb25e..9927fdf 100644
--- a/lube/xmlfile.cpp
+++ b/lube/xmlfile.cpp
@@ -252,6 +252,9 @@ void XMLWriter::write(const char* iFile, var iVar)
     if (!writeElem(os, iVar))
         throw error("xmlwriter::write(): Top level not element");
     os << std::endl;
+    os.close();
+    if (os.fail())
+        throw error("xmlwriter::write(): Write failed");
 }
 
 bool XMLWriter::writeElem(std::ofstream& iOS, var iVar)
-- 
2.43.0


From dcf7154a1eac68f96265a804336b80f886cde511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:12 +0000
Subject: [PATCH 40/84] fix: unreadable and truncated GEDCOM files throw

---
 lube/gedfile.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lube/gedfile.cpp b/lube/gedfile.cpp
index 4619192..8bf51df 100644
--- a/lube/gedfile.cpp
+++ b/lube/gedfile.cpp
@@ -159,7 +159,7 @@ int GEDCOM::readLine()
     if (line.getline(mInStream))
         mField = line.split(" ");
     else
-        std::cout << "Premature end of file" << std::endl;
+        throw error("GEDCOM::readLine(): Premature end of file");
         
     int level = mField.shift().cast<int>();
     //std::cout << "[" << level << "]" << mField << std::endl;
@@ -170,7 +170,7 @@ var GEDCOM::loadFile(var iFileName)
 {
     mInStream.open(iFileName.str());
     if (mInStream.fail())
-        std::cout << "Open failed" << std::endl;
+        throw error("GEDCOM::loadFile(): Open failed");
     doFile(readLine());
     mInStream.close();
     return mVar;
-- 
2.43.0


From 9dbdccf3c0431fdf0d4e3bde227d5bb79883f7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:12 +0000
Subject: [PATCH 41/84] fix: writing a GEDCOM file throws rather than doing
 nothing

---
 lube/gedfile.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lube/gedfile.cpp b/lube/gedfile.cpp
index 8bf51df..714b025 100644
--- a/lube/gedfile.cpp
+++ b/lube/gedfile.cpp
@@ -436,4 +436,5 @@ var GEDCOM::read(var iFile)
 
 void GEDCOM::write(var iFile, var iVar)
 {
+    throw error("GEDCOM::write(): Write not defined");
 }
-- 
2.43.0


From f47b2c292b98a63ec9a1f37dbab2b068d9f8b9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:12 +0000
Subject: [PATCH 42/84] fix: ini file values can contain separators

---
 lube/inifile.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lube/inifile.cpp b/lube/inifile.cpp
index 15ef989..7d11e90 100644
--- a/lube/inifile.cpp
+++ b/lube/inifile.cpp
@@ -58,9 +58,9 @@ var inifile::read(var iFile)
         else
         {
             // It's a 'key [=:] value' line
-            var kv = f.split("=");
+            var kv = f.split("=", 2);
             if (kv.size() < 2)
-                kv = f.split(":");
+                kv = f.split(":", 2);
             if (kv.size() < 2)
                 throw error("inifile::read(): couldn't split");
             kv[0].strip();
-- 
2.43.0


From 15b9048a869ff87c7fb88db355bb00bb82260c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:12 +0000
Subject: [PATCH 43/84] fix: sound files are read and written in frames

---
 lube/sndfile.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/lube/sndfile.cpp b/lube/sndfile.cpp
index 38ca37b..8cd35e2 100644
--- a/lube/sndfile.cpp
+++ b/lube/sndfile.cpp
@@ -51,13 +51,13 @@ var sndfile::read(var iFile)
     int size = sfInfo.frames * sfInfo.channels;
     var data = 0.0f;
     data.resize(size);
-    int nGot = sf_readf_float(snd, data.ptr<float>(), size);
-    if (nGot != size)
+    sf_count_t nGot = sf_readf_float(snd, data.ptr<float>(), sfInfo.frames);
+    sf_close(snd);
+    if (nGot != sfInfo.frames)
         throw error("sndfile::read: Size fuckup");
     if (sfInfo.channels != 1)
         // In place transpose for channels > 1
         data = data.view({(int)sfInfo.frames, sfInfo.channels}).transpose();
-    sf_close(snd);
     return data;
 }
 
@@ -73,15 +73,16 @@ void sndfile::write(var iFile, var iVar)
         throw error("sndfile::write: Failed to open file");
 
     // Write stuff
-    int n;
+    sf_count_t n;
+    sf_count_t frames = iVar.size() / sfInfo.channels;
     if (iVar.dim() > 1)
     {
         var tr = transpose(iVar);
-        n = (int)sf_writef_float(snd, tr.ptr<float>(), tr.size());
+        n = sf_writef_float(snd, tr.ptr<float>(), frames);
     }
     else
-        n = (int)sf_writef_float(snd, iVar.ptr<float>(), iVar.size());
+        n = sf_writef_float(snd, iVar.ptr<float>(), frames);
     sf_close(snd);
-    if (iVar.size() != n)
+    if (frames != n)
         throw error("sndfile::write: Size fuckup");
 }
-- 
2.43.0


From 0f829a5404794587dc05e95911b2d9116f6a4dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:12 +0000
Subject: [PATCH 44/84] fix: writing a sound file requires floats

---
 lube/sndfile.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lube/sndfile.cpp b/lube/sndfile.cpp
index 8cd35e2..6f68ade 100644
--- a/lube/sndfile.cpp
+++ b/lube/sndfile.cpp
@@ -63,6 +63,9 @@ var sndfile::read(var iFile)
 
 void sndfile::write(var iFile, var iVar)
 {
+    if (!iVar.atype<float>())
+        throw error("sndfile::write: Not a float array");
+
     // Open the file
     SF_INFO sfInfo;
     sfInfo.format = SF_FORMAT_WAV | SF_FORMAT_PCM_16 | SF_ENDIAN_FILE;
-- 
2.43.0


From cc49afae06381e0c9e69f91a08007a7315c767c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:05 +0000
Subject: [PATCH 45/84] fix: a DFT that cannot be set up releases its
 descriptor

---
 lube/dft-mkl.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lube/dft-mkl.cpp b/lube/dft-mkl.cpp
index 2feb0d4..70e820c 100644
--- a/lube/dft-mkl.cpp
+++ b/lube/dft-mkl.cpp
@@ -8,6 +8,7 @@
  */
 
 #include <cassert>
+#include <memory>
 #include <mkl_dfti.h>
 
 #include "lube/dft.h"
@@ -23,6 +24,8 @@ struct libube::DFTImpl
     var inverseType;
     int oSize;
     bool inverse;
+    DFTImpl() : handle(0) {}
+    ~DFTImpl() { if (handle) DftiFreeDescriptor(&handle); }
 };
 
 
@@ -46,7 +49,9 @@ void dftiCheck(MKL_LONG iReturn)
  */
 DFTBase::DFTBase(int iSize, bool iInverse, var iForwardType)
 {
-    mImpl = new DFTImpl;
+    // If anything throws then the implementation is deleted
+    std::unique_ptr<DFTImpl> impl(new DFTImpl);
+    mImpl = impl.get();
 
     // It's a 1 dimensional thing (for now)
     mDim = 1;
@@ -97,12 +102,11 @@ DFTBase::DFTBase(int iSize, bool iInverse, var iForwardType)
 
     r = DftiCommitDescriptor(mImpl->handle);
     dftiCheck(r);
+    impl.release();
 }
 
 DFTBase::~DFTBase()
 {
-    MKL_LONG r = DftiFreeDescriptor(&mImpl->handle);
-    dftiCheck(r);
     delete mImpl;
     mImpl = 0;
 }
-- 
2.43.0


From 590c26c5040ed96755174d19b2ae5e9b04c4fb16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:05 +0000
Subject: [PATCH 46/84] fix: DFT of double and complex types compares element
 types

---
 lube/dft-mkl.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/lube/dft-mkl.cpp b/lube/dft-mkl.cpp
index 70e820c..a48c155 100644
--- a/lube/dft-mkl.cpp
+++ b/lube/dft-mkl.cpp
@@ -61,7 +61,7 @@ DFTBase::DFTBase(int iSize, bool iInverse, var iForwardType)
 
     // Set the input and output types for a forward transform
     MKL_LONG r;
-    switch (mImpl->forwardType.type())
+    switch (mImpl->forwardType.atype())
     {
     case TYPE_FLOAT:
         mImpl->inverseType = cfloat(0.0f, 0.0f);
@@ -129,13 +129,13 @@ void DFTBase::scalar(const var& iVar, var& oVar) const
     if (oVar.type() != TYPE_ARRAY)
         throw error("DFTBase::scalar: DFTBase output must be vector");
     if (iVar.atype() != (mImpl->inverse
-                         ? mImpl->inverseType.type()
-                         : mImpl->forwardType.type()
+                         ? mImpl->inverseType.atype()
+                         : mImpl->forwardType.atype()
         ))
         throw error("DFTBase::scalar: wrong input type");
     if (oVar.atype() != (mImpl->inverse
-                          ? mImpl->forwardType.type()
-                          : mImpl->inverseType.type()
+                          ? mImpl->forwardType.atype()
+                          : mImpl->inverseType.atype()
         ))
         throw error("DFTBase::scalar: wrong output type");
 
@@ -161,7 +161,7 @@ void DFTBase::vector(var iVar, ind iOffsetI, var& oVar, ind iOffsetO) const
     }
     else
         if (mImpl->inverse)
-            switch (mImpl->forwardType.type())
+            switch (mImpl->forwardType.atype())
             {
             case TYPE_FLOAT:
                 r = DftiComputeBackward(
@@ -195,7 +195,7 @@ void DFTBase::vector(var iVar, ind iOffsetI, var& oVar, ind iOffsetO) const
                 throw error("DFTBase::vector(): unknown type");
             }
         else
-            switch (mImpl->forwardType.type())
+            switch (mImpl->forwardType.atype())
             {
             case TYPE_FLOAT:
                 r = DftiComputeForward(
-- 
2.43.0


From de124a1b50a39f50999741d536588c89ed169de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:05 +0000
Subject: [PATCH 47/84] fix: DFT checks the size of the arrays

---
 lube/dft-mkl.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lube/dft-mkl.cpp b/lube/dft-mkl.cpp
index a48c155..01ed4ff 100644
--- a/lube/dft-mkl.cpp
+++ b/lube/dft-mkl.cpp
@@ -22,6 +22,7 @@ struct libube::DFTImpl
     DFTI_DESCRIPTOR_HANDLE handle;
     var forwardType;
     var inverseType;
+    int iSize;
     int oSize;
     bool inverse;
     DFTImpl() : handle(0) {}
@@ -96,6 +97,11 @@ DFTBase::DFTBase(int iSize, bool iInverse, var iForwardType)
     }
     dftiCheck(r);
 
+    // The size of the input; only real transforms change size
+    mImpl->iSize = iInverse && (mImpl->forwardType.atype<float>()
+                                || mImpl->forwardType.atype<double>())
+        ? iSize / 2 + 1 : iSize;
+
     // Default is to overwrite the input
     r = DftiSetValue(mImpl->handle, DFTI_PLACEMENT, DFTI_NOT_INPLACE);
     dftiCheck(r);
@@ -138,6 +144,10 @@ void DFTBase::scalar(const var& iVar, var& oVar) const
                           : mImpl->inverseType.atype()
         ))
         throw error("DFTBase::scalar: wrong output type");
+    if (iVar.shape(-1) != mImpl->iSize)
+        throw error("DFTBase::scalar: wrong input size");
+    if (oVar.shape(-1) != mImpl->oSize)
+        throw error("DFTBase::scalar: wrong output size");
 
     // DFTBase always broadcasts to vector()
     broadcast(iVar, oVar);
-- 
2.43.0


From 136cc29083cf5a843b55e8d961973be6fb527f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:33 +0000
Subject: [PATCH 48/84] fix: objects that own a handle cannot be copied

---
 lube/curl.cpp    | 2 ++
 lube/dft.h       | 2 ++
 lube/gnuplot.cpp | 2 ++
 lube/module.h    | 2 ++
 lube/regex.h     | 2 ++
 lube/xmlfile.cpp | 2 ++
 6 files changed, 12 insertions(+)

diff --git a/lube/curl.cpp b/lube/curl.cpp
index 4f5a9a7..0d7905d 100644
--- a/lube/curl.cpp
+++ b/lube/curl.cpp
@@ -39,6 +39,8 @@ namespace libube
     {
     public:
         Easy(var iURL);
+        Easy(const Easy&) = delete;
+        Easy& operator =(const Easy&) = delete;
         ~Easy();
         var perform();
         size_t writeCallback(char* iPtr, size_t iSize, size_t iNMemb);
diff --git a/lube/dft.h b/lube/dft.h
index 45864e9..762b69f 100644
--- a/lube/dft.h
+++ b/lube/dft.h
@@ -31,6 +31,8 @@ namespace libube
     {
     public:
         DFTBase(int iSize, bool iInverse, var iForwardType);
+        DFTBase(const DFTBase&) = delete;
+        DFTBase& operator =(const DFTBase&) = delete;
         ~DFTBase();
     protected:
         var alloc(var iVar) const;
diff --git a/lube/gnuplot.cpp b/lube/gnuplot.cpp
index 303b06e..5409016 100644
--- a/lube/gnuplot.cpp
+++ b/lube/gnuplot.cpp
@@ -18,6 +18,8 @@ namespace libube
     {
     public:
         gnuplot();
+        gnuplot(const gnuplot&) = delete;
+        gnuplot& operator =(const gnuplot&) = delete;
         ~gnuplot();
         void puts(const char* iStr);
         virtual var read(var iFile);
diff --git a/lube/module.h b/lube/module.h
index 2a391ed..f93d235 100644
--- a/lube/module.h
+++ b/lube/module.h
@@ -45,6 +45,8 @@ namespace libube
     {
     public:
         module(var iType);
+        module(const module&) = delete;
+        module& operator =(const module&) = delete;
         virtual ~module();
         virtual Module& create(var iArg=nil);
     protected:
diff --git a/lube/regex.h b/lube/regex.h
index b533e0a..d2e8002 100644
--- a/lube/regex.h
+++ b/lube/regex.h
@@ -23,6 +23,8 @@ namespace libube
     {
     public:
         RegExFunctor(var iRE);
+        RegExFunctor(const RegExFunctor&) = delete;
+        RegExFunctor& operator =(const RegExFunctor&) = delete;
         virtual ~RegExFunctor();
     protected:
         void* mRE;
diff --git a/lube/xmlfile.cpp b/lube/xmlfile.cpp
index 9927fdf..000486f 100644
--- a/lube/xmlfile.cpp
+++ b/lube/xmlfile.cpp
@@ -35,6 +35,8 @@ namespace libube
     {
     public:
         Expat();
+        Expat(const Expat&) = delete;
+        Expat& operator =(const Expat&) = delete;
         ~Expat();
         var parse(const char* iFile);
         void startElementHandler(const XML_Char *iName, const XML_Char **iAtts);
-- 
2.43.0


From 23b7391f149eff889933fc179d3581c690be002a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:33 +0000
Subject: [PATCH 49/84] fix: a library without a factory is closed

---
 lube/module.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lube/module.cpp b/lube/module.cpp
index de518bd..7412751 100644
--- a/lube/module.cpp
+++ b/lube/module.cpp
@@ -35,7 +35,11 @@ module::module(var iType)
     // Find the factory function
     *(void **)(&mFactory) = dlsym(mHandle, "factory");
     if ((dle = dlerror()) != NULL)
-        throw error(dle);
+    {
+        var e = dle;
+        dlclose(mHandle);
+        throw error(e);
+    }
 }
 
 
-- 
2.43.0


From cb844b5ad7b0b6c19e531dc845e2321ddd838ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:33 +0000
Subject: [PATCH 50/84] fix: an option without an argument can be repeated

---
 lube/config.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lube/config.cpp b/lube/config.cpp
index 18ac363..8382146 100644
--- a/lube/config.cpp
+++ b/lube/config.cpp
@@ -97,7 +97,7 @@ var Option::parse(int iArgc, char** iArgv)
         var o = (char)get();
         if (o == '?')
             usage(0);
-        var a = mOpts[o] ? arg() : 1;
+        var a = optarg ? arg() : 1;
         mOpts[o] = a;
     }
     return mOpts;
-- 
2.43.0


From 45efa8deb7fdeb5c71e6605e4a046d1cd38208c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:33 +0000
Subject: [PATCH 51/84] fix: path tree does not follow symbolic links

---
 lube/path.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lube/path.cpp b/lube/path.cpp
index 089d4b2..c07e093 100644
--- a/lube/path.cpp
+++ b/lube/path.cpp
@@ -99,7 +99,7 @@ var Path::tree(std::filesystem::path iPath)
     var dir;
     fs::directory_iterator end;
     for (fs::directory_iterator it(iPath); it != end; it++)
-        if (fs::is_directory(*it))
+        if (fs::is_directory(*it) && !fs::is_symlink(*it))
             dir[it->path().filename().string().c_str()] = tree(*it);
         else
             dir[it->path().filename().string().c_str()] = nil;
-- 
2.43.0


From ca7a587a2edd50d26693bc13a6e82965b29852c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:33 +0000
Subject: [PATCH 52/84] fix: initialise the values returned by lapack

---
 lube/clapack.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lube/clapack.cpp b/lube/clapack.cpp
index a69a0f1..81d66e6 100644
--- a/lube/clapack.cpp
+++ b/lube/clapack.cpp
@@ -239,8 +239,8 @@ namespace lapack
         long n, float* a, float* wr, float* wi, float* vs
     )
     {
-        long sdim;
-        long info;
+        long sdim = 0;
+        long info = 0;
         long lwork = std::max(1L,n*3);
         float work[lwork];
         sgees_(
@@ -258,7 +258,7 @@ namespace lapack
         long n, float* a, float* wr, float* wi, float* vl, float* vr
     )
     {
-        long info;
+        long info = 0;
         long lwork = std::max(1L,n*4);
         float work[lwork];
         sgeev_(
@@ -277,7 +277,7 @@ namespace lapack
         long n, double* a, double* wr, double* wi, double* vl, double* vr
     )
     {
-        long info;
+        long info = 0;
         long lwork = std::max(1L,n*4);
         double work[lwork];
         dgeev_(
-- 
2.43.0


From f1653fe816c26c183a188f3eb238a25ebca6e192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:48 +0000
Subject: [PATCH 53/84] fix: roots throws when the eigenvalues are not found

---
 lube/math.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lube/math.cpp b/lube/math.cpp
index 7d6cf08..ec063e8 100644
--- a/lube/math.cpp
+++ b/lube/math.cpp
@@ -1109,12 +1109,13 @@ void Roots::vector(var iVar, var& oVar) const
 
     // Find the eigenvalues of the matrix
     var re, im;
+    long info = 0;
     switch (iVar.atype())
     {
     case TYPE_FLOAT:
         re = var(size, 1.0f);
         im = var(size, 1.0f);
-        lapack::geev(
+        info = lapack::geev(
             size,
             a.ptr<float>(),
             re.ptr<float>(), im.ptr<float>()
@@ -1123,7 +1124,7 @@ void Roots::vector(var iVar, var& oVar) const
     case TYPE_DOUBLE:
         re = var(size, 1.0);
         im = var(size, 1.0);
-        lapack::geev(
+        info = lapack::geev(
             size,
             a.ptr<double>(),
             re.ptr<double>(), im.ptr<double>()
@@ -1155,6 +1156,9 @@ void Roots::vector(var iVar, var& oVar) const
         throw error("Unknown type");
     }
 
+    if (info != 0)
+        throw error("Roots::vector: eigenvalues not found");
+
     // Convert (re,im) into complex
     switch (iVar.atype())
     {
-- 
2.43.0


From bbfa01f8272223084369d0b0755e8dc69fab599a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:48 +0000
Subject: [PATCH 54/84] fix: negative dimensions of a view are out of bounds

---
 lube/view.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lube/view.cpp b/lube/view.cpp
index b448b17..fc5833c 100644
--- a/lube/view.cpp
+++ b/lube/view.cpp
@@ -171,7 +171,7 @@ var& View::key(int iIndex)
 int& View::shape(int iDim) const
 {
     int index = iDim*2 + 1;
-    if ((index < 0) || (index >= mSize))
+    if ((index < 1) || (index >= mSize))
         throw std::range_error("View::shape(): dimension out of bounds");
     return mData.ip[index];
 }
@@ -180,7 +180,7 @@ int& View::shape(int iDim) const
 int& View::stride(int iDim) const
 {
     int index = iDim*2 + 2;
-    if ((index < 0) || (index >= mSize))
+    if ((index < 2) || (index >= mSize))
         throw std::range_error("View::stride(): dimension out of bounds");
     return mData.ip[index];
 }
-- 
2.43.0


From 4270eb603f4fffc049f63ceeee7a55d1acadff37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:34 +0000
Subject: [PATCH 55/84] fix: binary broadcast, as used by swap, checks that the
 shapes match

---
 lube/func.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lube/func.cpp b/lube/func.cpp
index 365ce70..f35c69a 100644
--- a/lube/func.cpp
+++ b/lube/func.cpp
@@ -234,6 +234,11 @@ void BinaryFunctor::broadcast(var iVar1, var iVar2, var& oVar) const
 
     // Find the common dimension.
     int dim1 = iVar1.dim();
+    if (iVar2.dim() != dim1)
+        throw error("var::broadcast: dimension mismatch");
+    for (int i=0; i<dim1; i++)
+        if (iVar1.shape(i) != iVar2.shape(i))
+            throw error("var::broadcast: dimension mismatch");
     int cdim = dim1 - mDim;
     if (cdim < 0)
         throw error("var::broadcast: input dimension too small");
-- 
2.43.0


From d484c1f23b7b32e901a31a65a4bccc3ca273e3e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:12 +0000
Subject: [PATCH 56/84] fix: a scalar keeps its value when it cannot become an
 array

---
 lube/var.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lube/var.cpp b/lube/var.cpp
index 9a96d8c..eb8fec4 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -911,8 +911,9 @@ var& var::array()
     if (!v.heap())
     {
         var tmp = v;
+        IHeap* h = new Heap(1, tmp.mType);
         v.mType = TYPE_ARRAY;
-        v.attach(new Heap(1, tmp.mType));
+        v.attach(h);
         v.at(0) = tmp;
     }
     return *this;
@@ -939,8 +940,9 @@ var& var::resize(int iSize)
             else
             {
                 var tmp = v;
+                IHeap* h = new Heap(iSize, tmp.mType);
                 v.mType = TYPE_ARRAY;
-                v.attach(new Heap(iSize, tmp.mType));
+                v.attach(h);
                 v.at(0) = tmp;
             }
         }
-- 
2.43.0


From b4193a6e3f4bb4f6b8e3420425a83af80cef3915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:37 +0000
Subject: [PATCH 57/84] fix: the storage of a view that does not fit is
 released

---
 lube/heap.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/lube/heap.cpp b/lube/heap.cpp
index c5527ae..9d5a6fd 100644
--- a/lube/heap.cpp
+++ b/lube/heap.cpp
@@ -52,12 +52,14 @@ Heap::Heap()
  * Destructor
  *
  * The dtor should be called when the reference count hits zero.  So
- * the refcount should already be zero here.  The memory will have
- * been freed by the dealloc().
+ * the refcount should already be zero here.  The memory is freed here
+ * rather than in detach() so that it also happens when a constructor
+ * that delegates throws, as it does for a view that does not fit.
  */
 Heap::~Heap()
 {
     assert(!mRefCount);
+    dealloc(mData);
 }
 
 
@@ -217,10 +219,7 @@ int Heap::detach()
     assert(mRefCount > 0);
     int count = --mRefCount;
     if (count == 0)
-    {
-        dealloc(mData);
         delete this;
-    }
     return count;
 }
 
-- 
2.43.0


From 5c5221ad5ac75f813fcb56e981a2814881f92748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:37 +0000
Subject: [PATCH 58/84] fix: backTrace releases its buffers and copes with odd
 symbols

---
 lube/var.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/lube/var.cpp b/lube/var.cpp
index eb8fec4..59689b4 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -1576,6 +1576,8 @@ void error::backTrace(std::ostream& iStream)
         // We want to demangle the function name
         char* paren1 = strchr(symbol[i], '(');
         char* paren2 = strchr(symbol[i], ')');
+        if (!paren1 || !paren2)
+            continue;
         *paren1 = '\0';
         // Just the file, not very helpful
         //iStream << "\n  " << symbol[i] << ":\n    ";
@@ -1583,11 +1585,15 @@ void error::backTrace(std::ostream& iStream)
         {
             // It's an empty name
             iStream << "(undefined)";
-            return;
+            break;
         }
         char* plus = strchr(paren1+1, '+');
-        *plus = '\0';
-        buffer = abi::__cxa_demangle(paren1+1, buffer, &length, &status);
+        if (plus)
+            *plus = '\0';
+        // The buffer remains ours if it can't be demangled
+        char* name = abi::__cxa_demangle(paren1+1, buffer, &length, &status);
+        if (name)
+            buffer = name;
         iStream << "\n  ";  // Indent
         switch (status)
         {
-- 
2.43.0


From 673cb3d4f97ac01f12c5306ef4773abe3357d34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:36 +0000
Subject: [PATCH 59/84] fix: a view that cannot be allocated does not hold on
 to its array

---
 lube/view.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lube/view.cpp b/lube/view.cpp
index fc5833c..dfdc209 100644
--- a/lube/view.cpp
+++ b/lube/view.cpp
@@ -39,12 +39,14 @@ View::View(IHeap* iHeap) : Heap()
 {
     // If we're given a view, bypass it to get to the underlying heap
     mHeap = iHeap->view() ? iHeap->view() : reinterpret_cast<Heap*>(iHeap);
-    mHeap->attach();
 
     // Initialise the offset with the old one if it was a view
     mType = TYPE_INT;
     Heap::resize(1);
     mData.ip[0] = iHeap->view() ? iHeap->offset() : 0;
+
+    // Attach last; the d'tor will not run if the above throws
+    mHeap->attach();
 }
 
 
-- 
2.43.0


From 0d4c31e3d6b2d4955390b067311ca00eabd862b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:33 +0000
Subject: [PATCH 60/84] fix: an array can be inserted into itself

---
 lube/var.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/lube/var.cpp b/lube/var.cpp
index 59689b4..6ae82e9 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -1139,11 +1139,15 @@ var& var::insert(var iVar, int iIndex)
     }
     else
     {
-        // It's a fundamental type, insert the whole array
-        resize(size()+iVar.size());
-        for (int i=size()-1; i>iIndex+iVar.size()-1; i--)
-            at(i) = at(i-iVar.size());
-        for (int i=0; i<iVar.size(); i++)
+        // It's a fundamental type, insert the whole array.  It may be this
+        // one, in which case it would change underneath us.
+        if (iVar.is(*this))
+            iVar = iVar.copy();
+        int n = iVar.size();
+        resize(size()+n);
+        for (int i=size()-1; i>iIndex+n-1; i--)
+            at(i) = at(i-n);
+        for (int i=0; i<n; i++)
             at(iIndex+i) = iVar[i];
     }
 
-- 
2.43.0


From 87423bab8f2320b52a4e0a2ed3bd775590354107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:48 +0000
Subject: [PATCH 61/84] fix: casts to and from cdouble convert the value

---
 lube/var.cpp | 64 +++++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 53 insertions(+), 11 deletions(-)

diff --git a/lube/var.cpp b/lube/var.cpp
index 6ae82e9..d15b989 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -126,26 +126,42 @@ namespace libube
     }
 
 
+    /*
+     * The result of a cast is an array if the input is one, in which case there
+     * is only a value to return if it has one element.  The scalar cdouble is
+     * always like that.
+     */
+    template <class T>
+    static T castValue(const Cast<T>& iCast, const var& iVar)
+    {
+        var v = iCast(iVar);
+        if (!v.heap())
+            return v.get<T>();
+        if (!v.atype<T>() || v.size() != 1)
+            throw error("var::cast(): Cannot cast an array");
+        return v.at(0).get<T>();
+    }
+
     template<> char var::cast<char>() const {
-        return castChar(*this).get<char>();
+        return castValue(castChar, *this);
     }
     template<> int var::cast<int>() const {
-        return castInt(*this).get<int>();
+        return castValue(castInt, *this);
     }
     template<> long var::cast<long>() const {
-        return castLong(*this).get<long>();
+        return castValue(castLong, *this);
     }
     template<> float var::cast<float>() const {
-        return castFloat(*this).get<float>();
+        return castValue(castFloat, *this);
     }
     template<> double var::cast<double>() const {
-        return castDouble(*this).get<double>();
+        return castValue(castDouble, *this);
     }
     template<> cfloat var::cast<cfloat>() const {
-        return castCFloat(*this).get<cfloat>();
+        return castValue(castCFloat, *this);
     }
     template<> cdouble var::cast<cdouble>() const {
-        return castCDouble(*this).get<cdouble>();
+        return castValue(castCDouble, *this);
     }
 }
 
@@ -650,13 +666,35 @@ ind var::atype() const
 }
 
 
+/*
+ * A complex value keeps its imaginary part if the result has one
+ */
+template <class T>
+static T fromComplex(const cdouble& iC)
+{
+    return static_cast<T>(iC.real());
+}
+
+template <>
+cfloat fromComplex<cfloat>(const cdouble& iC)
+{
+    return cfloat(iC);
+}
+
+template <>
+cdouble fromComplex<cdouble>(const cdouble& iC)
+{
+    return iC;
+}
+
+
 template <class T>
 void Cast<T>::scalar(const var& iVar, var& oVar) const
 {
     // Return immediately if no cast is required
     const T t = 0;
     static var v = t;
-    if (v.type() == iVar.type())
+    if (v.type() == iVar.type() && v.atype() == iVar.atype())
     {
         if (!iVar.is(oVar))
             oVar = iVar;
@@ -678,7 +716,11 @@ void Cast<T>::scalar(const var& iVar, var& oVar) const
     switch (iVar.type())
     {
     case TYPE_ARRAY:
-        broadcast(iVar, oVar);
+        if (iVar.dim() == 1 && iVar.size() == 1 && iVar.atype<cdouble>())
+            // A scalar that happens to be too big for a var
+            oVar = fromComplex<T>(iVar.get<cdouble>());
+        else
+            broadcast(iVar, oVar);
         break;
     case TYPE_CHAR:
         oVar = static_cast<T>(iVar.get<char>());
@@ -696,10 +738,10 @@ void Cast<T>::scalar(const var& iVar, var& oVar) const
         oVar = static_cast<T>(iVar.get<double>());
         break;
     case TYPE_CFLOAT:
-        oVar = static_cast<T>(iVar.get<cfloat>().real());
+        oVar = fromComplex<T>(iVar.get<cfloat>());
         break;
     case TYPE_CDOUBLE:
-        oVar = static_cast<T>(iVar.get<cdouble>().real());
+        oVar = fromComplex<T>(iVar.get<cdouble>());
         break;
     default:
         throw error("Cast::operator(): Unknown type");
-- 
2.43.0


From ec186b09bc29935502d4073c915efc494858552e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:10 +0000
Subject: [PATCH 62/84] fix: the cast of an array has the type of the cast

---
 lube/var.cpp | 16 ++++++++++++++++
 lube/var.h   |  7 ++++++-
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/lube/var.cpp b/lube/var.cpp
index d15b989..6d7d025 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -688,6 +688,22 @@ cdouble fromComplex<cdouble>(const cdouble& iC)
 }
 
 
+/**
+ * Allocator where the output is the same shape but of the type of the cast
+ */
+template <class T>
+var Cast<T>::alloc(var iVar) const
+{
+    // Strings become scalars, and vars can hold anything
+    if (!iVar.heap() || iVar.atype() >= TYPE_VAR || iVar.atype<char>())
+        return iVar.copy(true);
+    var r = T(0);
+    if (iVar.dim() > 1)
+        return libube::view(iVar.shape(), r);
+    return r.resize(iVar.size());
+}
+
+
 template <class T>
 void Cast<T>::scalar(const var& iVar, var& oVar) const
 {
diff --git a/lube/var.h b/lube/var.h
index 5b32b29..064a84d 100644
--- a/lube/var.h
+++ b/lube/var.h
@@ -46,7 +46,12 @@ namespace libube
 
     // Casting functors
     template <class T>
-    BASIC_UNARY_FUNCTOR_DECL(Cast)
+    class Cast : public UnaryFunctor
+    {
+    protected:
+        var alloc(var iVar) const;
+        void scalar(const var& iVar, var& oVar) const;
+    };
     extern Cast<char> castChar;
     extern Cast<int> castInt;
     extern Cast<long> castLong;
-- 
2.43.0


From 63d7613f11c37938d812f14ae7bfcb58be7e8164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:48 +0000
Subject: [PATCH 63/84] fix: a new view does not resize the value that gives
 its type

---
 lube/var.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lube/var.cpp b/lube/var.cpp
index 6d7d025..9dcd193 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -1461,7 +1461,8 @@ var libube::view(const std::initializer_list<int> iShape, var iType)
     int s = 1;
     for (const int* it=begin(iShape); it!=end(iShape); ++it)
         s *= *it;
-    var v = iType ? iType : 0.0f;
+    // The array is a new one, even if the type is given by an array
+    var v = iType ? iType.copy() : var(0.0f);
     v.array();
     v.resize(s);
     return v.view(iShape);
@@ -1477,7 +1478,8 @@ var libube::view(var iShape, var iType)
     int s = 1;
     for (int i=0; i<iShape.size(); i++)
         s *= iShape[i].cast<int>();
-    var v = iType ? iType : 0.0f;
+    // The array is a new one, even if the type is given by an array
+    var v = iType ? iType.copy() : var(0.0f);
     v.array();
     v.resize(s);
     return v.view(iShape);
-- 
2.43.0


From feaa6e7c2e31d17f85984f4dda477f794ef0e660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:52 +0000
Subject: [PATCH 64/84] fix: a single value can be popped, shifted or removed

---
 lube/var.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/lube/var.cpp b/lube/var.cpp
index 9dcd193..3e04b54 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -987,7 +987,7 @@ var& var::resize(int iSize)
     if (!v.heap())
     {
         // Not allocated
-        if (((v.type() != TYPE_ARRAY) && (iSize > 1)) ||
+        if (((v.type() != TYPE_ARRAY) && (iSize != 1)) ||
             (v.type() == TYPE_ARRAY) )
         {
             // Need to allocate
@@ -1001,7 +1001,8 @@ var& var::resize(int iSize)
                 IHeap* h = new Heap(iSize, tmp.mType);
                 v.mType = TYPE_ARRAY;
                 v.attach(h);
-                v.at(0) = tmp;
+                if (iSize > 0)
+                    v.at(0) = tmp;
             }
         }
     }
@@ -1232,10 +1233,11 @@ var var::remove(int iIndex)
 
 var var::shift()
 {
-    if (heap())
-        return heap()->shift();
-    else
+    if (!defined())
         return *this;
+    if (!heap())
+        array();
+    return heap()->shift();
 }
 
 
-- 
2.43.0


From 1c8626d38d749a085bf377c16e6600f21bfcd132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:56 +0000
Subject: [PATCH 65/84] fix: presize does not discard elements

---
 lube/var.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lube/var.cpp b/lube/var.cpp
index 3e04b54..579d35e 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -1306,8 +1306,11 @@ var& var::presize(int iSize)
 {
     // There is no doubt a more efficient way
     int s = size();
-    resize(iSize);
-    resize(s);
+    if (iSize > s)
+    {
+        resize(iSize);
+        resize(s);
+    }
     return *this;
 }
 
-- 
2.43.0


From c1d70cf46811112c1e5e8664f7b963f914563600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:59 +0000
Subject: [PATCH 66/84] fix: a failed removal from a view does not move its
 elements

---
 lube/var.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lube/var.cpp b/lube/var.cpp
index 579d35e..8a41de0 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -1218,6 +1218,8 @@ var var::remove(int iIndex)
 {
     if ((iIndex < 0) || (iIndex > size()-1))
         throw std::range_error("remove(): index out of range");
+    if (view())
+        throw error("remove(): can't remove from a view");
 
     var r = at(iIndex).copy();
     for (int i=iIndex+1; i<size(); i++)
-- 
2.43.0


From 5bbf80c0f3374f3fece528626f3ea6471c64ff65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:09 +0000
Subject: [PATCH 67/84] fix: presize of an undefined value makes it an empty
 array still

---
 lube/var.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lube/var.cpp b/lube/var.cpp
index 8a41de0..be54714 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -1308,7 +1308,7 @@ var& var::presize(int iSize)
 {
     // There is no doubt a more efficient way
     int s = size();
-    if (iSize > s)
+    if (iSize >= s)
     {
         resize(iSize);
         resize(s);
-- 
2.43.0


From 597eca8918d901ded526c9c073a18160555c8f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:59 +0000
Subject: [PATCH 68/84] fix: an element inserted into its own array keeps its
 value

---
 lube/var.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lube/var.cpp b/lube/var.cpp
index be54714..79c8689 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -1176,6 +1176,9 @@ var& var::insert(var iVar, int iIndex)
     if ((iIndex < 0) || (iIndex > size()))
         throw std::range_error("insert(): index out of range");
 
+    // It may be an element of this array, which is about to move
+    iVar.dereference();
+
     if (heap() && atype<var>())
     {
         // Implies array; insert a single var
@@ -1253,6 +1256,9 @@ var& var::unshift(var iVar)
 
     if (!heap())
         array();
+
+    // It may be an element of this array, which is about to move
+    iVar.dereference();
     heap()->unshift(iVar);
     return *this;
 }
-- 
2.43.0


From 6c8842a00434a055e40a5c4ac30bc22f127d2096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:02 +0000
Subject: [PATCH 69/84] fix: a refused unshift of a pair leaves the map as it
 was

---
 lube/heap.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lube/heap.cpp b/lube/heap.cpp
index 9d5a6fd..de14fb7 100644
--- a/lube/heap.cpp
+++ b/lube/heap.cpp
@@ -567,6 +567,8 @@ var Heap::shift()
  */
 void Heap::unshift(var iVar)
 {
+    if (mType == TYPE_PAIR)
+        throw error("Heap::unshift(): Can't unshift a pair");
     resize(mSize+1);
     switch (mType)
     {
@@ -603,8 +605,6 @@ void Heap::unshift(var iVar)
         new (&mData.vp[0]) var();
         mData.vp[0] = iVar;
         break;
-    case TYPE_PAIR:
-        throw error("Heap::unshift(): Can't unshift a pair");
     default:
         throw error("Heap::unshift(): Unknown type");
     }
-- 
2.43.0


From 38eee29cd74d5e8a9f1cd219b2f2b01091443c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:25 +0000
Subject: [PATCH 70/84] fix: maps are compared by key and value, and differ
 from arrays

---
 lube/heap.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/lube/heap.cpp b/lube/heap.cpp
index de14fb7..4e57770 100644
--- a/lube/heap.cpp
+++ b/lube/heap.cpp
@@ -466,7 +466,10 @@ var& Heap::key(int iIndex)
 
 bool Heap::neq(IHeap* iHeap)
 {
-    if (type() == TYPE_PAIR && iHeap->type() == TYPE_PAIR)
+    bool pairs = (type() == TYPE_PAIR);
+    if (pairs != (iHeap->type() == TYPE_PAIR))
+        return true;
+    if (pairs)
         for (int i=0; i<size(); i++)
             if (key(i) != iHeap->key(i))
                 return true;
@@ -485,8 +488,15 @@ bool Heap::lt(IHeap* iHeap)
         int c = std::memcmp(ptrchar(), iHeap->ptrchar(), n);
         return c ? c < 0 : size() < iHeap->size();
     }
+    bool pairs = (type() == TYPE_PAIR);
+    if (pairs != (iHeap->type() == TYPE_PAIR))
+        return !pairs;
     for (int i=0; i<std::min(size(), iHeap->size()); i++)
     {
+        if (pairs && key(i) < iHeap->key(i))
+            return true;
+        if (pairs && iHeap->key(i) < key(i))
+            return false;
         if (at(i) < iHeap->at(i))
             return true;
         if (iHeap->at(i) < at(i))
-- 
2.43.0


From b75e82a55b973873f96d736ecc9cbd2622017fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:30 +0000
Subject: [PATCH 71/84] fix: complex values of the same magnitude are ordered

---
 lube/var.cpp | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/lube/var.cpp b/lube/var.cpp
index 79c8689..29c2ddd 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -556,6 +556,23 @@ bool var::operator !=(var iVar) const
 }
 
 
+/*
+ * Complex values are ordered by magnitude; those of the same magnitude need an
+ * order too as otherwise a search cannot tell them apart.
+ */
+template<class T>
+static bool lessComplex(const T& iA, const T& iB)
+{
+    auto a = std::abs(iA);
+    auto b = std::abs(iB);
+    if (a != b)
+        return a < b;
+    if (iA.real() != iB.real())
+        return iA.real() < iB.real();
+    return iA.imag() < iB.imag();
+}
+
+
 /*
  * Operator <
  *
@@ -583,9 +600,9 @@ bool var::operator <(var iVar) const
     case TYPE_DOUBLE:
         return (get<double>() < iVar.get<double>());
     case TYPE_CFLOAT:
-        return (std::abs(get<cfloat>()) < std::abs(iVar.get<cfloat>()));
+        return lessComplex(get<cfloat>(), iVar.get<cfloat>());
     case TYPE_CDOUBLE:
-        return (std::abs(get<cdouble>()) < std::abs(iVar.get<cdouble>()));
+        return lessComplex(get<cdouble>(), iVar.get<cdouble>());
     default:
         throw error("operator <(): Unknown type");
     }
-- 
2.43.0


From 9e93357ee74f7fc80caff4fe7e2a6d292f538643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:38 +0000
Subject: [PATCH 72/84] fix: concatenating arrays with different numbers of
 dimensions is refused

---
 lube/math.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lube/math.cpp b/lube/math.cpp
index ec063e8..c62cac3 100644
--- a/lube/math.cpp
+++ b/lube/math.cpp
@@ -1283,6 +1283,8 @@ var Concatenate::alloc(var iVar) const
     int sum = iVar[0].shape(-1);
     for (int v=1; v<iVar.size(); v++)
     {
+        if (iVar[v].dim() != dim)
+            throw error("Concatenate: dimensions differ");
         for (int d=0; d<dim-1; d++)
             if (iVar[v].shape(d) != iVar[0].shape(d))
                 throw error("Concatenate: dimensions differ");
-- 
2.43.0


From bd8854386184da1d0bd6a72b160ca1640b7b9749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:53 +0000
Subject: [PATCH 73/84] fix: reading JSON arrays of mixed types keeps every
 value

---
 lube/json.cpp | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/lube/json.cpp b/lube/json.cpp
index 745ca4a..519fc48 100644
--- a/lube/json.cpp
+++ b/lube/json.cpp
@@ -107,9 +107,22 @@ var JSON::doObject(std::istream& iStream)
     throw error("Unterminated JSON object");
 }
 
+/** An array of var with the elements of a typed array */
+static var untyped(var iVar)
+{
+    var r;
+    for (int i=0; i<iVar.size(); i++)
+    {
+        r.push(nil);
+        r[i] = iVar.at(i);
+    }
+    return r;
+}
+
 var JSON::doArray(std::istream& iStream)
 {
     var arr;
+    var val;
     char got = iStream.get();
     if (got != '[')
         throw error("JSON array doesn't start with [");
@@ -125,7 +138,12 @@ var JSON::doArray(std::istream& iStream)
             iStream.get();
             break;
         default:
-            arr.push(doValue(iStream));
+            val = doValue(iStream);
+            if (arr && (arr.atype() != TYPE_VAR)
+                && (val.type() != arr.atype()))
+                // A typed array would cast the value
+                arr = untyped(arr);
+            arr.push(val);
         }
     }
     throw error("Unterminated JSON array");
-- 
2.43.0


From 1d3010aee97522481fd763b905a5112a24ae92a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:45 +0000
Subject: [PATCH 74/84] fix: an XML document that is not finished is refused

---
 lube/xmlfile.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lube/xmlfile.cpp b/lube/xmlfile.cpp
index 000486f..f8c7253 100644
--- a/lube/xmlfile.cpp
+++ b/lube/xmlfile.cpp
@@ -183,7 +183,7 @@ var Expat::parse(const char* iFile)
         if (!s)
             throw error("xmlfile::parse(): Error!");
     }
-    s = XML_Parse(mParser, f.str(), 0, 0);
+    s = XML_Parse(mParser, f.str(), 0, 1);
     if (!s)
         throw error("xmlfile::parse(): Error!");
     if (mStack.size() != 0)
-- 
2.43.0


From afb37838a1bb844b1aac1e97ea6e8e3534499366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:00 +0000
Subject: [PATCH 75/84] fix: a file that cannot be read throws rather than
 reading as empty

---
 lube/inifile.cpp | 2 ++
 lube/txtfile.cpp | 2 ++
 lube/xmlfile.cpp | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/lube/inifile.cpp b/lube/inifile.cpp
index 7d11e90..3d34147 100644
--- a/lube/inifile.cpp
+++ b/lube/inifile.cpp
@@ -68,6 +68,8 @@ var inifile::read(var iFile)
             oVar[section][kv[0]] = kv[1];
         }
     }
+    if (is.bad())
+        throw error("inifile::read(): Read failed");
     return oVar;
 }
 
diff --git a/lube/txtfile.cpp b/lube/txtfile.cpp
index 1040532..05fe768 100644
--- a/lube/txtfile.cpp
+++ b/lube/txtfile.cpp
@@ -40,6 +40,8 @@ var txtfile::read(var iFile)
     var f;
     while (f.getline(is))
         o.push(f.copy());
+    if (is.bad())
+        throw error("txtfile::read(): Read failed");
     return o;
 }
 
diff --git a/lube/xmlfile.cpp b/lube/xmlfile.cpp
index f8c7253..545d31c 100644
--- a/lube/xmlfile.cpp
+++ b/lube/xmlfile.cpp
@@ -183,6 +183,8 @@ var Expat::parse(const char* iFile)
         if (!s)
             throw error("xmlfile::parse(): Error!");
     }
+    if (is.bad())
+        throw error("xmlfile::read(): Read failed");
     s = XML_Parse(mParser, f.str(), 0, 1);
     if (!s)
         throw error("xmlfile::parse(): Error!");
-- 
2.43.0


From 693d2211a8e28425a75248e2fd27c45e1e559fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:49 +0000
Subject: [PATCH 76/84] fix: curl handle released when the URL is not a string

---
 lube/curl.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lube/curl.cpp b/lube/curl.cpp
index 0d7905d..2859882 100644
--- a/lube/curl.cpp
+++ b/lube/curl.cpp
@@ -82,6 +82,9 @@ static size_t WriteCallback(
 
 Easy::Easy(var iURL)
 {
+    // Get the URL first; if that throws then there is no handle to release
+    const char* url = iURL.str();
+
     // Initialise an easy handle
     mData = "";
     mHandle = curl_easy_init();
@@ -89,7 +92,7 @@ Easy::Easy(var iURL)
         throw error("curl_easy_init() failed");
 
     // Set the URL to read and a callback mechanism for the actual data
-    curl_easy_setopt(mHandle, CURLOPT_URL, iURL.str());
+    curl_easy_setopt(mHandle, CURLOPT_URL, url);
     curl_easy_setopt(mHandle, CURLOPT_WRITEFUNCTION, WriteCallback);
     curl_easy_setopt(mHandle, CURLOPT_WRITEDATA, this);
 }
-- 
2.43.0


From e73f641246fa1b485f8163fd4399ba480b2919d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:49 +0000
Subject: [PATCH 77/84] fix: failure to create an XML parser throws

---
 lube/xmlfile.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lube/xmlfile.cpp b/lube/xmlfile.cpp
index 545d31c..8981203 100644
--- a/lube/xmlfile.cpp
+++ b/lube/xmlfile.cpp
@@ -152,6 +152,8 @@ Expat::Expat()
 {
     // Create the parser
     mParser = XML_ParserCreate(0);
+    if (!mParser)
+        throw error("xmlfile: Cannot create parser");
 
     // Set the callbacks to the static functions
     XML_SetUserData(mParser, this);
-- 
2.43.0


From e46b51caef1a97cc93d2c4d9eab3379309b91ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:49 +0000
Subject: [PATCH 78/84] fix: sound files are closed when reading or writing
 throws

---
 lube/sndfile.cpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/lube/sndfile.cpp b/lube/sndfile.cpp
index 6f68ade..0ab0784 100644
--- a/lube/sndfile.cpp
+++ b/lube/sndfile.cpp
@@ -7,6 +7,7 @@
  *   Phil Garner, December 2013
  */
 
+#include <memory>
 #include <sndfile.h>
 #include <lube/module.h>
 
@@ -23,6 +24,9 @@ namespace libube
     };
 
 
+    /** The library's handle; closed even if something throws */
+    typedef std::unique_ptr<SNDFILE, int (*)(SNDFILE*)> SNDHandle;
+
     void factory(Module** oModule, var iArg)
     {
         *oModule = new sndfile(iArg);
@@ -42,7 +46,7 @@ var sndfile::read(var iFile)
     // Open the file
     SF_INFO sfInfo;
     sfInfo.format = 0;
-    SNDFILE* snd = sf_open(iFile.str(), SFM_READ, &sfInfo);
+    SNDHandle snd(sf_open(iFile.str(), SFM_READ, &sfInfo), sf_close);
     if (!snd)
         throw error("sndfile::read: Failed to open file");
 
@@ -51,8 +55,8 @@ var sndfile::read(var iFile)
     int size = sfInfo.frames * sfInfo.channels;
     var data = 0.0f;
     data.resize(size);
-    sf_count_t nGot = sf_readf_float(snd, data.ptr<float>(), sfInfo.frames);
-    sf_close(snd);
+    sf_count_t nGot = sf_readf_float(snd.get(), data.ptr<float>(), sfInfo.frames);
+    snd.reset();
     if (nGot != sfInfo.frames)
         throw error("sndfile::read: Size fuckup");
     if (sfInfo.channels != 1)
@@ -71,7 +75,7 @@ void sndfile::write(var iFile, var iVar)
     sfInfo.format = SF_FORMAT_WAV | SF_FORMAT_PCM_16 | SF_ENDIAN_FILE;
     sfInfo.samplerate = mAttr["rate"].get<int>();
     sfInfo.channels = iVar.dim() > 1 ? iVar.shape(0) : 1;
-    SNDFILE* snd = sf_open(iFile.str(), SFM_WRITE, &sfInfo);
+    SNDHandle snd(sf_open(iFile.str(), SFM_WRITE, &sfInfo), sf_close);
     if (!snd)
         throw error("sndfile::write: Failed to open file");
 
@@ -81,11 +85,11 @@ void sndfile::write(var iFile, var iVar)
     if (iVar.dim() > 1)
     {
         var tr = transpose(iVar);
-        n = sf_writef_float(snd, tr.ptr<float>(), frames);
+        n = sf_writef_float(snd.get(), tr.ptr<float>(), frames);
     }
     else
-        n = sf_writef_float(snd, iVar.ptr<float>(), frames);
-    sf_close(snd);
+        n = sf_writef_float(snd.get(), iVar.ptr<float>(), frames);
+    snd.reset();
     if (frames != n)
         throw error("sndfile::write: Size fuckup");
 }
-- 
2.43.0


From c0533c2008c08905fe6ddb2583182d165d89768c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:33 +0000
Subject: [PATCH 79/84] fix: stripping text that is all space yields empty text

---
 lube/string.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lube/string.cpp b/lube/string.cpp
index 4eac66c..f6fc852 100644
--- a/lube/string.cpp
+++ b/lube/string.cpp
@@ -240,7 +240,7 @@ void Strip::string(const var& iVar, var& oVar) const
     while ((leading < is) && (isspace(ip[leading])))
         leading++;
     int trailing = 0;
-    while ((trailing < is) && (isspace(ip[is-trailing-1])))
+    while ((trailing < is - leading) && (isspace(ip[is-trailing-1])))
         trailing++;
 
     int newSize = is - leading - trailing;
-- 
2.43.0


From c89861d3fd1b750d91d23eb5f1fd832576d9683a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:44 +0000
Subject: [PATCH 80/84] fix: line ends in an XML document are given to the
 parser

---
 lube/xmlfile.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/lube/xmlfile.cpp b/lube/xmlfile.cpp
index 8981203..1fea436 100644
--- a/lube/xmlfile.cpp
+++ b/lube/xmlfile.cpp
@@ -7,6 +7,8 @@
  *   Phil Garner, October 2013
  */
 
+#include <algorithm>
+#include <cctype>
 #include <fstream>
 #include <stdexcept>
 #include <lube/module.h>
@@ -94,8 +96,8 @@ static void DefaultHandler(
     void *iUserData, const XML_Char *iStr, int iLen
 )
 {
-    // DOS line ends find their way here.  Why?
-    if ((iLen == 1) && (*iStr == '\r'))
+    // White space outside the top level element, e.g., line ends
+    if (std::all_of(iStr, iStr+iLen, [](char c) { return std::isspace((unsigned char)c); }))
         return;
 
     var str(iLen, iStr);
@@ -184,6 +186,10 @@ var Expat::parse(const char* iFile)
         s = XML_Parse(mParser, f.str(), f.size(), 0);
         if (!s)
             throw error("xmlfile::parse(): Error!");
+        // The line end separates words in a tag
+        s = XML_Parse(mParser, "\n", 1, 0);
+        if (!s)
+            throw error("xmlfile::parse(): Error!");
     }
     if (is.bad())
         throw error("xmlfile::read(): Read failed");
@@ -239,6 +245,9 @@ void Expat::endElementHandler(const XML_Char *iName)
 
 void Expat::characterDataHandler(const XML_Char *iStr, int iLen)
 {
+    // Line ends are not data; expat passes each on its own
+    if ((iLen == 1) && (*iStr == '\n'))
+        return;
     var str(iLen, iStr);
     mStack.top()[DATA].push(str);
 }
-- 
2.43.0


From 1520cbe1f6118900a71143f11cedc44e05aa6caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:53 +0000
Subject: [PATCH 81/84] fix: putting back another character than the last one
 read fails

---
 lube/stream.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/lube/stream.cpp b/lube/stream.cpp
index 5899d05..c7626bf 100644
--- a/lube/stream.cpp
+++ b/lube/stream.cpp
@@ -72,8 +72,18 @@ int varbuf::pbackfail(int iInt)
 {
     // istreams are supposed to allow putting back one character.  Putting back
     // will always fail since it's bufferless, in which case this is called.
+    //
+    // The text is not changed, so only the character that is there can be put
+    // back.
     if (mInd > 0)
-        return traits_type::to_int_type(mVar[--mInd].get<char>());
+    {
+        int c = traits_type::to_int_type(mVar[mInd-1].get<char>());
+        if ((iInt == traits_type::eof()) || (iInt == c))
+        {
+            mInd--;
+            return c;
+        }
+    }
     return traits_type::eof();
 }
 
-- 
2.43.0


From 000bc4bb03a984c6099954b397459ce4817c8a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:52 +0000
Subject: [PATCH 82/84] fix: dereferencing the last reference to an array does
 not use the array afterwards

---
 lube/var.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/lube/var.cpp b/lube/var.cpp
index 29c2ddd..ab79ab6 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -1382,11 +1382,19 @@ var& var::dereference()
     var& r = varderef();
     if (&r != this)
     {
+        // Hold on to the array as it's where the original is
+        var hold(*this);
+
         // Set mType to not-a-reference, then let operator=() do the
         // housekeeping
         mType = 0;
         *this = r;
-        return r;
+
+        // If this was the last reference to the array then the original is
+        // gone; the copy replaces it
+        IHeap* hp = hold.mData.hp;
+        hold.mData.hp = 0;
+        return hp->detach() ? r : *this;
     }
     else
     {
-- 
2.43.0


From d0301e1a6ee82f758d914793a55af28330198bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:54 +0000
Subject: [PATCH 83/84] fix: atypeStr() of nil does not use an array it has not
 got

---
 lube/var.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lube/var.cpp b/lube/var.cpp
index ab79ab6..4047772 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -1104,7 +1104,7 @@ var var::typeStr() const
  */
 var var::atypeStr() const
 {
-    if (type() == TYPE_ARRAY)
+    if ((type() == TYPE_ARRAY) && heap())
     {
         varstream s;
         s << "array[" << libube::typeStr(heap()->type()) << "]";
-- 
2.43.0


From 6cee8fdb66331627d88640afe17e8bbe01fb4ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:02:05 +0000
Subject: [PATCH 84/84] fix: range() and irange() do not change the element
 they start from

---
 lube/var.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/lube/var.cpp b/lube/var.cpp
index 4047772..02cb50d 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -938,11 +938,13 @@ var var::key(int iIndex) const
  */
 var libube::irange(var iLo, var iHi, var iStep)
 {
+    // A copy; iLo itself could be a reference to an element of an array
     var r;
-    while (iLo < iHi)
+    var v = iLo.copy();
+    while (v < iHi)
     {
-        r.push(iLo);
-        iLo += iStep;
+        r.push(v);
+        v += iStep;
     }
     return r;
 }
@@ -964,11 +966,13 @@ var libube::irange(var iHi)
  */
 var libube::range(var iLo, var iHi, var iStep)
 {
+    // A copy; iLo itself could be a reference to an element of an array
     var r;
-    while (iLo <= iHi)
+    var v = iLo.copy();
+    while (v <= iHi)
     {
-        r.push(iLo);
-        iLo += iStep;
+        r.push(v);
+        v += iStep;
     }
     return r;
 }
-- 
2.43.0

