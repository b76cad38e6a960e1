From 5a288709bcfd8789ba76c5b45d4182bc2f0b4c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:32 +0000
Subject: [PATCH 01/23] fix: keep counting modifications when a hash collection
 is cleared

---
 .../src/main/java/com/bytefacets/collections/hash/BaseHash.java | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/collections/src/main/java/com/bytefacets/collections/hash/BaseHash.java b/collections/src/main/java/com/bytefacets/collections/hash/BaseHash.java
index 3fb6e77..2021a2c 100644
--- a/collections/src/main/java/com/bytefacets/collections/hash/BaseHash.java
+++ b/collections/src/main/java/com/bytefacets/collections/hash/BaseHash.java
@@ -85,7 +85,7 @@ abstract class BaseHash {
             clearValues();
             size = 0;
         }
-        modificationCount = 0;
+        modificationCount++;
         nextUnusedEntry = 0;
         freeList = -1;
         maxHead = 0;
-- 
2.43.0


From b84b80d104a2c2c6f7347eb1b985690115066631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:00 +0000
Subject: [PATCH 02/23] fix: copyFrom takes over the hash and equality
 strategies of the source

---
 .../com/bytefacets/collections/hash/BaseKeyIndex.ftl        | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/collections/src/main/templates/com/bytefacets/collections/hash/BaseKeyIndex.ftl b/collections/src/main/templates/com/bytefacets/collections/hash/BaseKeyIndex.ftl
index 55a4517..6c01631 100644
--- a/collections/src/main/templates/com/bytefacets/collections/hash/BaseKeyIndex.ftl
+++ b/collections/src/main/templates/com/bytefacets/collections/hash/BaseKeyIndex.ftl
@@ -26,7 +26,11 @@ abstract class Base${type.name}Index${generics} extends BaseHash implements ${ty
 
     protected void copyFrom(final Base${type.name}Index${generics} source) {
         super.copyFrom(source);
-        
+
+        // the copied table is only valid for the strategies it was built with
+        hashFunc = source.hashFunc;
+        equalFunc = source.equalFunc;
+
         // keys array should be big enough
         if(keys.length < source.keys.length ) {
             keys = ${type.name}Array.create(source.keys.length);
-- 
2.43.0


From 26d2672c73f6913c7388ebc0512f05fe1f761891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:54 +0000
Subject: [PATCH 03/23] fix: int and long comparators hold for differences and
 magnitudes beyond the type

---
 .../java/com/bytefacets/collections/types/IntType.java   | 9 +++++----
 .../java/com/bytefacets/collections/types/LongType.java  | 5 +++--
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/collections/src/main/java/com/bytefacets/collections/types/IntType.java b/collections/src/main/java/com/bytefacets/collections/types/IntType.java
index 5e155d6..54c3e8b 100644
--- a/collections/src/main/java/com/bytefacets/collections/types/IntType.java
+++ b/collections/src/main/java/com/bytefacets/collections/types/IntType.java
@@ -21,10 +21,11 @@ public final class IntType {
         int compare(int a, int b);
     }
 
-    public static final Cmp Asc = (a, b) -> a - b;
-    public static final Cmp Desc = (a, b) -> b - a;
-    public static final Cmp AbsAsc = (a, b) -> Math.abs(a) - Math.abs(b);
-    public static final Cmp AbsDesc = (a, b) -> Math.abs(b) - Math.abs(a);
+    public static final Cmp Asc = Integer::compare;
+    public static final Cmp Desc = (a, b) -> Integer.compare(b, a);
+    // unsigned, because the magnitude of Integer.MIN_VALUE is not a positive int
+    public static final Cmp AbsAsc = (a, b) -> Integer.compareUnsigned(Math.abs(a), Math.abs(b));
+    public static final Cmp AbsDesc = (a, b) -> Integer.compareUnsigned(Math.abs(b), Math.abs(a));
 
     public static Cmp comparatorFor(final CompareMethod method) {
         return switch (method) {
diff --git a/collections/src/main/java/com/bytefacets/collections/types/LongType.java b/collections/src/main/java/com/bytefacets/collections/types/LongType.java
index 8bb56e7..30a54e5 100644
--- a/collections/src/main/java/com/bytefacets/collections/types/LongType.java
+++ b/collections/src/main/java/com/bytefacets/collections/types/LongType.java
@@ -19,8 +19,9 @@ public final class LongType {
 
     public static final Cmp Asc = Long::compare;
     public static final Cmp Desc = (a, b) -> Long.compare(b, a);
-    public static final Cmp AbsAsc = (a, b) -> Long.compare(Math.abs(a), Math.abs(b));
-    public static final Cmp AbsDesc = (a, b) -> Long.compare(Math.abs(b), Math.abs(a));
+    // unsigned, because the magnitude of Long.MIN_VALUE is not a positive long
+    public static final Cmp AbsAsc = (a, b) -> Long.compareUnsigned(Math.abs(a), Math.abs(b));
+    public static final Cmp AbsDesc = (a, b) -> Long.compareUnsigned(Math.abs(b), Math.abs(a));
 
     public static Cmp comparatorFor(final CompareMethod method) {
         return switch (method) {
-- 
2.43.0


From a8122e9603a1aa70fbe82367a0105fcecd78440f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:55 +0000
Subject: [PATCH 04/23] fix: double comparators give NaN and infinities one
 place in the order

---
 .../java/com/bytefacets/collections/types/DoubleType.java     | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/collections/src/main/java/com/bytefacets/collections/types/DoubleType.java b/collections/src/main/java/com/bytefacets/collections/types/DoubleType.java
index bfa5c45..8be0e2c 100644
--- a/collections/src/main/java/com/bytefacets/collections/types/DoubleType.java
+++ b/collections/src/main/java/com/bytefacets/collections/types/DoubleType.java
@@ -18,8 +18,8 @@ public final class DoubleType {
         int compare(double a, double b);
     }
 
-    public static final Cmp Asc = (a, b) -> (int) Math.signum(a - b);
-    public static final Cmp Desc = (a, b) -> (int) Math.signum(b - a);
+    public static final Cmp Asc = Double::compare;
+    public static final Cmp Desc = (a, b) -> Double.compare(b, a);
     public static final Cmp AbsAsc = (a, b) -> Asc.compare(Math.abs(a), Math.abs(b));
     public static final Cmp AbsDesc = (a, b) -> Desc.compare(Math.abs(a), Math.abs(b));
 
-- 
2.43.0


From e3050a750da0061570525282cfeff4cb67c2218d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:55 +0000
Subject: [PATCH 05/23] fix: string and generic comparators accept null as the
 second value

---
 .../java/com/bytefacets/collections/types/GenericType.java     | 3 +++
 .../main/java/com/bytefacets/collections/types/StringType.java | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/collections/src/main/java/com/bytefacets/collections/types/GenericType.java b/collections/src/main/java/com/bytefacets/collections/types/GenericType.java
index d711da1..58cba2e 100644
--- a/collections/src/main/java/com/bytefacets/collections/types/GenericType.java
+++ b/collections/src/main/java/com/bytefacets/collections/types/GenericType.java
@@ -34,6 +34,9 @@ public final class GenericType {
         if (a == null) {
             return 1;
         }
+        if (b == null) {
+            return -1;
+        }
         final Comparable aCmp = (Comparable) a;
         return aCmp.compareTo(b);
     }
diff --git a/collections/src/main/java/com/bytefacets/collections/types/StringType.java b/collections/src/main/java/com/bytefacets/collections/types/StringType.java
index 618619a..23740db 100644
--- a/collections/src/main/java/com/bytefacets/collections/types/StringType.java
+++ b/collections/src/main/java/com/bytefacets/collections/types/StringType.java
@@ -40,6 +40,9 @@ public final class StringType {
         if (a == null) {
             return 1;
         }
+        if (b == null) {
+            return -1;
+        }
         return method.compare(a, b);
     }
 
-- 
2.43.0


From 0de278db6b5aae9a7dd2767f7c8ddfd111fe91ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:08 +0000
Subject: [PATCH 06/23] fix: heaps refuse entries that were never handed out

---
 .../java/com/bytefacets/collections/heap/BaseHeap.java     | 7 ++++++-
 .../com/bytefacets/collections/heap/BaseKeyHeap.ftl        | 2 +-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/collections/src/main/java/com/bytefacets/collections/heap/BaseHeap.java b/collections/src/main/java/com/bytefacets/collections/heap/BaseHeap.java
index da46966..d598d53 100755
--- a/collections/src/main/java/com/bytefacets/collections/heap/BaseHeap.java
+++ b/collections/src/main/java/com/bytefacets/collections/heap/BaseHeap.java
@@ -48,7 +48,12 @@ abstract class BaseHeap {
     }
 
     public boolean isValidEntry(final int entry) {
-        return (entry < inverse.length && inverse[entry] >= 0 && inverse[entry] < size);
+        if (entry < 0 || entry >= inverse.length) {
+            return false;
+        }
+        final int node = inverse[entry];
+        // an entry that was never handed out has no node that refers back to it
+        return node >= 0 && node < size && tree[node] == entry;
     }
 
     protected void growHeap(final int capacity) {
diff --git a/collections/src/main/templates/com/bytefacets/collections/heap/BaseKeyHeap.ftl b/collections/src/main/templates/com/bytefacets/collections/heap/BaseKeyHeap.ftl
index de2fcf6..9cff2e9 100644
--- a/collections/src/main/templates/com/bytefacets/collections/heap/BaseKeyHeap.ftl
+++ b/collections/src/main/templates/com/bytefacets/collections/heap/BaseKeyHeap.ftl
@@ -105,7 +105,7 @@ public abstract class Base${type.name}Heap${generics} extends BaseHeap {
         final int node = inverse[entry];
 
         // the node is unknown or somehow outside the limits of the heap
-        if(node == -1 || node >= size) {
+        if(!isValidEntry(entry)) {
             throw new InvalidEntryException(
                 String.format("Tried to remove entry that does not exist: entry=%d, node=%d, size=%d",
                               size, entry, node, size));
-- 
2.43.0


From d22a5c4d3216268a074ef0f3330f3ce8371828c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:08 +0000
Subject: [PATCH 07/23] fix: forEachEntry of a heap reaches the entries beyond
 its size

---
 .../main/java/com/bytefacets/collections/heap/BaseHeap.java   | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/collections/src/main/java/com/bytefacets/collections/heap/BaseHeap.java b/collections/src/main/java/com/bytefacets/collections/heap/BaseHeap.java
index d598d53..dd9d707 100755
--- a/collections/src/main/java/com/bytefacets/collections/heap/BaseHeap.java
+++ b/collections/src/main/java/com/bytefacets/collections/heap/BaseHeap.java
@@ -40,7 +40,9 @@ abstract class BaseHeap {
     }
 
     public void forEachEntry(final IntConsumer entryConsumer) {
-        for (int entry = 0; entry < size; entry++) {
+        // removals leave gaps, so the live entries may lie beyond the size
+        final int limit = size + freeCount;
+        for (int entry = 0; entry < limit; entry++) {
             if (isValidEntry(entry)) {
                 entryConsumer.accept(entry);
             }
-- 
2.43.0


From 1169ab080e1a06c7bd2323d40198bc90f2bd6434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:08 +0000
Subject: [PATCH 08/23] fix: clearing a heap clears the entries beyond its size

---
 .../templates/com/bytefacets/collections/heap/BaseKeyHeap.ftl   | 2 +-
 .../templates/com/bytefacets/collections/heap/KeyValueHeap.ftl  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/collections/src/main/templates/com/bytefacets/collections/heap/BaseKeyHeap.ftl b/collections/src/main/templates/com/bytefacets/collections/heap/BaseKeyHeap.ftl
index 9cff2e9..77ad99d 100644
--- a/collections/src/main/templates/com/bytefacets/collections/heap/BaseKeyHeap.ftl
+++ b/collections/src/main/templates/com/bytefacets/collections/heap/BaseKeyHeap.ftl
@@ -74,7 +74,7 @@ public abstract class Base${type.name}Heap${generics} extends BaseHeap {
     public void clear() {
         IntArray.fill(tree, IntType.DEFAULT);
         IntArray.fill(inverse, IntType.DEFAULT);
-        ${type.name}Array.fill(keys, defaultKey, 0, size);
+        ${type.name}Array.fill(keys, defaultKey, 0, size + freeCount);
         clearValues();
         freeCount = 0;
         size = 0;
diff --git a/collections/src/main/templates/com/bytefacets/collections/heap/KeyValueHeap.ftl b/collections/src/main/templates/com/bytefacets/collections/heap/KeyValueHeap.ftl
index 35be3a9..e2b463e 100755
--- a/collections/src/main/templates/com/bytefacets/collections/heap/KeyValueHeap.ftl
+++ b/collections/src/main/templates/com/bytefacets/collections/heap/KeyValueHeap.ftl
@@ -91,6 +91,6 @@ public class ${key.name}${value.name}Heap${generics} extends Base${key.name}Heap
 
     @Override
     protected void clearValues() {
-        ${value.name}Array.fill(values, defaultValue, 0, size);
+        ${value.name}Array.fill(values, defaultValue, 0, size + freeCount);
     }
 }
-- 
2.43.0


From b6de6adc8a381959a11188a6a34a5142389f7701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:32 +0000
Subject: [PATCH 09/23] fix: CharType.convert accepts a character

---
 .../main/java/com/bytefacets/collections/types/CharType.java   | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/collections/src/main/java/com/bytefacets/collections/types/CharType.java b/collections/src/main/java/com/bytefacets/collections/types/CharType.java
index 32f8ba7..f4c3fa3 100644
--- a/collections/src/main/java/com/bytefacets/collections/types/CharType.java
+++ b/collections/src/main/java/com/bytefacets/collections/types/CharType.java
@@ -88,6 +88,9 @@ public final class CharType {
             return DEFAULT;
         }
         final Class<?> type = value.getClass();
+        if (Character.class.isAssignableFrom(type)) {
+            return (Character) value;
+        }
         if (Number.class.isAssignableFrom(type)) {
             return (char) ((Number) value).intValue();
         }
-- 
2.43.0


From eccfbc307c408ec18e2807748d7ce56f3b50ac91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:23 +0000
Subject: [PATCH 10/23] fix: iterators of a multi-headed deque treat negative
 list ids as empty lists

---
 .../com/bytefacets/collections/queue/KeyHydraDeque.ftl        | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/collections/src/main/templates/com/bytefacets/collections/queue/KeyHydraDeque.ftl b/collections/src/main/templates/com/bytefacets/collections/queue/KeyHydraDeque.ftl
index cedf239..3ed2577 100644
--- a/collections/src/main/templates/com/bytefacets/collections/queue/KeyHydraDeque.ftl
+++ b/collections/src/main/templates/com/bytefacets/collections/queue/KeyHydraDeque.ftl
@@ -243,7 +243,7 @@ public final class ${type.name}HydraDeque${generics} {
     private class ForwardIterator${generics} implements ${type.name}Iterator${generics} {
         private int entry;
         private void reset(final int listId) {
-            this.entry = listId >= heads.length ? -1 : heads[listId];
+            this.entry = listId < 0 || listId >= heads.length ? -1 : heads[listId];
         }
         @Override
         public ${type.javaType} next() {
@@ -264,7 +264,7 @@ public final class ${type.name}HydraDeque${generics} {
     private class ReverseIterator${generics} implements ${type.name}Iterator${generics} {
         private int entry;
         private void reset(final int listId) {
-            this.entry = listId >= tails.length ? -1 : tails[listId];
+            this.entry = listId < 0 || listId >= tails.length ? -1 : tails[listId];
         }
         @Override
         public ${type.javaType} next() {
-- 
2.43.0


From 72e0f0a2cd7b7f16b9d39f0aaaeae71be22bb5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:26 +0000
Subject: [PATCH 11/23] fix: clearing a multi-headed deque makes all of its
 storage available again

---
 .../templates/com/bytefacets/collections/queue/KeyHydraDeque.ftl | 1 +
 1 file changed, 1 insertion(+)

diff --git a/collections/src/main/templates/com/bytefacets/collections/queue/KeyHydraDeque.ftl b/collections/src/main/templates/com/bytefacets/collections/queue/KeyHydraDeque.ftl
index 3ed2577..835a648 100644
--- a/collections/src/main/templates/com/bytefacets/collections/queue/KeyHydraDeque.ftl
+++ b/collections/src/main/templates/com/bytefacets/collections/queue/KeyHydraDeque.ftl
@@ -192,6 +192,7 @@ public final class ${type.name}HydraDeque${generics} {
         ${type.name}Array.fill(values, ${type.name}Type.DEFAULT);
         freeList = -1;
         size = 0;
+        maxEntry = -1;
     }
 
     /** Creates an iterator over the given list id. */
-- 
2.43.0


From ed3aec6cab409ee79ef638a806fe4ff82b72fe37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:41 +0000
Subject: [PATCH 12/23] fix: growing an array to more than 2^30 elements ends

---
 .../templates/com/bytefacets/collections/arrays/KeyArray.ftl   | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/collections/src/main/templates/com/bytefacets/collections/arrays/KeyArray.ftl b/collections/src/main/templates/com/bytefacets/collections/arrays/KeyArray.ftl
index 66c14fc..f77f34e 100644
--- a/collections/src/main/templates/com/bytefacets/collections/arrays/KeyArray.ftl
+++ b/collections/src/main/templates/com/bytefacets/collections/arrays/KeyArray.ftl
@@ -143,6 +143,9 @@ public final class ${type.name}Array {
         }
         while(newLength < necessarySize) {
             newLength <<= 1;
+            if(newLength <= 0) { // no doubling left
+                return necessarySize;
+            }
         }
         return newLength;
     }
-- 
2.43.0


From 5081fea3b8e559d9a653578d54218d844a728336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:36 +0000
Subject: [PATCH 13/23] fix: chunk stores mask offsets by the chunk size they
 use

---
 .../com/bytefacets/collections/store/KeyChunkMatrixStore.ftl    | 2 +-
 .../com/bytefacets/collections/store/KeyChunkStore.ftl          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/collections/src/main/templates/com/bytefacets/collections/store/KeyChunkMatrixStore.ftl b/collections/src/main/templates/com/bytefacets/collections/store/KeyChunkMatrixStore.ftl
index 2c10cc9..54a8dfd 100644
--- a/collections/src/main/templates/com/bytefacets/collections/store/KeyChunkMatrixStore.ftl
+++ b/collections/src/main/templates/com/bytefacets/collections/store/KeyChunkMatrixStore.ftl
@@ -36,7 +36,7 @@ public final class ${type.name}ChunkMatrixStore${generics} implements ${type.nam
     public ${type.name}ChunkMatrixStore(final int initialSize, final int chunkSize, final int numFields) {
         assertValidConfig(initialSize, chunkSize, numFields);
         this.chunkSize = NumUtils.nextPowerOf2(chunkSize);
-        this.chunkMask = chunkSize - 1;
+        this.chunkMask = this.chunkSize - 1;
         this.shift = Long.numberOfTrailingZeros(this.chunkSize);
         this.numFields = numFields;
         final int rawSize = initialSize * numFields;
diff --git a/collections/src/main/templates/com/bytefacets/collections/store/KeyChunkStore.ftl b/collections/src/main/templates/com/bytefacets/collections/store/KeyChunkStore.ftl
index dc18933..1f585f7 100644
--- a/collections/src/main/templates/com/bytefacets/collections/store/KeyChunkStore.ftl
+++ b/collections/src/main/templates/com/bytefacets/collections/store/KeyChunkStore.ftl
@@ -24,7 +24,7 @@ public final class ${type.name}ChunkStore${generics} implements ${type.name}Stor
 
     public ${type.name}ChunkStore(final int initialSize, final int chunkSize) {
         this.chunkSize = NumUtils.nextPowerOf2(chunkSize);
-        this.chunkMask = chunkSize - 1;
+        this.chunkMask = this.chunkSize - 1;
         this.shift = Long.numberOfTrailingZeros(this.chunkSize);
         final int requiredChunks = (int) Math.ceil((double)initialSize / (double)this.chunkSize);
         this.chunks = new ${type.arrayType}[requiredChunks][this.chunkSize];
-- 
2.43.0


From 168374baff603d5eddc01c338cbd117bb7717b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:00 +0000
Subject: [PATCH 14/23] fix: chunk stores reach every index up to
 Integer.MAX_VALUE

---
 .../bytefacets/collections/store/KeyChunkStore.ftl   | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/collections/src/main/templates/com/bytefacets/collections/store/KeyChunkStore.ftl b/collections/src/main/templates/com/bytefacets/collections/store/KeyChunkStore.ftl
index 1f585f7..60f9696 100644
--- a/collections/src/main/templates/com/bytefacets/collections/store/KeyChunkStore.ftl
+++ b/collections/src/main/templates/com/bytefacets/collections/store/KeyChunkStore.ftl
@@ -19,7 +19,7 @@ public final class ${type.name}ChunkStore${generics} implements ${type.name}Stor
     private final int chunkMask;
     private final int shift;
     private ${type.arrayType}[][] chunks;
-    private int capacity;
+    private long capacity;
     private int limit;
 
     public ${type.name}ChunkStore(final int initialSize, final int chunkSize) {
@@ -28,7 +28,7 @@ public final class ${type.name}ChunkStore${generics} implements ${type.name}Stor
         this.shift = Long.numberOfTrailingZeros(this.chunkSize);
         final int requiredChunks = (int) Math.ceil((double)initialSize / (double)this.chunkSize);
         this.chunks = new ${type.arrayType}[requiredChunks][this.chunkSize];
-        this.capacity = chunks.length * this.chunkSize;
+        this.capacity = (long) chunks.length * this.chunkSize;
     }
 
     /** Returns the value at the given index. */
@@ -50,7 +50,7 @@ public final class ${type.name}ChunkStore${generics} implements ${type.name}Stor
     @Override
     public void set${type.name}(final int index, final ${type.javaType} value) {
         if(index >= capacity) {
-            grow(index+1);
+            grow(index + 1L);
         }
         limit = Math.max(limit, index);
         final int offset = index & chunkMask;
@@ -60,7 +60,7 @@ public final class ${type.name}ChunkStore${generics} implements ${type.name}Stor
 
     /** The current capacity of this store. */
     public int getCapacity() {
-        return capacity;
+        return (int) Math.min(capacity, Integer.MAX_VALUE);
     }
 
     // VisibleForTesting
@@ -68,13 +68,13 @@ public final class ${type.name}ChunkStore${generics} implements ${type.name}Stor
         return chunks.length;
     }
 
-    private void grow(final int index) {
+    private void grow(final long index) {
         final int requiredChunks = (int) Math.ceil((double)index / (double)this.chunkSize);
         final int oldLen = chunks.length;
         this.chunks = Arrays.copyOf(chunks, requiredChunks);
         for(int i = oldLen; i < chunks.length; i++) {
             chunks[i] = ${type.name}Array.create(chunkSize);
         }
-        this.capacity = chunks.length * this.chunkSize;
+        this.capacity = (long) chunks.length * this.chunkSize;
     }
 }
-- 
2.43.0


From 4564217453994cbfa340c1db8c0ddc9ca447f3ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:00 +0000
Subject: [PATCH 15/23] fix: matrix stores keep apart cells beyond 2^31

---
 .../collections/store/KeyChunkMatrixStore.ftl | 28 +++++++++----------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/collections/src/main/templates/com/bytefacets/collections/store/KeyChunkMatrixStore.ftl b/collections/src/main/templates/com/bytefacets/collections/store/KeyChunkMatrixStore.ftl
index 54a8dfd..f32955f 100644
--- a/collections/src/main/templates/com/bytefacets/collections/store/KeyChunkMatrixStore.ftl
+++ b/collections/src/main/templates/com/bytefacets/collections/store/KeyChunkMatrixStore.ftl
@@ -23,7 +23,7 @@ public final class ${type.name}ChunkMatrixStore${generics} implements ${type.nam
     private final int numFields;
     private ${type.arrayType}[][] chunks;
     /** The current full row capacity of the store. */
-    private int capacity;
+    private long capacity;
 
     /**
      * @param initialSize the initial size of the store in terms of the number of groups of fields;
@@ -39,10 +39,10 @@ public final class ${type.name}ChunkMatrixStore${generics} implements ${type.nam
         this.chunkMask = this.chunkSize - 1;
         this.shift = Long.numberOfTrailingZeros(this.chunkSize);
         this.numFields = numFields;
-        final int rawSize = initialSize * numFields;
+        final long rawSize = (long) initialSize * numFields;
         final int requiredChunks = (int) Math.ceil((double)rawSize / (double)this.chunkSize);
         this.chunks = new ${type.arrayType}[requiredChunks][this.chunkSize];
-        this.capacity = (chunks.length * this.chunkSize) / numFields;
+        this.capacity = ((long) chunks.length * this.chunkSize) / numFields;
     }
 
     private void assertValidConfig(final int initialSize, final int chunkSize, final int numFields) {
@@ -67,9 +67,9 @@ public final class ${type.name}ChunkMatrixStore${generics} implements ${type.nam
         if(row >= capacity) {
             return ${type.cast}${type.name}Type.DEFAULT;
         }
-        final int absoluteIx = (row * numFields) + field;
-        final int offset = absoluteIx & chunkMask;
-        final int chunk = absoluteIx >> shift;
+        final long absoluteIx = ((long) row * numFields) + field;
+        final int offset = (int) (absoluteIx & chunkMask);
+        final int chunk = (int) (absoluteIx >> shift);
         return ${type.cast}chunks[chunk][offset];
     }
 
@@ -82,17 +82,17 @@ public final class ${type.name}ChunkMatrixStore${generics} implements ${type.nam
     public void set${type.name}(final int row, final int field, final ${type.javaType} value) {
         RangeCheckException.assertWithinRange(0, numFields - 1, field, "field");
         if(row >= capacity) {
-            grow(row+1);
+            grow(row + 1L);
         }
-        final int absoluteIx = (row * numFields) + field;
-        final int offset = absoluteIx & chunkMask;
-        final int chunk = absoluteIx >> shift;
+        final long absoluteIx = ((long) row * numFields) + field;
+        final int offset = (int) (absoluteIx & chunkMask);
+        final int chunk = (int) (absoluteIx >> shift);
         chunks[chunk][offset] = value;
     }
 
     /** The current full row capacity of the store. */
     public int getCapacity() {
-        return capacity;
+        return (int) Math.min(capacity, Integer.MAX_VALUE);
     }
 
     // VisibleForTesting
@@ -100,14 +100,14 @@ public final class ${type.name}ChunkMatrixStore${generics} implements ${type.nam
         return chunks.length;
     }
 
-    private void grow(final int row) {
-        final int rawSize = row * numFields;
+    private void grow(final long row) {
+        final long rawSize = row * numFields;
         final int requiredChunks = (int) Math.ceil((double)rawSize / (double)chunkSize);
         final int oldLen = chunks.length;
         this.chunks = Arrays.copyOf(chunks, requiredChunks);
         for(int i = oldLen; i < chunks.length; i++) {
             chunks[i] = ${type.name}Array.create(chunkSize);
         }
-        this.capacity = (chunks.length * chunkSize) / numFields;
+        this.capacity = ((long) chunks.length * chunkSize) / numFields;
     }
 }
-- 
2.43.0


From 798bbecb0c88dce7df5dc3ecf227c8ce3b058587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:41 +0000
Subject: [PATCH 16/23] fix: the first pair of a key in a one-to-many
 collection can have any entry

---
 .../src/main/java/com/bytefacets/collections/bi/Side.java       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/collections/src/main/java/com/bytefacets/collections/bi/Side.java b/collections/src/main/java/com/bytefacets/collections/bi/Side.java
index 3f542f0..2fe1d72 100644
--- a/collections/src/main/java/com/bytefacets/collections/bi/Side.java
+++ b/collections/src/main/java/com/bytefacets/collections/bi/Side.java
@@ -35,9 +35,9 @@ public final class Side {
 
     void insertEntry(final int key, final int entry) {
         ensureKey(key);
+        ensureEntry(entry);
         final int oldHead = heads[key];
         if (oldHead != UNSET) {
-            ensureEntry(entry);
             nexts[entry] = oldHead; // prepend
             prevs[oldHead] = entry;
         }
-- 
2.43.0


From 142cba1bae2eb22bc8502bdea5491878a9d6d56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:41 +0000
Subject: [PATCH 17/23] fix: keys beyond the storage of a one-to-many
 collection have no values

---
 .../src/main/java/com/bytefacets/collections/bi/Side.java | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/collections/src/main/java/com/bytefacets/collections/bi/Side.java b/collections/src/main/java/com/bytefacets/collections/bi/Side.java
index 2fe1d72..e7def46 100644
--- a/collections/src/main/java/com/bytefacets/collections/bi/Side.java
+++ b/collections/src/main/java/com/bytefacets/collections/bi/Side.java
@@ -30,7 +30,7 @@ public final class Side {
         if (count == null) {
             throw new IllegalStateException("Counts are not tracked in this collection");
         }
-        return key < count.length ? count[key] : 0;
+        return key >= 0 && key < count.length ? count[key] : 0;
     }
 
     void insertEntry(final int key, final int entry) {
@@ -131,7 +131,11 @@ public final class Side {
         }
 
         public void reset() {
-            this.entry = heads[key];
+            if (key >= 0 && key < heads.length) {
+                this.entry = heads[key];
+            } else {
+                this.entry = UNSET;
+            }
         }
 
         @Override
-- 
2.43.0


From 0d5991b96e5af5e0b1b2d5b02eddc6bbfedfbeff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:41 +0000
Subject: [PATCH 18/23] fix: companion sort refuses ranges whose end overflows

---
 .../com/bytefacets/collections/sort/KeyValueCompanionSort.ftl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/collections/src/main/templates/com/bytefacets/collections/sort/KeyValueCompanionSort.ftl b/collections/src/main/templates/com/bytefacets/collections/sort/KeyValueCompanionSort.ftl
index db0f7bc..1bd4bcc 100644
--- a/collections/src/main/templates/com/bytefacets/collections/sort/KeyValueCompanionSort.ftl
+++ b/collections/src/main/templates/com/bytefacets/collections/sort/KeyValueCompanionSort.ftl
@@ -17,10 +17,10 @@ public final class ${key.name}${value.name}CompanionSort {
      */
     public static void sort(${key.arrayType}[] pri, ${value.arrayType}[] sec, int off, int len, ${key.name}Type.Cmp cmp) {
         // Insertion sort on smallest arrays
-        if( off + len > pri.length )
+        if( (long) off + len > pri.length )
             throw new IllegalArgumentException(
                 "offset+len > primary.length: offset="+off+" len="+len+" array.length="+pri.length);
-        if( off + len > sec.length )
+        if( (long) off + len > sec.length )
             throw new IllegalArgumentException(
                 "offset+len > secondary.length: offset="+off+" len="+len+" array.length="+sec.length);
         if( off < 0 || len < 0 )
-- 
2.43.0


From dc879239f288d6c447132e52962bec057c817517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:13 +0000
Subject: [PATCH 19/23] fix: snowflake waits for a millisecond that was never
 used when a sequence is exhausted

---
 .../src/main/java/com/bytefacets/collections/id/Snowflake.java  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/collections/src/main/java/com/bytefacets/collections/id/Snowflake.java b/collections/src/main/java/com/bytefacets/collections/id/Snowflake.java
index 1cf6cc7..f5fe850 100644
--- a/collections/src/main/java/com/bytefacets/collections/id/Snowflake.java
+++ b/collections/src/main/java/com/bytefacets/collections/id/Snowflake.java
@@ -94,7 +94,7 @@ public final class Snowflake {
     // Block and wait till next millisecond
     private long waitNextMillis(final long currentTimestamp) {
         long nextTimestamp = currentTimestamp;
-        while (nextTimestamp == lastTimestamp) {
+        while (nextTimestamp <= lastTimestamp) {
             nextTimestamp = timestamp();
         }
         return nextTimestamp;
-- 
2.43.0


From 91e1dc1043e1116f744094f870429ec99584b4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:13 +0000
Subject: [PATCH 20/23] fix: snowflake keeps its state when the clock fails
 while waiting

---
 .../com/bytefacets/collections/id/Snowflake.java     | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/collections/src/main/java/com/bytefacets/collections/id/Snowflake.java b/collections/src/main/java/com/bytefacets/collections/id/Snowflake.java
index f5fe850..8b2c146 100644
--- a/collections/src/main/java/com/bytefacets/collections/id/Snowflake.java
+++ b/collections/src/main/java/com/bytefacets/collections/id/Snowflake.java
@@ -65,17 +65,17 @@ public final class Snowflake {
             throw new IllegalStateException("Invalid System Clock!");
         }
 
+        // the state only changes once the clock has been read for the last time
+        long nextSequence = 0;
         if (currentTimestamp == lastTimestamp) {
-            sequence = (sequence + 1) & maxSequence;
-            if (sequence == 0) {
+            nextSequence = (sequence + 1) & maxSequence;
+            if (nextSequence == 0) {
                 // Sequence Exhausted, wait till next millisecond.
                 currentTimestamp = waitNextMillis(currentTimestamp);
             }
-        } else {
-            // reset sequence to start with zero for the next millisecond
-            sequence = 0;
-        }
+        } // otherwise the sequence starts with zero for the next millisecond
 
+        sequence = nextSequence;
         lastTimestamp = currentTimestamp;
 
         final long id =
-- 
2.43.0


From d1624871579d4349f2a3ee11ee17f343b5154c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:13 +0000
Subject: [PATCH 21/23] fix: removing through an iterator lets go of the key

---
 .../java/com/bytefacets/collections/hash/BaseHash.java     | 3 +++
 .../com/bytefacets/collections/hash/BaseKeyIndex.ftl       | 7 ++++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/collections/src/main/java/com/bytefacets/collections/hash/BaseHash.java b/collections/src/main/java/com/bytefacets/collections/hash/BaseHash.java
index 2021a2c..ef4b072 100644
--- a/collections/src/main/java/com/bytefacets/collections/hash/BaseHash.java
+++ b/collections/src/main/java/com/bytefacets/collections/hash/BaseHash.java
@@ -114,6 +114,8 @@ abstract class BaseHash {
         }
     }
 
+    protected abstract void removeKey(int entry);
+
     protected abstract void removeValue(int entry);
 
     protected abstract void growValues(int size);
@@ -258,6 +260,7 @@ abstract class BaseHash {
             freeList = entry;
             size--;
 
+            removeKey(entry);
             removeValue(entry);
             isRemoved = true;
 
diff --git a/collections/src/main/templates/com/bytefacets/collections/hash/BaseKeyIndex.ftl b/collections/src/main/templates/com/bytefacets/collections/hash/BaseKeyIndex.ftl
index 6c01631..fdb07c0 100644
--- a/collections/src/main/templates/com/bytefacets/collections/hash/BaseKeyIndex.ftl
+++ b/collections/src/main/templates/com/bytefacets/collections/hash/BaseKeyIndex.ftl
@@ -148,10 +148,15 @@ abstract class Base${type.name}Index${generics} extends BaseHash implements ${ty
         freeList = entry;
 
         // reset key and value
-        keys[entry] = ${type.name}Type.DEFAULT;
+        removeKey(entry);
         removeValue(entry);
     }
 
+    @Override
+    protected void removeKey(final int entry) {
+        keys[entry] = ${type.name}Type.DEFAULT;
+    }
+
     protected int remove(final ${type.javaType} key, final boolean free) {
         final int head = computeHead(key);
         final int headEntry = heads[head];
-- 
2.43.0


From 57c9a88f5fdf81d1eb9e428973b65868915a3dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:13 +0000
Subject: [PATCH 22/23] fix: clearing a hash collection lets go of reserved
 entries

---
 .../src/main/java/com/bytefacets/collections/hash/BaseHash.java | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/collections/src/main/java/com/bytefacets/collections/hash/BaseHash.java b/collections/src/main/java/com/bytefacets/collections/hash/BaseHash.java
index ef4b072..8b9771f 100644
--- a/collections/src/main/java/com/bytefacets/collections/hash/BaseHash.java
+++ b/collections/src/main/java/com/bytefacets/collections/hash/BaseHash.java
@@ -72,7 +72,7 @@ abstract class BaseHash {
     }
 
     public void clear() {
-        if (size > 0) {
+        if (nextUnusedEntry > 0) { // reserved entries hold keys and values even if size is 0
             int lim;
 
             lim = Math.min(heads.length, maxHead + 1);
-- 
2.43.0


From d640de98d115e8c72446f8e3251f0a9b6a29f636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:51 +0000
Subject: [PATCH 23/23] fix: hash collections refuse NaN as a load factor

---
 .../src/main/java/com/bytefacets/collections/hash/BaseHash.java | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/collections/src/main/java/com/bytefacets/collections/hash/BaseHash.java b/collections/src/main/java/com/bytefacets/collections/hash/BaseHash.java
index 8b9771f..353220d 100644
--- a/collections/src/main/java/com/bytefacets/collections/hash/BaseHash.java
+++ b/collections/src/main/java/com/bytefacets/collections/hash/BaseHash.java
@@ -31,7 +31,7 @@ abstract class BaseHash {
         if (initialCapacity <= 0 || initialCapacity > MAX_CAPACITY) {
             throw new IllegalArgumentException("Invalid initialCapacity: " + initialCapacity);
         }
-        if (loadFactor <= 0 || loadFactor > 1) {
+        if (!(loadFactor > 0 && loadFactor <= 1)) { // NaN is neither
             throw new IllegalArgumentException("Invalid loadFactor: " + loadFactor);
         }
 
-- 
2.43.0

