From e3a1e6a029dd91ca33cf137ee6d85cb6d4e9d2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:35 +0000
Subject: [PATCH 01/39] fix: derive the chunk mask of the stores from the
 rounded chunk size

With a chunk size that is not a power of two, indices aliased one another.
---
 .../com/bytefacets/collections/store/KeyChunkMatrixStore.ftl    | 2 +-
 .../com/bytefacets/collections/store/KeyChunkStore.ftl          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/collections/src/main/templates/com/bytefacets/collections/store/KeyChunkMatrixStore.ftl b/collections/src/main/templates/com/bytefacets/collections/store/KeyChunkMatrixStore.ftl
index 2c10cc9..54a8dfd 100644
--- a/collections/src/main/templates/com/bytefacets/collections/store/KeyChunkMatrixStore.ftl
+++ b/collections/src/main/templates/com/bytefacets/collections/store/KeyChunkMatrixStore.ftl
@@ -36,7 +36,7 @@ public final class ${type.name}ChunkMatrixStore${generics} implements ${type.nam
     public ${type.name}ChunkMatrixStore(final int initialSize, final int chunkSize, final int numFields) {
         assertValidConfig(initialSize, chunkSize, numFields);
         this.chunkSize = NumUtils.nextPowerOf2(chunkSize);
-        this.chunkMask = chunkSize - 1;
+        this.chunkMask = this.chunkSize - 1;
         this.shift = Long.numberOfTrailingZeros(this.chunkSize);
         this.numFields = numFields;
         final int rawSize = initialSize * numFields;
diff --git a/collections/src/main/templates/com/bytefacets/collections/store/KeyChunkStore.ftl b/collections/src/main/templates/com/bytefacets/collections/store/KeyChunkStore.ftl
index dc18933..1f585f7 100644
--- a/collections/src/main/templates/com/bytefacets/collections/store/KeyChunkStore.ftl
+++ b/collections/src/main/templates/com/bytefacets/collections/store/KeyChunkStore.ftl
@@ -24,7 +24,7 @@ public final class ${type.name}ChunkStore${generics} implements ${type.name}Stor
 
     public ${type.name}ChunkStore(final int initialSize, final int chunkSize) {
         this.chunkSize = NumUtils.nextPowerOf2(chunkSize);
-        this.chunkMask = chunkSize - 1;
+        this.chunkMask = this.chunkSize - 1;
         this.shift = Long.numberOfTrailingZeros(this.chunkSize);
         final int requiredChunks = (int) Math.ceil((double)initialSize / (double)this.chunkSize);
         this.chunks = new ${type.arrayType}[requiredChunks][this.chunkSize];
-- 
2.43.0


From 20feae720009b8c2f5cd25b40653ca2c0135a369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:35 +0000
Subject: [PATCH 02/39] fix: compare ints without overflow

Asc and Desc subtracted, so e.g. MIN_VALUE sorted after MAX_VALUE, and the absolute
value of MIN_VALUE was taken as negative.
---
 .../java/com/bytefacets/collections/types/IntType.java | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/collections/src/main/java/com/bytefacets/collections/types/IntType.java b/collections/src/main/java/com/bytefacets/collections/types/IntType.java
index 5e155d6..a279782 100644
--- a/collections/src/main/java/com/bytefacets/collections/types/IntType.java
+++ b/collections/src/main/java/com/bytefacets/collections/types/IntType.java
@@ -21,10 +21,12 @@ public final class IntType {
         int compare(int a, int b);
     }
 
-    public static final Cmp Asc = (a, b) -> a - b;
-    public static final Cmp Desc = (a, b) -> b - a;
-    public static final Cmp AbsAsc = (a, b) -> Math.abs(a) - Math.abs(b);
-    public static final Cmp AbsDesc = (a, b) -> Math.abs(b) - Math.abs(a);
+    public static final Cmp Asc = Integer::compare;
+    public static final Cmp Desc = (a, b) -> Integer.compare(b, a);
+    public static final Cmp AbsAsc =
+            (a, b) -> Integer.compareUnsigned(Math.abs(a), Math.abs(b));
+    public static final Cmp AbsDesc =
+            (a, b) -> Integer.compareUnsigned(Math.abs(b), Math.abs(a));
 
     public static Cmp comparatorFor(final CompareMethod method) {
         return switch (method) {
-- 
2.43.0


From 545f3b7915d4ea959dc40b2d375791c8c533d4fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:35 +0000
Subject: [PATCH 03/39] fix: order Long.MIN_VALUE by its absolute value in
 LongType.AbsAsc and AbsDesc

---
 .../java/com/bytefacets/collections/types/LongType.java     | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/collections/src/main/java/com/bytefacets/collections/types/LongType.java b/collections/src/main/java/com/bytefacets/collections/types/LongType.java
index 8bb56e7..34d50cd 100644
--- a/collections/src/main/java/com/bytefacets/collections/types/LongType.java
+++ b/collections/src/main/java/com/bytefacets/collections/types/LongType.java
@@ -19,8 +19,10 @@ public final class LongType {
 
     public static final Cmp Asc = Long::compare;
     public static final Cmp Desc = (a, b) -> Long.compare(b, a);
-    public static final Cmp AbsAsc = (a, b) -> Long.compare(Math.abs(a), Math.abs(b));
-    public static final Cmp AbsDesc = (a, b) -> Long.compare(Math.abs(b), Math.abs(a));
+    public static final Cmp AbsAsc =
+            (a, b) -> Long.compareUnsigned(Math.abs(a), Math.abs(b));
+    public static final Cmp AbsDesc =
+            (a, b) -> Long.compareUnsigned(Math.abs(b), Math.abs(a));
 
     public static Cmp comparatorFor(final CompareMethod method) {
         return switch (method) {
-- 
2.43.0


From eb76e8d82ce481d0058de30da98942163b7841e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:35 +0000
Subject: [PATCH 04/39] fix: give NaN a place in the order of DoubleType's
 comparators

The signum of a NaN difference is cast to 0, so NaN compared as equal to every value
(and equal infinities by luck), which is not an order: heaps and sorts came out unsorted.
---
 .../bytefacets/collections/types/DoubleType.java  | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/collections/src/main/java/com/bytefacets/collections/types/DoubleType.java b/collections/src/main/java/com/bytefacets/collections/types/DoubleType.java
index bfa5c45..aad9014 100644
--- a/collections/src/main/java/com/bytefacets/collections/types/DoubleType.java
+++ b/collections/src/main/java/com/bytefacets/collections/types/DoubleType.java
@@ -18,11 +18,22 @@ public final class DoubleType {
         int compare(double a, double b);
     }
 
-    public static final Cmp Asc = (a, b) -> (int) Math.signum(a - b);
-    public static final Cmp Desc = (a, b) -> (int) Math.signum(b - a);
+    public static final Cmp Asc = DoubleType::compareValues;
+    public static final Cmp Desc = (a, b) -> compareValues(b, a);
     public static final Cmp AbsAsc = (a, b) -> Asc.compare(Math.abs(a), Math.abs(b));
     public static final Cmp AbsDesc = (a, b) -> Desc.compare(Math.abs(a), Math.abs(b));
 
+    /** Numeric order, in which signed zeros are equal and NaN comes after everything else. */
+    private static int compareValues(final double a, final double b) {
+        if (a < b) {
+            return -1;
+        }
+        if (a > b) {
+            return 1;
+        }
+        return a == b ? 0 : Double.compare(a, b);
+    }
+
     public static Cmp comparatorFor(final CompareMethod method) {
         return switch (method) {
             case Ascending -> Asc;
-- 
2.43.0


From 8c5a645fa292ad2649845ed938353a015d2e7d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:35 +0000
Subject: [PATCH 05/39] fix: accept null as second argument of the String and
 generic comparators

The first argument could be null, the second one threw NullPointerException, so heaps and
sorts with null keys failed depending on the order of comparison.
---
 .../java/com/bytefacets/collections/types/GenericType.java     | 3 +++
 .../main/java/com/bytefacets/collections/types/StringType.java | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/collections/src/main/java/com/bytefacets/collections/types/GenericType.java b/collections/src/main/java/com/bytefacets/collections/types/GenericType.java
index d711da1..58cba2e 100644
--- a/collections/src/main/java/com/bytefacets/collections/types/GenericType.java
+++ b/collections/src/main/java/com/bytefacets/collections/types/GenericType.java
@@ -34,6 +34,9 @@ public final class GenericType {
         if (a == null) {
             return 1;
         }
+        if (b == null) {
+            return -1;
+        }
         final Comparable aCmp = (Comparable) a;
         return aCmp.compareTo(b);
     }
diff --git a/collections/src/main/java/com/bytefacets/collections/types/StringType.java b/collections/src/main/java/com/bytefacets/collections/types/StringType.java
index 618619a..23740db 100644
--- a/collections/src/main/java/com/bytefacets/collections/types/StringType.java
+++ b/collections/src/main/java/com/bytefacets/collections/types/StringType.java
@@ -40,6 +40,9 @@ public final class StringType {
         if (a == null) {
             return 1;
         }
+        if (b == null) {
+            return -1;
+        }
         return method.compare(a, b);
     }
 
-- 
2.43.0


From ee61f44f12386f982cc7b9a3eadd49aee1257e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:41 +0000
Subject: [PATCH 06/39] fix: tell entries which are not in the heap from the
 ones which are

A never-used or cleared entry looked like the entry at the root: isValidEntry was true for it,
and removeAt removed it and corrupted the heap instead of throwing InvalidEntryException.
isValidEntry of a negative entry threw ArrayIndexOutOfBoundsException.
---
 .../java/com/bytefacets/collections/heap/BaseHeap.java     | 7 ++++++-
 .../com/bytefacets/collections/heap/BaseKeyHeap.ftl        | 2 +-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/collections/src/main/java/com/bytefacets/collections/heap/BaseHeap.java b/collections/src/main/java/com/bytefacets/collections/heap/BaseHeap.java
index da46966..15f60a2 100755
--- a/collections/src/main/java/com/bytefacets/collections/heap/BaseHeap.java
+++ b/collections/src/main/java/com/bytefacets/collections/heap/BaseHeap.java
@@ -48,7 +48,12 @@ abstract class BaseHeap {
     }
 
     public boolean isValidEntry(final int entry) {
-        return (entry < inverse.length && inverse[entry] >= 0 && inverse[entry] < size);
+        if (entry < 0 || entry >= inverse.length) {
+            return false;
+        }
+        // entries which were never used also have a node in inverse, but the tree doesn't agree
+        final int node = inverse[entry];
+        return node >= 0 && node < size && tree[node] == entry;
     }
 
     protected void growHeap(final int capacity) {
diff --git a/collections/src/main/templates/com/bytefacets/collections/heap/BaseKeyHeap.ftl b/collections/src/main/templates/com/bytefacets/collections/heap/BaseKeyHeap.ftl
index de2fcf6..9cff2e9 100644
--- a/collections/src/main/templates/com/bytefacets/collections/heap/BaseKeyHeap.ftl
+++ b/collections/src/main/templates/com/bytefacets/collections/heap/BaseKeyHeap.ftl
@@ -105,7 +105,7 @@ public abstract class Base${type.name}Heap${generics} extends BaseHeap {
         final int node = inverse[entry];
 
         // the node is unknown or somehow outside the limits of the heap
-        if(node == -1 || node >= size) {
+        if(!isValidEntry(entry)) {
             throw new InvalidEntryException(
                 String.format("Tried to remove entry that does not exist: entry=%d, node=%d, size=%d",
                               size, entry, node, size));
-- 
2.43.0


From 6f4068245f03dda41912ecf7558c34e81c49022f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:41 +0000
Subject: [PATCH 07/39] fix: refuse to reset the key of an entry which is not
 in the heap

resetKey of a removed or never-used entry put it over a live entry in the tree. Also, the
arguments of the exception's message were shifted by one.
---
 .../collections/heap/BaseKeyHeap.ftl          | 24 ++++++++++++-------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/collections/src/main/templates/com/bytefacets/collections/heap/BaseKeyHeap.ftl b/collections/src/main/templates/com/bytefacets/collections/heap/BaseKeyHeap.ftl
index 9cff2e9..3ed2fcb 100644
--- a/collections/src/main/templates/com/bytefacets/collections/heap/BaseKeyHeap.ftl
+++ b/collections/src/main/templates/com/bytefacets/collections/heap/BaseKeyHeap.ftl
@@ -100,17 +100,10 @@ public abstract class Base${type.name}Heap${generics} extends BaseHeap {
      * @throws RangeCheckException if the entry was outside the bounds of the underlying array
      */
     public void removeAt(final int entry) {
-        RangeCheckException.assertWithinRange(0, inverse.length - 1, entry, "entry");
+        assertActive(entry);
 
         final int node = inverse[entry];
 
-        // the node is unknown or somehow outside the limits of the heap
-        if(!isValidEntry(entry)) {
-            throw new InvalidEntryException(
-                String.format("Tried to remove entry that does not exist: entry=%d, node=%d, size=%d",
-                              size, entry, node, size));
-        }
-
         keys[entry] = defaultKey;
         clearValueAt(entry);
         size--;
@@ -132,11 +125,26 @@ public abstract class Base${type.name}Heap${generics} extends BaseHeap {
         filterDown(filterUp(node, key, lastEntry), key, lastEntry);
     }
 
+    private void assertActive(final int entry) {
+        RangeCheckException.assertWithinRange(0, inverse.length - 1, entry, "entry");
+
+        // the node is unknown or somehow outside the limits of the heap
+        if(!isValidEntry(entry)) {
+            throw new InvalidEntryException(
+                String.format("Tried to use entry that does not exist: entry=%d, node=%d, size=%d",
+                              entry, inverse[entry], size));
+        }
+    }
+
     /**
      * Resets the key for the given entry. This can be useful for timers, which may repeat:
      * the repeat can be accomplished by setting a new time, but the entry will remain stable.
+     *
+     * @throws InvalidEntryException if the entry was not active in the heap
+     * @throws RangeCheckException if the entry was outside the bounds of the underlying array
      */
     public void resetKey(final int entry, final ${type.javaType} newKey) {
+        assertActive(entry);
         keys[entry] = newKey;
         filterDown(filterUp(inverse[entry], newKey, entry), newKey, entry);
     }
-- 
2.43.0


From ba4c1153ef44cff443c2d003a0debd6408ddae47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:41 +0000
Subject: [PATCH 08/39] fix: visit all live entries in the heap's forEachEntry

After removals there can be live entries at or above the current size, which were skipped.
---
 .../main/java/com/bytefacets/collections/heap/BaseHeap.java    | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/collections/src/main/java/com/bytefacets/collections/heap/BaseHeap.java b/collections/src/main/java/com/bytefacets/collections/heap/BaseHeap.java
index 15f60a2..c9ffef3 100755
--- a/collections/src/main/java/com/bytefacets/collections/heap/BaseHeap.java
+++ b/collections/src/main/java/com/bytefacets/collections/heap/BaseHeap.java
@@ -40,7 +40,8 @@ abstract class BaseHeap {
     }
 
     public void forEachEntry(final IntConsumer entryConsumer) {
-        for (int entry = 0; entry < size; entry++) {
+        final int limit = size + freeCount; // entries live or released so far
+        for (int entry = 0; entry < limit; entry++) {
             if (isValidEntry(entry)) {
                 entryConsumer.accept(entry);
             }
-- 
2.43.0


From 5a7a2e29172851768f505391fe547b3dd5187567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:41 +0000
Subject: [PATCH 09/39] fix: reset all keys and values when clearing a heap

Entries at or above the current size kept their key and value, and an element inserted
without a value later started with the stale one.
---
 .../templates/com/bytefacets/collections/heap/BaseKeyHeap.ftl   | 2 +-
 .../templates/com/bytefacets/collections/heap/KeyValueHeap.ftl  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/collections/src/main/templates/com/bytefacets/collections/heap/BaseKeyHeap.ftl b/collections/src/main/templates/com/bytefacets/collections/heap/BaseKeyHeap.ftl
index 3ed2fcb..15ff152 100644
--- a/collections/src/main/templates/com/bytefacets/collections/heap/BaseKeyHeap.ftl
+++ b/collections/src/main/templates/com/bytefacets/collections/heap/BaseKeyHeap.ftl
@@ -74,7 +74,7 @@ public abstract class Base${type.name}Heap${generics} extends BaseHeap {
     public void clear() {
         IntArray.fill(tree, IntType.DEFAULT);
         IntArray.fill(inverse, IntType.DEFAULT);
-        ${type.name}Array.fill(keys, defaultKey, 0, size);
+        ${type.name}Array.fill(keys, defaultKey);
         clearValues();
         freeCount = 0;
         size = 0;
diff --git a/collections/src/main/templates/com/bytefacets/collections/heap/KeyValueHeap.ftl b/collections/src/main/templates/com/bytefacets/collections/heap/KeyValueHeap.ftl
index 35be3a9..6554e1b 100755
--- a/collections/src/main/templates/com/bytefacets/collections/heap/KeyValueHeap.ftl
+++ b/collections/src/main/templates/com/bytefacets/collections/heap/KeyValueHeap.ftl
@@ -91,6 +91,6 @@ public class ${key.name}${value.name}Heap${generics} extends Base${key.name}Heap
 
     @Override
     protected void clearValues() {
-        ${value.name}Array.fill(values, defaultValue, 0, size);
+        ${value.name}Array.fill(values, defaultValue);
     }
 }
-- 
2.43.0


From 0113fb6c35e1154c48d1e465f7ae4f8d7a91d73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:41 +0000
Subject: [PATCH 10/39] fix: let a heap grow from an initial capacity of zero

---
 .../src/main/java/com/bytefacets/collections/heap/BaseHeap.java | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/collections/src/main/java/com/bytefacets/collections/heap/BaseHeap.java b/collections/src/main/java/com/bytefacets/collections/heap/BaseHeap.java
index c9ffef3..f01a1d8 100755
--- a/collections/src/main/java/com/bytefacets/collections/heap/BaseHeap.java
+++ b/collections/src/main/java/com/bytefacets/collections/heap/BaseHeap.java
@@ -69,7 +69,7 @@ abstract class BaseHeap {
         }
 
         // come up with a new capacity according to the policy
-        final int newCapacity = capacity << 1; // e.g. double
+        final int newCapacity = Math.max(1, capacity << 1); // e.g. double
 
         if (newCapacity <= capacity) { // less-than in case of overflow
             throw cannotResize(getClass(), "int[]", capacity, capacity + 1);
-- 
2.43.0


From 42ebf36ded8dea52f1c3be620273b1034dd49388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:13 +0000
Subject: [PATCH 11/39] fix: make room for every association entry in the sides
 of bi collections

The first association of a key did not, so iterating or removing it failed with
ArrayIndexOutOfBoundsException once there were more than initialMappingCapacity of them.
---
 .../src/main/java/com/bytefacets/collections/bi/Side.java       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/collections/src/main/java/com/bytefacets/collections/bi/Side.java b/collections/src/main/java/com/bytefacets/collections/bi/Side.java
index 3f542f0..2fe1d72 100644
--- a/collections/src/main/java/com/bytefacets/collections/bi/Side.java
+++ b/collections/src/main/java/com/bytefacets/collections/bi/Side.java
@@ -35,9 +35,9 @@ public final class Side {
 
     void insertEntry(final int key, final int entry) {
         ensureKey(key);
+        ensureEntry(entry);
         final int oldHead = heads[key];
         if (oldHead != UNSET) {
-            ensureEntry(entry);
             nexts[entry] = oldHead; // prepend
             prevs[oldHead] = entry;
         }
-- 
2.43.0


From e5272fa8ac7b763fef4252eeaf499a59925af81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:11 +0000
Subject: [PATCH 12/39] fix: navigate unknown keys of bi collections as empty
 by value, too

Only the entry iterator checked the range of the key; the value iterator and the count of a
negative key threw ArrayIndexOutOfBoundsException.
---
 .../java/com/bytefacets/collections/bi/Side.java   | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/collections/src/main/java/com/bytefacets/collections/bi/Side.java b/collections/src/main/java/com/bytefacets/collections/bi/Side.java
index 2fe1d72..d046622 100644
--- a/collections/src/main/java/com/bytefacets/collections/bi/Side.java
+++ b/collections/src/main/java/com/bytefacets/collections/bi/Side.java
@@ -30,7 +30,7 @@ public final class Side {
         if (count == null) {
             throw new IllegalStateException("Counts are not tracked in this collection");
         }
-        return key < count.length ? count[key] : 0;
+        return key >= 0 && key < count.length ? count[key] : 0;
     }
 
     void insertEntry(final int key, final int entry) {
@@ -64,6 +64,10 @@ public final class Side {
         }
     }
 
+    private int headOf(final int key) {
+        return key >= 0 && key < heads.length ? heads[key] : UNSET;
+    }
+
     private void ensureKey(final int key) {
         heads = IntArray.ensureEntry(heads, key, UNSET);
         if (count != null) {
@@ -96,11 +100,7 @@ public final class Side {
         }
 
         public void reset() {
-            if (key >= 0 && key < heads.length) {
-                this.entry = heads[key];
-            } else {
-                this.entry = UNSET;
-            }
+            this.entry = headOf(key);
         }
 
         @Override
@@ -131,7 +131,7 @@ public final class Side {
         }
 
         public void reset() {
-            this.entry = heads[key];
+            this.entry = headOf(key);
         }
 
         @Override
-- 
2.43.0


From 1d591e35f8917813af675022e2eb3311e54f26ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:11 +0000
Subject: [PATCH 13/39] fix: ignore removals of inactive entries in bi
 collections

removeAt and removeAtAndReserve of a free or reserved entry took the stale or zeroed key for an
association and corrupted the counts and lists of other keys.
---
 .../com/bytefacets/collections/bi/CompactOneToMany.java  | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/collections/src/main/java/com/bytefacets/collections/bi/CompactOneToMany.java b/collections/src/main/java/com/bytefacets/collections/bi/CompactOneToMany.java
index 4988ef5..2110f32 100644
--- a/collections/src/main/java/com/bytefacets/collections/bi/CompactOneToMany.java
+++ b/collections/src/main/java/com/bytefacets/collections/bi/CompactOneToMany.java
@@ -72,13 +72,17 @@ public class CompactOneToMany {
     }
 
     /**
-     * Removes the association at the given entry.
+     * Removes the association at the given entry and returns the entry. If there is no association
+     * at the entry, it's a no-op and -1 is returned.
      *
      * @throws IndexOutOfBoundsException if entry is out of bounds on the underlying association
      *     array
      */
     public int removeAt(final int entry) {
         final long key = mappings.getKeyAt(entry);
+        if (mappings.lookupEntry(key) != entry) {
+            return -1;
+        }
         removeLeft(Pack.unpackHiInt(key), entry);
         removeRight(Pack.unpackLoInt(key), entry);
         mappings.removeAt(entry);
@@ -139,6 +143,9 @@ public class CompactOneToMany {
      */
     public void removeAtAndReserve(final int entry) {
         final long key = mappings.getKeyAt(entry);
+        if (mappings.lookupEntry(key) != entry) {
+            return;
+        }
         mappings.removeAtAndReserve(entry);
         removeLeft(Pack.unpackHiInt(key), entry);
         removeRight(Pack.unpackLoInt(key), entry);
-- 
2.43.0


From 1ae792d9182f8fb68b52c1d7160148180cb7086d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:11 +0000
Subject: [PATCH 14/39] fix: reserve only the given entry in removeAtAndReserve

It removed by the key found at the entry, so for a free or already reserved entry it took out
another entry, which held the default or the same key.
---
 .../bytefacets/collections/hash/BaseKeyIndex.ftl    | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/collections/src/main/templates/com/bytefacets/collections/hash/BaseKeyIndex.ftl b/collections/src/main/templates/com/bytefacets/collections/hash/BaseKeyIndex.ftl
index 55a4517..5da3f1d 100644
--- a/collections/src/main/templates/com/bytefacets/collections/hash/BaseKeyIndex.ftl
+++ b/collections/src/main/templates/com/bytefacets/collections/hash/BaseKeyIndex.ftl
@@ -100,6 +100,10 @@ abstract class Base${type.name}Index${generics} extends BaseHash implements ${ty
      */
     @Override
     public void removeAt(final int entry) {
+        removeAt(entry, true);
+    }
+
+    private void removeAt(final int entry, final boolean free) {
         final int head = getHead(entry);
         int prev = -1;
         for(int e = heads[head]; e >= 0; prev = e, e = nexts[e]) {
@@ -114,7 +118,12 @@ abstract class Base${type.name}Index${generics} extends BaseHash implements ${ty
                 nexts[prev] = next;
             }
 
-            freeReservedEntry(e);
+            if(free) {
+                freeReservedEntry(e);
+            } else {
+                nexts[e] = -1;
+                // leave key and value set
+            }
             size--;
             modificationCount++;
 
@@ -130,7 +139,7 @@ abstract class Base${type.name}Index${generics} extends BaseHash implements ${ty
      * the set will never use the entry again, and result in a memory leek.
      */
     public void removeAtAndReserve(final int entry) {
-        remove(${type.cast}keys[entry], false);
+        removeAt(entry, false);
     }
 
     /**
-- 
2.43.0


From 110a2fa704f447196846eeb465e1f4f022b654b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:11 +0000
Subject: [PATCH 15/39] fix: check the keys of an association before
 registering it

put of a key which cannot be an array offset threw ArrayIndexOutOfBoundsException, but left the
association half registered: it was contained and counted, but not linked to its keys.
---
 .../com/bytefacets/collections/bi/CompactManyToMany.java  | 6 ++++++
 .../com/bytefacets/collections/bi/CompactOneToMany.java   | 8 ++++++++
 .../src/main/java/com/bytefacets/collections/bi/Side.java | 4 +++-
 3 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/collections/src/main/java/com/bytefacets/collections/bi/CompactManyToMany.java b/collections/src/main/java/com/bytefacets/collections/bi/CompactManyToMany.java
index ac24ad9..d0a8117 100644
--- a/collections/src/main/java/com/bytefacets/collections/bi/CompactManyToMany.java
+++ b/collections/src/main/java/com/bytefacets/collections/bi/CompactManyToMany.java
@@ -27,6 +27,12 @@ public final class CompactManyToMany extends CompactOneToMany {
         rightMapping = new Mapping(right, this::getLeftAt);
     }
 
+    @Override
+    protected void ensureKeys(final int leftKey, final int rightKey) {
+        super.ensureKeys(leftKey, rightKey);
+        right.ensureKey(rightKey);
+    }
+
     @Override
     protected void insertRight(final int rightKey, final int entry) {
         right.insertEntry(rightKey, entry);
diff --git a/collections/src/main/java/com/bytefacets/collections/bi/CompactOneToMany.java b/collections/src/main/java/com/bytefacets/collections/bi/CompactOneToMany.java
index 2110f32..d682f67 100644
--- a/collections/src/main/java/com/bytefacets/collections/bi/CompactOneToMany.java
+++ b/collections/src/main/java/com/bytefacets/collections/bi/CompactOneToMany.java
@@ -40,8 +40,12 @@ public class CompactOneToMany {
     /**
      * Registers an association between leftKey and rightKey, returning the stable entry of the
      * association. If the association is already present, the existing entry is returned.
+     *
+     * @throws com.bytefacets.collections.exception.RangeCheckException if a key cannot be used as
+     *     array offset
      */
     public int put(final int leftKey, final int rightKey) {
+        ensureKeys(leftKey, rightKey); // before the association is registered
         final long key = Pack.packToLong(leftKey, rightKey);
         final int before = mappings.size();
         final int entry = mappings.add(key);
@@ -162,6 +166,10 @@ public class CompactOneToMany {
         mappings.freeReservedEntry(entry);
     }
 
+    protected void ensureKeys(final int leftKey, final int rightKey) {
+        left.ensureKey(leftKey);
+    }
+
     protected void insertLeft(final int leftKey, final int entry) {
         left.insertEntry(leftKey, entry);
     }
diff --git a/collections/src/main/java/com/bytefacets/collections/bi/Side.java b/collections/src/main/java/com/bytefacets/collections/bi/Side.java
index d046622..638599a 100644
--- a/collections/src/main/java/com/bytefacets/collections/bi/Side.java
+++ b/collections/src/main/java/com/bytefacets/collections/bi/Side.java
@@ -5,6 +5,7 @@ package com.bytefacets.collections.bi;
 import static com.bytefacets.collections.bi.CompactOneToMany.UNSET;
 
 import com.bytefacets.collections.arrays.IntArray;
+import com.bytefacets.collections.exception.RangeCheckException;
 import com.bytefacets.collections.functional.IntIterator;
 
 /**
@@ -68,7 +69,8 @@ public final class Side {
         return key >= 0 && key < heads.length ? heads[key] : UNSET;
     }
 
-    private void ensureKey(final int key) {
+    void ensureKey(final int key) {
+        RangeCheckException.assertWithinRange(0, Integer.MAX_VALUE - 1, key, "key");
         heads = IntArray.ensureEntry(heads, key, UNSET);
         if (count != null) {
             count = IntArray.ensureEntry(count, key);
-- 
2.43.0


From 295b4ebc7e24978b6831c0f2d62148b9f54dfd9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:11 +0000
Subject: [PATCH 16/39] fix: use the storage of a hydra deque again after clear

The entries used before were forgotten, so every add and clear cycle grew the storage.
---
 .../templates/com/bytefacets/collections/queue/KeyHydraDeque.ftl | 1 +
 1 file changed, 1 insertion(+)

diff --git a/collections/src/main/templates/com/bytefacets/collections/queue/KeyHydraDeque.ftl b/collections/src/main/templates/com/bytefacets/collections/queue/KeyHydraDeque.ftl
index cedf239..d058b9d 100644
--- a/collections/src/main/templates/com/bytefacets/collections/queue/KeyHydraDeque.ftl
+++ b/collections/src/main/templates/com/bytefacets/collections/queue/KeyHydraDeque.ftl
@@ -191,6 +191,7 @@ public final class ${type.name}HydraDeque${generics} {
         IntArray.fill(count, 0);
         ${type.name}Array.fill(values, ${type.name}Type.DEFAULT);
         freeList = -1;
+        maxEntry = -1;
         size = 0;
     }
 
-- 
2.43.0


From b00327eb74a2cb6ad97539dc01c78100390005ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:11 +0000
Subject: [PATCH 17/39] fix: iterate negative list ids of a hydra deque as
 empty

The size of such a list is 0 like that of other unknown lists, and so should be its iteration.
---
 .../com/bytefacets/collections/queue/KeyHydraDeque.ftl        | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/collections/src/main/templates/com/bytefacets/collections/queue/KeyHydraDeque.ftl b/collections/src/main/templates/com/bytefacets/collections/queue/KeyHydraDeque.ftl
index d058b9d..f9d9f79 100644
--- a/collections/src/main/templates/com/bytefacets/collections/queue/KeyHydraDeque.ftl
+++ b/collections/src/main/templates/com/bytefacets/collections/queue/KeyHydraDeque.ftl
@@ -244,7 +244,7 @@ public final class ${type.name}HydraDeque${generics} {
     private class ForwardIterator${generics} implements ${type.name}Iterator${generics} {
         private int entry;
         private void reset(final int listId) {
-            this.entry = listId >= heads.length ? -1 : heads[listId];
+            this.entry = listId < 0 || listId >= heads.length ? -1 : heads[listId];
         }
         @Override
         public ${type.javaType} next() {
@@ -265,7 +265,7 @@ public final class ${type.name}HydraDeque${generics} {
     private class ReverseIterator${generics} implements ${type.name}Iterator${generics} {
         private int entry;
         private void reset(final int listId) {
-            this.entry = listId >= tails.length ? -1 : tails[listId];
+            this.entry = listId < 0 || listId >= tails.length ? -1 : tails[listId];
         }
         @Override
         public ${type.javaType} next() {
-- 
2.43.0


From ecc0825c5ee3716c04ff80241b92920226fb09dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:11 +0000
Subject: [PATCH 18/39] fix: reset the key when removing through an iterator

The removed key stayed at the released entry, unlike after other removals.
---
 .../java/com/bytefacets/collections/hash/BaseHash.java     | 3 +++
 .../com/bytefacets/collections/hash/BaseKeyIndex.ftl       | 7 ++++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/collections/src/main/java/com/bytefacets/collections/hash/BaseHash.java b/collections/src/main/java/com/bytefacets/collections/hash/BaseHash.java
index 3fb6e77..49f4a72 100644
--- a/collections/src/main/java/com/bytefacets/collections/hash/BaseHash.java
+++ b/collections/src/main/java/com/bytefacets/collections/hash/BaseHash.java
@@ -114,6 +114,8 @@ abstract class BaseHash {
         }
     }
 
+    protected abstract void removeKey(int entry);
+
     protected abstract void removeValue(int entry);
 
     protected abstract void growValues(int size);
@@ -258,6 +260,7 @@ abstract class BaseHash {
             freeList = entry;
             size--;
 
+            removeKey(entry);
             removeValue(entry);
             isRemoved = true;
 
diff --git a/collections/src/main/templates/com/bytefacets/collections/hash/BaseKeyIndex.ftl b/collections/src/main/templates/com/bytefacets/collections/hash/BaseKeyIndex.ftl
index 5da3f1d..2b91d92 100644
--- a/collections/src/main/templates/com/bytefacets/collections/hash/BaseKeyIndex.ftl
+++ b/collections/src/main/templates/com/bytefacets/collections/hash/BaseKeyIndex.ftl
@@ -153,7 +153,7 @@ abstract class Base${type.name}Index${generics} extends BaseHash implements ${ty
         freeList = entry;
 
         // reset key and value
-        keys[entry] = ${type.name}Type.DEFAULT;
+        removeKey(entry);
         removeValue(entry);
     }
 
@@ -287,6 +287,11 @@ abstract class Base${type.name}Index${generics} extends BaseHash implements ${ty
         modificationCount++;
     }
 
+    @Override
+    protected void removeKey(final int entry) {
+        keys[entry] = ${type.name}Type.DEFAULT;
+    }
+
     @Override
     protected void growKeys(final int size) {
         keys = ${type.name}Array.ensureSize(keys, size);
-- 
2.43.0


From 51d107c52826d0734caa5e0470c6b6f0e210317a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:11 +0000
Subject: [PATCH 19/39] fix: let iterators notice a clear

clear reset the modification count, so an iterator obtained after a number of modifications
equal to that later count went on with a stale position instead of failing.
---
 .../src/main/java/com/bytefacets/collections/hash/BaseHash.java | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/collections/src/main/java/com/bytefacets/collections/hash/BaseHash.java b/collections/src/main/java/com/bytefacets/collections/hash/BaseHash.java
index 49f4a72..ef4b072 100644
--- a/collections/src/main/java/com/bytefacets/collections/hash/BaseHash.java
+++ b/collections/src/main/java/com/bytefacets/collections/hash/BaseHash.java
@@ -85,7 +85,7 @@ abstract class BaseHash {
             clearValues();
             size = 0;
         }
-        modificationCount = 0;
+        modificationCount++;
         nextUnusedEntry = 0;
         freeList = -1;
         maxHead = 0;
-- 
2.43.0


From 1fae9e456585d1ae2c451384585f299ca206ce2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:11 +0000
Subject: [PATCH 20/39] fix: clear the keys and values of reserved entries when
 nothing else is left

---
 .../src/main/java/com/bytefacets/collections/hash/BaseHash.java | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/collections/src/main/java/com/bytefacets/collections/hash/BaseHash.java b/collections/src/main/java/com/bytefacets/collections/hash/BaseHash.java
index ef4b072..d806ce6 100644
--- a/collections/src/main/java/com/bytefacets/collections/hash/BaseHash.java
+++ b/collections/src/main/java/com/bytefacets/collections/hash/BaseHash.java
@@ -72,7 +72,7 @@ abstract class BaseHash {
     }
 
     public void clear() {
-        if (size > 0) {
+        if (nextUnusedEntry > 0) {
             int lim;
 
             lim = Math.min(heads.length, maxHead + 1);
-- 
2.43.0


From 38d01a4fa2ecdefacfb362eb5dafb085e6e2153a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:11 +0000
Subject: [PATCH 21/39] fix: keep the free list when rehashing

With a low load factor a rehash can happen while there are free entries, which were lost.
---
 .../templates/com/bytefacets/collections/hash/BaseKeyIndex.ftl  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/collections/src/main/templates/com/bytefacets/collections/hash/BaseKeyIndex.ftl b/collections/src/main/templates/com/bytefacets/collections/hash/BaseKeyIndex.ftl
index 2b91d92..fc10ba1 100644
--- a/collections/src/main/templates/com/bytefacets/collections/hash/BaseKeyIndex.ftl
+++ b/collections/src/main/templates/com/bytefacets/collections/hash/BaseKeyIndex.ftl
@@ -266,7 +266,7 @@ abstract class Base${type.name}Index${generics} extends BaseHash implements ${ty
         calculateNewCapacity();
 
         heads = IntArray.create(capacity, -1);
-        nexts = IntArray.create(capacity, -1);
+        nexts = IntArray.copyOf(oldNexts, capacity, -1); // keeps the free list
 
         // rebuild
         growKeys(capacity);
-- 
2.43.0


From 9a5a94c9d5830e1ed336d5b1131e6d93f9540f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:11 +0000
Subject: [PATCH 22/39] fix: copy the hash and equality functions in copyFrom

The hash table is copied as it is, so keys weren't found with the functions of the target.
---
 .../com/bytefacets/collections/hash/BaseKeyIndex.ftl        | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/collections/src/main/templates/com/bytefacets/collections/hash/BaseKeyIndex.ftl b/collections/src/main/templates/com/bytefacets/collections/hash/BaseKeyIndex.ftl
index fc10ba1..2e2a974 100644
--- a/collections/src/main/templates/com/bytefacets/collections/hash/BaseKeyIndex.ftl
+++ b/collections/src/main/templates/com/bytefacets/collections/hash/BaseKeyIndex.ftl
@@ -26,7 +26,11 @@ abstract class Base${type.name}Index${generics} extends BaseHash implements ${ty
 
     protected void copyFrom(final Base${type.name}Index${generics} source) {
         super.copyFrom(source);
-        
+
+        // the entries are arranged according to these
+        hashFunc = source.hashFunc;
+        equalFunc = source.equalFunc;
+
         // keys array should be big enough
         if(keys.length < source.keys.length ) {
             keys = ${type.name}Array.create(source.keys.length);
-- 
2.43.0


From 811dc9cf3dfc0a6be9bd00d6dcb4d27007ab746d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:11 +0000
Subject: [PATCH 23/39] fix: never issue a snowflake id twice when the clock
 fails during a wait

While waiting for the next millisecond, a clock going backwards was taken for the next
millisecond, and a clock throwing an exception left the sequence restarted in the exhausted one.
---
 .../com/bytefacets/collections/id/Snowflake.java   | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/collections/src/main/java/com/bytefacets/collections/id/Snowflake.java b/collections/src/main/java/com/bytefacets/collections/id/Snowflake.java
index 1cf6cc7..3ff5aca 100644
--- a/collections/src/main/java/com/bytefacets/collections/id/Snowflake.java
+++ b/collections/src/main/java/com/bytefacets/collections/id/Snowflake.java
@@ -65,17 +65,18 @@ public final class Snowflake {
             throw new IllegalStateException("Invalid System Clock!");
         }
 
+        // sequence starts with zero for the next millisecond
+        long nextSequence = 0;
         if (currentTimestamp == lastTimestamp) {
-            sequence = (sequence + 1) & maxSequence;
-            if (sequence == 0) {
+            nextSequence = (sequence + 1) & maxSequence;
+            if (nextSequence == 0) {
                 // Sequence Exhausted, wait till next millisecond.
                 currentTimestamp = waitNextMillis(currentTimestamp);
             }
-        } else {
-            // reset sequence to start with zero for the next millisecond
-            sequence = 0;
         }
 
+        // only now, because the clock may throw
+        sequence = nextSequence;
         lastTimestamp = currentTimestamp;
 
         final long id =
@@ -97,6 +98,9 @@ public final class Snowflake {
         while (nextTimestamp == lastTimestamp) {
             nextTimestamp = timestamp();
         }
+        if (nextTimestamp < lastTimestamp) {
+            throw new IllegalStateException("Invalid System Clock!");
+        }
         return nextTimestamp;
     }
 
-- 
2.43.0


From 134173683cd7983e1135ebfb01b1f7b1b81272fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:11 +0000
Subject: [PATCH 24/39] fix: stop doubling arrays before the length overflows

Ensuring a size above 2^30 looped forever.
---
 .../templates/com/bytefacets/collections/arrays/KeyArray.ftl | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/collections/src/main/templates/com/bytefacets/collections/arrays/KeyArray.ftl b/collections/src/main/templates/com/bytefacets/collections/arrays/KeyArray.ftl
index 66c14fc..168db82 100644
--- a/collections/src/main/templates/com/bytefacets/collections/arrays/KeyArray.ftl
+++ b/collections/src/main/templates/com/bytefacets/collections/arrays/KeyArray.ftl
@@ -10,6 +10,8 @@ import java.util.Arrays;
 /** Utility class for ${type.name} */
 <#if type.generic>@SuppressWarnings("unchecked")</#if>
 public final class ${type.name}Array {
+    private static final int MAX_ARRAY_SIZE = Integer.MAX_VALUE - 8;
+
     private ${type.name}Array() {
 
     }
@@ -142,6 +144,9 @@ public final class ${type.name}Array {
             newLength = 1;
         }
         while(newLength < necessarySize) {
+            if(newLength > MAX_ARRAY_SIZE >> 1) {
+                return Math.max(necessarySize, MAX_ARRAY_SIZE); // can't double any more
+            }
             newLength <<= 1;
         }
         return newLength;
-- 
2.43.0


From f0a669b1886429055289c8a9f4c3877c8f7866fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:11 +0000
Subject: [PATCH 25/39] fix: convert a Character to char

---
 .../main/java/com/bytefacets/collections/types/CharType.java   | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/collections/src/main/java/com/bytefacets/collections/types/CharType.java b/collections/src/main/java/com/bytefacets/collections/types/CharType.java
index 32f8ba7..5ec9390 100644
--- a/collections/src/main/java/com/bytefacets/collections/types/CharType.java
+++ b/collections/src/main/java/com/bytefacets/collections/types/CharType.java
@@ -91,6 +91,9 @@ public final class CharType {
         if (Number.class.isAssignableFrom(type)) {
             return (char) ((Number) value).intValue();
         }
+        if (Character.class.isAssignableFrom(type)) {
+            return (Character) value;
+        }
         if (String.class.isAssignableFrom(type)) {
             return parseString((String) value);
         }
-- 
2.43.0


From 3c2147806b7f09f8e2b518b0ea32347fbbb2494e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:11 +0000
Subject: [PATCH 26/39] fix: keep the component type when resizing generic
 arrays

The Object[] returned for e.g. a String[] failed with ClassCastException at the caller.
---
 .../templates/com/bytefacets/collections/arrays/KeyArray.ftl  | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/collections/src/main/templates/com/bytefacets/collections/arrays/KeyArray.ftl b/collections/src/main/templates/com/bytefacets/collections/arrays/KeyArray.ftl
index 168db82..c0c156b 100644
--- a/collections/src/main/templates/com/bytefacets/collections/arrays/KeyArray.ftl
+++ b/collections/src/main/templates/com/bytefacets/collections/arrays/KeyArray.ftl
@@ -58,9 +58,7 @@ public final class ${type.name}Array {
 </#if>
     /** Resizes the given array to the new size. There are no bounds checks. */
     public static ${generics} ${type.javaType}[] resize(final ${type.javaType}[] array, final int newSize) {
-        final ${type.javaType}[] dest = create(newSize);
-        System.arraycopy(array, 0, dest, 0, Math.min(array.length, newSize));
-        return dest;
+        return copyOf(array, newSize);
     }
 
     /** Fills the section of the array with the given value. There are no bounds checks. */
-- 
2.43.0


From 6e37495a9d019b5775e81728d947fe68d1c79aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:11 +0000
Subject: [PATCH 27/39] fix: check the range of a companion sort without
 overflow

A huge offset or length passed the check and failed later with ArrayIndexOutOfBoundsException,
after elements had been moved.
---
 .../collections/sort/KeyValueCompanionSort.ftl        | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/collections/src/main/templates/com/bytefacets/collections/sort/KeyValueCompanionSort.ftl b/collections/src/main/templates/com/bytefacets/collections/sort/KeyValueCompanionSort.ftl
index db0f7bc..9dde315 100644
--- a/collections/src/main/templates/com/bytefacets/collections/sort/KeyValueCompanionSort.ftl
+++ b/collections/src/main/templates/com/bytefacets/collections/sort/KeyValueCompanionSort.ftl
@@ -16,17 +16,16 @@ public final class ${key.name}${value.name}CompanionSort {
      * Sun's JDK QuickSort implementation with two arrays.
      */
     public static void sort(${key.arrayType}[] pri, ${value.arrayType}[] sec, int off, int len, ${key.name}Type.Cmp cmp) {
-        // Insertion sort on smallest arrays
-        if( off + len > pri.length )
+        if( off < 0 || len < 0 )
+            throw new IllegalArgumentException("offset or len is negative: offset="+off+" len="+len);
+        if( len > pri.length - off )
             throw new IllegalArgumentException(
                 "offset+len > primary.length: offset="+off+" len="+len+" array.length="+pri.length);
-        if( off + len > sec.length )
+        if( len > sec.length - off )
             throw new IllegalArgumentException(
                 "offset+len > secondary.length: offset="+off+" len="+len+" array.length="+sec.length);
-        if( off < 0 || len < 0 )
-            throw new IllegalArgumentException("offset or len is negative: offset="+off+" len="+len);
-
 
+        // Insertion sort on smallest arrays
         if( len < 7 ) {
             for( int i = off; i < len + off; i++ ) {
                 for( int j = i; j > off && cmp.compare( pri[ j - 1 ], pri[ j ] ) > 0; j-- ) {
-- 
2.43.0


From 25368570ebd6378842955fe034828bbced8bcd66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:30 +0000
Subject: [PATCH 28/39] fix: keep the cell index of matrix stores within int

The product of row and number of fields could overflow: setting a high row then replaced the
chunks by fewer ones and lost data or wrote another row's cell, and so did very negative rows.
---
 .../collections/store/KeyChunkMatrixStore.ftl | 30 +++++++++++++++----
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/collections/src/main/templates/com/bytefacets/collections/store/KeyChunkMatrixStore.ftl b/collections/src/main/templates/com/bytefacets/collections/store/KeyChunkMatrixStore.ftl
index 54a8dfd..88b8c00 100644
--- a/collections/src/main/templates/com/bytefacets/collections/store/KeyChunkMatrixStore.ftl
+++ b/collections/src/main/templates/com/bytefacets/collections/store/KeyChunkMatrixStore.ftl
@@ -11,6 +11,8 @@ import com.bytefacets.collections.types.${type.name}Type;
 
 import java.util.Arrays;
 
+import static com.bytefacets.collections.exception.ResizeException.cannotResize;
+
 /**
  * A matrix store for ${type.javaType} values which are stored in array "chunks". Using chunks is
  * especially beneficial for resizing because only new chunks need to be allocated and the
@@ -39,10 +41,10 @@ public final class ${type.name}ChunkMatrixStore${generics} implements ${type.nam
         this.chunkMask = this.chunkSize - 1;
         this.shift = Long.numberOfTrailingZeros(this.chunkSize);
         this.numFields = numFields;
-        final int rawSize = initialSize * numFields;
+        final int rawSize = Math.multiplyExact(initialSize, numFields);
         final int requiredChunks = (int) Math.ceil((double)rawSize / (double)this.chunkSize);
         this.chunks = new ${type.arrayType}[requiredChunks][this.chunkSize];
-        this.capacity = (chunks.length * this.chunkSize) / numFields;
+        this.capacity = fullRows();
     }
 
     private void assertValidConfig(final int initialSize, final int chunkSize, final int numFields) {
@@ -67,7 +69,7 @@ public final class ${type.name}ChunkMatrixStore${generics} implements ${type.nam
         if(row >= capacity) {
             return ${type.cast}${type.name}Type.DEFAULT;
         }
-        final int absoluteIx = (row * numFields) + field;
+        final int absoluteIx = absoluteIndex(row, field);
         final int offset = absoluteIx & chunkMask;
         final int chunk = absoluteIx >> shift;
         return ${type.cast}chunks[chunk][offset];
@@ -76,7 +78,9 @@ public final class ${type.name}ChunkMatrixStore${generics} implements ${type.nam
     /**
      * Sets the value at the given row and field, growing the store if necessary.
      *
+     * @throws IndexOutOfBoundsException if the row is negative
      * @throws com.bytefacets.collections.exception.RangeCheckException if the field is not within [0, numFields)
+     * @throws com.bytefacets.collections.exception.ResizeException if the store cannot grow to the row
      */
     @Override
     public void set${type.name}(final int row, final int field, final ${type.javaType} value) {
@@ -84,7 +88,7 @@ public final class ${type.name}ChunkMatrixStore${generics} implements ${type.nam
         if(row >= capacity) {
             grow(row+1);
         }
-        final int absoluteIx = (row * numFields) + field;
+        final int absoluteIx = absoluteIndex(row, field);
         final int offset = absoluteIx & chunkMask;
         final int chunk = absoluteIx >> shift;
         chunks[chunk][offset] = value;
@@ -100,14 +104,28 @@ public final class ${type.name}ChunkMatrixStore${generics} implements ${type.nam
         return chunks.length;
     }
 
+    private int absoluteIndex(final int row, final int field) {
+        if(row < 0) { // or else the product can overflow into the index of another row
+            throw new IndexOutOfBoundsException("row: " + row);
+        }
+        return (row * numFields) + field;
+    }
+
     private void grow(final int row) {
-        final int rawSize = row * numFields;
+        final long rawSize = (long) row * numFields;
+        if(rawSize <= 0 || rawSize > Integer.MAX_VALUE) { // cells have int indexes
+            throw cannotResize(getClass(), "${type.arrayType}[][]", capacity, row);
+        }
         final int requiredChunks = (int) Math.ceil((double)rawSize / (double)chunkSize);
         final int oldLen = chunks.length;
         this.chunks = Arrays.copyOf(chunks, requiredChunks);
         for(int i = oldLen; i < chunks.length; i++) {
             chunks[i] = ${type.name}Array.create(chunkSize);
         }
-        this.capacity = (chunks.length * chunkSize) / numFields;
+        this.capacity = fullRows();
+    }
+
+    private int fullRows() {
+        return (int) Math.min(Integer.MAX_VALUE, ((long) chunks.length * chunkSize) / numFields);
     }
 }
-- 
2.43.0


From a47a11de1d21e8dd73939265245f4f29d25eb872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:30 +0000
Subject: [PATCH 29/39] fix: keep the capacity of chunk stores positive when
 they span all indexes

---
 .../com/bytefacets/collections/store/KeyChunkStore.ftl          | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/collections/src/main/templates/com/bytefacets/collections/store/KeyChunkStore.ftl b/collections/src/main/templates/com/bytefacets/collections/store/KeyChunkStore.ftl
index 1f585f7..2017f3a 100644
--- a/collections/src/main/templates/com/bytefacets/collections/store/KeyChunkStore.ftl
+++ b/collections/src/main/templates/com/bytefacets/collections/store/KeyChunkStore.ftl
@@ -75,6 +75,6 @@ public final class ${type.name}ChunkStore${generics} implements ${type.name}Stor
         for(int i = oldLen; i < chunks.length; i++) {
             chunks[i] = ${type.name}Array.create(chunkSize);
         }
-        this.capacity = chunks.length * this.chunkSize;
+        this.capacity = (int) Math.min(Integer.MAX_VALUE, (long) chunks.length * this.chunkSize);
     }
 }
-- 
2.43.0


From 23cb957477c13601ad86597e9af5cd378d8c14c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:30 +0000
Subject: [PATCH 30/39] fix: refuse an element of a deque at maximum capacity
 before adding it

The element was added and then the growth refused, which left the deque looking empty to
forEach and overwriting elements.
---
 .../bytefacets/collections/queue/KeyDeque.ftl   | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/collections/src/main/templates/com/bytefacets/collections/queue/KeyDeque.ftl b/collections/src/main/templates/com/bytefacets/collections/queue/KeyDeque.ftl
index 285ac9f..90b6ff6 100644
--- a/collections/src/main/templates/com/bytefacets/collections/queue/KeyDeque.ftl
+++ b/collections/src/main/templates/com/bytefacets/collections/queue/KeyDeque.ftl
@@ -43,6 +43,7 @@ public final class ${type.name}Deque${generics} implements ${type.name}Iterable$
 
     /** Adds the value to the front of the deque. */
     public void addFirst(final ${type.javaType} value) {
+        assertCanAdd();
         values[head = dec(head, values.length)] = value;
         size++;
         if(head == tail) {
@@ -52,6 +53,7 @@ public final class ${type.name}Deque${generics} implements ${type.name}Iterable$
 
     /** Adds the value to the back of the deque. */
     public void addLast(final ${type.javaType} value) {
+        assertCanAdd();
         values[tail] = value;
         size++;
         if(head == (tail = inc(tail, values.length))) {
@@ -155,11 +157,24 @@ public final class ${type.name}Deque${generics} implements ${type.name}Iterable$
     }
 
     private static final int MAX_ARRAY_SIZE = Integer.MAX_VALUE - 8;
-    private void grow() {
+
+    /** One slot always stays free, so the last one is only taken if the deque can grow. */
+    private void assertCanAdd() {
+        if(size + 1 == values.length) {
+            calculateNewSize();
+        }
+    }
+
+    private int calculateNewSize() {
         final int newSize = calculateNewCapacity(this, values.length, Integer.MAX_VALUE);
         if(newSize == values.length) {
             throw cannotResize(getClass(), values.getClass().getName(), values.length, newSize);
         }
+        return newSize;
+    }
+
+    private void grow() {
+        final int newSize = calculateNewSize();
         final ${type.arrayType}[] newValues = ${type.name}Array.create(newSize);
 
         // rebuild the queue taking the end of the queue and putting it at the beginning
-- 
2.43.0


From 44dbe7c483c723b2c86dc55e7023c7b916b50c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:30 +0000
Subject: [PATCH 31/39] fix: refuse to ensure an entry which no array can have

The required size overflowed and the array was returned as if it could accommodate the entry.
---
 .../templates/com/bytefacets/collections/arrays/KeyArray.ftl  | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/collections/src/main/templates/com/bytefacets/collections/arrays/KeyArray.ftl b/collections/src/main/templates/com/bytefacets/collections/arrays/KeyArray.ftl
index c0c156b..6a5a140 100644
--- a/collections/src/main/templates/com/bytefacets/collections/arrays/KeyArray.ftl
+++ b/collections/src/main/templates/com/bytefacets/collections/arrays/KeyArray.ftl
@@ -119,7 +119,7 @@ public final class ${type.name}Array {
      * original array is 0-length, the array is grown as if it were size 1.
      */
     public static ${generics} ${type.javaType}[] ensureEntry(final ${type.javaType}[] array, final int entry) {
-        return ensureSize(array, entry + 1);
+        return ensureSize(array, Math.addExact(entry, 1));
     }
 
     /**
@@ -129,7 +129,7 @@ public final class ${type.name}Array {
      * array is grown as if it were size 1.
      */
     public static ${generics} ${type.javaType}[] ensureEntry(final ${type.javaType}[] array, final int entry, final ${type.javaType} initialValue) {
-        return ensureSize(array, entry + 1, initialValue);
+        return ensureSize(array, Math.addExact(entry, 1), initialValue);
     }
 
     /**
-- 
2.43.0


From 9fecc14209563c0e0ca3db8c56cee38935785259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:43 +0000
Subject: [PATCH 32/39] fix: companion sort recurses on the smaller partition
 so that no input overflows the stack

---
 .../sort/KeyValueCompanionSort.ftl            | 103 ++++++++++--------
 1 file changed, 55 insertions(+), 48 deletions(-)

diff --git a/collections/src/main/templates/com/bytefacets/collections/sort/KeyValueCompanionSort.ftl b/collections/src/main/templates/com/bytefacets/collections/sort/KeyValueCompanionSort.ftl
index 9dde315..4695549 100644
--- a/collections/src/main/templates/com/bytefacets/collections/sort/KeyValueCompanionSort.ftl
+++ b/collections/src/main/templates/com/bytefacets/collections/sort/KeyValueCompanionSort.ftl
@@ -25,62 +25,69 @@ public final class ${key.name}${value.name}CompanionSort {
             throw new IllegalArgumentException(
                 "offset+len > secondary.length: offset="+off+" len="+len+" array.length="+sec.length);
 
-        // Insertion sort on smallest arrays
-        if( len < 7 ) {
-            for( int i = off; i < len + off; i++ ) {
-                for( int j = i; j > off && cmp.compare( pri[ j - 1 ], pri[ j ] ) > 0; j-- ) {
-                    swap( pri, sec, j, j - 1 );
+        while( len >= 7 ) {
+            // Choose a partition element, v
+            int m = off + ( len >> 1 ); // Small arrays, middle element
+            if( len > 7 ) {
+                int l = off;
+                int n = off + len - 1;
+                if( len > 40 ) {
+                    // Big arrays, pseudomedian of 9
+                    int s = len / 8;
+                    l = med3( pri, l, l + s, l + 2 * s, cmp );
+                    m = med3( pri, m - s, m, m + s , cmp);
+                    n = med3( pri, n - 2 * s, n - s, n , cmp );
                 }
+                m = med3( pri, l, m, n , cmp); // Mid-size, med of 3
             }
-            return;
-        }
+            ${key.arrayType} v = pri[ m ];
 
-        // Choose a partition element, v
-        int m = off + ( len >> 1 ); // Small arrays, middle element
-        if( len > 7 ) {
-            int l = off;
-            int n = off + len - 1;
-            if( len > 40 ) {
-                // Big arrays, pseudomedian of 9
-                int s = len / 8;
-                l = med3( pri, l, l + s, l + 2 * s, cmp );
-                m = med3( pri, m - s, m, m + s , cmp);
-                n = med3( pri, n - 2 * s, n - s, n , cmp );
+            // Establish Invariant: v* (<v)* (>v)* v*
+            int a = off, b = a, c = off + len - 1, d = c;
+            while( true ) {
+                while( b <= c && cmp.compare( pri[ b ], v ) <= 0 ) {
+                    if( cmp.compare( pri[ b ], v ) == 0 )
+                        swap( pri, sec, a++, b );
+                    b++;
+                }
+                while( c >= b && cmp.compare( pri[ c ], v ) >= 0 ) {
+                    if( cmp.compare( pri[ c ], v ) == 0 )
+                        swap( pri, sec, c, d-- );
+                    c--;
+                }
+                if( b > c )
+                    break;
+                swap( pri, sec, b++, c-- );
             }
-            m = med3( pri, l, m, n , cmp); // Mid-size, med of 3
-        }
-        ${key.arrayType} v = pri[ m ];
 
-        // Establish Invariant: v* (<v)* (>v)* v*
-        int a = off, b = a, c = off + len - 1, d = c;
-        while( true ) {
-            while( b <= c && cmp.compare( pri[ b ], v ) <= 0 ) {
-                if( cmp.compare( pri[ b ], v ) == 0 )
-                    swap( pri, sec, a++, b );
-                b++;
-            }
-            while( c >= b && cmp.compare( pri[ c ], v ) >= 0 ) {
-                if( cmp.compare( pri[ c ], v ) == 0 )
-                    swap( pri, sec, c, d-- );
-                c--;
+            // Swap partition elements back to middle
+            int s, n = off + len;
+            s = Math.min( a - off, b - a );
+            vecswap( pri, sec, off, b - s, s );
+            s = Math.min( d - c, n - d - 1 );
+            vecswap( pri, sec, b, n - s, s );
+
+            // Recursively sort the smaller part of the non-partition-elements and continue with the
+            // larger one, which bounds the depth of the recursion
+            int left = b - a, right = d - c;
+            if( left == len || right == len )
+                throw new IllegalArgumentException("Comparison method violates its general contract");
+            if( left < right ) {
+                sort( pri, sec, off, left, cmp );
+                off = n - right;
+                len = right;
+            } else {
+                sort( pri, sec, n - right, right, cmp );
+                len = left;
             }
-            if( b > c )
-                break;
-            swap( pri, sec, b++, c-- );
         }
 
-        // Swap partition elements back to middle
-        int s, n = off + len;
-        s = Math.min( a - off, b - a );
-        vecswap( pri, sec, off, b - s, s );
-        s = Math.min( d - c, n - d - 1 );
-        vecswap( pri, sec, b, n - s, s );
-
-        // Recursively sort non-partition-elements
-        if( ( s = b - a ) > 1 )
-            sort( pri, sec, off, s, cmp );
-        if( ( s = d - c ) > 1 )
-            sort( pri, sec, n - s, s, cmp );
+        // Insertion sort on smallest arrays
+        for( int i = off; i < len + off; i++ ) {
+            for( int j = i; j > off && cmp.compare( pri[ j - 1 ], pri[ j ] ) > 0; j-- ) {
+                swap( pri, sec, j, j - 1 );
+            }
+        }
     }
 
     /**
-- 
2.43.0


From f243ac79e79cfa97f1661c6074dda31683765eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:15 +0000
Subject: [PATCH 33/39] fix: refuse a NaN load factor

---
 .../src/main/java/com/bytefacets/collections/hash/BaseHash.java | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/collections/src/main/java/com/bytefacets/collections/hash/BaseHash.java b/collections/src/main/java/com/bytefacets/collections/hash/BaseHash.java
index d806ce6..51b9779 100644
--- a/collections/src/main/java/com/bytefacets/collections/hash/BaseHash.java
+++ b/collections/src/main/java/com/bytefacets/collections/hash/BaseHash.java
@@ -31,7 +31,7 @@ abstract class BaseHash {
         if (initialCapacity <= 0 || initialCapacity > MAX_CAPACITY) {
             throw new IllegalArgumentException("Invalid initialCapacity: " + initialCapacity);
         }
-        if (loadFactor <= 0 || loadFactor > 1) {
+        if (!(loadFactor > 0 && loadFactor <= 1)) { // also refuses NaN
             throw new IllegalArgumentException("Invalid loadFactor: " + loadFactor);
         }
 
-- 
2.43.0


From 46b37609bfaee404944c29ac76a20737ab90255b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:15 +0000
Subject: [PATCH 34/39] fix: refuse heap growth above the maximum capacity
 instead of shrinking

---
 .../src/main/java/com/bytefacets/collections/heap/BaseHeap.java | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/collections/src/main/java/com/bytefacets/collections/heap/BaseHeap.java b/collections/src/main/java/com/bytefacets/collections/heap/BaseHeap.java
index f01a1d8..400f862 100755
--- a/collections/src/main/java/com/bytefacets/collections/heap/BaseHeap.java
+++ b/collections/src/main/java/com/bytefacets/collections/heap/BaseHeap.java
@@ -64,7 +64,7 @@ abstract class BaseHeap {
 
     protected int calculateNewCapacity() {
         final int capacity = tree.length;
-        if (capacity == MAX_CAPACITY) {
+        if (capacity >= MAX_CAPACITY) { // more, if that was the initial capacity
             throw cannotResize(getClass(), "int[]", capacity, capacity + 1);
         }
 
-- 
2.43.0


From 1f1c5bbfe3fb75caa4a6b8f332e159151ded7755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:12 +0000
Subject: [PATCH 35/39] fix: keep the capacity of a chunk store made for every
 index from overflowing

---
 .../com/bytefacets/collections/store/KeyChunkStore.ftl          | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/collections/src/main/templates/com/bytefacets/collections/store/KeyChunkStore.ftl b/collections/src/main/templates/com/bytefacets/collections/store/KeyChunkStore.ftl
index 2017f3a..4d4c150 100644
--- a/collections/src/main/templates/com/bytefacets/collections/store/KeyChunkStore.ftl
+++ b/collections/src/main/templates/com/bytefacets/collections/store/KeyChunkStore.ftl
@@ -28,7 +28,7 @@ public final class ${type.name}ChunkStore${generics} implements ${type.name}Stor
         this.shift = Long.numberOfTrailingZeros(this.chunkSize);
         final int requiredChunks = (int) Math.ceil((double)initialSize / (double)this.chunkSize);
         this.chunks = new ${type.arrayType}[requiredChunks][this.chunkSize];
-        this.capacity = chunks.length * this.chunkSize;
+        this.capacity = (int) Math.min(Integer.MAX_VALUE, (long) chunks.length * this.chunkSize);
     }
 
     /** Returns the value at the given index. */
-- 
2.43.0


From 70444518b813ec87d0a9b50dafe682fdadf197d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:54 +0000
Subject: [PATCH 36/39] fix: export the sort package from the module

---
 collections/src/main/java/module-info.java | 1 +
 1 file changed, 1 insertion(+)

diff --git a/collections/src/main/java/module-info.java b/collections/src/main/java/module-info.java
index abdab9f..6a9253b 100644
--- a/collections/src/main/java/module-info.java
+++ b/collections/src/main/java/module-info.java
@@ -10,6 +10,7 @@ module com.bytefacets.collections {
     exports com.bytefacets.collections.heap;
     exports com.bytefacets.collections.id;
     exports com.bytefacets.collections.queue;
+    exports com.bytefacets.collections.sort;
     exports com.bytefacets.collections.store;
     exports com.bytefacets.collections.types;
     exports com.bytefacets.collections.vector;
-- 
2.43.0


From a286fc49299e8f02ca8f90d7f79d5a812f9c6dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:57 +0000
Subject: [PATCH 37/39] fix: spread the hash codes of whole float and double
 numbers over the low bits

---
 .../java/com/bytefacets/collections/types/DoubleType.java | 8 +++++++-
 .../java/com/bytefacets/collections/types/FloatType.java  | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/collections/src/main/java/com/bytefacets/collections/types/DoubleType.java b/collections/src/main/java/com/bytefacets/collections/types/DoubleType.java
index aad9014..b5a88da 100644
--- a/collections/src/main/java/com/bytefacets/collections/types/DoubleType.java
+++ b/collections/src/main/java/com/bytefacets/collections/types/DoubleType.java
@@ -71,7 +71,13 @@ public final class DoubleType {
         int code(double v);
     }
 
-    public static final Hash HashImpl = Double::hashCode;
+    public static final Hash HashImpl = v -> mix(Double.hashCode(v));
+
+    /** The codes of whole numbers differ in high bits only, while tables select by the low bits. */
+    private static int mix(final int code) {
+        final int product = code * 0x9E3779B9;
+        return product ^ (product >>> 16);
+    }
 
     public static int castToInt(final double value) {
         return (int) value;
diff --git a/collections/src/main/java/com/bytefacets/collections/types/FloatType.java b/collections/src/main/java/com/bytefacets/collections/types/FloatType.java
index 7b28a26..4e2b155 100644
--- a/collections/src/main/java/com/bytefacets/collections/types/FloatType.java
+++ b/collections/src/main/java/com/bytefacets/collections/types/FloatType.java
@@ -59,7 +59,13 @@ public final class FloatType {
         int code(float v);
     }
 
-    public static final Hash HashImpl = Float::hashCode;
+    public static final Hash HashImpl = v -> mix(Float.hashCode(v));
+
+    /** The codes of whole numbers differ in high bits only, while tables select by the low bits. */
+    private static int mix(final int code) {
+        final int product = code * 0x9E3779B9;
+        return product ^ (product >>> 16);
+    }
 
     public static int castToInt(final float value) {
         return (int) value;
-- 
2.43.0


From e91695a42e40a5e8ccef7b222c983f0d329bcd47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:57 +0000
Subject: [PATCH 38/39] fix: give packed pairs of small numbers different hash
 codes

---
 .../main/java/com/bytefacets/collections/types/LongType.java   | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/collections/src/main/java/com/bytefacets/collections/types/LongType.java b/collections/src/main/java/com/bytefacets/collections/types/LongType.java
index 34d50cd..b97dafd 100644
--- a/collections/src/main/java/com/bytefacets/collections/types/LongType.java
+++ b/collections/src/main/java/com/bytefacets/collections/types/LongType.java
@@ -61,7 +61,8 @@ public final class LongType {
         int code(long v);
     }
 
-    public static final Hash HashImpl = Long::hashCode;
+    /** Unlike Long.hashCode, gives packed pairs of small numbers different codes. */
+    public static final Hash HashImpl = v -> (int) ((v * 0x9E3779B97F4A7C15L) >>> 32);
 
     public static int castToInt(final long value) {
         return (int) value;
-- 
2.43.0


From d7df5dd9e1b33fa02f8133f247c67027f95a30cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:19 +0000
Subject: [PATCH 39/39] fix: spread the entries over the larger capacity of the
 copy's target

---
 .../collections/hash/BaseKeyIndex.ftl         | 24 ++++++++++---------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/collections/src/main/templates/com/bytefacets/collections/hash/BaseKeyIndex.ftl b/collections/src/main/templates/com/bytefacets/collections/hash/BaseKeyIndex.ftl
index 2e2a974..ea48ce6 100644
--- a/collections/src/main/templates/com/bytefacets/collections/hash/BaseKeyIndex.ftl
+++ b/collections/src/main/templates/com/bytefacets/collections/hash/BaseKeyIndex.ftl
@@ -42,6 +42,10 @@ abstract class Base${type.name}Index${generics} extends BaseHash implements ${ty
 
         capacity = keys.length;
         capThreshold = (int) (capacity * loadFactor);
+
+        if(heads.length < capacity) { // spread the entries over the larger capacity
+            relink(heads, nexts);
+        }
     }
 
     @Override
@@ -262,19 +266,18 @@ abstract class Base${type.name}Index${generics} extends BaseHash implements ${ty
     }
 
     private void rehash() {
-        // prepare swap
-        final int[] oldHeads = heads;
-        final int[] oldNexts = nexts;
-        final ${type.arrayType}[] oldKeys  = keys;
-
         calculateNewCapacity();
 
-        heads = IntArray.create(capacity, -1);
-        nexts = IntArray.copyOf(oldNexts, capacity, -1); // keeps the free list
-
-        // rebuild
         growKeys(capacity);
         growValues(capacity);
+        relink(heads, nexts);
+        modificationCount++;
+    }
+
+    /** Rebuilds the lists of entries at the current capacity. */
+    private void relink(final int[] oldHeads, final int[] oldNexts) {
+        heads = IntArray.create(capacity, -1);
+        nexts = IntArray.copyOf(oldNexts, capacity, -1); // keeps the free list
 
         // walk through the old heads and process each list
         final int len = Math.min(maxHead + 1, oldHeads.length); // limit loop
@@ -282,13 +285,12 @@ abstract class Base${type.name}Index${generics} extends BaseHash implements ${ty
         for(int i = 0; i < len; i++) {
             int entry = oldHeads[i];
             while(entry >= 0) {
-                final int newHead = computeHead(${type.cast}oldKeys[entry]);
+                final int newHead = computeHead(${type.cast}keys[entry]);
                 registerNewEntryForHead(newHead, entry);
                 updateMaxHead(newHead);
                 entry = oldNexts[entry]; // the next entry in the old list
             }
         }
-        modificationCount++;
     }
 
     @Override
-- 
2.43.0

