From c39a12329c7771924e30766911c8c4d51605acf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:25 +0000
Subject: [PATCH 01/13] fix: array2d: use the width as row stride

Cells were addressed as x+y*height, so any non-square array had aliased
cells or panicked on valid coordinates.
---
 array2d/array2d.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/array2d/array2d.go b/array2d/array2d.go
index 172283c..e8fa9ab 100644
--- a/array2d/array2d.go
+++ b/array2d/array2d.go
@@ -78,7 +78,7 @@ func (a Array2D[T]) Get(x, y int) T {
 }
 
 func (a Array2D[T]) getUnchecked(x, y int) T {
-	return a.slice[x+y*a.height]
+	return a.slice[x+y*a.width]
 }
 
 // Set sets a value in the array.
@@ -95,7 +95,7 @@ func (a Array2D[T]) Set(x, y int, value T) {
 }
 
 func (a Array2D[T]) setUnchecked(x, y int, value T) {
-	a.slice[x+y*a.height] = value
+	a.slice[x+y*a.width] = value
 }
 
 // Width returns the width of this array. The maximum x value is Width()-1.
@@ -134,7 +134,7 @@ func (a Array2D[T]) RowSpan(x1, x2, y int) []T {
 	if x2 < x1 {
 		x1, x2 = x2, x1
 	}
-	return a.slice[x1+y*a.height : 1+x2+y*a.height]
+	return a.slice[x1+y*a.width : 1+x2+y*a.width]
 }
 
 // Row returns a mutable slice for an entire row. Changing values in this slice
@@ -143,7 +143,7 @@ func (a Array2D[T]) Row(y int) []T {
 	if y < 0 || y >= a.height {
 		panic(fmt.Sprintf("array2d: y index out of range [%d] with height %d", y, a.height))
 	}
-	return a.slice[y*a.height : a.width+y*a.height]
+	return a.slice[y*a.width : a.width+y*a.width]
 }
 
 // Fill will assign all values inside the region to the specified value.
@@ -171,10 +171,10 @@ func (a Array2D[T]) Fill(x1, y1, x2, y2 int, value T) {
 	if y2 < y1 {
 		y1, y2 = y2, y1
 	}
-	firstRow := a.slice[x1+y1*a.height : 1+x2+y1*a.height]
+	firstRow := a.slice[x1+y1*a.width : 1+x2+y1*a.width]
 	fill(firstRow, value)
 	for y := y1 + 1; y <= y2; y++ {
-		copy(a.slice[x1+y*a.height:1+x2+y*a.height], firstRow)
+		copy(a.slice[x1+y*a.width:1+x2+y*a.width], firstRow)
 	}
 }
 
-- 
2.43.0


From 90bc1a552646458584a3fc09c556c5331f3dffe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:25 +0000
Subject: [PATCH 02/13] fix: array2d: ignore out-of-bounds rows in OfJagged

The documentation says they are ignored; they caused a panic.
---
 array2d/array2d.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/array2d/array2d.go b/array2d/array2d.go
index e8fa9ab..dad7379 100644
--- a/array2d/array2d.go
+++ b/array2d/array2d.go
@@ -32,6 +32,9 @@ func NewFilled[T any](width, height int, value T) Array2D[T] {
 func OfJagged[J ~[]S, S ~[]E, E any](width, height int, jagged J) Array2D[E] {
 	arr := New[E](width, height)
 	for y, row := range jagged {
+		if y >= height {
+			break
+		}
 		copy(arr.Row(y), row)
 	}
 	return arr
-- 
2.43.0


From ce2b4282fd061bb453348546cfab0fab88104304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:25 +0000
Subject: [PATCH 03/13] fix: btree: do not count an overwritten key twice

Put incremented Size even if the key was already present.
---
 btree/btree.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/btree/btree.go b/btree/btree.go
index c96e2ea..adf20ee 100644
--- a/btree/btree.go
+++ b/btree/btree.go
@@ -77,8 +77,10 @@ func (t *Tree[K, V]) search(x *node[K, V], key K, height int) (V, bool) {
 
 // Put associates 'key' with 'val'.
 func (t *Tree[K, V]) Put(key K, val V) {
+	if _, ok := t.Get(key); !ok {
+		t.n++
+	}
 	u := t.insert(t.root, key, val, t.height, true)
-	t.n++
 	if u == nil {
 		return
 	}
-- 
2.43.0


From e9cb0bef7c961e3f3924f57e30766d6ad86f9e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:25 +0000
Subject: [PATCH 04/13] fix: cache: do not panic in Put when the capacity is
 zero

---
 cache/cache.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cache/cache.go b/cache/cache.go
index b67844b..416f822 100644
--- a/cache/cache.go
+++ b/cache/cache.go
@@ -54,6 +54,10 @@ func (t *Cache[K, V]) Put(k K, e V) {
 		return
 	}
 
+	if t.capacity <= 0 {
+		// There is no room for any entry.
+		return
+	}
 	if len(t.table) == t.capacity {
 		t.evict()
 	}
-- 
2.43.0


From 8d044d9ed425764e097f57d750b767c821dac1a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:25 +0000
Subject: [PATCH 05/13] fix: cache: remove the evicted node even if the
 callback looked it up

A callback calling Get on the key being evicted moved it to the front, so a
different node was unlinked than the one deleted from the table.
---
 cache/cache.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cache/cache.go b/cache/cache.go
index 416f822..942589e 100644
--- a/cache/cache.go
+++ b/cache/cache.go
@@ -72,11 +72,12 @@ func (t *Cache[K, V]) Put(k K, e V) {
 }
 
 func (t *Cache[K, V]) evict() {
-	entry := t.lru.Back.Value
+	n := t.lru.Back
+	entry := n.Value
 	if t.evictCb != nil {
 		t.evictCb(entry.Key, entry.Val)
 	}
-	t.lru.Remove(t.lru.Back)
+	t.lru.Remove(n)
 	delete(t.table, entry.Key)
 }
 
-- 
2.43.0


From 690c82eddbe1c1ab58f439cc30609ccdb2ac943a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:25 +0000
Subject: [PATCH 06/13] fix: hashmap: Clear must not write to a table shared
 with a copy

Clearing a map erased the entries of its copies as well.
---
 hashmap/map.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/hashmap/map.go b/hashmap/map.go
index 088978a..87279f2 100644
--- a/hashmap/map.go
+++ b/hashmap/map.go
@@ -172,6 +172,13 @@ func (m *Map[K, V]) Remove(key K) {
 
 // Clear removes all key-value pairs from the map.
 func (m *Map[K, V]) Clear() {
+	if m.readonly {
+		entries := make([]entry[K, V], len(m.entries), cap(m.entries))
+		copy(entries, m.entries)
+		m.entries = entries
+		m.readonly = false
+	}
+
 	for idx, entry := range m.entries {
 		if entry.filled {
 			m.remove(uint64(idx))
-- 
2.43.0


From b96fa87e2b8a967252b3202cdcc5e3a019f6c897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:25 +0000
Subject: [PATCH 07/13] fix: rope: Rebuild must turn the node into a leaf

The node was left without children but marked as an inner node, so Rebuild
or the next operation panicked.
---
 rope/rope.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rope/rope.go b/rope/rope.go
index 6fb6c75..199d2ef 100644
--- a/rope/rope.go
+++ b/rope/rope.go
@@ -234,6 +234,7 @@ func (n *Node[V]) Rebuild() {
 		n.value = concat(n.left.Value(), n.right.Value())
 		n.left = nil
 		n.right = nil
+		n.kind = tLeaf
 		n.adjust()
 	}
 }
-- 
2.43.0


From e6a2ab7beaab6067fa55cd217202fe14b2c7a9a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:25 +0000
Subject: [PATCH 08/13] fix: rope: Insert corrupted data if the inserted slice
 came from the rope

Shifting the tail in place overwrote the elements to be inserted when they
were obtained with Slice or Value from the same leaf.
---
 rope/rope.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rope/rope.go b/rope/rope.go
index 199d2ef..1143678 100644
--- a/rope/rope.go
+++ b/rope/rope.go
@@ -269,6 +269,7 @@ func (n *Node[V]) Each(fn func(n *Node[V])) {
 func insert[V any](s []V, k int, vs []V) []V {
 	if n := len(s) + len(vs); n <= cap(s) {
 		s2 := s[:n]
+		vs = append([]V(nil), vs...) // vs may alias s
 		copy(s2[k+len(vs):], s[k:])
 		copy(s2[k:], vs)
 		return s2
-- 
2.43.0


From 4122cf6786ce477a51e76368dc710ac4c91afc24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:25 +0000
Subject: [PATCH 09/13] fix: set: IsDisjoint returned the opposite

---
 set/set.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/set/set.go b/set/set.go
index cb9cdf5..e5abf3b 100644
--- a/set/set.go
+++ b/set/set.go
@@ -145,7 +145,7 @@ func (s Set[K]) Keys() []K {
 
 func (s Set[K]) IsDisjoint(other SetOf[K]) bool {
 	// TODO: maybe optimize?
-	return s.Intersection(other).Size() > 0
+	return s.Intersection(other).Size() == 0
 }
 
 func (s Set[K]) IsSubset(of SetOf[K]) bool {
-- 
2.43.0


From cd41dbe1a1c35742118d5061cc29c1b1a8a5ada3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:25 +0000
Subject: [PATCH 10/13] fix: set: do not remove from a set while iterating in
 InPlaceIntersection

Removing from a hashset moves later elements back, so the iteration skipped
them and they stayed in the intersection.
---
 set/set.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/set/set.go b/set/set.go
index e5abf3b..ca54493 100644
--- a/set/set.go
+++ b/set/set.go
@@ -108,11 +108,11 @@ func (s Set[K]) SymmetricDifference(others ...SetOf[K]) Set[K] {
 
 func (s Set[K]) InPlaceIntersection(others ...SetOf[K]) Set[K] {
 	for _, other := range others {
-		s.Each(func(key K) {
+		for _, key := range s.Keys() {
 			if !other.Has(key) {
 				s.Remove(key)
 			}
-		})
+		}
 	}
 	return s
 }
-- 
2.43.0


From b7334a51101949fa679aa47e261169a40b5c54bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:25 +0000
Subject: [PATCH 11/13] fix: set: InPlaceDifference of a hashset with itself
 must be empty

Elements were removed while iterating over the same hashset, which moves
later elements back, so the iteration skipped some of them.
---
 set/set.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/set/set.go b/set/set.go
index ca54493..9ae73b5 100644
--- a/set/set.go
+++ b/set/set.go
@@ -119,9 +119,13 @@ func (s Set[K]) InPlaceIntersection(others ...SetOf[K]) Set[K] {
 
 func (s Set[K]) InPlaceDifference(others ...SetOf[K]) Set[K] {
 	for _, other := range others {
+		keys := make([]K, 0, other.Size())
 		other.Each(func(key K) {
-			s.Remove(key)
+			keys = append(keys, key)
 		})
+		for _, key := range keys {
+			s.Remove(key)
+		}
 	}
 	return s
 }
-- 
2.43.0


From c4bd4869700c091d99da60bd08eb704341aa9996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:25 +0000
Subject: [PATCH 12/13] fix: trie: Remove of an absent key must not change the
 size

---
 trie/trie.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/trie/trie.go b/trie/trie.go
index d01739d..844f345 100644
--- a/trie/trie.go
+++ b/trie/trie.go
@@ -149,8 +149,10 @@ func (t *Trie[V]) Remove(key string) {
 		return
 	}
 
+	if t.Contains(key) {
+		t.n--
+	}
 	t.root = t.remove(t.root, key, 0)
-	t.n--
 }
 
 func (t *Trie[V]) remove(x *node[V], key string, d int) *node[V] {
-- 
2.43.0


From 15cc73233f92625398f3519d35b41dc79dfc7540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:25 +0000
Subject: [PATCH 13/13] fix: ulist: Remove must advance the iterator into the
 next block

After removing the last entry of a block the iterator was invalid although
there were more entries.
---
 ulist/ulist.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ulist/ulist.go b/ulist/ulist.go
index 0249f92..fd0b23f 100644
--- a/ulist/ulist.go
+++ b/ulist/ulist.go
@@ -127,6 +127,11 @@ func (ul *UList[V]) Remove(iter *UListIter[V]) {
 		iter.Next()
 		return
 	}
+	if iter.index >= len(iter.node.Value) && iter.node.Next != nil {
+		// The last entry of the block was removed.
+		iter.node = iter.node.Next
+		iter.index = 0
+	}
 }
 
 func hasCapacity[V any](llNode *list.Node[ulistBlk[V]]) bool {
-- 
2.43.0

