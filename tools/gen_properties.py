#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (kept so ids and wording stay in one place)."""
import json, os
P = []
def p(id, title, statement, over, quant, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": quant}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
        "mechanism": [{"name": a, "where": b} for a, b in mech],
        "observe_at": list(observe), "hook_needed": hook}})
H, I, C, S = "histories", "inputs", "configurations", "schedules"

p("M01", "Hash map behaves as a finite map for every hash function and history",
  "After any sequence of put, remove and clear operations, a hash map looks up exactly the keys put and not removed since, each with its latest value, reports their number as its size, and iteration yields each of them exactly once. This holds for every hash function consistent with the supplied equality, however badly it collides, for every initial capacity, and through every automatic grow and shrink. Operations on absent keys change nothing and every operation terminates.",
  [H, I, C], "all operation histories x all hash functions/equalities x all initial capacities",
  "The cross-check test runs 1000 seeded random operations with one good hash, only checks that iterated keys are present (never that lost keys are missing or that Size is right) and never forces collisions, wrap-around or shrinking chains.",
  ["hashmap/map.go"], [("linear probing insert/lookup", "hashmap/map.go:Put,Get"), ("backward-shift re-insertion on removal", "hashmap/map.go:Remove"), ("load-factor resize", "hashmap/map.go:resize")],
  [("entries/capacity/length", "open-addressing table", "hashmap/map.go:Map")], ["Get", "Size", "Each"])
p("M02", "Copies of hash maps and hash sets are fully isolated (copy-on-write)",
  "A copy of a hash map or hash set has the same contents as the original at the time of copying. From then on no operation on any member of a family of copies (including copies of copies, and clearing) is ever visible through another member.",
  [H, I], "all histories interleaving Copy, Put, Remove, Clear over a family of copies, all collision patterns",
  "The only test copies once and does one Put on the copy; it never writes the original after copying, never removes or clears, and never copies a copy.",
  ["hashmap/map.go", "hashset/set.go"], [("shared table marked read-only, cloned before first write", "hashmap/map.go:Copy,Put,Remove,Clear"), ("delegation", "hashset/set.go:Copy")],
  [("readonly", "table is shared", "hashmap/map.go:Map.readonly")], ["Get", "Size", "Each", "Has"])
p("M03", "AVL tree behaves as a sorted map under any ordering",
  "After any sequence of puts and removes, an AVL tree looks up exactly the keys put and not removed since, with the latest value each, reports their number as its size, and iterates over exactly those entries in strictly ascending order of the user-supplied ordering. Keys that the ordering does not distinguish are the same key, and removing an absent key changes nothing.",
  [H, I], "all put/remove histories over any key set and any strict weak ordering",
  "The cross-check runs 1000 seeded random operations on ints with one ordering and checks only that iterated entries exist in a map: lost keys, order and size are never checked.",
  ["avl/avl.go"], [("recursive insert/remove with rotations", "avl/avl.go:add,remove,rebalanceTree,rotateLeft,rotateRight")],
  [("node tree", "binary search tree", "avl/avl.go:node")], ["Get", "Each", "Size"])
p("M04", "B-tree behaves as a sorted map under any ordering",
  "After any sequence of puts and removes, a B-tree looks up exactly the keys put and not removed since, with the latest value each, reports their number as its size (overwriting a key does not change it), and iterates over exactly those entries in strictly ascending order. This holds across every node split at every tree height and when removed keys are put back.",
  [H, I], "all put/remove histories, including those that split nodes at several levels",
  "Tests use 100 keys (one or two node splits), never reach three levels, and never check size, order or lost keys.",
  ["btree/btree.go"], [("leaf insert, node split, root growth", "btree/btree.go:insert,split,Put"), ("tombstones", "btree/btree.go:Remove")],
  [("n", "number of live entries", "btree/btree.go:Tree.n"), ("valid", "tombstone flag", "btree/btree.go:entry")], ["Get", "Each", "Size"])
p("M05", "Search trees stay balanced, so every operation is logarithmic",
  "After any history, the height an AVL tree or interval tree of n entries reports is at least log2(n+1) and at most 1.4405*log2(n+2), whatever the insertion and removal order. Every single lookup, put or remove on an AVL tree or B-tree calls the user's ordering at most logarithmically often in n.",
  [H, I], "all put/remove histories, in particular adversarial (sorted, reversed, zig-zag) ones",
  "No test looks at height or at the number of comparisons; a tree that degenerates into a list passes them all.",
  ["avl/avl.go", "interval/itree.go", "btree/btree.go"], [("height bookkeeping and rotations", "avl/avl.go:rebalanceTree; interval/itree.go:rebalanceTree"), ("node splitting", "btree/btree.go:split")],
  [("height", "cached subtree height", "avl/avl.go:node.height")], ["Height", "number of calls of the ordering function"])
p("T01", "Trie behaves as an exact map over non-empty byte strings",
  "After any sequence of puts and removes, a trie looks up exactly the non-empty keys put and not removed since, each with its latest value, and its size is their number. Prefixes or extensions of stored keys are not present unless put themselves, keys are compared as arbitrary bytes, the empty key is never stored, and removing an absent key changes nothing.",
  [H, I], "all put/remove histories over sets of keys with shared prefixes and all sibling arrangements, arbitrary bytes",
  "The random test only uses long random letter strings (hardly any shared structure, so removal never has to delete a node with siblings) and never checks size or absent keys.",
  ["trie/trie.go"], [("ternary insert/search", "trie/trie.go:put,get"), ("pruning of unused nodes with BST deletion among siblings", "trie/trie.go:remove,delete,deleteMinChild")],
  [("n", "number of keys", "trie/trie.go:Trie.n")], ["Get", "Contains", "Size"])
p("T02", "Trie prefix queries and key listing are exact and sorted",
  "Listing keys yields every stored key exactly once in ascending byte order; listing with a prefix yields exactly the stored keys that start with that prefix, likewise sorted; the longest-prefix query returns the longest stored key that is a prefix of the query, or the empty string if there is none. All of this holds after any history of puts and removes.",
  [H, I], "all put/remove histories x all query strings",
  "LongestPrefix has no test at all, prefix listing has one example; neither is exercised after removals.",
  ["trie/trie.go"], [("in-order collection", "trie/trie.go:collect,KeysWithPrefix"), ("longest match walk", "trie/trie.go:LongestPrefix")],
  [], ["Keys", "KeysWithPrefix", "LongestPrefix"])
p("I01", "Interval tree stores one interval per start position",
  "After any sequence of adds, puts and removes, an interval tree holds at most one interval per start position: put replaces an interval with the same start and returns the one replaced, add leaves an existing one untouched and returns it, remove deletes and returns it, each reporting whether such an interval existed. Lookup by start, size and iteration in ascending start order reflect exactly the intervals held, and an interval whose low end exceeds its high end is rejected with a panic leaving the tree unchanged.",
  [H, I], "all add/put/remove histories over all interval sets",
  "Tests do four puts and one example; add, remove, replaced-value results and removal of inner nodes are never tested.",
  ["interval/itree.go"], [("AVL insert with overwrite flag", "interval/itree.go:insert"), ("removal by successor", "interval/itree.go:remove,removeThis")],
  [("node tree keyed by low", "intervals", "interval/itree.go:node")], ["Add", "Put", "Remove", "Get", "Each", "Size"])
p("I02", "Overlap queries return exactly the overlapping intervals, sorted",
  "For any tree contents and any query range [qlow, qhigh) with qlow <= qhigh, the overlap query returns exactly the stored intervals whose low end is below qhigh and whose high end is above qlow, each once, with its current bounds and value, in ascending start order. This holds after any history of adds, replacements (including ones that shrink or extend an interval) and removals.",
  [H, I], "all add/put/remove histories x all query ranges",
  "Tests query a four-interval tree five times and never after a removal or after replacing an interval by a shorter one; a stale subtree maximum only shows for specific shapes.",
  ["interval/itree.go"], [("subtree-maximum augmentation", "interval/itree.go:updateMax,rebalanceTree,rotateLeft,rotateRight"), ("pruned search", "interval/itree.go:overlaps")],
  [("max", "highest upper bound in the subtree", "interval/itree.go:node.max")], ["Overlaps"])
p("R01", "Rope behaves as an array under insertion and deletion",
  "After any sequence of insertions and range deletions at valid positions, a rope's length, elements, slices and concatenated leaf contents equal those of a plain array edited the same way, for every setting of the split and join lengths with join below split. The slice passed to an insertion is neither modified nor retained, and it may itself have been obtained from the rope.",
  [H, I, C], "all edit histories x all positions/lengths x all split/join settings",
  "Tests do 100 seeded random edits with one setting and large values; small boundary positions, empty leaves and aliased inserts are not reached systematically.",
  ["rope/rope.go"], [("recursive leaf edit with split/merge", "rope/rope.go:Insert,Remove,adjust"), ("range extraction", "rope/rope.go:Slice,At,Value")],
  [("length", "cached subtree length", "rope/rope.go:Node.length")], ["Len", "At", "Slice", "Value", "Each"])
p("R02", "Rope splitting, joining and rebalancing preserve content",
  "Splitting a rope at any position yields two ropes holding exactly the elements before and from that position, joining ropes yields the concatenation in order, and rebuilding or rebalancing leaves the content unchanged. The resulting ropes are fully usable: any later edits on them behave as on plain arrays, and editing one part of a split never changes the other part.",
  [H, I, C], "all histories mixing edits with split, join, rebuild, rebalance, all positions and settings",
  "Rebuild and Rebalance have no tests, and split results are never edited afterwards.",
  ["rope/rope.go"], [("recursive split", "rope/rope.go:SplitAt"), ("join with small-node merge", "rope/rope.go:join"), ("rebuild", "rope/rope.go:Rebuild,Rebalance")],
  [], ["Value", "Len", "At", "Slice"])
p("R03", "Every version of a persistent rope behaves as an array",
  "For a persistent rope, the version returned by any insertion, range deletion, split or join has exactly the content obtained by the same edit on a plain array, observable consistently through length, element access, slices and full value; rebuilding or rebalancing a version does not change its content. This holds for every history and every setting of the split and join lengths with join below split.",
  [H, I, C], "all edit histories x all positions/lengths x all split/join settings",
  "Tests do seeded random edits with one setting; deletions that empty subtrees, split boundaries and rebalancing of degenerate shapes are not enumerated.",
  ["prope/prope.go"], [("path-copying edit", "prope/prope.go:Insert,Remove"), ("split/join", "prope/prope.go:SplitAt,Join"), ("range copy", "prope/prope.go:copySlice")],
  [("length", "cached subtree length", "prope/prope.go:Node.length")], ["Len", "At", "Slice", "Value"])
p("R04", "Old versions of a persistent rope never change",
  "No operation on any version of a persistent rope (insertion, deletion, splitting, joining, rebuilding, rebalancing, reading) changes the content of any other version, at any distance in the version history, nor the slices passed in by the caller. Slices returned by reads belong to the caller: writing to them affects no version.",
  [H, I, C], "all version trees: each operation applied to any earlier version",
  "Tests follow one linear chain of versions and never go back to check or edit an old version.",
  ["prope/prope.go"], [("path copying, no in-place slice edits", "prope/prope.go:Insert,Remove,insert,remove"), ("copying reads", "prope/prope.go:Value,Slice")],
  [], ["Value", "Len", "At"])
p("L01", "Doubly-linked list links stay consistent and in order",
  "After any sequence of front/back pushes, insertions before or after a node, removals, and re-insertions of removed nodes, walking the list forward from its front yields exactly the expected nodes in order, walking backward from its back yields the exact reverse, and front and back are nil exactly when the list is empty. Iteration from any node visits exactly that node and the ones after (or before) it.",
  [H], "all histories of list operations over all node positions",
  "The list's own test is one example; link repair at the ends and re-insertion of removed nodes are not tested.",
  ["list/list.go"], [("link surgery", "list/list.go:PushBackNode,PushFrontNode,InsertAfter,InsertBefore,Remove")],
  [("Front/Back/Prev/Next", "links", "list/list.go")], ["Front", "Back", "Each", "EachReverse", "EachNode", "EachReverseNode"])
p("U01", "Unrolled list behaves as a sequence for every block size",
  "For every block size of at least one, after any sequence of front/back pushes and of insertions or removals at an iterator, an unrolled list holds exactly the elements, in the order, that a plain sequence edited the same way holds, in both directions of iteration, and its size is their number.",
  [H, C], "all edit histories x all positions x all block sizes",
  "Tests use one block size (8) and fixed scripts; overflow into neighbours, partially filled middle blocks and emptied blocks in the middle are hardly reached.",
  ["ulist/ulist.go"], [("block overflow and slide", "ulist/ulist.go:AddAfter,addOverflowToNextBlock,prependToBlock"), ("block removal", "ulist/ulist.go:Remove")],
  [("ll", "list of blocks", "ulist/ulist.go:UList.ll")], ["Size", "Begin", "End", "Next", "Prev", "Get"])
p("U02", "Unrolled list iterators point where the contract says after every step",
  "An iterator steps one element at a time in either direction, becomes invalid exactly when it leaves the list at either end, and one step back from there returns to the end it left. After inserting through an iterator it points at the new element; after removing through it, it points at the element that followed the removed one, or is invalid if there was none (and then stepping back reaches the new last element).",
  [H, C], "all histories of iterator moves and edits through the iterator x all block sizes",
  "Tests cover fixed scripts with one block size; removing the last element of a non-final block, for instance, is never tried.",
  ["ulist/ulist.go", "ulist/ulist_iter.go"], [("iterator stepping across blocks", "ulist/ulist_iter.go:Next,Prev,IsValid"), ("iterator repositioning on edit", "ulist/ulist.go:AddAfter,AddBefore,Remove")],
  [("node/index", "iterator position", "ulist/ulist_iter.go:UListIter")], ["IsValid", "Get", "Next", "Prev"])
p("Q01", "Queue is FIFO through every history",
  "After any sequence of operations a queue delivers exactly the enqueued items not yet dequeued, in enqueue order, whether dequeued singly, all at once, peeked or iterated; its length and emptiness agree with that sequence at all times. Peeking, listing and iterating do not change the queue, clearing empties it, and dequeuing or peeking an empty queue panics or reports false as documented.",
  [H, I], "all histories of queue operations",
  "Tests use fixed scripts of a few operations each; interleavings of Clear, DequeueAll, Copy and further use are not enumerated.",
  ["queue/queue.go", "list/list.go"], [("list plus separate length", "queue/queue.go:Enqueue,TryDequeue,Clear")],
  [("length", "item count kept beside the list", "queue/queue.go:Queue.length")], ["Len", "Empty", "Dequeue", "TryDequeue", "DequeueAll", "Peek", "TryPeek", "PeekAll", "Each"])
p("Q02", "Stack is LIFO through every history",
  "After any sequence of pushes and pops a stack's top is the most recently pushed element not yet popped, pops return elements in reverse push order, and the size is the number of elements held. Popping or peeking an empty stack returns the zero value and changes nothing.",
  [H], "all push/pop/peek histories",
  "One example and one small test; histories that shrink and regrow the stack are not enumerated.",
  ["stack/stack.go"], [("slice push/pop", "stack/stack.go:Push,Pop,Peek")], [], ["Pop", "Peek", "Size"])
p("V01", "Copies of queues, stacks, 2-D arrays, bimaps and sets are independent",
  "A copy of a queue, stack, 2-D array or bidirectional map, and a clone of a set, starts with the same contents as its source. Afterwards no operation on the source, on the copy or on a further copy is visible through any other of them.",
  [H], "all histories interleaving copying with mutations of source and copies",
  "Tests copy at most once and check contents right afterwards; later writes on both sides (shared spare capacity) are not explored.",
  ["queue/queue.go", "stack/stack.go", "array2d/array2d.go", "bimap/bimap.go", "set/set.go"], [("element-wise copies", "queue/queue.go:Copy; stack/stack.go:Copy; array2d/array2d.go:Copy; bimap/bimap.go:Copy; set/set.go:Clone")], [], ["all observers of each type"])
p("H01", "Heap always yields the minimum and neither loses nor invents elements",
  "After any sequence of pushes and pops, from an empty heap or one built from any initial data, peek and pop return an element that no held element is less than under the user's ordering, and the multiset of elements pushed or given initially equals that of elements popped plus those still held. Size is the number held, and popping or peeking an empty heap returns the zero value and false.",
  [H, I], "all initial arrays and push/pop histories, any strict weak ordering with ties",
  "Tests use fixed small tables and one ordering; the sift directions depend on the exact arrangement, which only enumeration covers.",
  ["heap/heap.go"], [("sift up/down", "heap/heap.go:up,down"), ("heapify", "heap/heap.go:FromSlice")], [("data", "implicit tree", "heap/heap.go:Heap.data")], ["Push", "Pop", "Peek", "Size"])
p("C01", "LRU cache holds exactly the most recently used keys within capacity",
  "After any history, a cache of capacity c holds exactly the entries that least-recently-used replacement prescribes, where a successful lookup or a put counts as a use: never more than c of them (none when c is 0), each with its latest value, iterated from most to least recently used, with size and capacity reported accordingly. Removing a key, and resizing down or up, keep the remaining entries and their recency order.",
  [H, C], "all histories of Put/Get/Remove/Resize x all capacities >= 0",
  "One example with capacity 2; recency after overwrite, removal in the middle and repeated resizing are untested, and capacity 0 is never tried.",
  ["cache/cache.go", "list/list.go"], [("move-to-front list + table", "cache/cache.go:Get,Put"), ("eviction", "cache/cache.go:evict,Resize")],
  [("lru/table", "recency list and index", "cache/cache.go:Cache")], ["Get", "Each", "Size", "Capacity"])
p("C02", "Eviction callback fires exactly once per evicted entry, in LRU order",
  "The registered callback is called exactly once, with the key and current value, for each entry displaced because a put or a resize exceeded the capacity, in least-recently-used order and while the entry is still in the cache; it is called for nothing else, and registering another callback replaces it. A callback that looks up, lists or measures the cache leaves the cache consistent.",
  [H, C], "all histories of Put/Get/Remove/Resize/SetEvictCallback with passive and reading callbacks",
  "One example prints three evictions; multi-eviction resizes, replaced callbacks and callbacks that read the cache are untested.",
  ["cache/cache.go"], [("callback before removal", "cache/cache.go:evict,SetEvictCallback")], [("evictCb", "callback", "cache/cache.go:Cache.evictCb")], ["callback arguments and order", "Each", "Size"])
p("B01", "Bidirectional map is a bijection at all times",
  "After any history of adds, removals by key, removals by value, clears and copies, looking up a key gives a value exactly when looking up that value gives that key, and the pairs held are exactly those added whose key and value have not been re-added or removed since. Length (0 for a nil map), iteration and membership tests in both directions agree with that set of pairs, also for a zero map and one built from a Go map.",
  [H, I], "all histories over all key/value collision patterns",
  "Tests do one write and one read; adds that collide with two existing pairs at once are never tried.",
  ["bimap/bimap.go"], [("paired maps with collision cleanup", "bimap/bimap.go:Add,RemoveForward,RemoveReverse,Clear,Of")], [("forward/reverse", "two indexes", "bimap/bimap.go:Bimap")], ["GetForward", "GetReverse", "ContainsForward", "ContainsReverse", "Len", "Each"])
p("X01", "All multimap variants keep exactly their entries and counts",
  "After any history, a multimap holds exactly the entries put and not removed: variants that allow duplicates count each put, the others keep one per key/value pair; removing an entry removes one occurrence and is a no-op if there is none. Size, number of distinct keys, per-key counts, membership, per-key value lists, entry iteration and association iteration all agree with those entries, and keys or values come out in ascending order in the variants that promise it.",
  [H, I], "all histories over all four variants",
  "Tests run one fixed script on the four variants; sizes after repeated removals, emptied keys that are put again, and clears in the middle are not enumerated.",
  ["multimap/multimap.go", "multimap/map.go", "multimap/avl.go", "multimap/values.go"], [("size bookkeeping", "multimap/map.go:Put,Remove,RemoveAll; multimap/avl.go"), ("value containers", "multimap/values.go")], [("size", "entry count", "multimap/multimap.go:baseMultiMap.size")], ["Dimension", "Size", "Count", "Has", "Get", "Each", "EachAssociation"])
p("S01", "Hash set and map set behave as finite sets",
  "After any sequence of puts, removes and clears, a hash set or map set contains exactly the elements put and not removed since, reports their number as its size and iterates over each exactly once. For hash sets this holds for every initial capacity and every hash function consistent with the supplied equality.",
  [H, I, C], "all histories x hash functions x capacities",
  "Tests run seeded random operations with one hash and never check missing elements or sizes.",
  ["hashset/set.go", "mapset/set.go", "hashmap/map.go"], [("delegation to hash map / Go map", "hashset/set.go; mapset/set.go")], [], ["Has", "Size", "Each"])
p("S02", "Set algebra computes the exact set for every backing and operand",
  "Union, intersection and difference of a set with any number of other sets, and the symmetric difference (elements in exactly one of the sets), yield exactly the mathematical result for every combination of map-backed and hash-backed sets, every hash function and every way the operands were built, including an operand that is the receiver itself. The in-place variants change the receiver to that result and return it; the others leave the receiver unchanged; operands are never changed, except one that is the in-place receiver itself.",
  [I, C, H], "all receivers x all operand lists x backings x hash functions x insertion orders",
  "Examples use a map-backed receiver or a collision-free hash set; elements that move in the table while it is being filtered are never exercised.",
  ["set/set.go", "hashset/set.go", "mapset/set.go", "hashmap/map.go"], [("clone then in-place filter", "set/set.go:InPlaceIntersection,InPlaceDifference,InPlaceUnion,SymmetricDifference,Const*")], [], ["Keys", "Map", "Has", "Size", "String"])
p("S03", "Set comparisons agree with mathematical set relations",
  "For any two sets of any backing, equality, subset, superset, proper subset, proper superset and disjointness answer exactly the mathematical relation, including for empty sets and a set compared with itself, and change neither set. The key list, Go-map and text renderings of a set contain exactly its elements, the text in sorted order.",
  [I, C], "all pairs of sets x backings x hash functions",
  "None of the comparison predicates has a test.",
  ["set/set.go"], [("predicates via Has/Size/Union/Intersection", "set/set.go:Equal,IsSubset,IsSuperset,IsProperSubset,IsProperSuperset,IsDisjoint")], [], ["the predicates themselves", "Keys", "Map", "String"])
p("A01", "2-D array cells are distinct and bounds-checked for every shape",
  "For every width and height, setting a cell changes that cell and no other, reading returns the last value set, and reading or writing outside the width and height panics and changes nothing. New arrays hold zero values (or the given fill value) in every cell, and width, height and text rendering (rows top to bottom, cells left to right) match.",
  [I, C, H], "all shapes x all coordinates x all write sequences",
  "All tests use square arrays, for which row stride and column stride coincide.",
  ["array2d/array2d.go"], [("row-major indexing", "array2d/array2d.go:getUnchecked,setUnchecked"), ("bounds checks", "array2d/array2d.go:Get,Set")], [("slice", "cells", "array2d/array2d.go:Array2D")], ["Get", "Set", "String", "Width", "Height"])
p("A02", "2-D array rows, spans, region fills and jagged input touch exactly their cells",
  "For every shape, a row or row span aliases exactly the cells of that row between the two columns (in either argument order), a fill sets exactly the cells of the inclusive rectangle spanned by its corners (in any order), and building from jagged rows copies every in-bounds value and ignores out-of-bounds rows and columns. Out-of-range arguments panic and change nothing.",
  [I, C], "all shapes x all rectangles/spans/jagged inputs",
  "Tests use three fixed square cases.",
  ["array2d/array2d.go"], [("slicing per row", "array2d/array2d.go:Row,RowSpan"), ("exponential copy fill", "array2d/array2d.go:Fill,fill"), ("jagged copy", "array2d/array2d.go:OfJagged")], [], ["Get", "Row", "RowSpan", "Fill", "OfJagged", "NewFilled"])
p("G01", "Min, max, clamp and compare helpers agree with the ordering",
  "For all mutually comparable arguments (no NaN), compare returns -1, 0 or 1 as the first argument is less than, equivalent to or greater than the second; min and max return one of their arguments that is not greater (not less) than the other; clamp returns the low bound when the value is below it, otherwise the high bound when the value is above it, otherwise the value itself (for low <= high). The variants taking a comparison function satisfy the same for any strict weak ordering, clamp returning the value itself when it is equivalent to a bound.",
  [I], "all argument triples and orderings",
  "Seven examples with distinct values; ties under a custom ordering and boundary equality are hardly covered.",
  ["generic.go"], [("comparison helpers", "generic.go:Compare,Max,Min,Clamp,MaxFunc,MinFunc,ClampFunc")], [], ["return values"])
p("G02", "Hash helpers are pure, equality-consistent and collision-free on small integers",
  "Hashing the same value always gives the same result, whatever was hashed before; strings and byte slices with equal content give equal results for the same helper regardless of how they were built, and hashing does not modify its input. Distinct values of 8-bit and 16-bit integer types never collide within their helper.",
  [I, H], "all values of small types, all short strings, any call history",
  "The hash helpers have no direct tests.",
  ["generic.go"], [("64-bit mixer and FNV-1a", "generic.go:hash,HashString,HashBytes")], [], ["return values"])
p("K01", "Separate containers, copies and versions never interfere across goroutines",
  "Containers that are distinct values, whether constructed separately or obtained from one another beforehand by copying, cloning or persistent edits, can be used by different goroutines at the same time without synchronisation: under every interleaving each goroutine observes exactly what it would observe running alone. (In-place rebuilding or rebalancing of persistent ropes that share structure is outside this guarantee.)",
  [S, H], "all interleavings of operations on 2-3 goroutines, each owning its container, copy or version",
  "No test uses more than one goroutine; shared tables behind copies and any hidden package-level state only show under particular interleavings.",
  ["hashmap/map.go", "hashset/set.go", "prope/prope.go", "avl/avl.go", "btree/btree.go", "trie/trie.go", "interval/itree.go", "rope/rope.go", "heap/heap.go", "cache/cache.go", "queue/queue.go", "stack/stack.go", "ulist/ulist.go", "bimap/bimap.go", "multimap/avl.go", "set/set.go", "array2d/array2d.go", "list/list.go", "mapset/set.go"],
  [("copy-on-write keeps shared tables immutable", "hashmap/map.go:Put,Remove,Clear"), ("path copying keeps shared nodes immutable", "prope/prope.go"), ("no package-level mutable state", "all packages")], [("readonly", "shared table marker", "hashmap/map.go")], ["results of each goroutine's operations"], "scheduling points inserted by a build-time source overlay, no change in /repo")
p("K02", "Concurrent readers of one container all see the sequential results",
  "Any number of goroutines may concurrently run read-only operations (lookups, size, membership, iteration, prefix, overlap, slice and comparison queries) on one shared container that nobody is modifying, and under every interleaving each obtains exactly the result it would obtain alone. The LRU cache, whose lookups count as uses, is outside this guarantee.",
  [S, I], "all interleavings of read operations by 2-3 goroutines on a shared container",
  "No test uses more than one goroutine; a read that writes (cached result, scratch buffer, self-adjustment) passes every sequential test.",
  ["hashmap/map.go", "avl/avl.go", "btree/btree.go", "trie/trie.go", "interval/itree.go", "rope/rope.go", "prope/prope.go", "heap/heap.go", "queue/queue.go", "stack/stack.go", "ulist/ulist_iter.go", "bimap/bimap.go", "multimap/avl.go", "multimap/map.go", "set/set.go", "array2d/array2d.go", "list/list.go"],
  [("read operations do not write shared memory", "all packages")], [], ["results of each goroutine's operations"], "scheduling points inserted by a build-time source overlay, no change in /repo")
p("K03", "Goroutines may use different cells of one 2-D array at the same time",
  "Goroutines that confine themselves to regions of one 2-D array with no cell in common (reading, setting and filling cells, and reading or writing through rows and row spans, inside their own region, through one handle or copies of it that share the cells) need no synchronisation: under every interleaving each reads exactly the values it would read working alone and every cell ends up as its own goroutine left it. Accesses out of range panic and touch nothing.",
  [S, I], "all interleavings of cell, row and rectangle operations by 2-3 goroutines that partition the cells of one array",
  "No test uses more than one goroutine; a write that reads and restores neighbouring cells, or a remembered row shared by all handles, passes every sequential test.",
  ["array2d/array2d.go"], [("writes touch only the cells named", "array2d/array2d.go:Get,Set,Row,RowSpan,Fill,fill"), ("the handle holds nothing that operations change", "array2d/array2d.go:Array2D")], [], ["values read by each goroutine", "cells afterwards"], "scheduling points inserted by a build-time source overlay, no change in /repo")
p("N01", "Callbacks may query containers, nest iterations, use copies, and panic",
  "A function passed to an iteration may query or iterate again the container being iterated, and any function the caller supplies (iteration function, ordering, equality, hash, eviction callback) may use other containers, including copies and other versions, in any way: every operation involved yields exactly what it yields on its own. If such a function panics out of a query or an iteration, the container keeps its contents and stays usable; a panic out of any operation leaves other containers, copies included, unaffected. (Changing a container from inside its own callbacks, including lookups that count as uses in an LRU cache, is outside this guarantee.)",
  [I, H], "all pairs and triples of operations x all callback invocations at which the inner one runs or a panic is raised",
  "Every test callback only records its arguments; iteration that temporarily rearranges the container, keeps a cursor or a scratch buffer in it or in the package, or must finish to restore something, passes all of them.",
  ["hashmap/map.go", "avl/avl.go", "btree/btree.go", "interval/itree.go", "trie/trie.go", "heap/heap.go", "cache/cache.go", "queue/queue.go", "list/list.go", "ulist/ulist_iter.go", "rope/rope.go", "multimap/avl.go", "multimap/map.go", "multimap/values.go", "set/set.go", "hashset/set.go", "mapset/set.go", "bimap/bimap.go"],
  [("iteration only reads the container", "all packages: Each and iterators"), ("no package-level mutable state", "all packages")], [], ["results of outer and inner operations", "contents afterwards"])
p("N02", "Listings handed out and slices handed in are independent of the container",
  "The slice or Go map returned by a queue's peek-all, a trie's key listings, an interval overlap query, a set's key and map renderings, a persistent rope's value and slices, and a set-backed multimap's value lists belongs to the caller: no later operation on that or any other container changes it, and writing to it (up to its capacity) changes no container and no other listing. Values given to the queue and set constructors as a slice, and rows given to a 2-D array, are copied: they are not modified, and changing them afterwards does not change the container. (2-D array rows, slices of a mutable rope, the value lists of slice-backed multimaps and heaps made from a slice share memory by design and are outside this guarantee.)",
  [H, I], "all histories of edits, taking listings and overwriting them, over all these containers and several sizes",
  "Tests compare a returned listing at once and never look at it again, nor do they write to one or to a constructor's argument afterwards; a reused scratch buffer, a cached listing or a retained argument passes them all.",
  ["queue/queue.go", "trie/trie.go", "interval/itree.go", "set/set.go", "hashset/set.go", "mapset/set.go", "prope/prope.go", "multimap/values.go", "array2d/array2d.go"],
  [("fresh slice per listing", "queue/queue.go:PeekAll; trie/trie.go:Keys; interval/itree.go:overlaps; set/set.go:Keys,Map; multimap/values.go:valuesSet.List; prope/prope.go:Value,Slice"), ("element-wise construction", "queue/queue.go:Of; mapset, hashset: Of; array2d/array2d.go:OfJagged")], [], ["listings kept by the caller", "contents afterwards"])
p("N03", "Functions of the caller see only elements of the caller",
  "The ordering, equality and hash functions given to a hash map, hash set, AVL tree, B-tree, multimap or heap are applied only to keys, values or elements the caller has given to that container or a container it was derived from (never to a zero value, placeholder or other made-up element), and only while an operation is running; iteration too shows only such elements. So functions that are defined on the caller's elements alone (pointers that must not be nil, handles into a table) are safe to use.",
  [H, I], "all histories of put, remove, look up, clear and copy over elements that record what they are compared with",
  "Tests use integers and strings, for which comparing with a zero value or a sentinel does no visible harm.",
  ["hashmap/map.go", "hashset/set.go", "avl/avl.go", "btree/btree.go", "multimap/multimap.go", "heap/heap.go"],
  [("fullness flag tested before comparing", "hashmap/map.go:Get,Put,Remove"), ("comparisons with keys of nodes only", "avl/avl.go:add,remove,search; btree/btree.go:search,insert"), ("sift with existing items", "heap/heap.go:up,down")], [], ["arguments of the caller's functions", "elements passed to iteration callbacks"])
p("R05", "Rope leaves respect the split and join lengths",
  "At all times no leaf of a rope made by the operations of its package holds more than SplitLength elements, and a rope with fewer than JoinLength elements consists of a single leaf: after construction, insertions and deletions anywhere, splits, joins, rebuilds and rebalances, and for every setting with the join length below the split length. Iterating over the leaves shows the lengths.",
  [H, I, C], "all edit histories x all positions/lengths x all split/join settings",
  "No test looks at leaves; a rope that never splits or never merges returns the right elements all the same.",
  ["rope/rope.go"],
  [("splitting and joining at thresholds", "rope/rope.go:adjust"), ("calls on every changed path", "rope/rope.go:New,Insert,Remove,Join,Rebuild")], [], ["lengths of the leaves"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
