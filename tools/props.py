#!/usr/bin/env python3
"""Source of properties.jsonl: `python3 tools/props.py > properties.jsonl`."""
import json
T = "collections/src/main/templates/com/bytefacets/collections/"
J = "collections/src/main/java/com/bytefacets/collections/"
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=observe, hook_needed=None)))

HASH = [J+"hash/BaseHash.java", T+"hash/BaseKeyIndex.ftl", T+"hash/KeyIndexedSet.ftl", T+"hash/KeyValueIndexedMap.ftl"]
HEAP = [J+"heap/BaseHeap.java", T+"heap/BaseKeyHeap.ftl", T+"heap/KeyValueHeap.ftl"]
BI = [J+"bi/CompactOneToMany.java", J+"bi/CompactManyToMany.java", J+"bi/Side.java", J+"bi/Mapping.java"]
hist_hash = "every history of operations, every key type (9) and value type (10), initial capacity, load factor and key distribution (few, many, colliding, extreme, null)"

p("C01", "Indexed sets and maps contain exactly the keys added and not removed",
  "After any history of adds, puts, removals by key, by entry or through an iterator, clears and resizes, an indexed set or map contains exactly the keys that were added and not removed since: containsKey, lookupEntry (-1 when absent), size, isEmpty and the keys delivered by iteration all agree with that set. Adding a present key and removing an absent key (-1) change nothing, and capacity, load factor and key distribution influence only speed.",
  ["histories", "inputs", "configurations"], hist_hash,
  "Unit tests run a few dozen hand-written steps with two or three capacities on some types; chains, free-list reuse, rehash and clear interact only over long mixed histories.",
  HASH, [("hash chains in heads/nexts with the bucket number stored in negative space", "BaseKeyIndex.add/remove/removeAt/getHead/registerNewEntryForHead/rehash"), ("maxHead / nextUnusedEntry limit what clear and rehash touch", "BaseHash.clear, BaseKeyIndex.rehash")],
  ["containsKey", "lookupEntry", "size", "isEmpty", "forEach", "forEachEntry", "iterator"],
  [("heads,nexts,freeList", "bucket chains and list of released entries", "BaseHash")])

p("C02", "Set and map entries are stable, compact and reused",
  "A key keeps the entry it was assigned until that key is removed, whatever else is added, removed or resized in between, and while the key is present lookupEntry, getKeyAt and a repeated add agree on that entry. Entries are 0-based and never shared by two keys, and a never-used entry (always the next integer) is handed out only when no released entry is available, so entries stay below the largest number of entries ever held at the same time.",
  ["histories", "inputs", "configurations"], hist_hash,
  "Tests check a handful of adds and one resize; stability must survive every interleaving of growth, removal, reuse and clear.",
  HASH, [("entries never move: rehash only relinks them", "BaseKeyIndex.rehash"), ("free list threaded through nexts", "BaseKeyIndex.allocateNewEntry/freeReservedEntry, BaseHash.IteratorImpl.remove")],
  ["add", "put", "lookupEntry", "getKeyAt", "remove return value", "currentEntry"])

p("C03", "Map values follow their keys and start from the type's default",
  "The value read for a present key, by key (get, getOrDefault) or by its entry (getValueAt, getValueAtOrDefault) or by forEachValue, is the one last stored for it by put or putValueAt since the key was last added, and the value type's default if none was, no matter which entries, resizes, removals or clears happened before. For an absent key get fails with KeyNotFoundException, getOrDefault gives the caller's default (as getValueAtOrDefault does for an entry outside the storage), and adding a present key leaves its value alone.",
  ["histories", "inputs", "configurations"], hist_hash,
  "Stale values appear only when an entry is recycled after particular removals, clears or growth; tests recycle entries in a few fixed ways.",
  HASH, [("values array parallel to keys, reset on add of a new key", "KeyValueIndexedMap.add/put/removeValue/growValues/clearValues")],
  ["get", "getOrDefault", "getValueAt", "getValueAtOrDefault", "forEachValue"])

p("C04", "Iteration visits every element exactly once and is fail-fast",
  "Every traversal of an indexed set or map (entry iterator, fresh or reused, forEach, forEachEntry, forEachValue) visits each present key exactly once, also when the visitor removes elements it is standing on: the iterator's remove takes out exactly the current element, and the remaining ones are still visited once. An iterator used after the collection was changed by anything but itself (add of a new key, removal, clear, copyFrom) throws ConcurrentModificationException instead of returning elements, until it is reset; calls that change nothing (adding a present key, replacing a value, removing an absent key, lookups, other traversals) do not disturb it, and a second remove of the same element is refused.",
  ["histories", "inputs", "configurations"], hist_hash + ", and every pattern of removals and outside changes during a traversal",
  "Tests remove a few fixed elements from a few collections; chain position (head, middle, tail, consecutive) and resize history decide whether a removal skips or repeats an element.",
  HASH, [("prev/next cursor in the iterator", "BaseHash.IteratorImpl"), ("modificationCount", "BaseHash / BaseKeyIndex"), ("hit counters bound the traversal loops", "BaseHash.forEachEntry, BaseKeyIndex.forEach, KeyValueIndexedMap.forEachValue")],
  ["EntryIterator.next/currentEntry/remove", "forEach callbacks"])

p("C05", "Reserving, freeing and removing by entry touch only that entry",
  "removeAt and removeAtAndReserve take out exactly the key living at the given entry and do nothing when no key lives there. A reserved entry is not part of the collection and is never handed out again, through any later adds, removals and resizes, until freeReservedEntry is called; until then its key and value stay readable by entry, and afterwards the entry is reused like any other.",
  ["histories", "inputs", "configurations"], hist_hash + ", including stale, free, reserved and never-used entries as arguments",
  "Tests exercise the reserve protocol with one or two keys and never after a resize or with the key added again under another entry.",
  HASH + BI, [("removeAtAndReserve / freeReservedEntry", "BaseKeyIndex, CompactOneToMany"), ("removal by entry walks the chain for that entry", "BaseKeyIndex.removeAt")],
  ["removeAt", "removeAtAndReserve", "freeReservedEntry", "getKeyAt", "getValueAt", "add"])

p("C06", "copyFrom makes an equal and fully independent copy",
  "After target.copyFrom(source), whatever either of them contained before and whatever their capacities, load factors and hash or equality functions, the target behaves like the source: same keys at the same entries with the same values, same released entries, same lookups. From then on operations on one never affect the other, and both keep satisfying all collection properties.",
  ["histories", "inputs", "configurations"], "every pair of histories of source and target, capacity and load-factor combination, and every continuation after the copy",
  "Tests copy one or two small collections and compare contents once; they do not continue to grow, remove or clear both sides afterwards.",
  HASH, [("copyFrom at three levels", "BaseHash.copyFrom, BaseKeyIndex.copyFrom, KeyValueIndexedMap.copyFrom")],
  ["all queries on source and target after the copy"])

p("C07", "Custom hash and equality functions define key identity",
  "With user-supplied hash and equality functions (on float, double, String and generic keys) a set or map treats two keys as the same exactly when the equality function says so, for every hash function consistent with it, including constant, negative and colliding ones; the first key added stays the stored one. The functions can be replaced only while the collection is empty; on a non-empty one the attempt fails and changes nothing.",
  ["histories", "inputs", "configurations"], "every history, every consistent pair of hash and equality functions",
  "Tests install one custom function and look up one or two keys.",
  HASH, [("hashFunc / equalFunc used on every probe", "BaseKeyIndex.lookupEntry/add/remove/computeHead"), ("guards", "BaseKeyIndex._setHashMethod/_setEqMethod")],
  ["containsKey", "lookupEntry", "add", "remove", "setHashMethod", "setEqMethod"])

p("C08", "A heap always yields its least key first",
  "At every moment peek returns an entry whose key is least under the heap's comparator among all keys inserted and not removed, and repeatedly removing the peeked entry drains the heap in sorted order, losing and duplicating nothing. This holds for every key type, comparator, tie pattern and history of inserts, removals from any position, key resets and clears.",
  ["histories", "inputs", "configurations"], "every history of heap operations, comparator, key distribution (ties, extremes) and initial capacity",
  "Tests drain a few short fixed sequences; removal from the middle needs particular shapes of the tree to go wrong.",
  HEAP + [J+"types/"], [("sift up and down", "BaseKeyHeap.filterUp/filterDown/removeAt")],
  ["peek", "removeAt", "getSize", "getKeyAt"], [("tree,inverse", "heap order and its inverse permutation", "BaseHeap")])

p("C09", "Heap entries are stable handles to their keys and values",
  "An entry returned by insert identifies the same key and value until it is removed, across all other operations and growth, and is never given to two live elements; isValidEntry, forEachEntry, getFirstEntry and containsKey agree exactly with the set of live entries and their keys. A forEachEntry visitor may remove the entry it is given or reset its key without any other entry being left out or visited twice. Removing an entry that is not live is refused (RangeCheckException when out of range, InvalidEntryException otherwise), and released entries are reused before new ones are created.",
  ["histories", "inputs", "configurations"], "every history of heap operations, comparator, key and value type, and every entry number as argument",
  "Tests query entries of small heaps that never shrank below a live entry's number; out-of-order removals are what separates size from the range of live entries.",
  HEAP, [("inverse maps entries to tree positions; free entries kept behind size in tree", "BaseHeap.isValidEntry/forEachEntry, BaseKeyHeap.allocateEntry/removeAt")],
  ["insert", "isValidEntry", "forEachEntry", "getKeyAt", "getValueAt", "getFirstEntry", "containsKey"])

p("C10", "Changing a heap's comparator or keys keeps contents and re-sorts",
  "setComparator and resetKey re-establish the heap order under the new comparator or key without changing which entries are live, their values, or any other entry's key, on heaps of any size and shape. Draining after any mixture of comparator changes and key resets gives the live keys in the order of the current comparator.",
  ["histories", "inputs", "configurations"], "every heap content and shape, every sequence of comparator changes and key resets, every key type",
  "Tests switch the comparator once on a small heap and reset single keys.",
  HEAP, [("rebuild by successive filterUp", "BaseKeyHeap.setComparator"), ("filterUp then filterDown", "BaseKeyHeap.resetKey")],
  ["setComparator", "resetKey", "peek", "drain order"])

p("C11", "A deque is the sequence of its first/last operations",
  "After any history of addFirst, addLast, removeFirst, removeLast and clear, a deque holds exactly the sequence those operations define: removals and peeks return the element at that end, forEach walks head to tail, size and isEmpty agree, and removing or peeking on an empty deque throws NoSuchElementException and changes nothing. Initial capacity, wrap-around and growth never reorder, lose or repeat an element.",
  ["histories", "inputs", "configurations"], "every history, element type and initial capacity",
  "Tests wrap around and grow at a few fixed offsets; the ring's head position at the moment of growth is what matters.",
  [T+"queue/KeyDeque.ftl"], [("ring buffer that always keeps a free slot", "KeyDeque.addFirst/addLast/grow")],
  ["removeFirst/Last", "peekFirst/Last", "forEach", "size"])

p("C12", "Lists of a multi-headed deque are independent sequences",
  "Each list id of a hydra deque behaves as its own deque: operations on one list never change the content or order of another, per-list size and total size are exact, and forward and reverse iterators (fresh or reused) deliver exactly the list's elements in order and in reverse, also while other lists change. An iterator can be given up anywhere and reused, may be asked hasNext any number of times, and fails on next at its end. Unknown, never-used or emptied lists have size 0, iterate as empty and refuse removal with NoSuchElementException.",
  ["histories", "inputs", "configurations"], "every history over any number of lists, element type and initial capacities, including clear and reuse",
  "Tests use two or three lists and few elements; shared storage links break only after particular frees and reuses across lists.",
  [T+"queue/KeyHydraDeque.ftl"], [("lists linked through shared nexts/prevs with one free list", "KeyHydraDeque.allocateEntry/addFirst/addLast/removeFirst/removeLast")],
  ["removeFirst/Last", "size", "iterator", "reverseIterator"])

p("C13", "Storage is bounded by peak content, not by the number of operations",
  "However long add/remove, insert/removeAt, put/remove, push/pop, reserve/free or fill/clear churn goes on, the storage a collection holds stays within a constant factor of the largest content it held at one time plus its initial capacity (for array-indexed structures, the largest index used). Released slots are always found again, so churn alone never grows a collection.",
  ["histories", "configurations"], "every long-running churn history on every collection, capacity and load factor",
  "Tests stop after tens of operations; a leak of one slot per cycle is invisible to them.",
  HASH + HEAP + BI + [T+"queue/KeyDeque.ftl", T+"queue/KeyHydraDeque.ftl", T+"vector/KeyVector.ftl"],
  [("free lists", "BaseKeyIndex, BaseKeyHeap, KeyHydraDeque"), ("ring reuse", "KeyDeque")],
  ["entries handed out", "capacity", "heap walk of reachable array slots"])

p("C14", "A vector is the sequence of its appended values",
  "After any history of append, ensureSize and clear, valueAt(i) for i below size returns the i-th value appended since the last clear, forEach delivers exactly these values in order, and size and isEmpty agree. Growth and ensureSize, from any initial capacity, never lose or change a value.",
  ["histories", "inputs", "configurations"], "every history, element type and initial capacity",
  "Tests append a few values to vectors of one or two capacities.",
  [T+"vector/KeyVector.ftl", T+"arrays/KeyArray.ftl"], [("doubling growth", "KeyVector.append, KeyArray.ensureEntry")], ["valueAt", "forEach", "size"])

p("C15", "A chunk store returns the last value set at every index",
  "For every chunk size and initial size, get(i) returns the value last set at index i and the type's default if none was: distinct indices never alias, growth never loses or changes values, and reading beyond the current capacity returns the default. Capacity always covers every index set and never shrinks, and a negative index is rejected without effect.",
  ["histories", "inputs", "configurations"], "every history of sets and gets over arbitrary indices, every chunk size (also not a power of two), initial size and element type",
  "Tests use a few power-of-two chunk sizes and a few indices.",
  [T+"store/KeyChunkStore.ftl"], [("index split by shift and mask", "KeyChunkStore.get/set"), ("chunk table growth", "KeyChunkStore.grow")], ["get", "set", "getCapacity"])

p("C16", "A chunk matrix store keeps every (row, field) cell separate",
  "For every chunk size, number of fields and initial size, get(row, field) returns the value last set at that cell and the type's default if none was: cells never alias, growth never loses values, and reading beyond the row capacity returns the default. Fields outside [0, numFields), negative rows and rows too large for the store to grow to are rejected without effect, as are constructor arguments below their documented minimum.",
  ["histories", "inputs", "configurations"], "every history of sets and gets over arbitrary rows and fields, every configuration and element type",
  "Tests use a few configurations in which rows line up with chunks.",
  [T+"store/KeyChunkMatrixStore.ftl", J+"exception/RangeCheckException.java", J+"exception/InitializationException.java"],
  [("row * numFields + field split by shift and mask", "KeyChunkMatrixStore.get/set/grow"), ("argument checks", "RangeCheckException, InitializationException")], ["get", "set", "getCapacity", "constructors"])

p("C17", "Bidirectional collections hold exactly the associations put",
  "After any history of put, remove, removeAt, removeAtAndReserve and freeReservedEntry, a CompactOneToMany or CompactManyToMany holds exactly the set of (left, right) pairs put and not removed: contains, lookupEntry, size and forEachEntry agree with it. Each association keeps one stable entry, for which getLeftAt and getRightAt give its two keys, until it is removed; putting a present pair returns its entry and removing an absent one returns -1, changing nothing.",
  ["histories", "inputs", "configurations"], "every history over 0-based left and right keys, every initial capacity, with and without counts",
  "Tests use about ten associations within the initial capacity.",
  BI + [T+"hash/BaseKeyIndex.ftl", J+"types/Pack.java"], [("pair packed into a long key of an indexed set", "CompactOneToMany.put/remove/lookupEntry")], ["contains", "lookupEntry", "getLeftAt", "getRightAt", "forEachEntry", "size"])

p("C18", "Navigation from either side lists exactly the associated keys",
  "For every left key (and every right key of a many-to-many) the mapping's entries, values and count are exactly those of the associations currently present for that key, each once, in every order of insertion and removal and beyond the initial capacities. Keys without associations, including unknown and negative ones, navigate as empty with count 0. A traversal still delivers each of its associations once when the visitor removes the one it was just given or changes the associations of other keys of that side. The same holds when the visitor of all associations (forEachEntry) removes the one it was given. Iterators fail on next at their end, and one given up halfway has no effect on the next traversal.",
  ["histories", "inputs", "configurations"], "every history, both sides, every initial capacity, with and without counts",
  "Tests stay inside the initial mapping capacity and unlink in a few orders.",
  BI, [("doubly linked lists per key through nexts/prevs", "Side.insertEntry/removeEntry"), ("iterators", "Side.EntryIterator, Side.ValueIterator")], ["withLeft/withRight: entryIterator, valueIterator, forEachEntry, forEachValue, count"])

p("C19", "Companion sort orders the keys and carries the values along",
  "sort(primary, secondary, off, len, cmp) leaves the primary range in non-descending order of the comparator, with every secondary value still next to the key it started with, the multiset of (key, value) pairs unchanged, and everything outside the range untouched. Invalid ranges are rejected with IllegalArgumentException before anything is moved, any valid length is sorted without exhausting the stack, and a comparator that throws or answers inconsistently never makes a pair disappear, split or appear twice.",
  ["inputs", "configurations", "fault_sequences"], "every array content and length, offset, length, comparator and the 90 type pairs",
  "Tests sort small random arrays; the quicksort paths (median of 3 and 9, equal-key partitions, recursion) depend on length and duplicate patterns.",
  [T+"sort/KeyValueCompanionSort.ftl"], [("three-way quicksort with insertion sort for short ranges", "KeyValueCompanionSort.sort"), ("pairwise swap", "KeyValueCompanionSort.swap/vecswap")], ["both arrays after sort"])

p("C20", "Array utilities preserve content and fill exactly what they promise",
  "Every create, copyOf, resize, ensureSize, ensureEntry and fill of the array utilities returns an array of the promised length (at least the requested size when ensuring, the same array if it already suffices), with all previous elements unchanged at their index and every new or filled slot holding the given or the type's default value. The source array is never modified by a copy, typed generic arrays keep their component type, and arguments outside the array are refused.",
  ["inputs", "configurations"], "every array length, requested size, offset, fill value and element type",
  "Tests use one or two lengths per type.",
  [T+"arrays/KeyArray.ftl"], [("copyOf plus fill of the tail; doubling growth", "KeyArray.copyOf/ensureSize/grow/fill")], ["returned arrays"])

p("C21", "Comparators are valid orders in agreement with predicates and equality",
  "Every built-in comparator (natural, absolute, case-insensitive, ascending and descending) is a consistent total preorder over all values of its type, extremes, infinities, NaN and null included: antisymmetric, transitive, agreeing with the numeric or lexical order of its kind, with the descending form its exact reverse. comparatorFor and predicateFor select the member their argument names, the predicates agree with the language's own comparison operators, the equality function implies equal hash codes for keys other than signed zeros, and the epsilon equality of doubles is symmetric and tells near values from far ones.",
  ["inputs"], "all pairs and triples of values of each of the ten types",
  "Tests compare a few small numbers; overflow, NaN and null only show on pairs far apart or special.",
  [J+"types/"], [("Cmp/Pred/Eq/Hash constants", "types/*Type.java")], ["compare", "test", "areEqual", "code"])

p("C22", "Binary encoding round-trips in the stated byte order and touches its bytes",
  "For every value of the fixed-width types and every position, writeLE and writeBE store exactly the standard little- or big-endian bytes at [pos, pos+width), leave every other byte alone and return pos+width, and readLE and readBE give back the identical value, NaN payloads included. Values written one after another with the returned positions are read back unchanged in any mixture of types and byte orders.",
  ["inputs"], "every value (exhaustively for 8 and 16 bit types), position, neighbouring content and sequence of writes",
  "Tests write a few values at one position of a zeroed array.",
  [J+"types/"], [("shift and mask per byte", "types/*Type.writeLE/writeBE/readLE/readBE")], ["byte arrays", "returned positions and values"])

p("C23", "Value conversions agree with Java's own conversions",
  "convert, unbox, box, parseString and the castTo functions of every type give the result of the corresponding Java conversion for every supported argument, null giving the type's default, and round-trip: converting a type's own boxed value or the string form of a value returns it unchanged. enableBits and disableBits set and clear exactly the given bits. Dates of the years 0 to 9999 and times of day encoded as numbers decode to the same calendar date and time of day.",
  ["inputs"], "all values and argument classes of the ten types, all dates of the years 0 to 9999 and all seconds of the day",
  "Tests convert one or two values per class.",
  [J+"types/"], [("class dispatch", "types/*Type.convert"), ("decimal packing of dates", "IntType.fromLocalDate/toLocalDate/fromLocalTime/toLocalTime")], ["returned values"])

p("C24", "Packing is a bijection and sizes round up to powers of two",
  "Packing two ints, two shorts, two bytes or four bytes and unpacking the parts gives back the same parts for every combination, the parts land in their documented positions, and distinct inputs pack to distinct outputs. nextPowerOf2 returns the least power of two not below its argument (for 0 to 2^30), and computed capacities double without passing the maximum, beyond which growth is refused.",
  ["inputs"], "all 2^16 byte pairs, all 2^32 short pairs (sampled or enumerated by tier), sampled int pairs with all sign and boundary combinations; every int up to 2^30",
  "Tests pack a few numbers; sign extension errors need particular sign combinations.",
  [J+"types/Pack.java", J+"NumUtils.java", J+"CapacityCalculator.java"], [("masking of the low part", "Pack.packTo*"), ("leading zeros", "NumUtils.nextPowerOf2")], ["returned values"])

p("C25", "Snowflake ids are unique and increasing under any concurrency",
  "All ids produced by one generator are distinct, whatever number of threads call nextId in whatever interleaving, and an id whose call began after another call had returned is greater than that other's id. With a clock at or after the generator's epoch that never runs backward, every call succeeds, and ids are non-negative and carry the generator's node id unchanged.",
  ["schedules", "inputs"], "every number of threads and interleaving of calls, and every non-decreasing clock, including one that stands still for many calls",
  "The tests call it from one thread with a scripted clock.",
  [J+"id/Snowflake.java"], [("synchronized nextId with lastTimestamp and sequence", "Snowflake.nextId")], ["recorded call/return history of nextId"])

p("C26", "Snowflake survives clock faults without ever repeating an id",
  "When the clock goes backwards, stalls, jumps or throws, at any call and also while the generator waits for the next millisecond, nextId either fails with an exception or returns an id that is greater than all ids returned before; a call made while the clock is behind the last issued timestamp fails rather than issuing an id. Once the clock is at or past the last timestamp again the generator continues, still without duplicates, and every id's timestamp is one the clock really reported during that call.",
  ["fault_sequences", "histories", "schedules"], "every sequence of clock readings and clock exceptions",
  "Tests rewind the clock once between two calls.",
  [J+"id/Snowflake.java"], [("backwards check and wait loop", "Snowflake.nextId/waitNextMillis")], ["ids and exceptions against the recorded clock readings"])

p("C27", "Snowflake ids decode to the timestamp, node and sequence they encode",
  "parse(nextId()) gives the clock's millisecond timestamp, the generator's node id and the sequence number, where the sequence starts at 0 in each new millisecond and counts up by one within it; up to 4096 ids are issued per millisecond and the next one is taken from a later millisecond. parse is the exact inverse of the 41/10/12-bit layout for every id.",
  ["inputs", "histories"], "every clock value in the 41-bit range, node name, and number of ids per millisecond",
  "Tests parse a single id.",
  [J+"id/Snowflake.java"], [("bit layout", "Snowflake.nextId/parse")], ["nextId", "parse"])

p("C28", "Instances never influence each other and queries change nothing",
  "Using any number of collections, sorts or arrays at the same time, from different threads or from inside one another's callbacks (comparators, hash functions, consumers), gives each exactly the results it gives alone. Queries (lookups, gets, traversals, peeks, sizes) never change what any later operation observes, so any number of threads may query a collection nobody is changing (a Mapping or an iterator itself serves one traversal at a time).",
  ["schedules", "histories"], "every interleaving of operations on distinct instances, every nesting through callbacks, every schedule of concurrent readers",
  "Tests use one instance from one thread.",
  HASH + HEAP + [T+"sort/KeyValueCompanionSort.ftl", T+"queue/", T+"store/", T+"arrays/KeyArray.ftl", J+"bi/"], [("no shared mutable state, no caching in queries", "all collection classes")], ["results of each instance against its own model"])

p("C29", "Removed, overwritten and cleared objects are not kept alive",
  "Once a key, value or element object has been removed, overwritten or cleared from a collection of objects (String or generic keys, values, elements) and is not held at a reserved entry, the collection no longer references it. This holds for every way of taking elements out and for clear at any moment.",
  ["histories", "configurations"], "every history of every collection that stores references",
  "Tests never look at reachability.",
  HASH + HEAP + [T+"queue/KeyDeque.ftl", T+"queue/KeyHydraDeque.ftl", T+"vector/KeyVector.ftl"], [("slots reset to the default on removal and clear", "freeReservedEntry, clearKeys/clearValues, removeValue, clearValueAt, removeFirst/Last, KeyVector.clear")], ["object graph reachable from the collection"])

p("C30", "Growth requests near the limits end in success or a clean refusal",
  "Any growth a caller can trigger (array ensuring, stores, vectors, hashes, heaps, queues and bidirectional collections), from any initial capacity the constructor accepts and for any requested size, index or key, terminates: it either succeeds with all content intact or fails with an exception, without looping forever or shrinking storage. After a refused request all earlier content is still there and the collection goes on working. A constructor either fails or gives a working, empty collection, and sizes and load factors outside the documented or checked range are rejected (exhaustion of the machine's memory is set aside).",
  ["inputs", "configurations", "fault_sequences"], "every initial capacity and requested size, index or key in the int range",
  "Tests never go near integer overflow or capacity zero.",
  [J+"CapacityCalculator.java", T+"arrays/KeyArray.ftl", T+"store/", T+"vector/KeyVector.ftl", T+"heap/BaseKeyHeap.ftl", J+"bi/Side.java", J+"exception/ResizeException.java"], [("capacity doubling with overflow tests", "CapacityCalculator.calculateNewCapacity, KeyArray.grow, KeyChunkStore.grow, KeyChunkMatrixStore.grow, BaseHeap.calculateNewCapacity")], ["outcome of the request and content afterwards"])

p("C31", "A cleared collection behaves exactly like a new one",
  "After clear, at any moment of any history (also with reserved entries, live iterators or a grown capacity), a set, map, heap, deque, hydra deque or vector is empty and every continuation observes the same results as on a newly built instance with the same configuration: the same entries handed out, defaults, orders and iteration contents. Configured comparators, default keys and values, hash and equality functions survive the clear.",
  ["histories", "configurations"], "every history before the clear and every continuation after it",
  "Tests clear once and check emptiness and one add.",
  HASH + HEAP + [T+"queue/KeyDeque.ftl", T+"queue/KeyHydraDeque.ftl", T+"vector/KeyVector.ftl"], [("clear", "BaseHash.clear, BaseKeyHeap.clear, KeyDeque.clear, KeyHydraDeque.clear, KeyVector.clear")], ["continuation compared with a fresh twin"])

p("C32", "Refused and failing operations leave the collection as it was",
  "An operation that ends in an exception of its own (out-of-range or inactive entries, unknown keys, empty structures, invalid fields, negative keys, refused configuration changes) or because a user callback threw (consumer or iterator visitor, or the hash or equality function on the operation's own key) leaves the collection's observable state as it was before the call. Every later operation behaves as if the failed one had never been made.",
  ["fault_sequences", "histories", "inputs"], "every history, every invalid argument and every point at which a callback can throw",
  "Tests check that the exception is thrown and stop there.",
  HASH + HEAP + BI + [T+"queue/", T+"store/", J+"exception/"], [("validation before mutation", "BaseKeyHeap.removeAt, KeyHydraDeque.validateListAndGetFirstEntry, CompactOneToMany.put, BaseKeyIndex.add/remove")], ["full observable state before and after the failed call"])

p("C33", "Heap defaults fill every slot not holding a live element",
  "A heap's default key and value (the type's default unless set while empty) are what getKeyAt and getValueAt give for every in-range entry that is not live, after any inserts, removals, growth and clears, and what an element inserted without a value starts with. Setting a default on a non-empty heap is refused and changes nothing, and getValueAtOrDefault gives the caller's default for out-of-range entries.",
  ["histories", "inputs", "configurations"], "every history, every default, every key and value type",
  "Tests set a default once and read one slot.",
  HEAP, [("slots reset on removal, clear, growth and change of default", "BaseKeyHeap.removeAt/clear/setDefaultKey/growKeys, KeyValueHeap.clearValueAt/clearValues/growValues/setDefaultValue")], ["getKeyAt", "getValueAt", "getValueAtOrDefault", "insert(key)"])

p("C34", "Applications on the module path can use the whole library",
  "An application that uses the library as the Java module com.bytefacets.collections can use every public class of its documented packages (arrays, bi, exception, functional, hash, heap, id, queue, sort, store, types, vector and the root package) with all its public constructors, methods, constants and the library types named in them, and every class behaves there as on the class path.",
  ["configurations"], "every public class and member, used from another module, with every kind of collection driven through random histories there",
  "Tests run on the class path, where every public class is accessible.",
  ["collections/src/main/java/module-info.java"], [("exports", "module-info.java")], ["access from another module", "results of each instance against its own model"])

p("C35", "The work of an operation does not grow with the size",
  "Averaged over many operations, the work the library does for one operation stays about the same from 64 elements to many thousands, and for heaps and sorts grows at most with the logarithm of the size: adding, looking up, replacing, removing, reserving, traversing, copying and clearing in sets and maps whose keys are consecutive or random numbers, whole or fractional floating-point numbers, small pairs packed into longs, strings or objects with distinct hash codes, also after copying into a roomier target; adding, removing and looking at either end of deques and of the lists of hydra deques and asking a list's size; appending to vectors and ensuring array entries one after the other; reading and writing stores; associating, looking up, counting, navigating and removing in bidirectional collections, including everything with everything and one to all; inserting, removing and re-keying in heaps; sorting random, sorted, reversed or mostly equal keys.",
  ["inputs", "histories", "configurations"], "every size, every history of these operations and every key of these shapes",
  "Tests use a handful of elements, where a linear step cannot be told from a constant one.",
  HASH+HEAP+BI+[T+"queue/KeyDeque.ftl", T+"queue/KeyHydraDeque.ftl", T+"vector/KeyVector.ftl", T+"arrays/KeyArray.ftl", T+"store/KeyChunkStore.ftl", T+"store/KeyChunkMatrixStore.ftl", T+"sort/KeyValueCompanionSort.ftl", J+"CapacityCalculator.java", J+"types/DoubleType.java", J+"types/FloatType.java", J+"types/LongType.java", J+"types/StringType.java"], [("doubling growth", "BaseHash.calculateNewCapacity, CapacityCalculator, KeyArray.grow, BaseKeyHeap, KeyDeque, KeyHydraDeque"), ("spread hash codes", "types/*Type.HashImpl, BaseKeyIndex.computeHead"), ("unlinking without a search", "bi/Side"), ("sift", "BaseKeyHeap"), ("choice of the pivot", "KeyValueCompanionSort")], ["steps executed by the library per operation"])

p("C36", "Operations with room enough create no objects",
  "Once an instance has the room it needs, working with it creates no garbage: adding, putting, looking up, reading, replacing, removing, reserving, freeing and re-using entries in sets, maps and bidirectional collections, navigating with the mappings of the latter, inserting, peeking, re-keying and removing in heaps, adding to, looking at and removing from deques and the lists of hydra deques, appending to vectors, ensuring array entries, writing and reading stores, running through any of them with an iterator handed in (or kept by the mapping) for reuse, taking the next id, and the comparators, predicates, hash, conversion, encoding and packing functions on primitive values create no object per call or element; a traversal with a consumer, copy, clear, sort or change of comparator creates at most a few, however many elements there are. An instance of primitive keys and values consists of a few arrays and objects (the chunk stores: arrays in proportion to the chunks), however many elements it holds.",
  ["inputs", "histories", "configurations"], "every operation, history and size once there is room",
  "Tests cannot see objects which are created and dropped.",
  HASH+HEAP+BI+[T+"queue/", T+"vector/KeyVector.ftl", T+"arrays/KeyArray.ftl", T+"store/", T+"sort/KeyValueCompanionSort.ftl", J+"id/Snowflake.java", J+"types/", J+"NumUtils.java", J+"exception/"], [("iterators handed in for reuse", "BaseHash.iterator, KeyHydraDeque.iterator"), ("mappings kept and re-used", "bi/CompactOneToMany, CompactManyToMany, Side"), ("primitive arrays", "all templates"), ("messages made only when failing", "exception/RangeCheckException")], ["objects created by the library per operation", "objects an instance consists of"])

p("C37", "Collections composed by their entries stay consistent",
  "An application can use the entries of one collection as array offsets, as rows of stores and matrix stores, as values or handles of heaps, as keys of bidirectional collections and as list ids of hydra deques, and everything read through an entry belongs to the element which holds that entry now, through any history of adding, removing in any of the ways (by key, entry, iterator, reserving and freeing), expiring by the heap, re-keying, changing orders, copying the set or map and going on with the copy, sorting companion entries and clearing; entries stay below the largest number of elements held at once.",
  ["histories", "configurations"], "every composition and every history of an application",
  "Tests exercise one collection at a time.",
  HASH+HEAP+BI+[T+"queue/", T+"vector/KeyVector.ftl", T+"arrays/KeyArray.ftl", T+"store/", T+"sort/KeyValueCompanionSort.ftl", "README.md"], [("entries", "BaseHash, BaseKeyIndex, BaseHeap"), ("entry-indexed structures", "arrays, store, bi/Side, KeyHydraDeque")], ["what an application reads through an entry"])

for x in P:
    print(json.dumps(x))
