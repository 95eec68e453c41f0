# The properties: id, title, statement, quantifier kinds, quantifier text, why tests cannot settle it, anchors.
T1 = "The 14 stable tests exercise single pages and codecs on a handful of records; "
B, H, O, D = 'bptree/', 'hashmap/hashmap.go', 'ordereddict.go', 'dict.go'
P = []
def p(id, title, stmt, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=stmt, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state], observe_at=list(observe), hook_needed=None)))

p('C01', 'Memory of the file space is never used after the space was remapped',
  "No operation reads or writes memory obtained from the file space after a later allocation, release, open or close could have moved or invalidated that memory, nor a page slot after the page was rearranged under it. In particular growing the file in the middle of an operation never makes that operation lose a write, corrupt data or crash.",
  ['inputs', 'histories', 'configurations'], "every history of operations, every position of file growth or shrinking relative to an operation, every size of keys and values",
  T1 + "whether an allocation remaps the file depends on the free space at that moment, so a missing re-access only shows when growth falls exactly between acquisition and use",
  [B + 'bptree.go', B + 'key.go', B + 'value.go', B + 'leaf.go', B + 'nonleaf.go', B + 'leaflist.go', H],
  [("accessors are obtained again after each allocation (\"fix node controllers\")", B + 'bptree.go'), ("addrRef re-accesses the space on each Get and Set", H), ("slot contents are copied out before the slot is released", H)],
  observe=['every exported operation'])
p('C02', 'Returned keys and values are private copies',
  "Every key and value which an operation, an iterator or a scan returns is memory of the caller's own: it does not alias the file, a buffer kept inside the dictionary or cursor that a later call rewrites, nor a buffer passed in by the caller. Changing the dictionary or closing it later therefore never alters or invalidates bytes returned earlier.",
  ['inputs', 'histories'], "every operation returning bytes, every later history of operations including Close",
  T1 + "they compare returned bytes immediately, before anything could overwrite or unmap the storage they might alias",
  [B + 'bptree.go', B + 'iterator.go', B + 'key.go', B + 'value.go', H, O, D],
  [("ReadKeyAll/ReadValueAll copy into a fresh buffer", B + 'key.go, ' + B + 'value.go'), ("copyBytes on every returned value and on the slot a cursor keeps", H)],
  observe=['results of OrderedDict, Dict, BPTree, HashMap, Iterator'])
p('C03', "Caller's buffers are neither modified nor retained",
  "No operation writes to a key, value or search bound passed in by its caller (nor to the spare capacity behind it), and no dictionary, iterator or cursor keeps a reference to such a buffer after the call returns; reading into a buffer the caller supplies for that purpose is the only exception. Reusing or altering an argument after the call never affects stored data.",
  ['inputs', 'histories'], "every operation, every length and capacity of the buffers passed in, every later modification of them by the caller",
  T1 + "they never look at an argument again after passing it, nor use slices with spare capacity",
  [B + 'bptree.go', B + 'key.go', B + 'value.go', B + 'iterator.go', H, O, D],
  [("prefixes are copied to fresh buffers before the overflow address is appended", B + 'key.go, ' + B + 'value.go'), ("packSlot copies keys and values into the slot", H)],
  observe=['arguments of every exported operation'])
p('C04', 'Everything survives Close and reopening',
  "After Close succeeds, opening the same file again gives a dictionary with exactly the same contents, order and statistics; each part of the state that is written on closing is read back into the same place, and the space holding it is released exactly once on opening. A file opened for the first time gives an empty dictionary.",
  ['histories', 'inputs'], "every history of operations before closing, any number of close/open cycles, all values of the counters",
  "the reopening tests do not check what was stored; a field that is dropped, swapped or truncated only shows for particular trees and counters",
  [B + 'bptree.go', H, O, D, 'hashmap/internal/protocol/hashmap.pb.go'],
  [("Store writes an info record and Load reads it back", B + 'bptree.go, ' + H), ("the info address is kept as primary space", O + ', ' + D)],
  observe=['OpenOrderedDict, OpenDict, Close, Store, Load'])
p('C05', 'Opening and closing follow the documented lifecycle',
  "Opening a dictionary fails with the storage's own error, and without touching the file further, if the file cannot be opened; otherwise it returns a usable dictionary and a nil error. Closing stores the state, records its address and closes the file in this order and returns the storage's error, so that a failure to close is never reported as success.",
  ['inputs', 'fault_sequences'], "every file name and flag, every error of the underlying storage",
  "the tests only open files that can be opened and ignore the result of Close",
  [O, D], [("OpenOrderedDict / OpenDict / Close", O + ', ' + D)], observe=['OpenOrderedDict, OpenDict, OrderedDict.Close, Dict.Close'])
p('C06', 'Ordered dictionary: each write does exactly what its condition says',
  "Set, SetIfExists, SetIfNotExists, Clear and Test on the ordered dictionary store, replace, keep or remove precisely the entry with the given key according to their documented condition, report whether the key existed, and return the replaced, removed or present value exactly when asked for it (nil otherwise). A call whose condition is not met changes nothing at all.",
  ['inputs', 'histories'], "every key and value (including empty and very long ones), every contents, both settings of the optional result",
  T1 + "the conditional operations are not run against a tree with more than one level in the stable tests",
  [O, B + 'bptree.go'], [("AddRecord, UpdateRecord, AddOrUpdateRecord, DeleteRecord, HasRecord", B + 'bptree.go'), ("OrderedDict methods", O)], observe=['OrderedDict, BPTree'])
p('C07', 'Dictionary: each write does exactly what its condition says',
  "Set, SetIfExists, SetIfNotExists, Clear and Test on the unordered dictionary store, replace, keep or remove precisely the entry with the given key according to their documented condition, report whether the key existed, and return the replaced, removed or present value exactly when asked for it (nil otherwise). A call whose condition is not met changes nothing at all.",
  ['inputs', 'histories'], "every key and value (including empty ones and colliding hash sums), every contents, both settings of the optional result",
  "the stable tests cover one short history through the facade",
  [D, H], [("AddItem, UpdateItem, AddOrUpdateItem, DeleteItem, HasItem, appendItem, removeItem, replaceValue", H), ("Dict methods", D)], observe=['Dict, HashMap'])
p('C08', 'Reading never changes anything',
  "Testing for a key, range searches, iteration, scans, statistics and printing never modify the file, its allocation state or the state of the dictionary; only the iterator or cursor handed in advances. Reads can therefore be repeated and interleaved freely between writes.",
  ['inputs', 'histories'], "every read operation on every contents",
  T1 + "a write by a read operation is only visible through a later comparison nobody makes",
  [B + 'bptree.go', B + 'iterator.go', B + 'fprint.go', H, O, D], [("HasRecord, SearchForward, SearchBackward, Iterator, Fprint", B), ("HasItem, FetchItem", H)], observe=['read operations'])
p('C09', 'Statistics are exact',
  "The numbers of records, items, leaf and non-leaf pages, slots and slot directories, the height and the payload size (sum of key and value lengths) reported by the statistics equal what is actually stored after every operation, and every statistics field reports the quantity its name says.",
  ['inputs', 'histories'], "every history of operations, keys and values of every length including those kept outside the page",
  "the stable tests check the counters of nothing but tiny pages; drift needs particular splits, merges or replaced values",
  [B + 'bptree.go', H, O, D], [("counter updates beside the structural updates", B + 'bptree.go, ' + H)], observe=['Stats, Height, NumberOf*, PayloadSize'])
p('C10', 'Space is released exactly once, and nothing is lost',
  "Every piece of file space that a dictionary allocates stays reachable from it until the data it holds is replaced or deleted, and is then released exactly once: nothing is released twice or used after release, and nothing becomes unreachable without being released. After deleting everything and destroying the structure no space remains allocated.",
  ['inputs', 'histories'], "every history of operations; keys and values inside and outside the page",
  "the stable tests never look at the allocation statistics of the storage",
  [B + 'bptree.go', B + 'key.go', B + 'value.go', B + 'leaf.go', B + 'nonleaf.go', H],
  [("DestroyKey, DestroyValue, destroyLeaf, destroyNonLeaf", B), ("eraseSlot, restoreSlot, removeSlotDir, adjustSlotDirs", H)], observe=['fsm.Stats, every write operation, Destroy'])
p('C11', 'The chain of leaf pages is complete and ordered',
  "The leaf pages always form one circular doubly linked chain which visits every leaf exactly once in key order, with the recorded head and tail being its first and last leaf; inserting and removing a leaf keeps both directions consistent also at the ends of the chain. Iterating in either direction therefore meets all records.",
  ['histories', 'inputs'], "every sequence of splits and merges, at the head, middle and tail of the chain",
  "the stable tests never create a second leaf",
  [B + 'leaflist.go', B + 'leaf.go', B + 'bptree.go'], [("leafList", B + 'leaflist.go'), ("leaf header prev/next", B + 'leaf.go')], observe=['iteration in both directions'])
p('C12', 'Rebalancing keeps the search tree correct',
  "Splitting, merging and shifting of pages preserves every record and its order: each parent keeps exactly its subtrees in order, each separator equals the first key of the subtree behind it, and the entry an operation works on is still the one addressed afterwards. No page ever has more data than fits, no page other than the root stays underfilled, and all leaves stay at the same depth.",
  ['inputs', 'histories'], "every history of insertions, deletions and replacements with keys and values of every size, at every position of a page",
  T1 + "none of them runs a split, merge or shift inside a tree",
  [B + 'bptree.go', B + 'leaf.go', B + 'nonleaf.go'],
  [("ensureNotOverload*, ensureNotUnderload*, increaseHeight, decreaseHeight, syncKey", B + 'bptree.go'), ("Split, Merge*, Shift*, Unshift*, Count*", B + 'leaf.go, ' + B + 'nonleaf.go')],
  observe=['BPTree under insertion and deletion'])
p('C13', 'Page layout: what is put into a page is what is read from it',
  "Inserting, removing or replacing entries in a leaf or inner page leaves all other entries of the page unchanged and in order, and every entry reads back exactly the key, value or child it was given, for every position and every combination of sizes that fits. Headers and entries of a page never overlap.",
  ['inputs', 'histories'], "every page contents, position, number and size of entries",
  "the stable tests exercise these operations with a few small records; offsets and moves depend on sizes",
  [B + 'leaf.go', B + 'nonleaf.go'], [("leafController / nonLeafController accessors, InsertRecords, RemoveRecords, SetValue, InsertChildren, RemoveChildren, SetKey", B)], observe=['page operations'])
p('C14', 'Range search covers exactly the requested range',
  "A search from a minimum to a maximum bound, ascending or descending, yields exactly the stored entries whose key lies between the two bounds (both inclusive), whether or not the bounds are stored keys; the minimum and maximum sentinels stand for the first and last entry. A range with reversed bounds or without entries yields nothing.",
  ['inputs', 'histories'], "every pair of bounds including sentinels, absent keys and bounds at page borders, every contents",
  "the stable tests do not search at all",
  [B + 'bptree.go', B + 'common.go', B + 'key.go', O], [("search, SearchForward, SearchBackward", B + 'bptree.go'), ("RangeAsc, RangeDesc", O)], observe=['SearchForward, SearchBackward, RangeAsc, RangeDesc'])
p('C15', 'Iterators visit each entry once and end properly',
  "An iterator stands on the entries of its range one after the other in its direction, each exactly once, and is at its end after the last; sizes and bytes it returns are those of the entry it stands on. At the end every reading method returns the end-of-iteration error and zero results, and advancing does nothing.",
  ['inputs', 'histories'], "every contents, range and direction; every way of mixing the reading methods",
  "the stable tests do not iterate",
  [B + 'iterator.go', B + 'key.go', B + 'value.go'], [("forwardIterator, backwardIterator", B + 'iterator.go')], observe=['Iterator'])
p('C16', 'Keys are found by byte order',
  "Looking up a key finds the entry with exactly these bytes if and only if it is stored, comparing whole keys bytewise (also the part stored outside the page), and otherwise designates the place where it belongs. The minimum and maximum sentinels compare below and above every stored key and equal to themselves only.",
  ['inputs', 'histories'], "every key of every length, common prefixes included; every tree shape",
  T1 + "long keys with a common prefix and several levels are not covered",
  [B + 'key.go', B + 'common.go', B + 'leaf.go', B + 'nonleaf.go', B + 'bptree.go'], [("keyComparer, LocateRecord, LocateChild, findRecord", B)], observe=['every operation taking a key'])
p('C17', 'Long keys and values are stored and read back exactly',
  "A key or value of any length is stored so that its size and all of its bytes, read whole or in parts at any offset, are exactly those given; the part that does not fit into a page is kept in space of its own which is found again from the entry. Removing the entry reports the size and releases that space.",
  ['inputs'], "every length around the limits, every offset and buffer length of partial reads",
  "the stable tests use a few lengths and aligned reads",
  [B + 'key.go', B + 'value.go'], [("keyFactory, valueFactory", B + 'key.go, ' + B + 'value.go')], observe=['keyFactory, valueFactory, Iterator.ReadKey/ReadValue'])
p('C18', 'Hash slots: every item is in the slot its key selects',
  "At any number of slots each item is kept in the slot selected by the hash of its key, so that growing and shrinking, one slot at a time, moves exactly the items whose slot changes and loses or duplicates none. Slot tables and directories are enlarged before and shrunk after use such that every slot address is stored within its table.",
  ['inputs', 'histories'], "every history of insertions and deletions, in particular around powers of two of slots and directory sizes",
  "directory changes need more than 4096 and table changes more than 32768 slots, which no test reaches",
  [H], [("calculateSlotIndex, maybeExpand, maybeShrink, addSlot, removeSlot, addSlotDir, removeSlotDir, adjustSlotDirs, splitItems, mergeItems", H)], observe=['HashMap'])
p('C19', 'Slot records decode to the items they were made from',
  "Encoding the items of a slot and decoding them again gives the same items with the same keys, values and hash information in an order that only depends on the items, for every number and size of items including empty keys and values; an empty slot takes no space. Two items never exchange or share bytes.",
  ['inputs'], "every list of items and sizes, including empty values and the last item whose size is left out",
  "the stable tests store few items with short values",
  [H, 'hashmap/internal/protocol/hashmap.pb.go'], [("packSlot, unpackSlot, storeSlot, loadSlot, copyBytes", H)], observe=['HashMap'])
p('C20', 'Scanning with a cursor visits every item',
  "A scan from the initial cursor over an unchanged dictionary returns each item exactly once with its own key and value, and then reports the end and keeps doing so; the cursor advances with every call and one cursor does not affect another.",
  ['inputs', 'histories'], "every contents, including empty slots anywhere and slots with several items",
  "the stable test scans one small dictionary",
  [H, D], [("FetchItem, Cursor", H)], observe=['HashMap.FetchItem, Dict.Scan'])
p('C21', 'Undecodable data is reported, not used',
  "Whenever stored state or a slot is decoded, a failure reported by the decoder is acted upon before any decoded part is used: the operation stops with the documented error instead of carrying on with zero or partial data, and nothing is released or modified before the decoding succeeded.",
  ['inputs', 'fault_sequences'], "every content of the file at these places",
  "the tests have no damaged files",
  [H, B + 'bptree.go'], [("errCorrupted panics after DecodeMessage, Uvarint, Unmarshal", H), ("panic on binary.Read / binary.Write errors", B + 'bptree.go')], observe=['Load, Store, every operation which loads a slot'])
p('C22', 'Moving entries between neighbouring pages conserves them',
  "Each single split, merge or shift between two neighbouring pages and their parent moves a contiguous run of entries from the adjoining end of one page to the adjoining end of the other, with keys, values and children unchanged; the separator between the two is the first key of the right one afterwards.",
  ['inputs'], "every contents of the pages involved, every number of entries moved, every position in the parent",
  "no stable test runs these operations",
  [B + 'leaf.go', B + 'nonleaf.go'], [("Split, MergeFromRight, MergeToLeft, ShiftToRight, ShiftToLeft, UnshiftFromRight, UnshiftFromLeft", B + 'leaf.go, ' + B + 'nonleaf.go')], observe=['page-level operations'])
p('C23', 'Printing shows the tree as it is',
  "Printing a tree writes every page once with its own entries and children in order and depth first, and stops and returns the error of the writer as soon as a write fails; a successful return means that everything was written.",
  ['inputs', 'fault_sequences'], "every tree, every writer and failing position",
  "no stable test prints a tree",
  [B + 'fprint.go'], [("Fprint", B + 'fprint.go')], observe=['BPTree.Fprint'])
p('C24', 'Every history behaves like an ordinary map',
  "For every sequence of operations, on one or several dictionaries in any order, the results equal those of an ordinary (sorted) map kept in memory.",
  ['histories', 'inputs'], "all histories of all operations",
  "needs a proof by induction over histories with the contents as state",
  [B + 'bptree.go', H], [("all of it", B + ', ' + H)], observe=['whole API'])
p('C25', 'A crash before Close leaves a recoverable file',
  "If the process ends before Close, the file still opens and holds the state of the last successful Close.",
  ['crash_points'], "every point of interruption",
  "the tests never interrupt an operation",
  [O, D], [("none: the file is memory mapped and modified in place", O + ', ' + D)], observe=['reopening after a crash'])
p('C26', 'Cost: operations stay logarithmic and pages well filled',
  "The number of pages an ordered-dictionary operation visits grows logarithmically with the number of entries, and a dictionary operation visits a bounded expected number of items.",
  ['histories', 'inputs'], "every history and key distribution",
  "the tests do not measure",
  [B + 'bptree.go', H], [("load thresholds", B + 'leaf.go, ' + B + 'nonleaf.go'), ("load factor", H)], observe=['page accesses'])
