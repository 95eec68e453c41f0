# property -> (technique, level note)
BASE = " Assumes the documented behaviour of github.com/roy2220/fsm and of the standard library (modelled, not analysed) and use of an instance by one goroutine at a time. Obligations the analysis cannot settle are reported as undecided, never as violations."
CHECKS = {
 'C01': ("typestate dataflow over SSA: epochs of file-space accessors, interprocedural, path-partitioned",
         "Every use of an accessor in every function is an obligation; sound for all inputs, histories and growth positions as long as none is listed as undecided (none on the current tree)." + BASE),
 'C02': ("escape / alias analysis over SSA of all exported operations",
         "Everything reachable from results and retained state is traced to its origin on every path." + BASE),
 'C03': ("write-effect and retention analysis over SSA",
         "Every store, copy, append and modelled library call is checked for its target object." + BASE),
 'C06': ("path-partitioned dataflow over SSA (value numbering, page-sequence and typestate domains; loops and callees by summaries) of the record operations",
         "Every path of the ten operations on single records is an obligation: outcome of the lookup against edit, space created and released, results. What the page primitives do is taken from their contracts (C13, C16); what rebalancing does afterwards from C12." + BASE),
 'C04': ("interprocedural value-flow analysis over SSA: writer/reader field agreement of the stored state",
         "Every field of the stored records is traced from the state it is taken from to the state it is read back into, on every path of Store/Load and of opening and closing. The wire format itself is that of encoding/binary and of the generated protobuf code." + BASE),
 'C05': ("typestate / event-order analysis over SSA of the open and close paths",
         "Every path of the open and close functions is an obligation." + BASE),
 'C07': ("path-partitioned dataflow over SSA of the item operations (lookup outcome against edit of the slot's item list and results)",
         "Every path of the ten operations on single items is an obligation." + BASE),
 'C18': ("value-flow and invariant analysis over SSA (bit-level index terms, table invariants, loops by summaries) of slot selection, growing and shrinking",
         "Slot selection on every path of every item operation; every path of adding and removing a slot starting from any table which satisfies the invariants; dividing and merging of item lists element by element."+BASE),
 'C19': ("value-flow analysis over SSA of encoding and decoding of slots (loops by summaries, cursor and length terms)",
         "Every path of packing, unpacking and storing a slot; the generated protobuf code and its wire format are modelled." + BASE),
 'C20': ("path-partitioned dataflow over SSA of the scan operations: each path is one step of the walk over slots and items",
         "Every path of FetchItem and Scan and every iteration of their loops; that decoding a slot gives its items is C19." + BASE),
 'C11': ("path-partitioned dataflow over SSA of the rebalancing steps (leaf chain links, conservation of records and children, content in key order)",
         "Every path of every rebalancing step for every position of the page under its parent (root, first, later): which pages hold which stretch of content, and the links of the leaf chain; how many entries move is C12." + BASE),
 'C12': ("path-partitioned dataflow over SSA of the rebalancing steps and their callers, induction over the counting loops, constant reasoning about the load thresholds",
         "Every path of every step, every loop that decides how many entries move, and every edit that must be followed by a step." + BASE),
 'C22': ("path-partitioned dataflow over SSA: the path of (page, index) pairs after every rebalancing step",
         "Every path of every step and of the loops climbing the path." + BASE),
 'C09': ("value-flow analysis over SSA: the change of every counter on every path against the change of what is stored",
         "Every path of every operation, of every rebalancing step and of every step of the slot table; getters, statistics structs and stored state included." + BASE),
 'C08': ("effect analysis over SSA of all read operations",
         "Every path of every read operation is checked for writes to the file space, allocation effects and changes of dictionary state." + BASE),
 'C21': ("error-flow / typestate analysis over SSA: decoded data is used only behind the check of the decoder's error",
         "Every decode on every path of every operation is an obligation." + BASE),
 'C10': ("ownership dataflow over SSA: every allocation ends up recorded in the structure, every removed or replaced owner is released once and not used afterwards",
         "Every path of every operation, rebalancing step, slot table step, open/close and destroy; that releasing loops visit every owner is decided by induction over their index." + BASE),
 'C17': ("value-flow analysis over SSA: composition of encoder and decoder on symbolic content (sequence terms, both sides of every length threshold)",
         "Every path of creating, reading, measuring and destroying keys and values composed with every path of encoding, index bounds of the codecs included." + BASE),
 'C16': ("invariant inference over SSA loops (candidate invariants about the order of page entries, kept only if inductive), composition of encoder and comparison, value-flow analysis of the descent",
         "Every path of searching a page, for every number of entries; comparing a stored key composed with every path of encoding it; every step of the descent. That the keys of a page ascend is C22/C12." + BASE),
 'C14': ("path-partitioned dataflow over SSA with a zone (difference-bound) domain over record numbers: what each path learns about the bounds against the range it returns",
         "Every path of the four searches, for every pair of bounds (keys stored or not, sentinels) and any number of records and leaves; the order of keys in pages and of leaves in the chain is C22/C11, stepping over the range C15." + BASE),
 'C15': ("typestate / path-partitioned dataflow over SSA of the iterator methods (at the end, on the last entry, within a leaf, at its border)",
         "Every path of every method of both iterators from any state in which an iterator can be." + BASE),
 'C13': ("abstract interpretation of the page operations over SSA: page contents as regions (strided headers, copied and shifted stretches, loops by validated summaries, loop variables as prefix sums by induction), order of offsets in the domain of convex polyhedra, composed with the functions which read entries",
         "Every path of inserting, removing and replacing in leaf and inner pages with any number of entries of any sizes which fit, for an entry before, inside and behind the place of the operation; the layout itself is taken from the reading functions." + BASE),
 'C23': ("path-partitioned dataflow over SSA of the recursion which prints a page: numbering of the parts of a page, induction over its loops, error flow",
         "Every path of printing a page, leaf or inner, for any number of entries; how the parts are decorated is not looked at." + BASE),
}
NA = {
 'C24': "equality with a map over all histories needs induction over unbounded tree contents (a functional proof or model checking); static analysis here decides its ingredients instead: C06, C07, C12, C13, C14, C16, C18, C22",
 'C25': "does not hold by design (the mapped file is modified in place, nothing is journalled; the library only promises state after Close), and which mapped pages reach the disk before a crash is outside what the source determines",
 'C26': "a bound on visited pages is a numeric argument over runtime fill levels and key distributions; no static argument in reach bounds it (the load thresholds it rests on are checked in C12)",
}
