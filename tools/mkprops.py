#!/usr/bin/env python3
# Writes properties.jsonl (kept as a script so that the file stays uniform).
import json, os
L="src/lib.rs"; A="src/inner/aligned.rs"; U="src/inner/unaligned.rs"; S="src/inner/sized.rs"
VS="src/helper/valid_size.rs"; VA="src/helper/valid_align.rs"; H="src/helper.rs"; M="src/marker.rs"; E="emplacable/src/lib.rs"
ST=[{"name":"element offsets + pointer metadata","meaning":"one record per element from which address, size and metadata are recovered","where":A+" / "+U+" (ElementInfo)"},
    {"name":"pointer, byte capacity, alignment of the element buffer","meaning":"the allocation holding the elements; dangling when the byte capacity is 0","where":A+" / "+U+" (struct fields)"}]
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=ST):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None)))

p("C01","Pushing and inserting place the element and keep every other one",
 "After push, push_unsize, push_with, insert, insert_unsize or insert_with at any valid index, the vector equals the list obtained by inserting that element there: length grows by one, the new element has exactly the bytes and pointer metadata (slice length / vtable) that were passed in, and every other element keeps its bytes, metadata and order. This holds for every storage family (sized, slice, str, trait object, custom dynamically-sized type), every element size and alignment, and every prior capacity.",
 ["inputs","histories"],"all element sizes (including 0), alignments, contents, indices, previous contents and previous reserve/shrink history",
 "the tests push a handful of fixed values and insert only at index 0 of nearly empty vectors; whether offsets are recomputed correctly depends on sizes, alignments, index and spare capacity",
 [L,A,U,S],[("insert_unchecked / insert_with_unchecked / push_unchecked / push_with",A+", "+U+", "+S),("realign_up",U)],["get","iter","len"])
p("C02","Removing and popping yield the right element and keep the others",
 "Consuming the value returned by remove_into(i) or pop_into() delivers exactly the bytes and metadata of element i (respectively the last one; None when empty) to the consumer, shortens the vector by one, and leaves every other element with its bytes, metadata and relative order. This holds whether the consumer boxes the value, moves it into another vector, drops it or forgets it.",
 ["inputs","histories"],"all element sizes, alignments and contents, all valid indices, all four ways of consuming, all histories up to the bound",
 "the tests remove from small vectors of fixed element types; shifting the tail depends on sizes, padding and position",
 [L,A,U,S],[("remove_into_unchecked / pop_into_unchecked",A+", "+U+", "+S)],["remove_into","pop_into","get"])
p("C03","Iterators visit exactly the elements, from both ends, in any interleaving",
 "Any interleaving of next, next_back, nth, nth_back on iter() or iter_mut(), followed by any of count, last, size_hint, len, fold-style consumption, gives the same sequence of elements (addresses, bytes, metadata) as the same calls on an iterator over the list of elements, and len/size_hint are always exact. After exhaustion the iterator keeps returning None.",
 ["inputs","histories"],"all interleavings of iterator calls up to the bound, all argument values of nth/nth_back (full usize range), all element sizes",
 "tests only run plain for-loops; the interesting states (partially consumed from either end, skipped) are combinations that no test visits",
 [L,A,U,S],[("iterator structs and their next/nth/last/next_back",A+", "+U),("forwarding methods",L)],["iter","iter_mut","IntoIterator for &UnsizedVec"])
p("C04","Out-of-range indices never give access and never modify the vector",
 "get and get_mut return Some exactly for indices below len; indexing, insert*, and remove_into panic exactly when the index is out of range (insert: greater than len), for any usize value. When such a call panics or returns None, the vector's elements, length and capacities are unchanged and the rejected value is dropped exactly once.",
 ["inputs","histories"],"all 64-bit index values, all vector lengths up to the bound, all families",
 "no test passes an out-of-range index at all",
 [L],[("bounds checks in get/get_mut/insert*/remove_into/Index",L)],["get","get_mut","Index","IndexMut","insert","insert_with","remove_into"])
p("C05","Every reference handed out is in bounds, aligned, and disjoint from the others",
 "Every reference to an element obtained from get, get_mut, indexing or iteration points to memory inside a live allocation (or is a well-aligned dangling pointer for zero-sized elements), is aligned to the element's own alignment, and does not overlap any other element's memory. No sequence of safe operations reads uninitialised memory, uses freed memory, accesses out of bounds, or frees memory with a layout different from the one it was allocated with.",
 ["inputs","histories"],"all sequences of safe operations up to the bound, all element sizes and alignments",
 "a misaligned or overlapping element often still reads back correctly in a test; the fault needs particular sizes, alignments and an earlier shrink or realign",
 [L,A,U,S,VS,VA,H,M],[("pointer arithmetic in element access",A+", "+U),("realign_up / realign_down",U),("deallocation in Drop and shrink",A+", "+U)],["every public operation"])
p("C06","Each element is dropped exactly once and nothing leaks",
 "For any history of pushes, inserts, removals (boxed, moved, dropped), clones, conversions and a final drop of the vector, the destructor of each element runs exactly once, except for values explicitly forgotten, whose destructor never runs. Afterwards every allocation made has been freed exactly once.",
 ["histories","inputs"],"all histories up to the bound over all storage families and ways of consuming removed values",
 "the one drop test uses one fixed sequence; double drops and leaks depend on which operation ends each element's life",
 [L,A,U,S,E],[("Drop for the storage types",A+", "+U),("forget after bitwise move",A+", "+U+", "+E),("Drop for Emplacable",E)],["Drop of the element type","global allocator"])
p("C07","Reserved capacity is really there and is used without reallocating",
 "After any successful reserve-style call or with_capacity-style constructor, capacity, byte capacity and alignment are at least what was asked on top of the current length; then adding elements whose count, total (padded) size and alignment fit within the reported capacities performs no allocation and does not move existing elements. Reserving never changes the contents, and the exact variants leave a capacity that was already enough alone and otherwise set it to no more than was asked for (rounded up to the alignment or the element size). push and insert, when they have to grow the storage, at least double it where that succeeds, so that a run of them at unchanged alignment reallocates only a logarithmic number of times. (Zero-sized sized elements need no bytes: for them the byte capacity stays zero.)",
 ["inputs","histories"],"all requested amounts (full 64-bit range), all prior states up to the bound, all element sizes and alignments that fit",
 "the one capacity test checks one fixed sequence of with_capacity calls; whether spare capacity is honoured depends on the amounts",
 [L,A,U,S],[("reserve family","src/lib.rs"),("try_reserve_additional_bytes_align",A+", "+U+", "+S)],["capacity","byte_capacity","align","reserve*","with_capacity*","global allocator"])
p("C08","Shrinking keeps the contents and respects its lower bounds",
 "shrink_to_fit, shrink_to, shrink_capacity_bytes_to and shrink_capacity_bytes_align_to leave length and all elements unchanged, never increase a capacity, and leave each capacity at least as large as the smaller of its old value and the requested minimum, and at least what the current elements need; shrink_to does give up element capacity that is neither in use nor asked for; shrink_to_fit leaves a byte capacity equal to the bytes in use and an alignment that is the largest among the elements. All later operations keep working.",
 ["inputs","histories"],"all bounds (full 64-bit range, all power-of-two alignments), all element sizes, alignments and prior capacities",
 "no test calls a shrink function on a vector of unsized elements",
 [L,A,U,S],[("shrink_capacity_bytes_align_to",A+", "+U+", "+S),("realign_down",U)],["shrink_*","capacity","byte_capacity","align"])
p("C09","Changing the vector's alignment preserves every element",
 "When an element with a larger alignment is added, or a larger alignment is reserved, or the alignment is shrunk, every existing element keeps its bytes and metadata and is again reachable at an address aligned to its alignment; the reported alignment is a power of two not smaller than that of any element. Raising and then lowering the alignment gives back the same contents.",
 ["inputs","histories"],"all sequences of element sizes/alignments and all old/new alignments up to the bound",
 "re-padding is only exercised by a single test sequence with two alignments; lowering the alignment of a vector with two or more elements is never tested",
 [U,L,VA],[("len_after_realign_up, realign_up, realign_down, max_align_of_elems",U)],["align","push","reserve_capacity_bytes_align","shrink_capacity_bytes_align_to"])
p("C10","Size overflow and allocation failure are reported and leave the vector intact",
 "The try_reserve functions return Err, never panic and never report success, when the request cannot be represented or the allocator fails; the infallible versions panic or abort through the allocation-error handler in the same cases; a non-power-of-two alignment panics. In every such case the vector's length and elements are unchanged and it remains fully usable. (A byte reservation that may over-allocate falls back to what was asked for when the allocator refuses more.) (After a reservation of an enormous alignment that succeeds, elements that can no longer be padded to it are refused in the same way until the alignment is shrunk.)",
 ["inputs","fault_sequences"],"all 64-bit amounts and alignments, and every position at which the allocator may fail, for all families",
 "tests never make an allocation fail nor request near-overflow amounts",
 [L,A,U,S,VS,VA],[("checked arithmetic",VS),("try_reserve_*",L+", "+A+", "+U+", "+S),("to_align / unwrap_try_reserve_result",L)],["try_reserve*","reserve*","push","insert"])
p("C11","A panic in user code leaves the vector valid and loses or repeats nothing",
 "If user code called by an operation panics (the closure of an emplacable being inserted, the destination being filled by a removed value before it is written, a destructor, clone or iterator), the unwinding is memory-safe, no element is dropped twice, no element other than the one being moved in or out is lost, and the vector afterwards has a consistent length with all untouched elements intact and usable.",
 ["fault_sequences","histories"],"every point at which user code can panic during each operation, all families, indices and sizes",
 "no test makes user code panic",
 [A,U,S,E,L],[("ElementShifterBacker drop guards",A+", "+U+", "+S),("PointerDeallocer",E)],["push_with","insert_with","remove_into","pop_into","box_new_with","Extend"])
p("C12","Emplacable conversions deliver exactly the source value",
 "Every way of making an Emplacable (sized value, array, slice, str, CStr, OsStr, Path, Box, Vec, array or exact-size iterator of emplacables, unsize, with_emplacable_for) hands the consumer a layout and metadata that match the value and writes exactly its bytes; consuming it into Box, Rc, Arc, Vec, String, CString, OsString, PathBuf, a pinned box or by value gives back an equal value. Macros that build unsized values by value (unsize!, by_value_str!) preserve them.",
 ["inputs"],"all contents and lengths up to the bound and all element types of the instantiated families, every source x consumer pairing instantiated",
 "the tests convert a few constants; wrong length/layout computations need particular lengths, spare capacities or element types",
 [E],[("IntoEmplacable impls","emplacable/src/lib.rs"),("box_new_with, Vec/String/... From impls",E)],["Emplacable::from","box_new_with","into_vec","into_string","Emplacable::get"],state=[])
p("C13","An Emplacable owns its value exactly once",
 "Dropping an Emplacable drops its value exactly once, forgetting it never drops it, and consuming it transfers ownership without dropping; the memory of the source (box, vector, collection of emplacables, iterator) is released exactly once when it is consumed or dropped, and never more than once when it is forgotten.",
 ["inputs","histories"],"every source kind x {consume, drop, forget, move into vector}, all lengths up to the bound",
 "the tests consume emplacables but hardly drop or forget them, and none counts allocations",
 [E],[("Drop for Emplacable, forget, get, into_fn",E),("deallocation in Box/Vec sources",E)],["Emplacable::{get,forget,drop}","box_new_with"],state=[])
p("C14","Comparison, ordering and hashing agree with the element sequences",
 "Equality, partial and total ordering of two vectors give the same result as the lexicographic comparison of their element sequences, independent of capacity, alignment and history; equal vectors hash equally, and the hash feeds exactly the elements' hashes in order.",
 ["inputs"],"all pairs of vectors up to the bound with arbitrary contents, lengths and capacities",
 "tests compare a couple of constant vectors",
 [L],[("PartialEq/Eq/PartialOrd/Ord/Hash impls",L)],["==","partial_cmp","cmp","Hash::hash"])
p("C15","Bulk construction and conversion preserve the sequence",
 "From and Into Vec, unsize, clone, extend, collecting from an iterator of emplacables, and the unsized_vec!/unsize_vec! macros give a vector whose elements are exactly the source elements in order, with the expected metadata; the source's memory is reused or freed exactly once, and a clone is independent of the original. This holds whatever the source's length and spare capacity and however many items the iterator's size hint promises.",
 ["inputs","histories"],"all source lengths and capacities up to the bound, all element values, all size hints",
 "tests build vectors with fixed short macros; unsizing a whole vector and cloning are not tested across lengths or capacities",
 [L,A,U,S],[("from_sized",A+", "+U),("FromIterator/Extend/Clone/From",L)],["unsize","clone","extend","collect","From<Vec>","Into<Vec>"])
p("C16","With a sized element type the vector behaves like Vec",
 "For any sized element type, including zero-sized ones, every operation gives the same length, contents, panics and iteration results as the same operation on a standard Vec, and conversions to and from Vec preserve everything; capacities and byte sizes are reported as the element count times the element size.",
 ["inputs","histories"],"all histories up to the bound over instantiated element types (zero-sized, 1, 4, 8 and 12 bytes, with destructor)",
 "the one sized test uses one element type and no zero-sized types",
 [S,L],[("impl for Vec<T>",S)],["all operations on UnsizedVec<T: Sized>"],state=[])
p("C17","Length, byte length and capacity accessors tell the truth",
 "At every point of any history, len is the number of elements, is_empty is len == 0, byte_len is the number of bytes occupied by the elements (plus inter-element padding to the vector's alignment for trait objects), byte_len never exceeds byte_capacity, len never exceeds capacity, and align is at least every element's alignment (exactly theirs where the type determines it). Nothing but the documented growth and shrink operations changes a capacity.",
 ["histories","inputs"],"all histories up to the bound, all element sizes and alignments",
 "tests check len after a few fixed operations and byte_capacity after one",
 [L,A,U,S],[("accessors",L),("aligned_byte_len / byte_len",A+", "+U)],["len","is_empty","byte_len","byte_capacity","capacity","align"])
p("C18","Serialisation emits the elements in order with the exact length",
 "With the serde feature, serialising a vector produces a sequence whose announced length is len and whose items are the elements' own serialisations in order, and an error from the serialiser at any point is returned unchanged and stops the sequence.",
 ["inputs","fault_sequences"],"all lengths up to the bound, all contents, every position at which the serialiser may fail",
 "no test serialises anything",
 [L],[("Serialize impl",L)],["Serialize::serialize"],state=[])
p("C19","Debug formatting lists the elements",
 "Formatting a vector with Debug produces the same text as formatting the list of its elements.",
 ["inputs"],"all vectors and formatter flags",
 "tests never look at the formatted text",
 [L],[("Debug impl",L)],["fmt::Debug"],state=[])
p("C20","Public types promise no more thread-safety, variance or lifetime than Vec's do",
 "UnsizedVec and its iterators are Send, Sync or covariant only where the corresponding collection of the element type is, and the borrowing rules of the public signatures prevent any use of an element after the vector has changed.",
 ["programs"],"all client programs",
 "needs quantification over programs and types, not runs",
 [L,A,U],[("auto traits through PhantomData and the iterator structs",L)],["type system"],state=[])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
