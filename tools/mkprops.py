#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=()):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
        state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        observe_at=observe,hook_needed=None)))

p("C01","Raw tree: writes are read back, nothing else changes, root is exact",
"For any history of writes to a raw merkle tree at any generalized indices, reading an index returns the value last written there, or the part of the last value written above it, or the node combining what was written below it; every index not on the path of a write keeps its value. The reported root is always the hash of the resulting tree, whatever order the writes came in. Reading below a leaf reports that there is nothing there, and reading never changes the tree.",
["histories","inputs"],"all histories of writes (leaf values, zero, copies of existing subtrees) at all generalized indices up to a depth, from empty and non-empty trees, for both kinds of empty value, owned and dangling",
"tests/raw.rs tests run six fixed write histories with ascending or descending indices; interleavings of writes above, below and beside each other and subtree copies are never combined.",
["src/raw.rs","src/memory.rs","src/index.rs"],
[("path copy of the modified branch","src/raw.rs Raw::set"),("descent by route","src/raw.rs Raw::get")],
["Raw::get","Raw::set","Tree::root"])

p("C02","Vectors behave like arrays under any history of operations",
"A merkle vector, bounded or unbounded, owned or dangling, behaves as a plain array under any history of push, pop, set and get: the length, every element and every returned value agree with the array. A vector created with a length starts with that many zero elements. This holds for any length and for capacity growth and shrinking at every boundary.",
["histories","inputs","configurations"],"all operation histories up to a depth over a small value alphabet, plus push/pop/set at the boundaries of every length up to hundreds and around every power of two of sparse vectors up to 2^40 and maxima up to 2^63, for maximum length absent or any small or huge value, both empty kinds, both root statuses",
"No unit test uses a Vector directly; list tests only push 100 then pop 100 with no maximum length and never interleave set, pop and push around a capacity change.",
["src/vector.rs","src/raw.rs","src/memory.rs"],
[("capacity doubling and halving","src/vector.rs Vector::extend/shrink"),("element position from depth","src/vector.rs raw_index/depth")],
["Vector::push","Vector::pop","Vector::get","Vector::set","Sequence::len"],
[("len","number of elements","src/vector.rs Vector"),("max_len","declared capacity","src/vector.rs Vector")])

p("C03","Lists behave like growable arrays and record their length in the tree",
"A merkle list behaves as a plain growable array under any history of push, pop, set and get, with or without a maximum length. After every operation the tree itself holds the element tree on the left of the root and the exact current length on the right, so that the root alone determines the contents.",
["histories","inputs","configurations"],"all operation histories up to a depth, plus every length up to hundreds (crossing 256 and, thorough, 65536), for maximum length absent, small and huge, both empty kinds",
"The list tests run one up-then-down history of 100 elements without a maximum; mixed histories and bounded lists (which could not even be created) are not run.",
["src/list.rs","src/length.rs","src/vector.rs"],
[("re-attachment of inner root and length after each mutation","src/length.rs LengthMixed::with_mut"),("creation with length","src/length.rs LengthMixed::create")],
["List::push","List::pop","List::get","List::set","Tree::root","Raw::get on the list's root"])

p("C04","Packed vectors and lists behave like arrays for every element width",
"A packed vector or packed list behaves as a plain array of fixed-size byte strings under any history of push, pop, set and get, whatever the ratio between element size and chunk size, including sizes that do not divide each other. No operation on one element changes another element, and bytes of the last chunk that belong to no element are always zero.",
["histories","inputs","configurations"],"all operation histories up to a depth for element widths 1,2,3,4,5,8,16,24,32,33,40,48,64,96 in 32-byte chunks and several widths in 8-byte chunks, plus every length up to a hundred or more",
"The two packed tests use 64-byte elements in 32-byte chunks only, with push-all then pop-all; elements sharing a chunk are never exercised.",
["src/packed.rs","src/vector.rs","src/length.rs","src/utils.rs"],
[("byte ranges covering an element","src/packed.rs coverings"),("chunk counts","src/utils.rs host_len/host_max_len")],
["PackedVector::*","PackedList::*"])

p("C05","Bounds are enforced exactly and refused operations change nothing",
"No collection (vector, list, packed vector, packed list) ever holds more elements than its maximum length, and it can be filled up to exactly that maximum. Creation succeeds exactly when the length does not exceed a given non-zero maximum; pushing to a full collection and reading or writing at or beyond the current length report an out-of-range error; popping from an empty one returns nothing. A refused operation leaves root, length and contents as they were, and the collection stays usable.",
["histories","inputs","configurations"],"all (length, maximum) creation pairs in a grid; at every reachable state of small bounded and unbounded collections, every out-of-range index (length, length+1, chunk padding, capacity, huge) and over-full push, followed by further operations",
"No test asserts any error result: no out-of-range access, no full collection, no rejected parameter.",
["src/vector.rs","src/packed.rs","src/list.rs"],
[("index check","src/vector.rs Vector::get/set"),("capacity check","src/vector.rs Vector::push/create"),("value-level bounds","src/packed.rs PackedVector")],
["Result of create/get/set/push/pop","Tree::root","Sequence::len"])

p("C06","Collection roots depend only on contents and equal the ssz merkleization",
"With ssz-style empty values, the root of a vector, list, packed vector or packed list after any history equals the ssz merkle root of its current contents (and length, and maximum length), computed from scratch. Two histories ending in the same contents therefore give the same root, and a collection modified in place has the same root as the same value merkleized in one go. With unit empty values the root is likewise a function of contents only.",
["histories","configurations"],"all operation histories up to a depth and the boundary walks of C02-C04, compared at every step with an independent merkleization and with the one-shot merkleizer",
"Tests compare roots only between going up and coming down the same 100-element list; no root of a mutated collection is ever compared with the specification.",
["src/vector.rs","src/list.rs","src/packed.rs","src/memory.rs","src/utils.rs"],
[("replacement of emptied subtrees on pop","src/vector.rs Vector::pop"),("zero hashes","src/memory.rs InheritedDigestConstruct::empty_at"),("one-shot merkleizer","src/utils.rs vector_tree")],
["Tree::root"])

p("C07","Nodes still in use are never lost, however trees share and release them",
"When several owned trees share one in-memory database, no operation on one of them (write, push, pop, drop) ever makes any part of another live tree unreadable or different, even when they share subtrees or contain the same node many times. A tree itself stays fully readable after each of its own operations, and a dangling view never causes anything to be removed.",
["histories"],"all interleavings up to a depth of writes, subtree copies between trees, pushes, pops, leaking and re-owning, and drops on two or three trees (raw trees, vectors, lists) in one database",
"test_set_only and test_intermediate look at map sizes after fixed histories of one tree; sharing between trees and release orders are not explored.",
["src/memory.rs","src/raw.rs","src/length.rs","src/vector.rs"],
[("reference counts","src/memory.rs InMemoryBackend::insert/rootify/remove"),("rootify before unrootify","src/raw.rs Raw::set"),("attach before release","src/length.rs LengthMixed::create")],
["ReadBackend::get from every live root"],
[("refcount","number of parents and roots holding a node","src/memory.rs InMemoryBackend")])

p("C08","Garbage collection is complete: releasing trees leaves nothing behind",
"After every operation on owned raw trees, vectors, lists, packed vectors and packed lists, the in-memory database contains only nodes reachable from a live owned tree (plus the default value). Once all of them are dropped, in any order, the database is back to its initial content. Nodes shared with a tree that is still live are the only ones kept.",
["histories"],"same explorations as C07 plus single-collection histories, checking the exact set of stored nodes after every operation and after dropping in every order",
"Only three fixed raw-tree histories look at the size of the database, and no test ever calls drop.",
["src/memory.rs","src/raw.rs","src/vector.rs","src/length.rs","src/packed.rs"],
[("recursive release","src/memory.rs InMemoryBackend::remove"),("drop","src/raw.rs Tree::drop")],
["InMemoryBackend::as_ref keys"])

p("C09","The in-memory node store keeps exactly the held nodes with their children",
"For any interleaving of inserting nodes, holding and releasing roots, and populating from a proof, looking up a node that has been inserted returns exactly the two children it was inserted with, for as long as it is held (directly, or through a stored parent) and also while it has never been held at all, no matter whether it was first seen as a child, as a root or as a node. When the last hold on a node is released it is gone together with everything only it was holding, and populated nodes are never removed. A key never inserted, or gone, is reported as absent rather than as an error.",
["histories"],"all histories up to a depth of insert/rootify/unrootify/populate/get over a small universe of nodes with sharing, duplicated children and children inserted after their parents, against a reference store",
"The store is only driven by well-ordered tree operations in tests; children-after-parents, populate mixed with inserts, and multiple holds never occur.",
["src/memory.rs"],
[("insert/rootify/unrootify/populate","src/memory.rs InMemoryBackend")],
["ReadBackend::get","WriteBackend::*","InMemoryBackend::as_ref","InMemoryBackend::populate"])

p("C10","Merkle roots conform to the ssz specification for every supported type",
"For every supported type (unsigned integers, booleans, 256- and 512-bit hashes, unit, tuples, fixed arrays, vectors, lists with and without maximum, compact vectors, lists, bitvectors and bitlists, options, boxes and nestings of them) and every value, the merkle root equals the one defined by ssz: little-endian packing, zero padding to the declared limit, length mix-in for lists, type mix-in for options. A list longer than its declared maximum is refused instead of being given a root.",
["inputs","programs"],"all combinations of element type, length and maximum length over a grid covering every chunk and power-of-two boundary, with element patterns that distinguish every byte; all small booleans vectors exhaustively; all small nestings",
"tests/spec.rs checks 21 fixed values; most of the official vectors are commented out and no uint128/256 lists, limits, tuples or options are checked.",
["le/src/basic.rs","le/src/elemental_fixed.rs","le/src/elemental_variable.rs","le/src/fixed.rs","le/src/variable.rs","le/src/utils.rs","src/utils.rs"],
[("packing","le/src/elemental_fixed.rs"),("merkleize with limit","src/utils.rs vector_tree"),("mix in length/type","le/src/utils.rs")],
["tree_root","IntoTree::into_tree"])

p("C11","Encoding a value into a tree and decoding it back gives the same value",
"For every supported type and every value within its declared limits, decoding the tree that was built from the value, from its root alone, succeeds and returns an equal value. This holds even when the same database already contains the trees of other values, in any order of insertion.",
["inputs","histories","programs"],"the value grid of C10, each value alone and with other values' trees inserted before or after in the same database",
"Round trips are tested for about 25 fixed values, never for 512-bit hashes, 256-bit integers in compact form, tuples, options, boxes, VecArray, or limits above the length.",
["le/src/basic.rs","le/src/elemental_fixed.rs","le/src/elemental_variable.rs","le/src/fixed.rs","le/src/variable.rs","le/src/utils.rs","src/utils.rs"],
[("decoders","le/src/*.rs FromTree impls")],
["IntoTree::into_tree","FromTree::from_tree"])

p("C12","Derived structs and enums merkleize by declaration order and round-trip",
"A derived container (struct with named or positional fields, generic or not, any number of fields) has the root of the vector of its fields' roots in declaration order, a field marked compact being merkleized in compact form; a derived enum mixes in the variant's position to the root of the variant's fields. Decoding returns an equal value, and an enum tree with an unknown variant tag, or a unit variant with a non-zero payload, is rejected.",
["inputs","programs"],"a family of derived types covering every field count up to 9, every shape of struct and enum variant, generics, nesting and compact marks, each with all combinations of small field values; all tags 0..n+2 and huge tags",
"tests/derive.rs decodes one struct and three enum values and checks a single root; layouts of other arities, tag values and rejections are untested.",
["le/derive/src/lib.rs","le/src/utils.rs","src/utils.rs","src/vector.rs"],
[("derive expansion","le/derive/src/lib.rs into_tree_derive/from_tree_derive"),("type tag","le/src/utils.rs mix_in_type/decode_with_type")],
["IntoTree::into_tree","FromTree::from_tree","tree_root"])

p("C13","The backend in use never changes results",
"Merkleizing a value gives the same root with the discarding backend, the in-memory backend, a proving backend around it and an error-stripped backend around either. Running any history of collection operations through a proving or error-stripped wrapper gives the same results, roots and stored nodes as running it directly, and the discarding backend answers every read with its unsupported error instead of a wrong value.",
["inputs","histories","configurations"],"the value grid of C10 and all collection histories up to a depth, run in lock step on every backend",
"Only InMemoryBackend is used in tests apart from tree_root on one struct and one proving example.",
["src/memory.rs","src/proving.rs","src/traits.rs","le/src/lib.rs"],
[("forwarding","src/proving.rs ProvingBackend, src/traits.rs DynBackend"),("no-op store","src/memory.rs NoopBackend")],
["tree_root","Tree::root","InMemoryBackend::as_ref"])

p("C14","Decoding an incomplete or malformed tree gives an error, never a wrong value",
"Decoding a value, or reading an element of a collection, from a database that lacks some of the nodes of its tree gives either the original value or a corrupted-database error: it never panics, never loops and never returns a different value. A list tree whose recorded length exceeds the declared maximum, or is too large to be represented, is rejected, also when it is only attached to as a list or reached through a partial view, and so is an option or unit value whose tag or payload is invalid.",
["inputs","fault_sequences"],"for small values of every kind and reads of collection elements, every subset (small trees) or every single and pair (larger trees) of missing nodes; for list trees, every recorded length from a set covering 0..max+3 and all powers of two up to 2^256",
"No test decodes from an incomplete database or a tampered tree.",
["le/src/utils.rs","le/src/elemental_variable.rs","le/src/elemental_fixed.rs","le/src/basic.rs","src/vector.rs","src/raw.rs","src/list.rs"],
[("missing node reported","src/vector.rs Vector::get"),("length check","le/src/utils.rs decode_with_length"),("tag check","le/src/basic.rs Option::from_tree")],
["FromTree::from_tree","List::reconstruct"])

p("C15","A recorded proof suffices to replay the operations without the database",
"For any history of reads and writes performed on a tree or collection through a proving backend, a fresh database populated only with the recorded proof, and starting from the same root, replays the same history with identical results at every step and the same final root. Every recorded entry is a true node of the tree as it was before the history, so a verifier can check it against the old root.",
["histories","inputs"],"all operation histories up to a depth on raw trees, vectors, lists and packed lists from many initial contents and maximum lengths (including trees with many identical subtrees), each replayed from its proof",
"One test proves two reads of one list and verifies only those reads; no write history is replayed against a proof.",
["src/proving.rs","src/memory.rs","src/raw.rs","src/vector.rs","src/length.rs"],
[("recording of reads not caused by own inserts","src/proving.rs ProvingBackend::get/insert"),("populate","src/memory.rs InMemoryBackend::populate")],
["ProvingBackend","Proofs","InMemoryBackend::populate"],
[("proofs/inserts","nodes read and nodes created so far","src/proving.rs ProvingState")])

p("C16","Compact proofs keep the proof and the root, and bind every value",
"Turning a recorded proof into compact form and back yields the same proof entries and the same root. The root computed from any compact proof equals the hash of the tree it depicts, its size is its number of leaves, and changing any single value in it, exchanging two different values, or arranging values in another shape, changes the root. A plain branch proof is accepted exactly when it has one sibling per level of the index, and its compact form then has the root of the tree it was taken from and holds the value at that index.",
["inputs","histories"],"all binary tree shapes up to a number of leaves with every subset of revealed nodes, all indices and all branch lengths up to a depth, all single changes",
"A single 10-leaf compact proof is converted once; from_plain and tampering are untested.",
["src/proving.rs","le/src/basic.rs"],
[("compaction","src/proving.rs Proofs::into_compact/from_compact"),("fold","src/proving.rs CompactValue::fold/from_plain")],
["Proofs","CompactValue"])

p("C17","Generalized indices form a consistent binary addressing scheme",
"Left child, right child, parent, route, depth-and-offset construction and composition of generalized indices agree with each other for every index: the route of an index leads from the root to it, composing two indices concatenates their routes, and an index is a descendant of another exactly when the other's route is a proper prefix of its own. The root has no parent and no index is zero.",
["inputs"],"all indices below 2^10 in pairs and 2^16 singly, plus boundary indices at every depth up to the word size",
"One test checks two descendant queries and another lists five routes.",
["src/index.rs"],
[("index arithmetic","src/index.rs Index")],
["Index::*","IndexRoute::at_depth"])

p("C18","Partial updates have exactly the effect of updating the whole value",
"Reading a part of a merkleized container through its partial view returns that part's current value. Setting parts and flushing, in any order and number, moves the tree to exactly the root of the whole container with those parts replaced and everything else unchanged; this includes nested containers, and setting and appending elements of lists. Flushing without changes leaves the root as it is, and an element position beyond the end of a list is refused rather than altering another part.",
["histories","inputs"],"all histories up to a depth of get/set/push/flush over the parts of several container shapes (1 to 9 fields, nested, lists of integers and of containers inside containers), owned and dangling",
"partial_test sets one field of one container once; list parts are never used.",
["le/src/partial.rs","le/derive/src/lib.rs","src/raw.rs"],
[("index resolution","le/src/partial.rs PartialIndex::resolve"),("flush","le/src/partial.rs PartialItem::flush"),("derive","le/derive/src/lib.rs partialable_derive")],
["PartialItem::flush","PartialValue::get","PartialVec","Tree::root"])

p("C19","Backend failures surface as errors and never as success or panic",
"If any single access to the backend fails during any operation (tree and collection operations, merkleization, decoding, partial views), the operation reports that very failure: it neither panics nor reports success. A raw tree whose write failed still has its old root and contents, and whatever was readable from other live trees stays readable.",
["fault_sequences","histories"],"every operation from every small reachable state, with the failure injected at every backend access of that operation in turn, for each kind of access",
"No test has a backend that can fail.",
["src/raw.rs","src/vector.rs","src/list.rs","src/length.rs","src/packed.rs","src/utils.rs","src/proving.rs","src/traits.rs","le/src/basic.rs","le/src/elemental_fixed.rs","le/src/elemental_variable.rs","le/src/partial.rs"],
[("error propagation","? on every backend call"),("assignment of the new root last","src/raw.rs Raw::set")],
["Result of every operation"])

p("C20","A tree handle can be leaked and rebuilt without any observable difference",
"Rebuilding a collection from its leaked metadata, from its root value alone (lists), or from the raw tree it was converted to gives a collection with the same root, length, maximum, contents and future behaviour, at any point of any history. Leaking does not release anything, so an owned tree that is leaked and rebuilt is still protected from collection until it is dropped, and is collected when it is. A list root whose recorded length exceeds the maximum given for rebuilding is refused.",
["histories"],"all collection histories up to a depth with a leak/rebuild inserted at every step, compared with the same history without it",
"One list of 100 elements is deconstructed and reconstructed once; from_leaked and metadata of vectors and packed collections are not tested and never followed by writes.",
["src/raw.rs","src/vector.rs","src/list.rs","src/length.rs","src/packed.rs"],
[("Leak impls","src/*.rs Leak"),("reconstruct","src/list.rs List::reconstruct, src/length.rs")],
["Leak::metadata","Leak::from_leaked","List::deconstruct/reconstruct","into_raw/from_raw"])

p("C21","Serialized forms of values and proofs round-trip and respect list limits",
"Encoding a bounded list, a node value or a compact proof with the supported binary codec or with serde and decoding it returns an equal value. A bounded list is encoded exactly like the plain list of its elements. Decoding a bounded list accepts exactly those encodings whose element count does not exceed the declared maximum, and truncated binary input is rejected.",
["inputs"],"all lists of length 0..max+3 for several maxima and element types, all compact proof shapes up to a number of leaves, every truncation of every encoding",
"No test exercises the codec or serde features at all.",
["le/src/variable.rs","le/src/lib.rs","src/proving.rs"],
[("limit check on decode","le/src/variable.rs Decode/Deserialize for MaxVec"),("derives","src/proving.rs CompactValue, le/src/lib.rs Value")],
["parity_codec::Encode/Decode","serde::Serialize/Deserialize"])

open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))
