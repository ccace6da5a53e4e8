#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of the property texts)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),
      why_tests_cant=why,anchors=dict(files=files,
        state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],
        observe_at=list(observe),hook_needed=hook)))
RB="src/rbtree.rs"; MAP="src/collections/map.rs"; IT="src/rbtree/iterator.rs"; EN="src/rbtree/entry.rs"
SEQ="src/collections/seq.rs"; PG="src/collections/paged.rs"; GR="src/collections/group.rs"; GB="src/collections/group/builder.rs"
HT="src/hashtree.rs"; LB="src/label.rs"; AH="src/as_hash_tree.rs"
p("C01","The certified map behaves as an ordered map under every history",
 "After any sequence of insertions, removals, clears, in-place modifications and bulk constructions, the map holds exactly the key/value pairs that the same sequence leaves in an ordinary ordered dictionary. Every operation returns what that dictionary returns (previous value, removed value or entry, presence, length, emptiness), and every iteration lists the pairs once each in ascending key order with an exact remaining-length hint.",
 ["histories","inputs"],"every finite history of map operations, every key and value",
 "The tests replay two fixed insert/delete orders and one pseudo-random one over 100 and 200 keys with a single key type; the tree's rotations depend on the whole history.",
 [RB,MAP,IT],[("left-leaning red-black insertion/deletion","src/rbtree.rs:insert, delete, balance"),("in-order iterator","src/rbtree/iterator.rs:next"),("lookup","src/rbtree.rs:get, get_with")],
 [("len","number of entries","src/rbtree.rs:RbTree.len"),("root","binary search tree of entries","src/rbtree.rs:RbTree.root")],
 ["Map/RbTree public methods"])
p("C02","The root hash always commits to exactly the current contents",
 "At every point of every history, the root hash a map reports equals the hash reconstructed from the full hash tree it exports, and that tree lists exactly the current keys and values in key order. This holds after every kind of mutation, including replacing a value, modifying it in place, appending to a nested sequence, modifying the last key under a prefix, and mutating a map nested inside a map.",
 ["histories","inputs"],"every finite history of mutations of flat and nested maps, every key and value",
 "Cached hashes must be refreshed along a history-dependent path at every rotation and on every in-place change; the tests compare hashes only after two insertion orders and never after most in-place mutations.",
 [RB,MAP],[("hash refresh on insert/delete/rotation","src/rbtree.rs:Node::subtree_hash call sites"),("hash refresh on in-place change","src/rbtree.rs:modify, modify_max_with_prefix"),("append_deep","src/collections/map.rs:append_deep")],
 [("subtree_hash","cached hash of a subtree","src/rbtree.rs:Node.subtree_hash")],["root_hash()","as_hash_tree()"])
p("C03","Entry handles and lent references act as the map and keep the root current",
 "The entry interface (vacant/occupied views, and_modify, or_insert and its variants, remove, remove_entry, get, get_mut, into_mut, insert, key) has the same effect and results as the corresponding map operations. A change made through any mutable reference the map lends out is in the contents, and the root hash and all witnesses taken afterwards account for it, whatever operation comes next.",
 ["histories","inputs"],"every history mixing entry operations, writes through lent references and ordinary operations",
 "No test calls the entry interface or get_mut, and the defect class (a write after the hashes were computed) appears only through the order of a write and the next read.",
 [EN,RB,MAP],[("entry view","src/rbtree/entry.rs"),("mutable lookup","src/collections/map.rs:get_mut"),("insert returns a mutable reference","src/rbtree.rs:insert")],
 [("node","the entry a handle points at","src/rbtree/entry.rs:OccupiedEntry.node")],["entry API return values","root_hash() after a write"])
p("C04","The certified tree stays balanced after every history",
 "After any history of insertions and removals, no path from the root of the certified tree to an empty position is more than twice as long as another. A lookup, an update and a single-key witness therefore take a number of steps logarithmic in the number of entries.",
 ["histories"],"every finite history of insertions and removals",
 "Balance is asserted only in test builds on a few histories; a rebalancing slip shows in deletion sequences that depend on the exact shape of the tree.",
 [RB],[("rebalancing","src/rbtree.rs:balance, rotate_left, rotate_right, move_red_left, move_red_right, flip_colors")],
 [("color","red/black","src/rbtree.rs:Node.color")],["nesting depth of as_hash_tree() and of witnesses"])
p("C05","A witness for a present key proves its value and discloses nothing else",
 "For every reachable map and every key in it, the witness for that key reconstructs to the map's root hash and contains that key with its complete value. Every other key and value appears only as an opaque hash.",
 ["histories","inputs"],"every reachable map, every present key",
 "The tests check hash equality for ten keys in one tree and never what the witness discloses.",
 [RB,MAP],[("witness construction","src/rbtree.rs:lookup_and_build_witness, nested_witness, three_way_fork")],(),["witness()"])
p("C06","A witness for a missing key proves the absence",
 "For every reachable map and every key not in it, the witness reconstructs to the map's root hash and shows the closest smaller and the closest larger key (where they exist) with nothing hidden between them, so that a verifier concludes the key is absent. It discloses no value and no other key.",
 ["histories","inputs"],"every reachable map, every absent key: below, between and above the present ones, and the empty map",
 "The tests check only hash equality of absence witnesses, on one tree of ten keys.",
 [RB,MAP],[("neighbour search","src/rbtree.rs:lower_bound, upper_bound"),("range witnesses","src/rbtree.rs:witness_range_above/below/between")],(),["witness()"])
p("C07","Range witnesses are complete, exact and verifiable",
 "For every reachable map and every pair first <= last (present or not), the key-range and value-range witnesses reconstruct to the root hash and list every entry in the closed range with nothing hidden between its two ends. An end that is not a key is closed off by its nearest outside neighbour; the value-range witness contains the values of exactly the entries in the range, the key-range witness and the all-keys witness contain no value, and no other key is disclosed.",
 ["histories","inputs"],"every reachable map, every range with first <= last",
 "The case analysis depends on where both ends lie relative to every node on the path; the tests look at about 20 ranges on one three-key tree.",
 [RB,MAP],[("range witnesses","src/rbtree.rs:witness_range_above, witness_range_below, witness_range_between, full_witness_tree")],(),["key_range, value_range, keys; Map::witness_key_range, witness_value_range, witness_keys"])
p("C08","Prefix queries cover exactly the keys with the prefix",
 "For every reachable map and every prefix, the prefix witness reconstructs to the root hash, lists every key that starts with the prefix with nothing hidden among them, and is closed off by the nearest neighbours outside. Looking up or modifying the last entry with a prefix acts on the greatest key with that prefix and on nothing when there is none; this holds for byte-string prefixes and for composite keys of which several share one equal prefix.",
 ["histories","inputs"],"every reachable map, every prefix, byte-string and composite keys",
 "The tests check one string map and one paged map; prefix grouping depends on where the group's members sit in the tree.",
 [RB,LB,MAP],[("prefix search","src/rbtree.rs:right_prefix_neighbor, lower_bound, keys_with_prefix"),("last with prefix","src/rbtree.rs:max_entry_with_prefix, modify_max_with_prefix"),("prefix relation","src/label.rs:Prefix")],(),["keys_with_prefix, max_entry_with_prefix, modify_max_with_prefix, Map::witness_keys_with_prefix"])
p("C09","No witness lets a verifier conclude anything false, for any key type",
 "The labels of every exported tree are strictly increasing byte strings, as the Internet Computer's certificate rules require. Hence for every witness of any kind taken from any reachable map or paged map and every key, looking the key's label up in the witness by those rules yields the key's true value or presence, its true absence, or \"unknown\", and never a wrong answer.",
 ["histories","inputs"],"every supported key type, every reachable map, every kind of witness, every looked-up key",
 "The tests never look anything up in a witness and use only key types whose order agrees with their bytes.",
 [RB,LB,PG],[("label encoding and key order","src/label.rs:Label impls"),("composite labels","src/collections/paged.rs:PagedKey::as_label"),("tree order","src/rbtree.rs comparisons by key")],(),["labels of as_hash_tree() and of witnesses"])
p("C10","Nested witnesses prove entries of inner collections against the outer root",
 "For collections nested in a map, a nested witness built from an inner witness reconstructs to the outer root hash, shows the outer key and exactly what the inner witness shows, and hides the rest. When the outer key is absent the inner witness is not taken and the result is an absence proof; every change made inside an inner collection through the map is covered by the next outer root and witness.",
 ["histories","inputs"],"every history of outer and inner operations on two-level maps, all present/absent combinations",
 "One test covers a single-entry nested map and one deletion.",
 [RB,MAP],[("nested_witness","src/rbtree.rs:nested_witness, subtree_with"),("modify","src/rbtree.rs:modify")],(),["nested_witness(), root_hash()"])
p("C11","A sequence is an append-only list whose hash is fixed by its items",
 "After any history of construction, append, extend, clear and decoding, a sequence holds exactly the items added since it was last emptied, in order, under every read access. Its root hash depends on that list of items alone, not on how it was built: it is 32 zero bytes when empty and otherwise the SHA-256 of the previous hash followed by the last item's root hash; two sequences with different items never share a hash.",
 ["histories","inputs"],"every history of sequence operations and constructors, every item",
 "The tests compare three ways of building one fixed list; the hash must agree for all constructors and interleavings.",
 [SEQ],[("append","src/collections/seq.rs:append"),("bulk rehash","src/collections/seq.rs:recompute_hash and its callers")],
 [("hash","running hash","src/collections/seq.rs:Seq.hash"),("items","the items","src/collections/seq.rs:Seq.items")],["len, iter, index, as_vec, root_hash"])
p("C12","A paged map splits each key's items into full pages in insertion order",
 "After any history of insertions with any page size of at least one, the pages of a key, concatenated in page order, are exactly the items inserted for that key in order; every page but the last is full, none is empty or overfull, and page numbers are 0,1,2,... without gaps. The last page number is reported accordingly (none for a key without items), a page number that was never filled yields nothing whatever its size, and inserting for one key never affects another.",
 ["histories","inputs"],"every interleaving of insertions over any keys, page sizes from 1, every page number",
 "One test inserts 50 items round-robin for five keys with page size 3.",
 [PG,RB],[("page selection","src/collections/paged.rs:insert"),("last page","src/rbtree.rs:max_entry_with_prefix, modify_max_with_prefix"),("page lookup","src/collections/paged.rs:get")],
 [("data","map from (key, page) to the page's items","src/collections/paged.rs:Paged.data")],["get, get_last_page_number"])
p("C13","Paged witnesses prove a page's contents and which page is the last",
 "After any history, the witness for a page reconstructs to the paged map's root hash and shows that page's hash, or proves that the page does not exist. The last-page witness reconstructs to the root hash and proves that the page after the last (the first one, for a key without items) is absent, showing the key's last page as the closest smaller label; the root hash always agrees with the exported tree.",
 ["histories","inputs"],"every reachable paged map, every key, every page number",
 "No test takes a witness from a paged map.",
 [PG,RB],[("page witness","src/collections/paged.rs:witness"),("last page witness","src/collections/paged.rs:witness_last_page_number"),("composite label","src/collections/paged.rs:PagedKey::as_label")],(),["witness, witness_last_page_number, root_hash"])
p("C14","A group certifies every member under its own path",
 "For any set of members added under any conflict-free paths, the group's exported tree shows exactly those members under exactly those paths, with the labels of each level in ascending order, and the group's root hash equals that tree's hash and does not depend on the order in which the members were added. Each member is found by its type, for reading and for changing, and every change to a member shows in the next root hash; adding a second member of one type, a path already taken, or a path through a member is refused.",
 ["configurations","histories","inputs"],"every set of paths (any depth and width), every insertion order, every history of member updates",
 "One test builds one four-member group and checks hash equality between witnesses.",
 [GR,GB],[("builder","src/collections/group/builder.rs:insert, build"),("group hash","src/collections/group.rs:GroupNode::root_hash, witness_all")],
 [("root","shape of the group","src/collections/group.rs:Group.root"),("data","members by type","src/collections/group.rs:Group.data")],["root_hash, as_hash_tree, get, get_mut"])
p("C15","A group witness reveals exactly the requested members and verifies",
 "For any group and any selection of members, each requested in full or in part, in any order, the witness reconstructs to the group's root hash. It shows the path labels of the requested members and for each of them exactly the full or partial tree that was asked for; every subtree without a requested member is a single opaque hash.",
 ["configurations","inputs"],"every group shape, every subset of members, every full/partial choice and request order",
 "Two tests look at six selections of two shapes.",
 [GR],[("node numbering and ancestors","src/collections/group.rs:GroupNode::visit_node"),("pruned traversal","src/collections/group.rs:GroupNode::witness"),("Ray","src/collections/group.rs:Ray::full, partial, build")],
 [("dependencies","ancestors of every member","src/collections/group.rs:Group.dependencies")],["witness().full().partial().build()"])
p("C16","Saved collections load back with the same contents and a valid root",
 "Encoding any map, sequence or paged map (also nested) as CBOR or Candid and decoding it yields a collection with the same contents and order that behaves the same under every later operation, with root hash and witnesses consistent with those contents. The encoded form is interchangeable with that of the plain data (a list, a dictionary, a list of pairs); input listing a key twice keeps the last value, and input that is cut short or of another type is refused.",
 ["histories","inputs"],"every reachable collection, both codecs, any operations afterwards",
 "Only ten-item sequences are round-tripped; maps and paged maps never, nor used after decoding.",
 [MAP,SEQ,PG],[("map codec","src/collections/map.rs:Serialize, Deserialize, CandidType"),("sequence codec","src/collections/seq.rs:Serialize, Deserialize, CandidType"),("paged codec","src/collections/paged.rs derives")],(),["encode/decode"])
p("C17","Every supported value and key type has one canonical encoding",
 "For every supported value type, the root hash equals the hash of the exported tree, which is one leaf holding the canonical bytes: big-endian for numbers, one byte 0 or 1 for booleans, the raw bytes for strings, byte strings, fixed-size arrays and principals. Keys of every supported type use the same canonical bytes as labels; pointer wrappers (Box, Rc, Arc, NonNull) do not change an encoding, and distinct values of one type have distinct encodings.",
 ["inputs"],"every supported type, every value",
 "Each type has its own hand-written or generated pair of functions that must agree; the tests exercise u8, u32, u64, i8, i32, usize, String and Vec<u8> with few values.",
 [AH,LB],[("value encodings","src/as_hash_tree.rs:impl_num, impl_fixed_size and single impls"),("label encodings","src/label.rs:impl_num, impl_fixed_size and single impls")],(),["root_hash, as_hash_tree, as_label"])
p("C18","Hash trees hash, prune and serialise by the certificate rules",
 "The hash of any hash tree follows the Internet Computer rules for empty, fork, labelled, leaf and pruned nodes, so replacing any subtrees by their hashes never changes the root and different unpruned trees have different roots. The CBOR form of any tree is the standard tagged array and determines the tree; the label and leaf listings give exactly the tree's labels and leaves from left to right.",
 ["inputs"],"every hash tree, every pruning of it",
 "One fixed tree is hashed and serialised; no pruned node is ever serialised and no pruning of a given tree is checked.",
 [HT],[("hash rules","src/hashtree.rs:reconstruct, fork_hash, leaf_hash, labeled_hash, domain_sep"),("wire format","src/hashtree.rs:Serialize"),("listings","src/hashtree.rs:get_labels, get_leaf_values")],(),["reconstruct, serialize, get_labels, get_leaf_values"])
p("C19","Every key and value handed over is released exactly once",
 "Over any history on a map, sequence, paged map or group, each key and value the caller hands over is at all times either stored, returned to the caller, or released, and is released exactly once. The stored ones are those the contents call for (replacing a value keeps the original key and returns the old value; clearing or dropping a collection releases everything), so nothing leaks and nothing is released twice or too early.",
 ["histories"],"every history of operations and every point at which the collection is dropped",
 "Allocation marks are checked at the end of one test; entries returned by removal, replacement, clear and entry handles are not tracked.",
 [RB,EN,MAP,SEQ,PG],[("node release","src/rbtree.rs:Node::delete, Drop for RbTree"),("removal","src/rbtree.rs:delete, delete_min"),("replacement","src/rbtree.rs:insert")],(),["drops of keys and values"])
p("C20","Roots and witnesses are determined by the history of changes alone",
 "Two instances of any collection that undergo the same history of changes have equal root hashes and byte-identical witnesses and encodings at every point, in every process. Reads, lookups, iterations, witnesses and hash queries in between never change the contents or any later root hash or witness.",
 ["histories","schedules"],"every history of changes, every interleaving of read-only calls, repeated runs",
 "Replicas must agree on the certified root; the tests never run two instances side by side or check that reads are pure.",
 [RB,MAP,SEQ,PG,GR,GB],[("history-determined shape","src/rbtree.rs:insert, delete"),("ordered directory","src/collections/group/builder.rs:children")],(),["root_hash, witnesses, encodings of two instances"])
p("C21","Certifying a change takes work for the change, not for the collection",
 "Appending to a sequence or to a page hashes no item but the appended ones, however long the sequence is; building, extending and decoding a sequence hashes each item a bounded number of times, and reading its root hash, contents, encoding or a witness hashes no item again. A change of a map, or made in place through the outer one of nested maps, compares and hashes, on each level, a number of entries logarithmic in that level's size. None of these single changes takes time or memory in proportion to what it leaves alone (the occasional growth of a vector apart).",
 ["histories"],"sequences, pages and nested maps of any size, every history of operations",
 "The tests check results, never what they cost; a full rehash per call passes every test and exhausts a canister's instruction limit in production.",
 [SEQ,PG,RB,MAP],[("running hash","src/collections/seq.rs:append, extend"),("path rehash","src/rbtree.rs:modify, insert"),("in-place changes","src/rbtree/entry.rs:or_default, and_modify")],(),["calls of the keys' comparison and labels, the items' hashes"])
p("C22","A panic in the caller's code leaves a collection truthful and safe",
 "When a closure or an iterator handed to a call panics and the panic is caught, the collection holds exactly the changes made up to then, and its root hash and witnesses account for them. When the comparison, the label, the hash, the copy, the default or the destructor of a key or value panics in the middle of a call, a read leaves the contents as they were; a change leaves entries that were there or that it was making, some may be lost, and the collection is a proper one: in order, with the right length, with the root hash and witnesses of its contents, and fit for every later operation. Nothing is released twice or used after its release.",
 ["fault_sequences","histories"],"every operation that runs the caller's code, every point at which that panics, every history before and after",
 "A test shows one panic at one point; what is left depends on how far the rearranging and hashing had come, and shows only in later operations.",
 [RB,EN,SEQ,PG,MAP],[("nodes taken out while they are rearranged","src/rbtree.rs:take_root, insert, delete"),("lent values","src/rbtree.rs:refresh_lent, modify, modify_max_with_prefix"),("items hashed before they are stored","src/collections/seq.rs:append, extend"),("closures on entries","src/rbtree/entry.rs:and_modify, or_insert_with, or_insert_with_key"),("new pages","src/collections/paged.rs:insert")],
 [("root","the tree, or none while it is rearranged","src/rbtree.rs:RbTree.root"),("lent","the value that may have changed","src/rbtree.rs:RbTree.lent")],["contents, len, root hash and witnesses after a caught panic"])
p("C23","A client that checks a certificate is told the truth",
 "For any group of maps, nested maps, sequences, paged maps and single values, after any history and for any combination of requests: the certificate's CBOR bytes, read by an independent client, hash to the published root hash. Whatever path of labels the client then looks up by the Internet Computer's lookup rules, it is never told what is not so: a value found is the one stored there, by its canonical bytes; the hash shown for a sequence or a page is that of its items; a path said to be absent is absent. Every path that the requests were about is answered.",
 ["histories","inputs","configurations"],"every group and history, every combination of requests, every path looked up",
 "The tests compare hashes on the server's side; none reads a certificate back and looks something up in it. Layers that agree with each other (a label and its hash, a tree and its root) can be wrong together.",
 [GR,RB,HT,LB,AH],[("certificates","src/collections/group.rs:Ray::build, GroupNode::witness"),("entries and gaps","src/rbtree.rs:range_witness, lookup_and_build_witness, full_witness_tree"),("wire format","src/hashtree.rs:Serialize"),("labels","src/label.rs:as_label"),("values","src/as_hash_tree.rs:as_hash_tree")],(),["witness().build() as CBOR, root_hash"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
for x in P: assert len(x["title"])<=80,(x["id"],len(x["title"]))
open(out,"w").write("".join(json.dumps(x)+"\n" for x in P))
