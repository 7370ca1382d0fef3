ID = "C01"
TITLE = "In-memory index: each distinct expression owns one entry"
PROOFS = [dict(spec="trie")]
DRIVERS = [dict(name="c01", src="c01.cpp", libs=["mwsindex", "mwstypes", "commonutils", "commontypes", "crc32", "mwsdbc", "mwsquery"], budget=10)]
TRUSTED = ["clang 18 AST of the real source (vc/cast.py)", "own VC generator vc/sx.py", "STL models vc/libm.py (vector, pair, iterator, memcmp as a total order)", "z3 5.3.2", "cvc5 1.1.2"]
ASSUMPTIONS = ["operator new never fails (no bad_alloc)", "distinct live nodes have distinct addresses (allocator)",
               "memcmp on two tokens is a total order that is 0 exactly on equal tokens (tokens are packed, no padding)",
               "fewer than 2^32-1 distinct expressions and fewer than 2^31-2 children per node"]
BOUNDED = ["enumeration order and completeness of the whole-index iterator: driver c01 (random insertion sequences)"]

PROP = {"id": ID, "title": TITLE,
 "statement": "Whatever expressions have been added to the in-memory index, and in whatever order, looking up an expression finds an entry exactly if that very expression was added before. Adding an expression again finds its existing entry and changes nothing; adding a new one creates one entry with an identifier no other entry has ever had and with no occurrences, and leaves every other entry, its identifier and its occurrence count alone. Enumerating the index visits each added expression exactly once.",
 "quantifier": {"over": ["inputs", "histories"], "text": "every finite sequence of insertions of well-formed encoded expressions (any token values, lengths and fan-out, in particular shared prefixes and repeated insertions) followed by every lookup"},
 "why_tests_cant": "The tests insert a handful of small expressions; the guarantee is about every insertion history, and in particular about how each insertion interacts with every node already there.",
 "anchors": {"files": ["src/mws/index/TmpIndex.cpp", "src/mws/index/TmpIndex.hpp", "src/mws/index/TmpIndexAccessor.hpp", "src/mws/index/IndexIterator.hpp", "src/mws/types/VectorMap.hpp"],
   "state": [{"name": "children", "meaning": "sorted child list of a node", "where": "TmpIndexNode"}, {"name": "nextId", "meaning": "last identifier given out", "where": "TmpLeafNode"}],
   "mechanism": [{"name": "sorted vector with binary search", "where": "VectorMap::insert/_find_index"}, {"name": "path descent creating what is missing", "where": "TmpIndex::insertData"}]}}
TECHNIQUE = "function contracts on the real C++ (trie insertion, sorted child map), verification conditions discharged by z3/cvc5"
LEVEL_NOTE = ("Insertion, lookup and the child map are proved for all inputs, unbounded, over clang's AST of the real source; the STL is modelled (trusted). "
              "Whole-index enumeration is covered by a bounded driver only.")
