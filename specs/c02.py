ID = "C02"
TITLE = "Exported index image answers exactly like the in-memory index"
PROOFS = [dict(spec="image")]
DRIVERS = [dict(name="c02", src="c02.cpp", libs=["mwsindex", "mwstypes", "commonutils", "commontypes", "crc32"], budget=12)]
TRUSTED = ["clang 18 AST of the real source (vc/cast.py)", "own VC generator vc/sx.py", "STL models vc/libm.py", "z3 5.3.2", "cvc5 1.1.2",
           "memsector_write appends exactly the bytes of the record it is given (assumed contract; fwrite)"]
ASSUMPTIONS = ["fwrite appends what it is given", "an expression occurs fewer than 2^30 times (30-bit counter in the image)", "a node has fewer than 2^31 children",
               "memcmp on tokens is a total order that is 0 exactly on equal tokens"]
BOUNDED = ["depth-first order of the export, pointer arithmetic of the image accessors and whole-image enumeration: driver c02 (random tries, sparse images over 16 GiB)"]
TECHNIQUE = "function contracts on the real C/C++ (node lookup by binary search, record writers, child table), VCs discharged by z3/cvc5"
LEVEL_NOTE = ("Lookup inside a node (short and wide) and the writing of leaves, nodes and child tables are proved for all inputs; the depth-first driver of the export and "
              "address arithmetic of the reader are checked by a bounded driver on the compiled code.")
PROP = {"id": ID, "title": TITLE,
 "statement": "For every index, the image exported from it contains the same expressions with the same identifiers and occurrence counts: every traversal and every lookup of a child, present or absent, gives in the image what it gives in memory. The size computed beforehand is the size written, and this does not depend on how large the image grows.",
 "quantifier": {"over": ["inputs"], "text": "every set of inserted expressions, every occurrence count that fits the image, every image size (including nodes whose children lie farther apart than a 32-bit offset reaches)"},
 "why_tests_cant": "The one export test compares the bytes of a single five-node index; node fan-out, ordering, offset widths and deep nesting vary without bound.",
 "anchors": {"files": ["src/mws/index/index.h", "src/mws/index/TmpIndex.cpp", "src/mws/index/IndexAccessor.hpp", "src/mws/index/memsector.h", "src/mws/index/CallbackIndexIterator.hpp"],
   "mechanism": [{"name": "binary search in a node's sorted entries", "where": "inode_get_child, inode_long_get_child"}, {"name": "children written before parents, relative offsets", "where": "TmpIndex::exportToMemsector, _writeChildrenOffsets"},
                 {"name": "wide entries when a child is far away", "where": "memsector_write_inode_begin"}]}}
