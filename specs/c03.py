ID = "C03"
TITLE = "A damaged or incompletely written index image is never accepted"
PROOFS = [dict(spec="crc", to=60)]
ENV = ["mmap_load", "mmap_unload", "mmap_remove", "crc32", "fwrite", "fseek", "ferror", "fclose", "fopen", "perror", "strerror"]
CBMC = [dict(name="memsector", src="memsector.c", replace=ENV, opts=["--bounds-check", "--pointer-check", "--unsigned-overflow-check"],
             jobs=[dict(fn="memsector_load", harness="h_load"), dict(fn="memsector_create", harness="h_create"), dict(fn="memsector_write", harness="h_write"),
                   dict(fn="memsector_save", harness="h_save")]),
        dict(name="crc32", src="crc32.c", opts=["--bounds-check", "--pointer-check", "--unwind", "9", "--unwinding-assertions"],
             jobs=[dict(fn="crc32 (one byte, state)", harness="h_state", plain=True), dict(fn="crc32 (one byte, data)", harness="h_byte", plain=True),
                   dict(fn="crc32 (one byte, polynomial)", harness="h_bit", plain=True)])]

DRIVERS = [dict(name="c03", src="c03.cpp", libs=["mwsindex", "mwsxmlparser", "mwsdbc", "mwstypes", "commonutils", "commontypes", "crc32"], budget=12)]
TRUSTED = ["cbmc 6.11.0 and its C front end (dfcc code contracts)", "clang 18 AST (vc/cast.py) and own VC generator for crc32", "z3 5.3.2"]
ASSUMPTIONS = ["mmap_load maps the file as it is, with its size (assumed contract; checked by the driver)", "C library: fwrite/fseek/ferror/fclose report failures (assumed contracts)",
               "log messages are dropped from the verified text", "record size at most 4096 bytes in memsector_write"]
BOUNDED = ["mmap.c, the whole indexing run and its exit status: driver c03"]
TECHNIQUE = "CBMC code contracts (dfcc) on memsector.c, own VC generator + z3 for the CRC loop"
LEVEL_NOTE = ("memsector_load/create/write/save and crc32 are proved against their contracts for every input (files up to 2^40 bytes); that a changed byte changes the checksum is proved by "
              "injectivity of the byte step. The mapping layer and the indexing run are bounded (driver). The header's root field is range-checked only, not checksummed.")
PROP = {"id": ID, "title": TITLE,
 "statement": "An index image is opened only if it is a complete image of the supported kind and version, its root lies inside its data and the stored CRC-32 matches exactly the data: a file that is empty, cut short at any point, whose declared size exceeds the file, or with any single byte of data, kind, version or checksum changed is refused (never read beyond its end), and an intact image is always accepted. Writing an image reports success only if every byte reached the file; an indexing run that could not write its image or dictionary reports failure.",
 "quantifier": {"over": ["inputs", "faults"], "text": "every file content and length, every position of a cut or changed byte, every point at which a write fails"},
 "why_tests_cant": "Existing tests only load images they have just written; corrupted, truncated and partially written files are unbounded and never exercised.",
 "anchors": {"files": ["src/mws/index/memsector.c", "src/mws/index/memsector.h", "src/common/utils/mmap.c", "third_party/common/crc32/crc32.c", "src/mws/index/IndexWriter.cpp", "src/mws/index/IndexLoader.cpp"],
   "mechanism": [{"name": "validation before use", "where": "memsector_load"}, {"name": "running checksum of every record", "where": "memsector_write, crc32"}, {"name": "errors collected when the header is rewritten", "where": "memsector_save"}]}}
