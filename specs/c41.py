ID = "C41"
TITLE = "An index whose writing is interrupted is never taken for a complete one"
ENV = ["mmap_load", "mmap_unload", "mmap_remove", "crc32", "fwrite", "fseek", "ferror", "fclose", "fopen", "perror", "strerror"]
PROOFS = [dict(spec="crash", to=24)]
CBMC = [dict(name="memsector", src="memsector.c", replace=ENV, opts=["--bounds-check", "--pointer-check", "--unsigned-overflow-check"],
             jobs=[dict(fn="memsector_load", harness="h_load"), dict(fn="memsector_create", harness="h_create"), dict(fn="memsector_save", harness="h_save")])]
DRIVERS = [dict(name="c41", src="c41.cpp", libs=["mwsdaemon", "mwsxmlparser", "mwsanalytics", "mwsquery", "mwsdbc", "mwsindex", "mwstypes", "crawlerdaemon", "crawlercrawler", "crawlerparser", "crawlerutils", "crawlertypes", "googleurl",
                                                 "commonsocket", "commonthread", "commonutils", "commontypes", "crc32"], budget=30)]
TRUSTED = ["clang 18 AST (vc/cast.py) and own VC generator", "z3 5.3.2, cvc5 1.1.2", "cbmc 6.11.0 (dfcc code contracts) for memsector.c",
           "the steps of the indexing run are taken by their contracts: creating the databases (C12), loadHarvests (C06), the dictionary (C05), exportToMemsector (C02, C03)"]
ASSUMPTIONS = ["the process ends (error, signal, kill); the file system keeps what was handed to it before. After a power failure the order in which it reaches the disk is outside this code",
               "one indexing run at a time; LevelDB's own recovery", "when loadHarvests or exportToMemsector is interrupted inside, the directory is in one of the states between its effects: databases with a part of the harvests; an image whose header is still the first one"]
BOUNDED = ["stopping inside the steps (LevelDB, C library, image writer), failing calls, indexing anew over what is left: driver c41"]
TECHNIQUE = "crash invariant over a ghost file system, an obligation after every effect of createCompressedIndex (own VC generator over the clang AST, z3), with CBMC contracts for the image's header"
LEVEL_NOTE = ("createCompressedIndex is proved, after each of its effects and for every return, to leave in the directory an image that loads only if both databases, all harvests and the dictionary of that image were written before it, or nothing of the older index was touched; "
              "success only for the complete index; memsector_create/save/load that an image is refused until its last write. What happens inside LevelDB is bounded (driver).")
PROP = {"id": ID, "title": TITLE,
 "statement": "At whatever point writing an index stops (the process ends, an error, no expressions), the directory is afterwards either refused when it is loaded, or it answers as the complete new index, or, if nothing of it was touched, as the older index that was there. The image is written last and is refused until its last write; the image of an older index is gone before anything else of it is changed, and if the older index was not to be deleted, it is kept as it was and the run fails. A run reports success only when the databases, the dictionary and the image are all written.",
 "quantifier": {"over": ["crash_points", "faults", "histories"], "text": "every point between the effects of an indexing run, every outcome of each of them, every earlier content of the directory"},
 "why_tests_cant": "No test interrupts an indexing run, or runs it over what an earlier one left.",
 "anchors": {"files": ["src/mws/index/IndexWriter.cpp", "src/mws/index/IndexWriter.hpp", "src/mws/index/memsector.c", "src/mws/index/IndexLoader.cpp"],
   "mechanism": [{"name": "order of the effects", "where": "createCompressedIndex"}, {"name": "header written first and last", "where": "memsector_create, memsector_save"}, {"name": "refusal", "where": "memsector_load"}]}}
