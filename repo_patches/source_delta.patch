From a0525becbe5d74452835c9645965eafb6705e2ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:55 +0000
Subject: [PATCH 01/41] fix: keep image offsets of 2^32 allocation units and
 more (64-bit current offset)

---
 src/mws/index/memsector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mws/index/memsector.h b/src/mws/index/memsector.h
index d3f59d8..212ffa1 100644
--- a/src/mws/index/memsector.h
+++ b/src/mws/index/memsector.h
@@ -98,7 +98,7 @@ static inline const char* memsector_relOff2addr(const char* baseAddr,
     return baseAddr - MEMSECTOR_ALLOC_UNIT * off;
 }
 
-static inline memsector_off_t memsector_get_current_offset(
+static inline memsector_long_off_t memsector_get_current_offset(
     const memsector_writer_t* mswr) {
     assert(mswr->offset % MEMSECTOR_ALLOC_UNIT == 0);
     return mswr->offset / MEMSECTOR_ALLOC_UNIT;
-- 
2.43.0


From 4abb328461d322174c6618aadd132a1052a21a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:12 +0000
Subject: [PATCH 02/41] fix: keep the size of mappings of 4 GiB and more

---
 src/common/utils/mmap.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/utils/mmap.h b/src/common/utils/mmap.h
index 53ef1a9..c67fbb9 100644
--- a/src/common/utils/mmap.h
+++ b/src/common/utils/mmap.h
@@ -44,7 +44,7 @@ along with MathWebSearch.  If not, see <http://www.gnu.org/licenses/>.
 typedef struct mmap_handle_s {
     const char* path;
     char*    start_addr;
-    uint32_t size;
+    uint64_t size;
 } mmap_handle_t;
 
 /*--------------------------------------------------------------------------*/
-- 
2.43.0


From 5e5f0690fd4621d69ac4f37ae9c354819dd3ba96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:12 +0000
Subject: [PATCH 03/41] fix: reject index images that are cut short or have
 their root outside

---
 src/mws/index/memsector.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/mws/index/memsector.c b/src/mws/index/memsector.c
index dbbac2c..9340307 100644
--- a/src/mws/index/memsector.c
+++ b/src/mws/index/memsector.c
@@ -109,6 +109,11 @@ int memsector_load(memsector_handle_t* ms, const char* path) {
     // read and validate memsector data
     memsector_header_t* memsector =
         (memsector_header_t*)ms->mmap_handle.start_addr;
+    if (ms->mmap_handle.size < sizeof(*memsector)) {
+        PRINT_WARN("File %s is not a memsector (too short)\n", path);
+        mmap_unload(&ms->mmap_handle);
+        return -1;
+    }
     if (memsector->magic != MEMSECTOR_MAGIC) {
         PRINT_WARN("File %s is not a memsector (magic mismatch)\n", path);
         mmap_unload(&ms->mmap_handle);
@@ -120,6 +125,18 @@ int memsector_load(memsector_handle_t* ms, const char* path) {
         mmap_unload(&ms->mmap_handle);
         return -1;
     }
+    if (memsector->index_size > ms->mmap_handle.size - sizeof(*memsector)) {
+        PRINT_WARN("Memsector %s is corrupted (truncated)\n", path);
+        mmap_unload(&ms->mmap_handle);
+        return -1;
+    }
+    if (memsector->root_off < sizeof(*memsector) / MEMSECTOR_ALLOC_UNIT ||
+        memsector->root_off >= (sizeof(*memsector) + memsector->index_size) /
+                                   MEMSECTOR_ALLOC_UNIT) {
+        PRINT_WARN("Memsector %s is corrupted (root outside of index)\n", path);
+        mmap_unload(&ms->mmap_handle);
+        return -1;
+    }
     if (memsector->checksum != memsector_get_checksum(memsector)) {
         PRINT_WARN("Memsector %s is corrupted (checksum mismatch)\n", path);
         mmap_unload(&ms->mmap_handle);
-- 
2.43.0


From 483be259bcb0aaeb1d151c8a255b9c6814853a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:42 +0000
Subject: [PATCH 04/41] fix: report failure to write the index image

---
 src/mws/index/IndexWriter.cpp |  8 ++++++--
 src/mws/index/TmpIndex.cpp    |  4 ++--
 src/mws/index/TmpIndex.hpp    |  3 ++-
 src/mws/index/memsector.c     | 11 ++++++++---
 4 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/mws/index/IndexWriter.cpp b/src/mws/index/IndexWriter.cpp
index 717c1b9..88e0d6e 100644
--- a/src/mws/index/IndexWriter.cpp
+++ b/src/mws/index/IndexWriter.cpp
@@ -89,8 +89,12 @@ int createCompressedIndex(const IndexConfiguration& config) {
     }
     PRINT_LOG("%" PRIu64 " expressions loaded.\n", numExpressions);
 
-    memsector_create(&mwsr, (output_dir + "/" + INDEX_MEMSECTOR_FILE).c_str());
-    index.exportToMemsector(&mwsr);
+    if (memsector_create(
+            &mwsr, (output_dir + "/" + INDEX_MEMSECTOR_FILE).c_str()) != 0 ||
+        index.exportToMemsector(&mwsr) != 0) {
+        PRINT_WARN("Could not write the index. Aborting...\n");
+        return EXIT_FAILURE;
+    }
     PRINT_LOG("Created index of %s\n",
               humanReadableByteCount(mwsr.ms.index_size,
                                      /* si= */ false).c_str());
diff --git a/src/mws/index/TmpIndex.cpp b/src/mws/index/TmpIndex.cpp
index 4f4f5b4..7e36cc4 100644
--- a/src/mws/index/TmpIndex.cpp
+++ b/src/mws/index/TmpIndex.cpp
@@ -142,7 +142,7 @@ uint64_t TmpIndex::computeMemsectorSize() const {
     return size;
 }
 
-void TmpIndex::exportToMemsector(memsector_writer_t* mswr) const {
+int TmpIndex::exportToMemsector(memsector_writer_t* mswr) const {
     stack<vector<memsector_long_off_t> > dfsStack;
 
     auto onPush = [&](TmpIndexAccessor::Iterator iterator) {
@@ -181,7 +181,7 @@ void TmpIndex::exportToMemsector(memsector_writer_t* mswr) const {
 
     dfsStack.pop();
     assert(dfsStack.empty());
-    memsector_save(mswr, rootOffset);
+    return memsector_save(mswr, rootOffset);
 }
 
 }  // namespace index
diff --git a/src/mws/index/TmpIndex.hpp b/src/mws/index/TmpIndex.hpp
index f74c18c..331507d 100644
--- a/src/mws/index/TmpIndex.hpp
+++ b/src/mws/index/TmpIndex.hpp
@@ -117,8 +117,9 @@ class TmpIndex {
     /**
      * @brief exportToMemsector dump index data to a memsector index
      * @param mswr memsector writer handle
+     * @return 0 on success, -1 on failure.
      */
-    void exportToMemsector(memsector_writer_t* mswr) const;
+    int exportToMemsector(memsector_writer_t* mswr) const;
 
  private:
     static memsector_long_off_t _writeChildrenOffsets(
diff --git a/src/mws/index/memsector.c b/src/mws/index/memsector.c
index 9340307..d0b1e40 100644
--- a/src/mws/index/memsector.c
+++ b/src/mws/index/memsector.c
@@ -91,10 +91,15 @@ void memsector_write(memsector_writer_t* msw, void* data, size_t size) {
 int memsector_save(memsector_writer_t* msw, memsector_long_off_t index_off) {
     msw->ms.root_off = index_off;
     msw->ms.index_size = msw->offset - sizeof(msw->ms);
-    fseek(msw->file, 0, SEEK_SET);
-    fwrite(&msw->ms, sizeof(msw->ms), 1, msw->file);
+    int failed = ferror(msw->file) ||
+                 fseek(msw->file, 0, SEEK_SET) != 0 ||
+                 fwrite(&msw->ms, sizeof(msw->ms), 1, msw->file) != 1;
+    if (fclose(msw->file) != 0 || failed) {
+        PRINT_WARN("Error while writing memsector\n");
+        return -1;
+    }
 
-    return fclose(msw->file);
+    return 0;
 }
 
 int memsector_load(memsector_handle_t* ms, const char* path) {
-- 
2.43.0


From b84388dad7a713b229e42fea49b63f9091900a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:40 +0000
Subject: [PATCH 05/41] fix: report failure to write the meaning dictionary of
 an index

---
 src/mws/index/IndexWriter.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mws/index/IndexWriter.cpp b/src/mws/index/IndexWriter.cpp
index 88e0d6e..8c6f27c 100644
--- a/src/mws/index/IndexWriter.cpp
+++ b/src/mws/index/IndexWriter.cpp
@@ -102,7 +102,10 @@ int createCompressedIndex(const IndexConfiguration& config) {
     fb.open((output_dir + "/" + MEANING_DICTIONARY_FILE).c_str(),
             std::ios::out);
     meaningDictionary.save(os);
-    fb.close();
+    if (fb.close() == nullptr || !os) {
+        PRINT_WARN("Could not write the meaning dictionary. Aborting...\n");
+        return EXIT_FAILURE;
+    }
 
     return EXIT_SUCCESS;
 }
-- 
2.43.0


From 3225288fa09af5a27614db6fe76c3aaf2e8a82b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:15 +0000
Subject: [PATCH 06/41] fix: encode variables and ranges as leaves

They were given arity 1 without any argument following, so every walk over
an index or an encoded expression holding one ran past its end.
---
 src/mws/index/ExpressionEncoder.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/mws/index/ExpressionEncoder.cpp b/src/mws/index/ExpressionEncoder.cpp
index a97cea1..03dba07 100644
--- a/src/mws/index/ExpressionEncoder.cpp
+++ b/src/mws/index/ExpressionEncoder.cpp
@@ -79,7 +79,7 @@ int ExpressionEncoder::encode(const Config& config, const CmmlToken* expression,
 
         if (token->isVar()) {
             string qvarName = token->getVarName();
-            encoded_token.arity = 1;
+            encoded_token.arity = 0;
             if (qvarName == "") {
                 encoded_token.id = _getAnonVarOffset() + anonVarId;
                 anonVarId++;
@@ -93,7 +93,7 @@ int ExpressionEncoder::encode(const Config& config, const CmmlToken* expression,
                 }
             }
         } else if (token->isRange()) {
-            encoded_token.arity = 1;
+            encoded_token.arity = 0;
             encoded_token.id = _getRangeOffset() + anonRangeId;
             anonRangeId++;
             if (expressionInfo != nullptr) {
@@ -118,6 +118,9 @@ int ExpressionEncoder::encode(const Config& config, const CmmlToken* expression,
         }
         encodedFormula->push_back(encoded_token);
 
+        // variables and ranges stand for whole subterms
+        if (token->isVar() || token->isRange()) continue;
+
         // Replenish stack
         for (auto rIt = token->getChildNodes().rbegin();
              rIt != token->getChildNodes().rend(); rIt++) {
-- 
2.43.0


From 3affd13bc60022e6470feb17c58299d2c3bb087f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:37 +0000
Subject: [PATCH 07/41] fix: refuse expressions with more variables or symbols
 than there are codes

The ids of the surplus variables were those of other variables, ranges or
constants; ids of constants were cut to 24 bits.
---
 src/mws/index/ExpressionEncoder.cpp | 16 ++++++++++++----
 src/mws/index/encoded_token.h       |  2 ++
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/mws/index/ExpressionEncoder.cpp b/src/mws/index/ExpressionEncoder.cpp
index 03dba07..6880eb3 100644
--- a/src/mws/index/ExpressionEncoder.cpp
+++ b/src/mws/index/ExpressionEncoder.cpp
@@ -81,11 +81,13 @@ int ExpressionEncoder::encode(const Config& config, const CmmlToken* expression,
             string qvarName = token->getVarName();
             encoded_token.arity = 0;
             if (qvarName == "") {
+                if (anonVarId > ANON_HVAR_ID_MAX - ANON_HVAR_ID_MIN) return -1;
                 encoded_token.id = _getAnonVarOffset() + anonVarId;
                 anonVarId++;
             } else {
-                encoded_token.id =
-                    _getNamedVarOffset() + namedVarDictionary.put(qvarName);
+                MeaningId namedVarId = namedVarDictionary.put(qvarName);
+                if (namedVarId > HVAR_ID_MAX - HVAR_ID_MIN) return -1;
+                encoded_token.id = _getNamedVarOffset() + namedVarId;
                 if (expressionInfo != nullptr) {
                     expressionInfo->qvarNames.push_back(qvarName);
                     expressionInfo->qvarXpaths
@@ -94,6 +96,7 @@ int ExpressionEncoder::encode(const Config& config, const CmmlToken* expression,
             }
         } else if (token->isRange()) {
             encoded_token.arity = 0;
+            if (anonRangeId > RANGE_ID_MAX - RANGE_ID_MIN) return -1;
             encoded_token.id = _getRangeOffset() + anonRangeId;
             anonRangeId++;
             if (expressionInfo != nullptr) {
@@ -107,11 +110,16 @@ int ExpressionEncoder::encode(const Config& config, const CmmlToken* expression,
                 return -1;
             }
             encoded_token.arity = token->getArity();
+            MeaningId constantId;
             if (config.renameCi && token->getTag() == "ci") {
-                encoded_token.id = _getCiMeaning((token));
+                constantId = _getCiMeaning((token));
             } else {
-                encoded_token.id = _getConstantEncoding(token->getMeaning());
+                constantId = _getConstantEncoding(token->getMeaning());
             }
+            if (constantId > ENC_TOK_MAX_ID) {
+                return -1;
+            }
+            encoded_token.id = constantId;
             if (encoded_token.id == MeaningDictionary::KEY_NOT_FOUND) {
                 rv = -1;
             }
diff --git a/src/mws/index/encoded_token.h b/src/mws/index/encoded_token.h
index e095e27..d80b4a1 100644
--- a/src/mws/index/encoded_token.h
+++ b/src/mws/index/encoded_token.h
@@ -44,6 +44,8 @@ along with MathWebSearch.  If not, see <http://www.gnu.org/licenses/>.
 
 /* We are using 8 bits to hold the arity. A cerror might have a higher arity */
 #define ENC_TOK_MAX_ARITY 255
+/* We are using 24 bits to hold the id */
+#define ENC_TOK_MAX_ID 0xFFFFFF
 
 #define HVAR_ID_MIN 1
 #define HVAR_ID_MAX 32
-- 
2.43.0


From 38953b74f6885ba4671a1419157d998efef7e705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:37 +0000
Subject: [PATCH 08/41] fix: name anonymous harvest variables by their own
 number

---
 src/mws/index/ExpressionEncoder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mws/index/ExpressionEncoder.cpp b/src/mws/index/ExpressionEncoder.cpp
index 6880eb3..c72b47c 100644
--- a/src/mws/index/ExpressionEncoder.cpp
+++ b/src/mws/index/ExpressionEncoder.cpp
@@ -214,7 +214,7 @@ Meaning ExpressionDecoder::getMeaning(MeaningId meaningId) const {
     } else if (meaningId >= QVAR_ID_MIN) {
         return "qvar#" + to_string(meaningId - QVAR_ID_MIN);
     } else if (meaningId >= ANON_HVAR_ID_MIN) {
-        return "anonymous_hvar#" + to_string(meaningId - ANON_QVAR_ID_MIN);
+        return "anonymous_hvar#" + to_string(meaningId - ANON_HVAR_ID_MIN);
     } else if (meaningId >= HVAR_ID_MIN) {
         return "hvar#" + to_string(meaningId - HVAR_ID_MIN);
     } else {
-- 
2.43.0


From 045480ac26b376eeca41e137aa901e82388876ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:02 +0000
Subject: [PATCH 09/41] fix: treat the last anonymous variable id as anonymous

---
 src/mws/index/encoded_token.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mws/index/encoded_token.h b/src/mws/index/encoded_token.h
index d80b4a1..c940ce8 100644
--- a/src/mws/index/encoded_token.h
+++ b/src/mws/index/encoded_token.h
@@ -119,8 +119,8 @@ static inline bool encoded_token_is_range(encoded_token_t token) {
 }
 
 static inline bool encoded_token_is_anon_var(encoded_token_t token) {
-    return (ANON_HVAR_ID_MIN <= token.id && token.id < ANON_HVAR_ID_MAX) ||
-           (ANON_QVAR_ID_MIN <= token.id && token.id < ANON_QVAR_ID_MAX);
+    return (ANON_HVAR_ID_MIN <= token.id && token.id <= ANON_HVAR_ID_MAX) ||
+           (ANON_QVAR_ID_MIN <= token.id && token.id <= ANON_QVAR_ID_MAX);
 }
 
 END_DECLS
-- 
2.43.0


From a85307bdfccd83e9c5ec053718d1ba32b1d12264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:17 +0000
Subject: [PATCH 10/41] fix: iterating over an empty index returns nothing

---
 src/mws/index/IndexIterator.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mws/index/IndexIterator.hpp b/src/mws/index/IndexIterator.hpp
index 1a14660..3ebae24 100644
--- a/src/mws/index/IndexIterator.hpp
+++ b/src/mws/index/IndexIterator.hpp
@@ -63,7 +63,9 @@ class IndexIterator {
 
     typename Accessor::Node* next() {
         if (_backtrackIterators.empty()) {  // add first branch
-            _push(Accessor::getChildrenIterator(_root));
+            auto iterator = Accessor::getChildrenIterator(_root);
+            if (!iterator.isValid()) return nullptr;  // empty index
+            _push(iterator);
         } else {  // or find first unexplored branch
             while (!_backtrackIterators.back().hasNext()) {
                 _pop();
-- 
2.43.0


From be91000fac7cfc6c21bc3537a9d1ca7b8497676c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:17 +0000
Subject: [PATCH 11/41] fix: ranges that are never or repeatedly reached free
 the right memory; empty index

---
 src/mws/query/SearchContext.cpp | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/mws/query/SearchContext.cpp b/src/mws/query/SearchContext.cpp
index eba24a9..248f3bc 100644
--- a/src/mws/query/SearchContext.cpp
+++ b/src/mws/query/SearchContext.cpp
@@ -119,19 +119,20 @@ struct RangeCtxt : public BacktrackCtxt<Accessor> {
 
     typename Accessor::Index* index;
     typename Accessor::Node* root;
-    typename Accessor::Iterator* iterator;
+    unique_ptr<typename Accessor::Iterator> iterator;
 
     typename Accessor::Node* solve(typename Accessor::Index* index,
                                    typename Accessor::Node* root) {
         this->index = index;
         this->root = root;
 
-        // XXX:
-        typename Accessor::Iterator it = Accessor::getChildrenIterator(root);
-        // malloc'ed because there is no default constructor
-        iterator = (typename Accessor::Iterator*)malloc(sizeof(it));
-        assert(iterator != nullptr);
-        *iterator = it;
+        // allocated because there is no default constructor
+        iterator.reset(new typename Accessor::Iterator(
+            Accessor::getChildrenIterator(root)));
+        if (!iterator->isValid()) {  // empty index
+            this->isSolved = false;
+            return nullptr;
+        }
 
         encoded_token_t tok = Accessor::getToken(*iterator);
         while (!validSubst(tok) && iterator->hasNext()) {
@@ -176,8 +177,6 @@ struct RangeCtxt : public BacktrackCtxt<Accessor> {
         return node;
     }
 
-    ~RangeCtxt() { free(iterator); }
-
  private:
     bool isCmmlNumber(encoded_token_t tok) {
         if (tok.arity != 0) return false;
-- 
2.43.0


From a87c6f3a2561b886373ab70d213ecc680dcc7f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:17 +0000
Subject: [PATCH 12/41] fix: result windows that end beyond 2^32

---
 src/mws/query/SearchContext.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/mws/query/SearchContext.cpp b/src/mws/query/SearchContext.cpp
index 248f3bc..a0c0ce7 100644
--- a/src/mws/query/SearchContext.cpp
+++ b/src/mws/query/SearchContext.cpp
@@ -301,12 +301,10 @@ MwsAnswset* SearchContext::getResult(typename A::Index* index,
     auto startTime = Time::now();
 
     // Checking the arguments
-    if (offset + size > maxTotal) {
-        if (maxTotal <= offset) {
-            size = 0;
-        } else {
-            size = maxTotal - offset;
-        }
+    if (maxTotal <= offset) {
+        size = 0;
+    } else if (size > maxTotal - offset) {
+        size = maxTotal - offset;
     }
 
     // Retrieving the solutions
-- 
2.43.0


From c05df171bcd704bd8fe68cc75225216ae9ae7a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:25 +0000
Subject: [PATCH 13/41] fix: an empty result window has no formula ids

---
 src/mws/query/SearchContext.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mws/query/SearchContext.cpp b/src/mws/query/SearchContext.cpp
index a0c0ce7..95aa79c 100644
--- a/src/mws/query/SearchContext.cpp
+++ b/src/mws/query/SearchContext.cpp
@@ -363,7 +363,8 @@ MwsAnswset* SearchContext::getResult(typename A::Index* index,
                 hitsCount = 1;
             }
 
-            if (found < size + offset && found + hitsCount > offset) {
+            if (size > 0 && found < size + offset &&
+                found + hitsCount > offset) {
                 if (options.includeHits) {
                     FormulaId formulaId = A::getFormulaId(currentNode);
                     unsigned dbOffset;
-- 
2.43.0


From 4fe5c028398ed0f3d96748c4fef71ee0cbf1e891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:25 +0000
Subject: [PATCH 14/41] fix: ranges without lower bound also match zero and
 negative numbers

---
 src/mws/types/CmmlToken.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mws/types/CmmlToken.cpp b/src/mws/types/CmmlToken.cpp
index 2dc954c..e2623c5 100644
--- a/src/mws/types/CmmlToken.cpp
+++ b/src/mws/types/CmmlToken.cpp
@@ -228,7 +228,7 @@ std::string CmmlToken::getAttribute(const std::string& attr) const {
 /**
  * @brief CmmlToken::getRangeBounds
  * @return a pair with the first field set to the low bound
- * (MIN_DOUBLE if no low bound found)
+ * (lowest double if no low bound found)
  * and the second field set to the upper bound
  * (MAX_DOUBLE if no upper bound found)
  */
@@ -239,7 +239,7 @@ const std::pair<double, double> CmmlToken::getRangeBounds() const {
 
     auto itLow = _attributes.find(RANGE_LOW_ATTR);
     if (itLow == _attributes.end()) {
-        bounds.first = numeric_limits<double>::min();
+        bounds.first = numeric_limits<double>::lowest();
     } else {
         try {
             bounds.first = std::stod(itLow->second);
@@ -247,7 +247,7 @@ const std::pair<double, double> CmmlToken::getRangeBounds() const {
         catch (std::exception & e) {
             UNUSED(e);
             PRINT_WARN("Invalid low bound for range.");
-            bounds.first = numeric_limits<double>::min();
+            bounds.first = numeric_limits<double>::lowest();
         }
     }
 
-- 
2.43.0


From 799128fe54a4dd5524b2bf5a591b39495eef4b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:52 +0000
Subject: [PATCH 15/41] fix: report failure to save a dictionary

---
 src/common/types/IdDictionary.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/types/IdDictionary.hpp b/src/common/types/IdDictionary.hpp
index 22c1bed..26ae208 100644
--- a/src/common/types/IdDictionary.hpp
+++ b/src/common/types/IdDictionary.hpp
@@ -101,7 +101,7 @@ class IdDictionary {
             return -1;
         }
 
-        return 0;
+        return out.good() ? 0 : -1;
     }
 
     ValueId put(const Key& key) {
-- 
2.43.0


From 5832994cda8238986e5610f7c7c887a1d4458ed5 Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Wed, 18 Nov 2026 23:52:08 +0000
Subject: [PATCH 16/41] fix: stores opened again continue after their last
 record

---
 src/mws/dbc/LevCrawlDb.cpp   | 30 ++++++++++++++++++++++++++++++
 src/mws/dbc/LevFormulaDb.cpp | 24 ++++++++++++++++++++++++
 src/mws/dbc/LevFormulaDb.hpp |  2 +-
 3 files changed, 55 insertions(+), 1 deletion(-)

diff --git a/src/mws/dbc/LevCrawlDb.cpp b/src/mws/dbc/LevCrawlDb.cpp
index af154e1..e89c5e0 100644
--- a/src/mws/dbc/LevCrawlDb.cpp
+++ b/src/mws/dbc/LevCrawlDb.cpp
@@ -28,7 +28,10 @@ along with MathWebSearch.  If not, see <http://www.gnu.org/licenses/>.
 
 #include <sys/stat.h>
 #include <sys/types.h>
+#include <stdlib.h>
 
+#include <memory>
+using std::unique_ptr;
 #include <stdexcept>
 using std::runtime_error;
 #include <string>
@@ -38,6 +41,8 @@ using leveldb::DB;
 using leveldb::Options;
 using leveldb::Status;
 using leveldb::DestroyDB;
+using leveldb::Iterator;
+using leveldb::ReadOptions;
 
 #include "common/types/Parcelable.hpp"
 using common::types::ParcelAllocator;
@@ -80,8 +85,33 @@ void LevCrawlDb::create_new(const char* path,
     }
 }
 
+/**
+ * @return the last id used in the database
+ * @throw runtime_error
+ */
+static CrawlId getLastCrawlId(DB* database) {
+    CrawlId lastCrawlId = CRAWLID_NULL;
+
+    unique_ptr<Iterator> it(database->NewIterator(ReadOptions()));
+    for (it->SeekToFirst(); it->Valid(); it->Next()) {
+        string key = it->key().ToString();
+        CrawlId crawlId = strtoul(key.c_str(), nullptr, 10);
+        if (crawlId > lastCrawlId) lastCrawlId = crawlId;
+    }
+    if (!it->status().ok()) {
+        throw std::runtime_error(it->status().ToString());
+    }
+
+    return lastCrawlId;
+}
+
 /** @throw std::exception */
 CrawlId LevCrawlDb::putData(const CrawlData& crawlData) {
+    if (mNextCrawlId == CRAWLID_NULL) {
+        // The database might have been filled before it was opened
+        mNextCrawlId = getLastCrawlId(mDatabase);
+    }
+
     CrawlId crawlId = ++mNextCrawlId;
     string crawlId_str = std::to_string(crawlId);
 
diff --git a/src/mws/dbc/LevFormulaDb.cpp b/src/mws/dbc/LevFormulaDb.cpp
index cb68a7e..614ca2e 100644
--- a/src/mws/dbc/LevFormulaDb.cpp
+++ b/src/mws/dbc/LevFormulaDb.cpp
@@ -81,9 +81,33 @@ void LevFormulaDb::create_new(const char* path, bool deleteIfExists) {
     }
 }
 
+/**
+ * @brief get the last counter used in the database
+ * @return 0 on success and -1 on failure.
+ */
+static int getLastCounter(DB* database, uint64_t* lastCounter) {
+    *lastCounter = 0;
+
+    unique_ptr<Iterator> it(database->NewIterator(ReadOptions()));
+    for (it->SeekToFirst(); it->Valid(); it->Next()) {
+        string key = it->key().ToString();
+        uint64_t counter =
+            strtoull(key.c_str() + key.find('!') + 1, nullptr, 10);
+        if (counter > *lastCounter) *lastCounter = counter;
+    }
+
+    return it->status().ok() ? 0 : -1;
+}
+
 int LevFormulaDb::insertFormula(const types::FormulaId& formulaId,
                                 const CrawlId& crawlId,
                                 const types::FormulaPath& formulaPath) {
+    if (mCounter == 0) {
+        // The database might have been filled before it was opened
+        uint64_t lastCounter;
+        if (getLastCounter(mDatabase, &lastCounter) != 0) return -1;
+        mCounter = lastCounter;
+    }
     ++mCounter;
 
     std::string crawlId_str = std::to_string(crawlId);
diff --git a/src/mws/dbc/LevFormulaDb.hpp b/src/mws/dbc/LevFormulaDb.hpp
index 380a10d..41daefd 100644
--- a/src/mws/dbc/LevFormulaDb.hpp
+++ b/src/mws/dbc/LevFormulaDb.hpp
@@ -59,7 +59,7 @@ class LevFormulaDb : public FormulaDb {
 
  private:
     leveldb::DB* mDatabase;
-    uint32_t mCounter;
+    uint64_t mCounter;
 };
 
 }  // namespace dbc
-- 
2.43.0


From 3f82d3547060c0de01fc48f5fdb3e4945c2314b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:10 +0000
Subject: [PATCH 17/41] fix: report read errors of the formula store

---
 src/mws/dbc/LevFormulaDb.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mws/dbc/LevFormulaDb.cpp b/src/mws/dbc/LevFormulaDb.cpp
index 614ca2e..78587fb 100644
--- a/src/mws/dbc/LevFormulaDb.cpp
+++ b/src/mws/dbc/LevFormulaDb.cpp
@@ -137,11 +137,11 @@ int LevFormulaDb::queryFormula(const types::FormulaId& formulaId,
     string fmId = to_string(formulaId) + "!";
     it->Seek(fmId);
     for (unsigned i = 0; i < limitMin; i++) {
-        if (!it->Valid()) return 0;
+        if (!it->Valid()) return it->status().ok() ? 0 : -1;
         it->Next();
     }
 
-    if (!it->Valid()) return 0;
+    if (!it->Valid()) return it->status().ok() ? 0 : -1;
 
     std::string maxKey = fmId + "\xff";
     for (unsigned i = 0;
@@ -161,7 +161,7 @@ int LevFormulaDb::queryFormula(const types::FormulaId& formulaId,
         if (queryCallback(crawlId, formulaPath) != 0) return -1;
     }
 
-    return 0;
+    return it->status().ok() ? 0 : -1;
 }
 
 }  // namespace dbc
-- 
2.43.0


From dcf44a87877f45d9d1de413451474f2014854eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:27 +0000
Subject: [PATCH 18/41] fix: refuse stored records that are too short

---
 src/common/types/Parcelable.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/common/types/Parcelable.cpp b/src/common/types/Parcelable.cpp
index aa90960..24bb8f4 100644
--- a/src/common/types/Parcelable.cpp
+++ b/src/common/types/Parcelable.cpp
@@ -32,6 +32,7 @@ along with MathWebSearch.  If not, see <http://www.gnu.org/licenses/>.
 #include <assert.h>
 #include <string.h>
 
+#include <stdexcept>
 #include <string>
 
 #include "common/utils/compiler_defs.h"
@@ -89,11 +90,7 @@ size_t ParcelEncoder::getSize() const {
 // Parcel Decoder
 
 ParcelDecoder::ParcelDecoder(const char* data, size_t size)
-    : mSize(size), mData(data), mCurr(data) {
-    // Mark variables which are only used in debug build (assert)
-    RELEASE_UNUSED(mSize);
-    RELEASE_UNUSED(mData);
-}
+    : mSize(size), mData(data), mCurr(data) {}
 
 void ParcelDecoder::decode(Parcelable* parcelable) {
     parcelable->readFromParcel(this);
@@ -102,7 +99,14 @@ void ParcelDecoder::decode(Parcelable* parcelable) {
 
 void ParcelDecoder::decode(std::string* str) {
     size_t size;
+    size_t available = mSize - (mCurr - mData);
+    if (available < sizeof(size_t)) {
+        throw std::runtime_error("Parcel is too short");
+    }
     memcpy(&size, mCurr, sizeof(size_t));
+    if (size > available - sizeof(size_t)) {
+        throw std::runtime_error("Parcel is too short");
+    }
     mCurr += sizeof(size_t);
     *str = std::string(mCurr, size);
     mCurr += size;
-- 
2.43.0


From d7c428f1c2f54e102246552f5ce6e91df6d9be87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:47 +0000
Subject: [PATCH 19/41] fix: do not count occurrences that could not be stored

---
 src/mws/index/IndexBuilder.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mws/index/IndexBuilder.cpp b/src/mws/index/IndexBuilder.cpp
index dfedf6c..bac50e2 100644
--- a/src/mws/index/IndexBuilder.cpp
+++ b/src/mws/index/IndexBuilder.cpp
@@ -110,7 +110,10 @@ int IndexBuilder::indexContentMath(const CmmlToken* cmmlToken,
             types::FormulaPath formulaPath;
             formulaPath.xmlId = xmlId;
             formulaPath.xpath = token->getXpath();
-            m_formulaDb->insertFormula(leaf->id, crawlId, formulaPath);
+            if (m_formulaDb->insertFormula(leaf->id, crawlId, formulaPath) != 0) {
+                PRINT_WARN("Skipping a formula (could not store)\n");
+                return;
+            }
             leaf->solutions++;
             numSubExpressions++;
         }
-- 
2.43.0


From 6377c9b9378d0f660bcc98887cf6164a9160f637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:51 +0000
Subject: [PATCH 20/41] fix: skip the rest of an expression after a recoverable
 XML error

A recoverable error inside an expression dropped the expression under
construction but kept the reader inside it, so that the end tags of its open
elements were taken for those of mws:expr and mws:harvest and the reader ended
in an assertion (or read what followed as something it is not).
---
 src/mws/xmlparser/processMwsHarvest.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/mws/xmlparser/processMwsHarvest.cpp b/src/mws/xmlparser/processMwsHarvest.cpp
index a61621e..9daee93 100644
--- a/src/mws/xmlparser/processMwsHarvest.cpp
+++ b/src/mws/xmlparser/processMwsHarvest.cpp
@@ -435,6 +435,14 @@ static void my_error(void* user_data, const char* msg, ...) {
 
     data->errorDetected = true;
     if (data->currentTokenRoot) {
+        // Ignoring the rest of the expression, elements of which are still open
+        data->prevState = data->state;
+        data->state = MWSHARVESTSTATE_UNKNOWN;
+        data->unknownDepth = 0;
+        for (const CmmlToken* token = data->currentToken; token != nullptr;
+             token = token->getParentNode()) {
+            data->unknownDepth++;
+        }
         delete data->currentTokenRoot;
         data->currentTokenRoot = nullptr;
         data->currentToken = nullptr;
-- 
2.43.0


From 11c958ccfb4718a1eb0f66b62cb254f2faf3ead6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:07 +0000
Subject: [PATCH 21/41] fix: hand attribute values of harvests on as they are,
 not with &#38; for &

Without entity substitution libxml2 gives SAX1 handlers every &amp; of an
attribute value as &#38;, so that the url of an expression and the attributes
of its elements and of crawl data were stored with that text in them.
---
 src/mws/xmlparser/processMwsHarvest.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/mws/xmlparser/processMwsHarvest.cpp b/src/mws/xmlparser/processMwsHarvest.cpp
index 9daee93..5081229 100644
--- a/src/mws/xmlparser/processMwsHarvest.cpp
+++ b/src/mws/xmlparser/processMwsHarvest.cpp
@@ -494,10 +494,13 @@ HarvestResult processHarvestFromFd(int fd, HarvestProcessor* harvestProcessor,
                                          XML_CHAR_ENCODING_UTF8)) ==
         nullptr) {
         PRINT_WARN("Error while creating the ParserContext\n");
-    }
+    } else {
+        // Attribute values are needed as such, without &#38; for &amp;
+        ctxtPtr->replaceEntities = 1;
         // Parsing the document
-        else if ((result.status = xmlParseDocument(ctxtPtr)) == -1) {
-        PRINT_WARN("Parsing XML document failed\n");
+        if ((result.status = xmlParseDocument(ctxtPtr)) == -1) {
+            PRINT_WARN("Parsing XML document failed\n");
+        }
     }
 
     // Freeing the parser context
-- 
2.43.0


From 0b37bd8ff28fdff5a5be9a95a6719eecb5e6bc89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:14 +0000
Subject: [PATCH 22/41] fix: refuse output="mws-ids" for schema queries

The formatter of mws-ids takes its answer for an MwsAnswset; given the answer
to a schema query it read arbitrary memory.
---
 src/mws/xmlparser/readMwsQuery.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mws/xmlparser/readMwsQuery.cpp b/src/mws/xmlparser/readMwsQuery.cpp
index 95bce09..868a9f4 100644
--- a/src/mws/xmlparser/readMwsQuery.cpp
+++ b/src/mws/xmlparser/readMwsQuery.cpp
@@ -201,7 +201,8 @@ static void my_startElement(void* user_data, const xmlChar* name,
                             data->result->responseFormatter =
                                 RESPONSE_FORMATTER_MWS_JSON;
                         }
-                    } else if (strcmp((char*)attrs[1], "mws-ids") == 0) {
+                    } else if (!schemaMode &&
+                               strcmp((char*)attrs[1], "mws-ids") == 0) {
                         data->result->responseFormatter =
                             RESPONSE_FORMATTER_MWS_IDS;
                         data->result->options.includeHits = false;
-- 
2.43.0


From 33dda5bf98daaa21d0ccd6621e40ca3dfd0ce350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:14 +0000
Subject: [PATCH 23/41] fix: initialise the cutoff mode of queries

Schema queries without cutoff_mode were answered in an arbitrary mode.
---
 src/mws/types/Query.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mws/types/Query.hpp b/src/mws/types/Query.hpp
index 0f3ea24..5b94786 100644
--- a/src/mws/types/Query.hpp
+++ b/src/mws/types/Query.hpp
@@ -90,7 +90,8 @@ struct Query {
           attrResultTotalReq(DEFAULT_QUERY_TOTALREQ),
           attrResultTotalReqNr(DEFAULT_QUERY_RESULT_TOTAL),
           restricted(false),
-          max_depth(DEFAULT_SCHEMA_DEPTH) {}
+          max_depth(DEFAULT_SCHEMA_DEPTH),
+          cutoff_mode('A') {}
 
     /// Destructor of the MwsQuery class
     ~Query() {
-- 
2.43.0


From 21c6db1f59d1a999b9331a6e67e3aa1585ff9fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:14 +0000
Subject: [PATCH 24/41] fix: read totalreq="no" as no

BOOL_NO is not zero, so that "no" was taken for yes, and anything else than a
boolean value for no.
---
 src/mws/xmlparser/readMwsQuery.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mws/xmlparser/readMwsQuery.cpp b/src/mws/xmlparser/readMwsQuery.cpp
index 868a9f4..c0f1114 100644
--- a/src/mws/xmlparser/readMwsQuery.cpp
+++ b/src/mws/xmlparser/readMwsQuery.cpp
@@ -172,7 +172,10 @@ static void my_startElement(void* user_data, const xmlChar* name,
                                   MWSQUERY_ATTR_ANSWSET_TOTALREQ) ==
                            0) {
                     boolValue = getBoolType((char*)attrs[1]);
-                    data->result->attrResultTotalReq = boolValue;
+                    if (boolValue != common::utils::BOOL_DEFAULT) {
+                        data->result->attrResultTotalReq =
+                            boolValue == common::utils::BOOL_YES;
+                    }
                 } else if (strcmp((char*)attrs[0], SCHQUERY_ATTR_DEPTH) ==
                            0) {
                     numValue = (int)strtol((char*)attrs[1], nullptr, 10);
-- 
2.43.0


From ccac47aef5883613e0970c8676f344b6ae36bd0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:14 +0000
Subject: [PATCH 25/41] fix: take attribute values of queries as they are, not
 with &#38; for &

Without entity substitution libxml2 gives SAX1 handlers every &amp; of an
attribute value as &#38;, which then showed in the names of query variables.
---
 src/mws/xmlparser/readMwsQuery.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mws/xmlparser/readMwsQuery.cpp b/src/mws/xmlparser/readMwsQuery.cpp
index c0f1114..891f385 100644
--- a/src/mws/xmlparser/readMwsQuery.cpp
+++ b/src/mws/xmlparser/readMwsQuery.cpp
@@ -405,6 +405,8 @@ Query* readMwsQuery(FILE* file, QueryMode mode) {
         return nullptr;
     }
 
+    // Attribute values are needed as such, without &#38; for &amp;
+    ctxtPtr->replaceEntities = 1;
     ret = xmlParseDocument(ctxtPtr);
     if (ret == -1) {
         PRINT_WARN("Parsing failed\n");
-- 
2.43.0


From 43cdacb054c53ae8e5ad58fb83fdcb88cdad7518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:14 +0000
Subject: [PATCH 26/41] fix: do not answer the beginning of a query document
 that cannot be parsed

When libxml2 gives up on a document (nesting too deep, nothing in it) it does
not report its end, so that the expressions read until then were returned, and
answered, as if they were the query.
---
 src/mws/xmlparser/readMwsQuery.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mws/xmlparser/readMwsQuery.cpp b/src/mws/xmlparser/readMwsQuery.cpp
index 891f385..e698210 100644
--- a/src/mws/xmlparser/readMwsQuery.cpp
+++ b/src/mws/xmlparser/readMwsQuery.cpp
@@ -415,6 +415,9 @@ Query* readMwsQuery(FILE* file, QueryMode mode) {
         PRINT_WARN("Bad XML document\n");
     }
 
+    // The end of a document on which libxml2 gives up is not reported
+    my_endDocument(&user_data);
+
     // Freeing the parser context
     xmlFreeParserCtxt(ctxtPtr);
 
-- 
2.43.0


From e88721508435b29dd8823de7de2d22bca65e40d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:20 +0000
Subject: [PATCH 27/41] fix: escape XML characters when printing expression
 trees

---
 src/mws/types/CmmlToken.cpp | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/src/mws/types/CmmlToken.cpp b/src/mws/types/CmmlToken.cpp
index e2623c5..c815c26 100644
--- a/src/mws/types/CmmlToken.cpp
+++ b/src/mws/types/CmmlToken.cpp
@@ -142,6 +142,32 @@ string CmmlToken::getXpathRelative() const {
     return xpath_relative;
 }
 
+/// Escape the characters which have a meaning in XML
+static string xmlEscape(const string& text) {
+    string escaped;
+
+    for (const char c : text) {
+        switch (c) {
+        case '&':
+            escaped += "&amp;";
+            break;
+        case '<':
+            escaped += "&lt;";
+            break;
+        case '>':
+            escaped += "&gt;";
+            break;
+        case '"':
+            escaped += "&quot;";
+            break;
+        default:
+            escaped += c;
+        }
+    }
+
+    return escaped;
+}
+
 string CmmlToken::toString(int indent) const {
     stringstream ss;
     string padding;
@@ -153,10 +179,10 @@ string CmmlToken::toString(int indent) const {
     ss << padding << "<" << _tag << " ";
 
     for (mIt = _attributes.begin(); mIt != _attributes.end(); mIt++) {
-        ss << mIt->first << "=\"" << mIt->second << "\" ";
+        ss << mIt->first << "=\"" << xmlEscape(mIt->second) << "\" ";
     }
 
-    ss << ">" << _textContent;
+    ss << ">" << xmlEscape(_textContent);
 
     if (_childNodes.size()) {
         ss << "\n";
-- 
2.43.0


From dc53d8e7f31424b0982fc7a6c18fe17287c063b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:20 +0000
Subject: [PATCH 28/41] fix: print formula ids above INT_MAX as they are in
 JSON

---
 src/mws/xmlparser/MwsIdsResponseFormatter.cpp     | 2 +-
 src/mws/xmlparser/SchemaJsonResponseFormatter.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mws/xmlparser/MwsIdsResponseFormatter.cpp b/src/mws/xmlparser/MwsIdsResponseFormatter.cpp
index 916a12b..e0eec64 100644
--- a/src/mws/xmlparser/MwsIdsResponseFormatter.cpp
+++ b/src/mws/xmlparser/MwsIdsResponseFormatter.cpp
@@ -78,7 +78,7 @@ int MwsIdsResponseFormatter::writeData(const GenericAnswer* ans,
     // Create ids field
     json_object* json_ids = json_object_new_array();
     for (FormulaId formulaId : answerSet.ids) {
-        json_object_array_add(json_ids, json_object_new_int(formulaId));
+        json_object_array_add(json_ids, json_object_new_int64(formulaId));
     }
     json_object_object_add(json_doc, "ids", json_ids);
 
diff --git a/src/mws/xmlparser/SchemaJsonResponseFormatter.cpp b/src/mws/xmlparser/SchemaJsonResponseFormatter.cpp
index dd9ed0f..ae79e27 100644
--- a/src/mws/xmlparser/SchemaJsonResponseFormatter.cpp
+++ b/src/mws/xmlparser/SchemaJsonResponseFormatter.cpp
@@ -83,7 +83,7 @@ int SchemaJsonResponseFormatter::writeData(const GenericAnswer* ans,
 
         json_object* formulae = json_object_new_array();
         for (const uint32_t f_id : exprSch.formulae) {
-            json_object_array_add(formulae, json_object_new_int(f_id));
+            json_object_array_add(formulae, json_object_new_int64(f_id));
         }
         json_object_object_add(schema, "formulae", formulae);
 
-- 
2.43.0


From 0a45fd8deb44eab826ce841c63c9b9b1c5d5c40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:20 +0000
Subject: [PATCH 29/41] fix: initialise the time of an empty answer set

---
 src/mws/types/MwsAnswset.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mws/types/MwsAnswset.hpp b/src/mws/types/MwsAnswset.hpp
index 04d1cfb..c77cf4f 100644
--- a/src/mws/types/MwsAnswset.hpp
+++ b/src/mws/types/MwsAnswset.hpp
@@ -58,7 +58,7 @@ struct MwsAnswset : GenericAnswer {
     /// Duration for retrieng results (in ms)
     time_t time;
 
-    MwsAnswset() : total(0) {}
+    MwsAnswset() : total(0), time(0) {}
 
     ~MwsAnswset() {
         for (auto answer : answers) {
-- 
2.43.0


From c98f24036a7acefe9881da6afb022138bd29abbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:45 +0000
Subject: [PATCH 30/41] fix: schema depths above 255 are not cut to eight bits

---
 src/mws/daemon/SchemaQueryHandler.cpp |  2 +-
 src/mws/query/SchemaEngine.cpp        | 15 +++++++++------
 src/mws/query/SchemaEngine.hpp        |  6 +++---
 src/mws/types/Query.hpp               |  2 +-
 4 files changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/mws/daemon/SchemaQueryHandler.cpp b/src/mws/daemon/SchemaQueryHandler.cpp
index 8508940..1214d98 100644
--- a/src/mws/daemon/SchemaQueryHandler.cpp
+++ b/src/mws/daemon/SchemaQueryHandler.cpp
@@ -57,7 +57,7 @@ SchemaQueryHandler::SchemaQueryHandler(const ExpressionEncoder::Config& conf)
 SchemaQueryHandler::~SchemaQueryHandler() {}
 
 GenericAnswer* SchemaQueryHandler::handleQuery(Query* query) {
-    const uint8_t max_depth = query->max_depth;
+    const uint32_t max_depth = query->max_depth;
     const uint32_t max_total = query->attrResultMaxSize;
 
     MeaningDictionary dict;
diff --git a/src/mws/query/SchemaEngine.cpp b/src/mws/query/SchemaEngine.cpp
index e439292..3021b1d 100644
--- a/src/mws/query/SchemaEngine.cpp
+++ b/src/mws/query/SchemaEngine.cpp
@@ -61,21 +61,24 @@ SchemaEngine::SchemaEngine(const MeaningDictionary& meaningDictionary,
 SchemaAnswset* SchemaEngine::getSchemata(const vector<EncodedFormula>& formulae,
                                 const vector<const CmmlToken*>& exprsTokens,
                                 uint32_t max_total,
-                                uint8_t depth) const {
+                                uint32_t depth) const {
     SchemaAnswset* result = new SchemaAnswset();
 
     unordered_map<string, vector<uint32_t>> schemaGroup;
-    unordered_map<string, uint8_t> cutoffs;
+    unordered_map<string, uint32_t> cutoffs;
     for (size_t i = 0; i < formulae.size(); i++) {
         const EncodedFormula& expr = formulae[i];
-        uint8_t cutoff;
+        uint32_t cutoff;
+        uint64_t exprDepth;
         switch (_config.cutoffHeuristic) {
         case ABSOLUTE:
             cutoff = depth;
             break;
         case RELATIVE:
             // "depth" percentages of token depth
-            cutoff = 0.01 * depth * exprsTokens[i]->getExprDepth();
+            exprDepth = exprsTokens[i]->getExprDepth();
+            cutoff = std::min<uint64_t>((uint64_t)depth * exprDepth / 100,
+                                        exprDepth + 1);
             break;
         default:
             assert(false);
@@ -121,7 +124,7 @@ SchemaAnswset* SchemaEngine::getSchemata(const vector<EncodedFormula>& formulae,
 }
 
 EncodedFormula SchemaEngine::reduceFormula(const EncodedFormula& expr,
-                                           uint8_t max_depth) const {
+                                           uint32_t max_depth) const {
     EncodedFormula reducedExpr;
     if (expr.empty()) return {};
     if (max_depth == 0) return {};
@@ -226,7 +229,7 @@ EncodedFormula SchemaEngine::unhashExpr(const std::string& exprHash) const {
 }
 
 CmmlToken* SchemaEngine::decodeFormula(const EncodedFormula& expr,
-                                       uint8_t max_depth) const {
+                                       uint32_t max_depth) const {
     if (expr.size() == 0) {
         CmmlToken* unifZero = CmmlToken::newRoot();
         unifZero->setTag(types::QVAR_TAG);
diff --git a/src/mws/query/SchemaEngine.hpp b/src/mws/query/SchemaEngine.hpp
index bc582d7..0d47bd0 100644
--- a/src/mws/query/SchemaEngine.hpp
+++ b/src/mws/query/SchemaEngine.hpp
@@ -66,20 +66,20 @@ class SchemaEngine {
     mws::SchemaAnswset* getSchemata(const std::vector<EncodedFormula>& formulae,
                             const std::vector<const types::CmmlToken*>& toks,
                             uint32_t max_total,
-                            uint8_t depth = DEFAULT_SCHEMA_DEPTH) const;
+                            uint32_t depth = DEFAULT_SCHEMA_DEPTH) const;
 
  private:
     const index::ExpressionDecoder decoder;
     const Config _config;
 
     EncodedFormula reduceFormula(const EncodedFormula& expr,
-                                 uint8_t depth) const;
+                                 uint32_t depth) const;
     size_t completeExpression(const EncodedFormula& expr,
                               size_t startExpr) const;
     std::string hashExpr(const EncodedFormula& expr) const;
     EncodedFormula unhashExpr(const std::string& exprHash) const;
     types::CmmlToken* decodeFormula(const EncodedFormula& expr,
-                                    uint8_t depth) const;
+                                    uint32_t depth) const;
     std::pair<std::string, std::string> decodeMeaning(
         const types::Meaning& meaning) const;
     bool isApply(const encoded_token_t& tok) const;
diff --git a/src/mws/types/Query.hpp b/src/mws/types/Query.hpp
index 5b94786..56ed89a 100644
--- a/src/mws/types/Query.hpp
+++ b/src/mws/types/Query.hpp
@@ -78,7 +78,7 @@ struct Query {
     /// Boolean value showing if the query needed restrictions
     bool restricted;
     /// Depth used for schema-queries; ignored for regular mws-queries
-    uint8_t max_depth;
+    uint32_t max_depth;
     /// Cutoff mode used for schema-queries; ignored for regular mws-queries
     char cutoff_mode;
 
-- 
2.43.0


From df85d3fe1904de73a4af17ac5841ef8ace24ac23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:45 +0000
Subject: [PATCH 31/41] fix: formulae of different schemata were put into one
 when their depths differ

---
 src/mws/query/SchemaEngine.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/mws/query/SchemaEngine.cpp b/src/mws/query/SchemaEngine.cpp
index 3021b1d..e869931 100644
--- a/src/mws/query/SchemaEngine.cpp
+++ b/src/mws/query/SchemaEngine.cpp
@@ -79,12 +79,19 @@ SchemaAnswset* SchemaEngine::getSchemata(const vector<EncodedFormula>& formulae,
             exprDepth = exprsTokens[i]->getExprDepth();
             cutoff = std::min<uint64_t>((uint64_t)depth * exprDepth / 100,
                                         exprDepth + 1);
+            // take the smallest depth which leaves the same tokens
+            while (cutoff > 1 && reduceFormula(expr, cutoff - 1).size() ==
+                                     reduceFormula(expr, cutoff).size()) {
+                cutoff--;
+            }
             break;
         default:
             assert(false);
         }
 
-        string hash = hashExpr(reduceFormula(expr, cutoff));
+        // different schemata can have the same tokens at different depths
+        string hash = hashExpr(reduceFormula(expr, cutoff)) + " " +
+                      std::to_string(cutoff);
 
         auto it = schemaGroup.find(hash);
         if (it != schemaGroup.end()) {
-- 
2.43.0


From fed75f2a628808fb7363660a7df47ee51fb1acd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:45 +0000
Subject: [PATCH 32/41] fix: formulae of schemata are numbered as in the query
 when some cannot be encoded

---
 src/mws/daemon/SchemaQueryHandler.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/mws/daemon/SchemaQueryHandler.cpp b/src/mws/daemon/SchemaQueryHandler.cpp
index 1214d98..47f6f6a 100644
--- a/src/mws/daemon/SchemaQueryHandler.cpp
+++ b/src/mws/daemon/SchemaQueryHandler.cpp
@@ -69,12 +69,17 @@ GenericAnswer* SchemaQueryHandler::handleQuery(Query* query) {
 
     vector<const CmmlToken*> exprsTokens;
     exprsTokens.reserve(query->tokens.size());
+    // positions of the encoded expressions in the query
+    vector<uint32_t> exprsIds;
+    uint32_t currId = 0;
     for (const CmmlToken* tok : query->tokens) {
         EncodedFormula encTok;
         if (encoder.encode(_encodingConfig, tok, &encTok, nullptr) == 0) {
             exprs.push_back(std::move(encTok));
             exprsTokens.push_back(tok);
+            exprsIds.push_back(currId);
         }
+        currId++;
     }
 
     SchemaEngine::Config engineConfig;
@@ -99,6 +104,9 @@ GenericAnswer* SchemaQueryHandler::handleQuery(Query* query) {
     /* we can't deduce the substitutions in SchemaEngine because we need
      * the original query, so we will do it here */
     for (ExprSchema& sch : result->schemata) {
+        for (uint32_t& formulaId : sch.formulae) {
+            formulaId = exprsIds[formulaId];
+        }
         /* As a heuristic,
          * we choose the first formula in this class to be schematized */
         const uint32_t representativeId = sch.formulae.front();
-- 
2.43.0


From 6e31b825c020b959b455e6da831bd25e4e8fb5b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:45 +0000
Subject: [PATCH 33/41] fix: schemata of renamed identifiers were no XML
 elements

---
 src/mws/query/SchemaEngine.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/mws/query/SchemaEngine.cpp b/src/mws/query/SchemaEngine.cpp
index e869931..c6a2600 100644
--- a/src/mws/query/SchemaEngine.cpp
+++ b/src/mws/query/SchemaEngine.cpp
@@ -336,6 +336,11 @@ CmmlToken* SchemaEngine::decodeFormula(const EncodedFormula& expr,
 
 pair<string, string> SchemaEngine::decodeMeaning(
     const types::Meaning& meaning) const {
+    // renamed identifiers have no tag in their meaning
+    if (meaning.find('~') == 0) {
+        return {"ci", meaning};
+    }
+
     size_t delim_pos = meaning.find('#');
     if (delim_pos == string::npos) {
         return {meaning, ""};
-- 
2.43.0


From fa4d838943583c1621626d8f6f2d46786eed0a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:45 +0000
Subject: [PATCH 34/41] fix: numbers of queries beyond the range of int are not
 cut to 32 bits

---
 src/mws/xmlparser/readMwsQuery.cpp | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/mws/xmlparser/readMwsQuery.cpp b/src/mws/xmlparser/readMwsQuery.cpp
index e698210..1c1c452 100644
--- a/src/mws/xmlparser/readMwsQuery.cpp
+++ b/src/mws/xmlparser/readMwsQuery.cpp
@@ -33,6 +33,7 @@ along with MathWebSearch.  If not, see <http://www.gnu.org/licenses/>.
 
 // System includes
 
+#include <limits.h>
 #include <stdarg.h>
 #include <stdio.h>                   // C Standrad Input Output
 #include <stdlib.h>                  // C general purpose library
@@ -134,6 +135,19 @@ static void my_endDocument(void* user_data) {
     }
 }
 
+/**
+  * @brief Reads a decimal number; numbers beyond the range of int become the
+  * nearest int
+  */
+static int readNumber(const char* text) {
+    long value = strtol(text, nullptr, 10);
+
+    if (value > INT_MAX) return INT_MAX;
+    if (value < INT_MIN) return INT_MIN;
+
+    return (int)value;
+}
+
 /**
   * @brief This function is called when the SAX handler encounters the
   * beginning of an element.
@@ -161,12 +175,12 @@ static void my_startElement(void* user_data, const xmlChar* name,
                 } else if (strcmp((char*)attrs[0],
                                   MWSQUERY_ATTR_ANSWSET_MAXSIZE) ==
                            0) {
-                    numValue = (int)strtol((char*)attrs[1], nullptr, 10);
+                    numValue = readNumber((char*)attrs[1]);
                     data->result->attrResultMaxSize = numValue;
                 } else if (strcmp((char*)attrs[0],
                                   MWSQUERY_ATTR_ANSWSET_LIMITMIN) ==
                            0) {
-                    numValue = (int)strtol((char*)attrs[1], nullptr, 10);
+                    numValue = readNumber((char*)attrs[1]);
                     data->result->attrResultLimitMin = numValue;
                 } else if (strcmp((char*)attrs[0],
                                   MWSQUERY_ATTR_ANSWSET_TOTALREQ) ==
@@ -178,7 +192,7 @@ static void my_startElement(void* user_data, const xmlChar* name,
                     }
                 } else if (strcmp((char*)attrs[0], SCHQUERY_ATTR_DEPTH) ==
                            0) {
-                    numValue = (int)strtol((char*)attrs[1], nullptr, 10);
+                    numValue = readNumber((char*)attrs[1]);
                     data->result->max_depth = numValue;
                 } else if (strcmp((char*)attrs[0], SCHQUERY_ATTR_CUTOFFMODE) ==
                            0) {
-- 
2.43.0


From a66b686ccb7087958c2cc8debfa80bd98006f706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:07 +0000
Subject: [PATCH 35/41] fix: release the data of requests whose client goes
 away

---
 src/mws/daemon/Daemon.cpp | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/mws/daemon/Daemon.cpp b/src/mws/daemon/Daemon.cpp
index 623333c..bd848c6 100644
--- a/src/mws/daemon/Daemon.cpp
+++ b/src/mws/daemon/Daemon.cpp
@@ -194,7 +194,6 @@ static int accessHandlerCallback(void* cls, struct MHD_Connection* connection,
             size_t nbytes = fwrite(upload_data, sizeof(char), *upload_data_size,
                                    memstream->getInput());
             if (nbytes <= 0) {
-                delete memstream;
                 return MHD_NO;
             }
 
@@ -213,6 +212,7 @@ static int accessHandlerCallback(void* cls, struct MHD_Connection* connection,
     }
     unique_ptr<Query> mwsQuery(readMwsQuery(memstream->getOutputFile(), qMode));
     delete memstream;
+    *ptr = nullptr;
 
     // Check if query failed or is empty
     if (mwsQuery == nullptr || mwsQuery->tokens.size() == 0) {
@@ -270,6 +270,21 @@ static int accessHandlerCallback(void* cls, struct MHD_Connection* connection,
     return ret;
 }
 
+/**
+  * @brief Releases the data of a request which ended before it was processed
+  */
+static void requestCompletedCallback(void* cls,
+                                     struct MHD_Connection* connection,
+                                     void** ptr,
+                                     enum MHD_RequestTerminationCode toe) {
+    UNUSED(cls);
+    UNUSED(connection);
+    UNUSED(toe);
+
+    delete (MemStream*)*ptr;
+    *ptr = nullptr;
+}
+
 Daemon::Daemon(QueryHandler* queryHandler, const Config& config)
     : _queryHandler(queryHandler) {
 
@@ -285,6 +300,8 @@ Daemon::Daemon(QueryHandler* queryHandler, const Config& config)
     _mhd = MHD_start_daemon(mhd_flags, config.port, (MHD_AcceptPolicyCallback)acceptPolicyCallback,
                             /* PolicyContext = */ nullptr,
                             (MHD_AccessHandlerCallback)accessHandlerCallback, _queryHandler.get(),
+                            MHD_OPTION_NOTIFY_COMPLETED,
+                            requestCompletedCallback, nullptr,
                             MHD_OPTION_CONNECTION_LIMIT, 20, MHD_OPTION_END);
     if (_mhd == nullptr) {
         throw runtime_error(
-- 
2.43.0


From 831dd3738f1c38faa20e2a934482106e48cc1f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:53 +0000
Subject: [PATCH 36/41] fix: answer 500 instead of ending the daemon when a
 query throws

---
 src/mws/daemon/Daemon.cpp | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/mws/daemon/Daemon.cpp b/src/mws/daemon/Daemon.cpp
index bd848c6..e70b726 100644
--- a/src/mws/daemon/Daemon.cpp
+++ b/src/mws/daemon/Daemon.cpp
@@ -36,6 +36,7 @@ along with MathWebSearch.  If not, see <http://www.gnu.org/licenses/>.
 #include <memory>
 using std::unique_ptr;
 #include <stdexcept>
+using std::exception;
 using std::runtime_error;
 
 #include "common/utils/compiler_defs.h"
@@ -226,7 +227,14 @@ static int accessHandlerCallback(void* cls, struct MHD_Connection* connection,
     mwsQuery->applyRestrictions();
 #endif
 
-    unique_ptr<GenericAnswer> answset(qh->handleQuery(mwsQuery.get()));
+    // An exception must not leave this callback (it would end the daemon)
+    unique_ptr<GenericAnswer> answset;
+    try {
+        answset.reset(qh->handleQuery(mwsQuery.get()));
+    }
+    catch (exception & e) {
+        PRINT_WARN("%s\n", e.what());
+    }
     if (answset == nullptr) {
         PRINT_WARN("Error while obtaining answer set\n");
         return sendXmlGenericResponse(connection, XML_MWS_SERVER_ERROR,
@@ -235,8 +243,15 @@ static int accessHandlerCallback(void* cls, struct MHD_Connection* connection,
 
     // Write answer
     MemStream responseData;
-    int ret = mwsQuery->responseFormatter
-        ->writeData(answset.get(), responseData.getInput());
+    int ret;
+    try {
+        ret = mwsQuery->responseFormatter
+            ->writeData(answset.get(), responseData.getInput());
+    }
+    catch (exception & e) {
+        PRINT_WARN("%s\n", e.what());
+        ret = -1;
+    }
 
     if (ret < 0) {
         PRINT_WARN("Error while writing the Answer Set\n");
-- 
2.43.0


From 443b83a00089f748c864f40d509d899a95bb9fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:59 +0000
Subject: [PATCH 37/41] fix: mws-index leaves it to chance whether the
 databases of an existing index are deleted

---
 src/mws/index/IndexWriter.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mws/index/IndexWriter.hpp b/src/mws/index/IndexWriter.hpp
index 19f0875..2ce4081 100644
--- a/src/mws/index/IndexWriter.hpp
+++ b/src/mws/index/IndexWriter.hpp
@@ -41,6 +41,8 @@ struct IndexConfiguration {
     HarvesterConfiguration harvester;
     std::string dataPath;
     bool deleteOldData;
+
+    IndexConfiguration() : deleteOldData(false) {}
 };
 
 /**
-- 
2.43.0


From 326abfc34cf40c8240e35bfe0d5a096f6f4c61a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:09 +0000
Subject: [PATCH 38/41] fix: an index that is not complete is never taken for
 one, whenever writing it ends

---
 src/mws/index/IndexWriter.cpp | 34 ++++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/src/mws/index/IndexWriter.cpp b/src/mws/index/IndexWriter.cpp
index 8c6f27c..c2cfc3b 100644
--- a/src/mws/index/IndexWriter.cpp
+++ b/src/mws/index/IndexWriter.cpp
@@ -28,9 +28,14 @@ along with MathWebSearch.  If not, see <http://www.gnu.org/licenses/>.
   * @date 29 May 2014
   */
 
+#include <errno.h>
+#include <string.h>
+#include <unistd.h>
+
 #include <cinttypes>
 #include <stdexcept>
 using std::exception;
+using std::runtime_error;
 #include <string>
 using std::string;
 #include <fstream>
@@ -55,6 +60,7 @@ namespace index {
 
 int createCompressedIndex(const IndexConfiguration& config) {
     const std::string output_dir = config.dataPath;
+    const std::string image_path = output_dir + "/" + INDEX_MEMSECTOR_FILE;
     memsector_writer_t mwsr;
     unique_ptr<dbc::CrawlDb> crawlDb;
     unique_ptr<dbc::FormulaDb> formulaDb;
@@ -66,6 +72,15 @@ int createCompressedIndex(const IndexConfiguration& config) {
 
     try {
         create_directory(output_dir);
+        // An index is complete once its image is. The image of an older index
+        // must not make this one look complete before it is.
+        if (config.deleteOldData) {
+            if (unlink(image_path.c_str()) != 0 && errno != ENOENT) {
+                throw runtime_error(image_path + ": " + strerror(errno));
+            }
+        } else if (access(image_path.c_str(), F_OK) == 0) {
+            throw runtime_error(image_path + " already exists");
+        }
         auto crawlLevDb = new dbc::LevCrawlDb();
         crawlLevDb->create_new((output_dir + "/" + CRAWL_DB_FILE).c_str(),
                                config.deleteOldData);
@@ -89,16 +104,6 @@ int createCompressedIndex(const IndexConfiguration& config) {
     }
     PRINT_LOG("%" PRIu64 " expressions loaded.\n", numExpressions);
 
-    if (memsector_create(
-            &mwsr, (output_dir + "/" + INDEX_MEMSECTOR_FILE).c_str()) != 0 ||
-        index.exportToMemsector(&mwsr) != 0) {
-        PRINT_WARN("Could not write the index. Aborting...\n");
-        return EXIT_FAILURE;
-    }
-    PRINT_LOG("Created index of %s\n",
-              humanReadableByteCount(mwsr.ms.index_size,
-                                     /* si= */ false).c_str());
-
     fb.open((output_dir + "/" + MEANING_DICTIONARY_FILE).c_str(),
             std::ios::out);
     meaningDictionary.save(os);
@@ -107,6 +112,15 @@ int createCompressedIndex(const IndexConfiguration& config) {
         return EXIT_FAILURE;
     }
 
+    if (memsector_create(&mwsr, image_path.c_str()) != 0 ||
+        index.exportToMemsector(&mwsr) != 0) {
+        PRINT_WARN("Could not write the index. Aborting...\n");
+        return EXIT_FAILURE;
+    }
+    PRINT_LOG("Created index of %s\n",
+              humanReadableByteCount(mwsr.ms.index_size,
+                                     /* si= */ false).c_str());
+
     return EXIT_SUCCESS;
 }
 
-- 
2.43.0


From 9bf6f1cbb88c22439c2b8fc228cee79abd54b2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:39 +0000
Subject: [PATCH 39/41] fix: entity references in formulae make the harvests of
 docs2harvest malformed

---
 src/crawler/parser/MathParser.cpp | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/src/crawler/parser/MathParser.cpp b/src/crawler/parser/MathParser.cpp
index 8322189..38626ad 100644
--- a/src/crawler/parser/MathParser.cpp
+++ b/src/crawler/parser/MathParser.cpp
@@ -163,6 +163,29 @@ void cleanupMathParser() { xmlCleanupParser(); }
 /* Local implementation                                                     */
 /*--------------------------------------------------------------------------*/
 
+/**
+ * @brief replace the entity references among a list of nodes by text. The
+ * entities of the document are not declared in the harvest.
+ * @param first node in the list
+ */
+static void expandEntityReferences(xmlNode* first) {
+    xmlNodePtr curr = first;
+    while (curr != nullptr) {
+        xmlNodePtr next = curr->next;
+        if (curr->type == XML_ENTITY_REF_NODE) {
+            xmlChar* content = xmlNodeGetContent(curr);
+            string text = content != nullptr ? (char*)content : "";
+            xmlFree(content);
+            // The document does not say what it stands for
+            if (text.empty()) text = string("&") + (char*)curr->name + ";";
+            xmlReplaceNode(curr,
+                           xmlNewDocText(curr->doc, BAD_CAST text.c_str()));
+            xmlFreeNode(curr);
+        }
+        curr = next;
+    }
+}
+
 /**
  * @brief remove redundant attributes from ContentMath
  * @param xmlNode
@@ -176,6 +199,13 @@ static void cleanContentMath(xmlNode* node) {
     // Remove namespace from name
     xmlSetNs(node, nullptr);
 
+    if (node->type == XML_ELEMENT_NODE) {
+        for (xmlAttr* attr = node->properties; attr; attr = attr->next) {
+            expandEntityReferences(attr->children);
+        }
+    }
+    expandEntityReferences(node->children);
+
     // Recurse through child nodes
     xmlNodePtr curr = node->children;
     while (curr != nullptr) {
-- 
2.43.0


From 600efb11aaa6b204b97310f0d527162048a5296c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:16 +0000
Subject: [PATCH 40/41] fix: docs2harvest writes the urls of formulae as they
 are, without escaping them

---
 src/crawler/parser/MathParser.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/crawler/parser/MathParser.cpp b/src/crawler/parser/MathParser.cpp
index 38626ad..5f31620 100644
--- a/src/crawler/parser/MathParser.cpp
+++ b/src/crawler/parser/MathParser.cpp
@@ -141,7 +141,8 @@ Harvest createHarvestFromDocument(const string& path,
                        << "\"";
             expression << " mws:data_id=\"" << config.data_id << "\"";
         } else {
-            expression << "<mws:expr url=\"" << documentId << "#" << id << "\"";
+            expression << "<mws:expr url=\""
+                       << escapeXml(doc, documentId + "#" + id) << "\"";
         }
         expression << ">" << getXmlFromNode(doc, cmmlNode) << "</mws:expr>\n";
         harvest.contentMathElements.push_back(expression.str());
-- 
2.43.0


From 297cbbad7dc9a79105551d2e07c6857e97b9ecf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:30 +0000
Subject: [PATCH 41/41] fix: docs2harvest numbers all formulae outside of the
 text 0

---
 src/crawler/parser/MathParser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/crawler/parser/MathParser.cpp b/src/crawler/parser/MathParser.cpp
index 5f31620..7c0d34b 100644
--- a/src/crawler/parser/MathParser.cpp
+++ b/src/crawler/parser/MathParser.cpp
@@ -130,14 +130,14 @@ Harvest createHarvestFromDocument(const string& path,
         }
 
         if (config.shouldSaveData) {
-            data << "<math local_id=\"" << mathIdDictionary.get(id) << "\">"
+            data << "<math local_id=\"" << mathIdDictionary.put(id) << "\">"
                  << getEscapedXmlFromNode(doc, mathNode) << "</math>\n";
         }
         cleanContentMath(cmmlNode);
 
         stringstream expression;
         if (config.shouldSaveData) {
-            expression << "<mws:expr url=\"" << mathIdDictionary.get(id)
+            expression << "<mws:expr url=\"" << mathIdDictionary.put(id)
                        << "\"";
             expression << " mws:data_id=\"" << config.data_id << "\"";
         } else {
-- 
2.43.0

