From e504c77a32c44940a988c5985c8ce83bb1c53a20 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:05 +0000
Subject: [PATCH 01/24] fix: moving a Heap moves the elements

The Heap move constructor moved its own, not yet constructed, tree and the
ComTree move constructor reset its own size instead of the moved-from one.
---
 src/mathic/ComTree.h | 4 ++--
 src/mathic/Heap.h    | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mathic/ComTree.h b/src/mathic/ComTree.h
index 8ca8549..2eea009 100755
--- a/src/mathic/ComTree.h
+++ b/src/mathic/ComTree.h
@@ -178,8 +178,8 @@ namespace mathic {
   {
     tree._array = static_cast<E*>(0) - 1;
     tree._arrayKeepAlive = 0;
-    _lastLeaf = Node(0);
-    _capacityEnd = Node(0);
+    tree._lastLeaf = Node(0);
+    tree._capacityEnd = Node(0);
   }
 
   template<class E, bool FI>
diff --git a/src/mathic/Heap.h b/src/mathic/Heap.h
index 6dde74f..9018b60 100755
--- a/src/mathic/Heap.h
+++ b/src/mathic/Heap.h
@@ -36,7 +36,7 @@ namespace mathic {
     Heap(const Configuration& configuration): _conf(configuration) {}
     Heap(const Configuration&& configuration):
       _conf(std::move(configuration)) {}
-    Heap(Heap&& heap): _tree(std::move(_tree)), _conf(std::move(heap._conf)) {}
+    Heap(Heap&& heap): _tree(std::move(heap._tree)), _conf(std::move(heap._conf)) {}
 
     Configuration& getConfiguration() {return _conf;}
     const Configuration& getConfiguration() const {return _conf;}
-- 
2.43.0


From f679e66271f4543228eaf01ff2ceac35f4724d7d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:05 +0000
Subject: [PATCH 02/24] fix: Geobucket::clear forgets the buckets' places in
 the front

With trackFront, a bucket kept a stale position in the front after clear(),
so that later pushes and pops corrupted the front.
---
 src/mathic/Geobucket.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mathic/Geobucket.h b/src/mathic/Geobucket.h
index 0784608..b981b95 100755
--- a/src/mathic/Geobucket.h
+++ b/src/mathic/Geobucket.h
@@ -437,8 +437,10 @@ namespace mathic {
 	MATHIC_ASSERT(isValid());
     _entryCount = 0;
     _front.clear();
-    for (Bucket* bucket = _bucketBegin; bucket != _bucketEnd; ++bucket)
+    for (Bucket* bucket = _bucketBegin; bucket != _bucketEnd; ++bucket) {
       bucket->clear();
+      bucket->setFrontToken(0); // no empty bucket has a place in _front
+    }
 	MATHIC_ASSERT(isValid());
   }
 
-- 
2.43.0


From 8e1c424d965e4a2fe970bfb760e827f05829b07e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:05 +0000
Subject: [PATCH 03/24] fix: pushing an empty range on a Geobucket does nothing

An empty bucket got inserted into the front.
---
 src/mathic/Geobucket.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mathic/Geobucket.h b/src/mathic/Geobucket.h
index b981b95..2e97052 100755
--- a/src/mathic/Geobucket.h
+++ b/src/mathic/Geobucket.h
@@ -415,6 +415,8 @@ namespace mathic {
 	  }
 	}
 #endif
+	if (begin == end)
+	  return;
 	const size_t entryCount = end - begin;
 	const size_t adjCount = entryCount * C::insertFactor;
 	_entryCount += entryCount;
-- 
2.43.0


From 8828d855db50db5f8b76a29968c726957238a732 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:05 +0000
Subject: [PATCH 04/24] fix: unit prefixes for the largest numbers

withSIPrefix and bytesInUnit read past the end of the array of units for
numbers from about 10^15 and 2^50 on.
---
 src/mathic/ColumnPrinter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mathic/ColumnPrinter.cpp b/src/mathic/ColumnPrinter.cpp
index a20e3ef..d19705c 100755
--- a/src/mathic/ColumnPrinter.cpp
+++ b/src/mathic/ColumnPrinter.cpp
@@ -236,7 +236,7 @@ namespace mathic {
 	if (l < 1000)
       out << l;
     else {
-	  const char* const units[] = {"k", "M", "G", "T"};
+	  const char* const units[] = {"k", "M", "G", "T", "P", "E"};
 	  const size_t unitCount = sizeof(units) / sizeof(*units);
 	  double amount = static_cast<double>(l) / 1000.0;
 	  size_t i = 0;
@@ -254,7 +254,7 @@ namespace mathic {
 	if (bytes < 1024)
 	  out << bytes << 'B';
     else {
-	  const char* const units[] = {"kB", "MB", "GB", "TB"};
+	  const char* const units[] = {"kB", "MB", "GB", "TB", "PB", "EB"};
 	  const size_t unitCount = sizeof(units) / sizeof(*units);
 	  double amount = static_cast<double>(bytes) / 1024.0;
 	  size_t i = 0;
-- 
2.43.0


From ac97112cad94d2eca2a20e02658b1ed4530bbeaa Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:05 +0000
Subject: [PATCH 05/24] fix: percentInteger does not overflow for large
 numerators

---
 src/mathic/ColumnPrinter.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mathic/ColumnPrinter.cpp b/src/mathic/ColumnPrinter.cpp
index d19705c..cf27391 100755
--- a/src/mathic/ColumnPrinter.cpp
+++ b/src/mathic/ColumnPrinter.cpp
@@ -174,7 +174,11 @@ namespace mathic {
     const unsigned long long numerator,
     const unsigned long long denominator
   ) {
-    return ratioInteger(numerator * 100, denominator) + '%';
+    if (denominator == 0)
+      return ratioInteger(numerator, denominator) + '%';
+    // multiply as doubles, since numerator * 100 can overflow.
+    return oneDecimal
+      (static_cast<double>(numerator) * 100 / denominator) + '%';
   }
 
   std::string ColumnPrinter::percentDouble(
-- 
2.43.0


From c4ecb24452ad0d56e565d17c18d5588100f003be Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:05 +0000
Subject: [PATCH 06/24] fix: no signed overflow in DivMask::rebuildDefault for
 one variable

---
 src/mathic/DivMask.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mathic/DivMask.h b/src/mathic/DivMask.h
index 96f4bb9..3011771 100644
--- a/src/mathic/DivMask.h
+++ b/src/mathic/DivMask.h
@@ -320,8 +320,11 @@ namespace mathic {
         TotalBits / varCount + (var < TotalBits % varCount);
       Exponent exp = 0;
       for (size_t i = 0; i < bitsForVar; ++i) {
+        // exp becomes 0, 1, 2, 4, ... - computed only when needed so that
+        // it does not overflow after the last bit.
+        if (i > 0)
+          exp = (i == 1 ? 1 : exp * 2);
         _bits.push_back(std::make_pair(var, exp));
-        exp = (i == 0 ? 1 : exp * 2);
       }
     }
   }
-- 
2.43.0


From b03213817f62ca0642466e5c17312879366a2b24 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:47 +0000
Subject: [PATCH 07/24] fix: KDTree::removeElement

It did not compile for binary trees, and for packed trees it left the size
and the divisor cache as they were, so that findDivisor could return a
removed entry.
---
 src/mathic/BinaryKDTree.h | 11 ++++++++---
 src/mathic/KDTree.h       |  5 ++++-
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/mathic/BinaryKDTree.h b/src/mathic/BinaryKDTree.h
index 3366ec4..3b3d0bf 100755
--- a/src/mathic/BinaryKDTree.h
+++ b/src/mathic/BinaryKDTree.h
@@ -291,9 +291,14 @@ namespace mathic {
       return 0;
     Node* node = _root;
 
-    while (node->isInterior())
-      node = node->asInterior().getChildFor(monomial, _conf);
-    const bool value = node->asLeaf().removeElement(monomial);
+    while (node->isInterior()) {
+      Interior& interior = node->asInterior();
+      if (interior.getExponent() < _conf.getExponent(monomial, interior.getVar()))
+        node = &interior.getStrictlyGreater();
+      else
+        node = &interior.getEqualOrLess();
+    }
+    const bool value = node->asLeaf().entries().removeElement(monomial, _conf);
     MATHIC_ASSERT(debugIsValid());
     return value;
   }
diff --git a/src/mathic/KDTree.h b/src/mathic/KDTree.h
index 8290bb2..0f344eb 100755
--- a/src/mathic/KDTree.h
+++ b/src/mathic/KDTree.h
@@ -172,7 +172,10 @@ namespace mathic {
       MATHIC_ASSERT(C::AllowRemovals);
       if (!C::AllowRemovals)
         throw std::logic_error("Removal request while removals disabled.");
-      return _tree.removeElement(monomial);
+      const bool removed = _tree.removeElement(monomial);
+      if (removed)
+        reportChanges(0, 1);
+      return removed;
     }
 
     /** Returns a pointer to an entry that divides monomial. Returns null if no
-- 
2.43.0


From 5359a2516bc01cd0bc6d529fab61f5e1cb93baa7 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:47 +0000
Subject: [PATCH 08/24] fix: KDTree::clear compiles and resets the size

---
 src/mathic/KDTree.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mathic/KDTree.h b/src/mathic/KDTree.h
index 0f344eb..afdc5ba 100755
--- a/src/mathic/KDTree.h
+++ b/src/mathic/KDTree.h
@@ -239,8 +239,9 @@ namespace mathic {
     /** Removes all entries. Does not reset the configuration object. */
     void clear() {
       _tree.clear();
+      _size = 0;
       resetNumberOfChangesTillRebuild();
-      _tree.calc().rebuildDefault(getConfiguration());
+      _divMaskCalculator.rebuildDefault(getConfiguration());
     }
 
     /** Rebuilds the data structure. */
-- 
2.43.0


From d9e9d6c1a33e0b513f8dbeabebb12f8284486abc Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:47 +0000
Subject: [PATCH 09/24] fix: inserting a range of entries into a KDTree
 compiles

---
 src/mathic/KDTree.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/mathic/KDTree.h b/src/mathic/KDTree.h
index afdc5ba..95ed803 100755
--- a/src/mathic/KDTree.h
+++ b/src/mathic/KDTree.h
@@ -154,16 +154,17 @@ namespace mathic {
     void insert(Iter begin, Iter end) {
       if (begin == end)
         return;
-      const size_t inserted = std::distance(begin, end); 
       if (!empty()) {
         for (; begin != end; ++begin)
-          _tree.insert(*begin);
+          insert(*begin);
       } else {
-        _tree.insert(begin, end);
+        const size_t inserted = std::distance(begin, end);
+        _divMaskCalculator.rebuild(begin, end, getConfiguration());
+        _tree.reset(begin, end, _divMaskCalculator);
+        _size = inserted;
         // insert into empty container is equivalent to rebuild
         resetNumberOfChangesTillRebuild();
       }
-      reportChanges(inserted, 0);
     }
 
     /** Removes an element whose exponents are equal to monomial's. Returns
-- 
2.43.0


From 0e09726bc5998142b5f49ad9300b152517a34e09 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:47 +0000
Subject: [PATCH 10/24] fix: PairQueue destructs PairData with the row it is
 for

When the last rows of a column were retired, the last of them was passed
to destructPairData instead of the row that the data had been computed for.
---
 src/mathic/PairQueue.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/mathic/PairQueue.h b/src/mathic/PairQueue.h
index 0340153..abf2f0e 100755
--- a/src/mathic/PairQueue.h
+++ b/src/mathic/PairQueue.h
@@ -413,7 +413,7 @@ namespace mathic {
 		  (!conf.cmpLessThan(conf.compare(col, *prevIt, *prevPd,
 										  col, *it, *currentPd)));
 		PairQueueNamespace::
-		  destructPairData(currentPd.get(), col, *prevIt, conf);
+		  destructPairData(currentPd.get(), col, *it, conf);
 		PairQueueNamespace::destructPairData(prevPd.get(), col, *prevIt, conf);
 	  }
 	}
@@ -467,12 +467,13 @@ namespace mathic {
   template<class C>
   void PairQueue<C>::Column::incrementRowIndex(PairQueue<C>& pq) {
 	MATHIC_ASSERT(!empty());
+	Index const oldRow = rowIndex(); // mPairData is for this row
 	if (big()) {
 	  do {
 		++bigBegin;
 		if (bigBegin == bigEnd) {
 		  MATHIC_ASSERT(empty());
-		  destruct(*(bigBegin - 1), pq.configuration());
+		  destruct(oldRow, pq.configuration());
 		  return;
 		}
 	  } while (PairQueue::SupportRetirement && pq.retired(*bigBegin));
@@ -481,7 +482,7 @@ namespace mathic {
 		++smallBegin;
 		if (smallBegin == smallEnd) {
 		  MATHIC_ASSERT(empty());
-		  destruct(*(smallBegin - 1), pq.configuration());
+		  destruct(oldRow, pq.configuration());
 		  return;
 		}
 	  } while (PairQueue::SupportRetirement && pq.retired(*smallBegin));
-- 
2.43.0


From c5c8cc71dae890327b26dafe4a7a72aae6daf363 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:47 +0000
Subject: [PATCH 11/24] fix: destruct PairData when computePairData throws

---
 src/mathic/PairQueue.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/mathic/PairQueue.h b/src/mathic/PairQueue.h
index abf2f0e..d0909ff 100755
--- a/src/mathic/PairQueue.h
+++ b/src/mathic/PairQueue.h
@@ -80,7 +80,12 @@ namespace mathic {
 		MATHIC_ASSERT(memory != 0);
 		MATHIC_ASSERT(col > row);
 		PairData* pd = new (memory) PairData();
-		conf.computePairData(col, row, *pd);
+		try {
+		  conf.computePairData(col, row, *pd);
+		} catch (...) {
+		  pd->~PairData();
+		  throw;
+		}
 	  }
 	};
 	template<class Configuration>
-- 
2.43.0


From 2e53517796a1864bcfc11ba7c97d6a644a2bfe9a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:47 +0000
Subject: [PATCH 12/24] fix: HashTable::remove compiles

---
 src/mathic/HashTable.h | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/mathic/HashTable.h b/src/mathic/HashTable.h
index b0cde83..193112d 100755
--- a/src/mathic/HashTable.h
+++ b/src/mathic/HashTable.h
@@ -238,17 +238,13 @@ namespace mathic {
   void HashTable<C>::remove(Handle *& p) 
   {
     mNodeCount--;
-    size_t const hashval = mConf.hashvalue(p->key) & mHashMask;
-    Handle head;
-    Handle* tmpNode = mHashTable[hashval];
-    head.next = tmpNode;
-    for (Handle* q = &head; q->next != 0; q = q->next) 
+    size_t const hashval = mConf.hash(p->key()) & mHashMask;
+    for (Handle** q = &mHashTable[hashval]; *q != 0; q = &(*q)->next) 
       {
-	if (q->next == p) 
+	if (*q == p) 
 	  {
-	    q->next = p->next;
-	    mHashTable[hashval] = head.next;
-	    if (head.next == 0) mBinCount--;
+	    *q = p->next;
+	    if (mHashTable[hashval] == 0) mBinCount--;
 	    //TODO: call destructor for pair, then call 'free' with the mNodePool
 	    return;
 	  }
-- 
2.43.0


From 532b78a40d26054223b3f333a16dd90a8ae16f74 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:47 +0000
Subject: [PATCH 13/24] fix: define CliParser::registerHelpAction

It was declared but not defined, so the help messages could not be set.
---
 src/mathic/CliParser.cpp | 204 ++++++++++++++++++++-------------------
 1 file changed, 107 insertions(+), 97 deletions(-)

diff --git a/src/mathic/CliParser.cpp b/src/mathic/CliParser.cpp
index e45b457..90f9609 100644
--- a/src/mathic/CliParser.cpp
+++ b/src/mathic/CliParser.cpp
@@ -1,97 +1,107 @@
-#include "CliParser.h"
-
-#include "error.h"
-#include "CliParameter.h"
-
-namespace mathic {
-  namespace {
-    // We are using a NameFactory just for its prefix-finding functionality, so
-    // we set the thing being created to be just void pointers that are null.
-    typedef void* Dummy;
-    typedef NameFactory<Dummy> ParamNames;
-    ParamNames makeParamNames(std::vector<CliParameter*> params) {
-      ParamNames names("option");
-      for (size_t i = 0; i < params.size(); ++i) {
-        const auto makeNull = [](){return std::unique_ptr<Dummy>();};
-        names.registerProduct(params[i]->name(), makeNull);
-      }
-      return names;
-    }
-  }
-
-  void CliParser::pushBackRegisteredActionNames(
-    std::vector<std::string>& names
-  ) const {
-    _actions.namesWithPrefix("", names);
-  }
-
-
-  CliParser::CliParser(): _actions("action") {}
-
-  std::unique_ptr<Action> CliParser::createActionWithPrefix(
-    const std::string& prefix
-  ) {
-    return createWithPrefix(_actions, prefix);
-  }
-
-  std::unique_ptr<Action> CliParser::parse(int argc, char** argv) {
-    std::vector<std::string> commandLine(argv, argv + argc);
-    return parse(commandLine);
-  }
-
-  std::unique_ptr<Action> CliParser::parse
-    (const std::vector<std::string>& commandLine) {
-    if (commandLine.empty())
-      throwError<UnknownNameException>("No action specified.");
-    std::unique_ptr<Action> action = createActionWithPrefix(commandLine[0]);
-
-    std::vector<CliParameter*> params;
-    action->pushBackParameters(params);
-    ParamNames paramNames = makeParamNames(params);
-
-    std::vector<std::string> options;
-    std::vector<std::string> directOptions;
-    bool sawDash = false;
-    for (size_t i = 1; i < commandLine.size(); ++i) {
-      if (commandLine[i].empty())
-        continue;
-      if (commandLine[i][0] == '-')
-        sawDash = true;
-      if (sawDash)
-        options.push_back(commandLine[i]);
-      else
-        directOptions.push_back(commandLine[i]);
-    }
-
-    action->directOptions(directOptions, *this);
-
-    size_t i = 1;
-    for (size_t i = 0; i < options.size(); ++i) {
-      std::string const& token = options[i];
-      if (token[0] != '-')
-        reportError("Expected an option when reading \"" +
-                    token + "\", but options start with a dash (-).\n");
-      std::string noDash(token.begin() + 1, token.end());
-      std::string name = uniqueNameWithPrefix(paramNames, noDash);
-
-      std::string optionArgument;
-      if (i + 1 < options.size() && options[i + 1][0] != '-') {
-        optionArgument = options[i + 1];
-        ++i;
-      }
-
-      for (std::vector<CliParameter*>::iterator it = params.begin();; ++it) {
-        if (it == params.end()) {
-          // shouldn't get here as name was recognized above
-          reportInternalError("Processing non-existent option \""
-            + name + "\".");
-        }
-        if ((*it)->name() == name) {
-          (*it)->processArgument(optionArgument);
-          break;
-        }
-      }
-    }
-    return action;
-  }
-}
+#include "CliParser.h"
+
+#include "error.h"
+#include "CliParameter.h"
+#include "HelpAction.h"
+
+namespace mathic {
+  namespace {
+    // We are using a NameFactory just for its prefix-finding functionality, so
+    // we set the thing being created to be just void pointers that are null.
+    typedef void* Dummy;
+    typedef NameFactory<Dummy> ParamNames;
+    ParamNames makeParamNames(std::vector<CliParameter*> params) {
+      ParamNames names("option");
+      for (size_t i = 0; i < params.size(); ++i) {
+        const auto makeNull = [](){return std::unique_ptr<Dummy>();};
+        names.registerProduct(params[i]->name(), makeNull);
+      }
+      return names;
+    }
+  }
+
+  void CliParser::pushBackRegisteredActionNames(
+    std::vector<std::string>& names
+  ) const {
+    _actions.namesWithPrefix("", names);
+  }
+
+
+  CliParser::CliParser(): _actions("action") {}
+
+  void CliParser::registerHelpAction(
+    const std::string& preMessage,
+    const std::string& postMessage
+  ) {
+    registerAction<HelpAction>();
+    _helpPreMessage = preMessage;
+    _helpPostMessage = postMessage;
+  }
+
+  std::unique_ptr<Action> CliParser::createActionWithPrefix(
+    const std::string& prefix
+  ) {
+    return createWithPrefix(_actions, prefix);
+  }
+
+  std::unique_ptr<Action> CliParser::parse(int argc, char** argv) {
+    std::vector<std::string> commandLine(argv, argv + argc);
+    return parse(commandLine);
+  }
+
+  std::unique_ptr<Action> CliParser::parse
+    (const std::vector<std::string>& commandLine) {
+    if (commandLine.empty())
+      throwError<UnknownNameException>("No action specified.");
+    std::unique_ptr<Action> action = createActionWithPrefix(commandLine[0]);
+
+    std::vector<CliParameter*> params;
+    action->pushBackParameters(params);
+    ParamNames paramNames = makeParamNames(params);
+
+    std::vector<std::string> options;
+    std::vector<std::string> directOptions;
+    bool sawDash = false;
+    for (size_t i = 1; i < commandLine.size(); ++i) {
+      if (commandLine[i].empty())
+        continue;
+      if (commandLine[i][0] == '-')
+        sawDash = true;
+      if (sawDash)
+        options.push_back(commandLine[i]);
+      else
+        directOptions.push_back(commandLine[i]);
+    }
+
+    action->directOptions(directOptions, *this);
+
+    size_t i = 1;
+    for (size_t i = 0; i < options.size(); ++i) {
+      std::string const& token = options[i];
+      if (token[0] != '-')
+        reportError("Expected an option when reading \"" +
+                    token + "\", but options start with a dash (-).\n");
+      std::string noDash(token.begin() + 1, token.end());
+      std::string name = uniqueNameWithPrefix(paramNames, noDash);
+
+      std::string optionArgument;
+      if (i + 1 < options.size() && options[i + 1][0] != '-') {
+        optionArgument = options[i + 1];
+        ++i;
+      }
+
+      for (std::vector<CliParameter*>::iterator it = params.begin();; ++it) {
+        if (it == params.end()) {
+          // shouldn't get here as name was recognized above
+          reportInternalError("Processing non-existent option \""
+            + name + "\".");
+        }
+        if ((*it)->name() == name) {
+          (*it)->processArgument(optionArgument);
+          break;
+        }
+      }
+    }
+    return action;
+  }
+}
-- 
2.43.0


From 84034eb69fa557937be6cc5cc01555894b5385b8 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:47 +0000
Subject: [PATCH 14/24] fix: DivList::getMemoryUse compiles for linked lists

---
 src/mathic/DivList.h | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/mathic/DivList.h b/src/mathic/DivList.h
index 03cf87d..95da070 100755
--- a/src/mathic/DivList.h
+++ b/src/mathic/DivList.h
@@ -274,6 +274,17 @@ namespace mathic {
       return removedCount;
     }
 
+    template<class E>
+      size_t getMemoryUse(const std::vector<E>& list) {
+      return list.capacity() * sizeof(E);
+    }
+
+    template<class E>
+      size_t getMemoryUse(const std::list<E>& list) {
+      // each node has pointers to the next and to the previous node
+      return list.size() * (sizeof(E) + 2 * sizeof(void*));
+    }
+
     template<class E, class It>
       void moveToFront(std::vector<E>& list, It pos) {
       E valueToMove = *pos;
@@ -609,7 +620,7 @@ namespace mathic {
 
   template<class C>
   size_t DivList<C>::getMemoryUse() const {
-	return _list.capacity() * sizeof(_list.front());
+	return DivListHelper::getMemoryUse(_list);
   }
 }
 
-- 
2.43.0


From eb57923199a7830dac4b15fee8ca98e3fdc36f29 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:47 +0000
Subject: [PATCH 15/24] fix: pqsim does not divide by zero

It did for a span length of 1 and for no elements.
---
 src/pqsim/Simulator.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pqsim/Simulator.cpp b/src/pqsim/Simulator.cpp
index 8ff8c10..e00a440 100755
--- a/src/pqsim/Simulator.cpp
+++ b/src/pqsim/Simulator.cpp
@@ -131,10 +131,10 @@ namespace {
     const size_t traffic = sim.getPushSum();
     out << "*** Simulation \"" << name << "\"\n ";
     out << sim.getPushCount() << " spans\n ";
-    out << (traffic / sim.getPushCount()) << " per span on average\n ";
+    out << (traffic == 0 ? 0 : traffic / sim.getPushCount()) << " per span on average\n ";
     out << sim.getAvgLiveCount() << " elements in queue on average\n ";
     out << traffic << " entries popped in total.\n ";
-    out << (sim.getDupliateCount() * 100 / traffic) << "% duplicates\n ";
+    out << (traffic == 0 ? 0 : sim.getDupliateCount() * 100 / traffic) << "% duplicates\n ";
     out << repeats << " repeats.\n";
     return out.str();
   }
@@ -158,7 +158,7 @@ void Simulator::dupSpans
       doPush = true;
 
     if (doPush) {
-      const size_t size =
+      const size_t size = spanDeviation == 0 ? avgSpan :
         avgSpan - spanDeviation + rand() % (2 * spanDeviation);
       sim.beginPush();
       for (size_t i = 0; i < size; ++i) {
-- 
2.43.0


From bd57e82569623c3cc2d6c3a8e8d6ebbeb2272a7e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:37 +0000
Subject: [PATCH 16/24] fix: a refused range insertion leaves a KDTree empty

When a range with more identical entries than fit in a leaf is inserted
into an empty tree, split throws. The half-made tree had uninitialised
or null child pointers, which clear and the destructor followed.
---
 src/mathic/BinaryKDTree.h | 17 ++++++++++++-----
 src/mathic/PackedKDTree.h | 14 +++++++++++---
 2 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/src/mathic/BinaryKDTree.h b/src/mathic/BinaryKDTree.h
index 3b3d0bf..c818bbf 100755
--- a/src/mathic/BinaryKDTree.h
+++ b/src/mathic/BinaryKDTree.h
@@ -356,8 +356,14 @@ namespace mathic {
           (parent == 0 ? static_cast<size_t>(-1) : parent->getVar());
 
         Exponent exp;
-        Iter middle = KDEntryArray<C, ExtEntry>::
-          split(insertBegin, insertEnd, var, exp, _conf);
+        Iter middle = insertBegin;
+        try {
+          middle = KDEntryArray<C, ExtEntry>::
+            split(insertBegin, insertEnd, var, exp, _conf);
+        } catch (...) {
+          clear(); // do not leave a partial tree behind
+          throw;
+        }
         Interior* interior = new (_arena.allocObjectNoCon<Interior>())
           Interior(var, exp);
 
@@ -570,12 +576,13 @@ next:
     while (!_tmp.empty()) {
       Node* node = _tmp.back();
       _tmp.pop_back();
-      while (node->isInterior()) {
+      // children can be null if reset was interrupted
+      while (node != 0 && node->isInterior()) {
         _tmp.push_back(&node->asInterior().getStrictlyGreater());
         node = &node->asInterior().getEqualOrLess();
       }
-      MATHIC_ASSERT(node->isLeaf());
-      node->asLeaf().entries().clear();
+      if (node != 0)
+        node->asLeaf().entries().clear();
     }
     _arena.freeAllAllocs();
     _root = 0;
diff --git a/src/mathic/PackedKDTree.h b/src/mathic/PackedKDTree.h
index 19dd091..063b1b5 100755
--- a/src/mathic/PackedKDTree.h
+++ b/src/mathic/PackedKDTree.h
@@ -329,8 +329,14 @@ stopped:;
       // split off children until reaching few enough entries
       while (C::LeafSize < static_cast<size_t>(std::distance(begin, end))) {
         Task child;
-        Iter middle = KDEntryArray<C, ExtEntry>::
-          split(begin, end, var, child.exp, _conf);
+        Iter middle = begin;
+        try {
+          middle = KDEntryArray<C, ExtEntry>::
+            split(begin, end, var, child.exp, _conf);
+        } catch (...) {
+          clear(); // do not leave a partial tree behind
+          throw;
+        }
         MATHIC_ASSERT(begin < middle && middle < end);
         MATHIC_ASSERT(var < _conf.getVarCount());
         child.begin = middle;
@@ -348,6 +354,7 @@ stopped:;
         fromParent->node = node;
       for (size_t child = 0; child < children.size(); ++child) {
         children[child].fromParent = &*(node->childBegin() + child);
+        children[child].fromParent->node = 0; // until it is made
         todo.push_back(children[child]);
       }
       children.clear();
@@ -530,7 +537,8 @@ next:
       node->entries().clear(); // calls destructors
       for (typename Node::iterator it = node->childBegin();
         it != node->childEnd(); ++it)
-        _tmp.push_back(it->node);
+        if (it->node != 0) // can be null if reset was interrupted
+          _tmp.push_back(it->node);
     }
     _arena.freeAllAllocs();
     _root = 0;
-- 
2.43.0


From 7d3f64218d764cb11ab0689b76933d371dddd36e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:07 +0000
Subject: [PATCH 17/24] fix: no signed overflow in DivMask::rebuild near the
 maximum exponent

---
 src/mathic/DivMask.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/mathic/DivMask.h b/src/mathic/DivMask.h
index 3011771..1c64125 100644
--- a/src/mathic/DivMask.h
+++ b/src/mathic/DivMask.h
@@ -302,9 +302,13 @@ namespace mathic {
         Exponent increment = (max - min) / static_cast<Exponent>(bitsForVar); // todo: can avoid cast?
         if (increment == 0)
           increment = 1;
-        for (size_t i = 0; i < bitsForVar; ++i)
-          _bits.push_back(std::make_pair(var, min + increment * static_cast<Exponent>(i)));
-           // todo: can avoid cast?
+        Exponent exp = min;
+        for (size_t i = 0; i < bitsForVar; ++i) {
+          _bits.push_back(std::make_pair(var, exp));
+          if (!(exp < max))
+            break; // going further above max is of no use and could overflow
+          exp += increment;
+        }
       }
     }
   }
-- 
2.43.0


From cfb9ef300479151e71f632703596bc869cb02d90 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:50 +0000
Subject: [PATCH 18/24] fix: align the entries in KDEntryArray

With tree div masks the array of char followed a 4-byte mask, so that
entries with pointers were constructed at misaligned addresses.
---
 src/mathic/KDEntryArray.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mathic/KDEntryArray.h b/src/mathic/KDEntryArray.h
index c54eee3..261ee50 100755
--- a/src/mathic/KDEntryArray.h
+++ b/src/mathic/KDEntryArray.h
@@ -117,7 +117,7 @@ namespace mathic {
 
     /** This is the memory for the entries. It is kept as a raw char*
      to avoid constructing all the entries right away. */
-    char _beginMemory[C::LeafSize * sizeof(ExtEntry)];
+    alignas(ExtEntry) char _beginMemory[C::LeafSize * sizeof(ExtEntry)];
     iterator _end; // points into _beginMemory
 #ifdef MATHIC_DEBUG
     const bool _sortOnInsertDebug;
-- 
2.43.0


From 55745af3576c01985e76f94a0219e424ddda3db9 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:58 +0000
Subject: [PATCH 19/24] fix: the debug divsim compares all divisors

It went by the number of divisors found now, so that it missed those
not found and read out of bounds for too many.
---
 src/divsim/Simulation.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/divsim/Simulation.h b/src/divsim/Simulation.h
index 75222cb..d876570 100755
--- a/src/divsim/Simulation.h
+++ b/src/divsim/Simulation.h
@@ -202,8 +202,7 @@ public:
       e._type = noMonomials ? QueryNoDivisor : QueryHasDivisor;
     } else {
 #ifdef DEBUG
-      for (size_t i = 0; i < _monomials.size(); ++i)
-        ASSERT(_monomials[i] == e._allMonomials[i]);
+      ASSERT(_monomials == e._allMonomials);
 #else
       if (_monomialCount != e._monomialCount) {
         std::cerr << "Finder \"" << finder.getName() <<
-- 
2.43.0


From c91852be4d3bd782721c0a02e5df2a5c2913f6d7 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:45 +0000
Subject: [PATCH 20/24] fix: restore the line endings of CliParser.cpp

They were changed by accident when registerHelpAction was defined.
---
 src/mathic/CliParser.cpp | 214 +++++++++++++++++++--------------------
 1 file changed, 107 insertions(+), 107 deletions(-)

diff --git a/src/mathic/CliParser.cpp b/src/mathic/CliParser.cpp
index 90f9609..c63e132 100644
--- a/src/mathic/CliParser.cpp
+++ b/src/mathic/CliParser.cpp
@@ -1,107 +1,107 @@
-#include "CliParser.h"
-
-#include "error.h"
-#include "CliParameter.h"
-#include "HelpAction.h"
-
-namespace mathic {
-  namespace {
-    // We are using a NameFactory just for its prefix-finding functionality, so
-    // we set the thing being created to be just void pointers that are null.
-    typedef void* Dummy;
-    typedef NameFactory<Dummy> ParamNames;
-    ParamNames makeParamNames(std::vector<CliParameter*> params) {
-      ParamNames names("option");
-      for (size_t i = 0; i < params.size(); ++i) {
-        const auto makeNull = [](){return std::unique_ptr<Dummy>();};
-        names.registerProduct(params[i]->name(), makeNull);
-      }
-      return names;
-    }
-  }
-
-  void CliParser::pushBackRegisteredActionNames(
-    std::vector<std::string>& names
-  ) const {
-    _actions.namesWithPrefix("", names);
-  }
-
-
-  CliParser::CliParser(): _actions("action") {}
-
-  void CliParser::registerHelpAction(
-    const std::string& preMessage,
-    const std::string& postMessage
-  ) {
-    registerAction<HelpAction>();
-    _helpPreMessage = preMessage;
-    _helpPostMessage = postMessage;
-  }
-
-  std::unique_ptr<Action> CliParser::createActionWithPrefix(
-    const std::string& prefix
-  ) {
-    return createWithPrefix(_actions, prefix);
-  }
-
-  std::unique_ptr<Action> CliParser::parse(int argc, char** argv) {
-    std::vector<std::string> commandLine(argv, argv + argc);
-    return parse(commandLine);
-  }
-
-  std::unique_ptr<Action> CliParser::parse
-    (const std::vector<std::string>& commandLine) {
-    if (commandLine.empty())
-      throwError<UnknownNameException>("No action specified.");
-    std::unique_ptr<Action> action = createActionWithPrefix(commandLine[0]);
-
-    std::vector<CliParameter*> params;
-    action->pushBackParameters(params);
-    ParamNames paramNames = makeParamNames(params);
-
-    std::vector<std::string> options;
-    std::vector<std::string> directOptions;
-    bool sawDash = false;
-    for (size_t i = 1; i < commandLine.size(); ++i) {
-      if (commandLine[i].empty())
-        continue;
-      if (commandLine[i][0] == '-')
-        sawDash = true;
-      if (sawDash)
-        options.push_back(commandLine[i]);
-      else
-        directOptions.push_back(commandLine[i]);
-    }
-
-    action->directOptions(directOptions, *this);
-
-    size_t i = 1;
-    for (size_t i = 0; i < options.size(); ++i) {
-      std::string const& token = options[i];
-      if (token[0] != '-')
-        reportError("Expected an option when reading \"" +
-                    token + "\", but options start with a dash (-).\n");
-      std::string noDash(token.begin() + 1, token.end());
-      std::string name = uniqueNameWithPrefix(paramNames, noDash);
-
-      std::string optionArgument;
-      if (i + 1 < options.size() && options[i + 1][0] != '-') {
-        optionArgument = options[i + 1];
-        ++i;
-      }
-
-      for (std::vector<CliParameter*>::iterator it = params.begin();; ++it) {
-        if (it == params.end()) {
-          // shouldn't get here as name was recognized above
-          reportInternalError("Processing non-existent option \""
-            + name + "\".");
-        }
-        if ((*it)->name() == name) {
-          (*it)->processArgument(optionArgument);
-          break;
-        }
-      }
-    }
-    return action;
-  }
-}
+#include "CliParser.h"
+
+#include "error.h"
+#include "CliParameter.h"
+#include "HelpAction.h"
+
+namespace mathic {
+  namespace {
+    // We are using a NameFactory just for its prefix-finding functionality, so
+    // we set the thing being created to be just void pointers that are null.
+    typedef void* Dummy;
+    typedef NameFactory<Dummy> ParamNames;
+    ParamNames makeParamNames(std::vector<CliParameter*> params) {
+      ParamNames names("option");
+      for (size_t i = 0; i < params.size(); ++i) {
+        const auto makeNull = [](){return std::unique_ptr<Dummy>();};
+        names.registerProduct(params[i]->name(), makeNull);
+      }
+      return names;
+    }
+  }
+
+  void CliParser::pushBackRegisteredActionNames(
+    std::vector<std::string>& names
+  ) const {
+    _actions.namesWithPrefix("", names);
+  }
+
+
+  CliParser::CliParser(): _actions("action") {}
+
+  void CliParser::registerHelpAction(
+    const std::string& preMessage,
+    const std::string& postMessage
+  ) {
+    registerAction<HelpAction>();
+    _helpPreMessage = preMessage;
+    _helpPostMessage = postMessage;
+  }
+
+  std::unique_ptr<Action> CliParser::createActionWithPrefix(
+    const std::string& prefix
+  ) {
+    return createWithPrefix(_actions, prefix);
+  }
+
+  std::unique_ptr<Action> CliParser::parse(int argc, char** argv) {
+    std::vector<std::string> commandLine(argv, argv + argc);
+    return parse(commandLine);
+  }
+
+  std::unique_ptr<Action> CliParser::parse
+    (const std::vector<std::string>& commandLine) {
+    if (commandLine.empty())
+      throwError<UnknownNameException>("No action specified.");
+    std::unique_ptr<Action> action = createActionWithPrefix(commandLine[0]);
+
+    std::vector<CliParameter*> params;
+    action->pushBackParameters(params);
+    ParamNames paramNames = makeParamNames(params);
+
+    std::vector<std::string> options;
+    std::vector<std::string> directOptions;
+    bool sawDash = false;
+    for (size_t i = 1; i < commandLine.size(); ++i) {
+      if (commandLine[i].empty())
+        continue;
+      if (commandLine[i][0] == '-')
+        sawDash = true;
+      if (sawDash)
+        options.push_back(commandLine[i]);
+      else
+        directOptions.push_back(commandLine[i]);
+    }
+
+    action->directOptions(directOptions, *this);
+
+    size_t i = 1;
+    for (size_t i = 0; i < options.size(); ++i) {
+      std::string const& token = options[i];
+      if (token[0] != '-')
+        reportError("Expected an option when reading \"" +
+                    token + "\", but options start with a dash (-).\n");
+      std::string noDash(token.begin() + 1, token.end());
+      std::string name = uniqueNameWithPrefix(paramNames, noDash);
+
+      std::string optionArgument;
+      if (i + 1 < options.size() && options[i + 1][0] != '-') {
+        optionArgument = options[i + 1];
+        ++i;
+      }
+
+      for (std::vector<CliParameter*>::iterator it = params.begin();; ++it) {
+        if (it == params.end()) {
+          // shouldn't get here as name was recognized above
+          reportInternalError("Processing non-existent option \""
+            + name + "\".");
+        }
+        if ((*it)->name() == name) {
+          (*it)->processArgument(optionArgument);
+          break;
+        }
+      }
+    }
+    return action;
+  }
+}
-- 
2.43.0


From f97c189554d045dd042420078c7e881c89537b34 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:27 +0000
Subject: [PATCH 21/24] fix: a failed reallocation leaves a TourTree usable

When _players could not be reserved after the capacity of _tree had been
increased, later pushes saw room in _tree, so that _players was reallocated
by push_back, which left the pointers in _tree dangling.
---
 src/mathic/TourTree.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mathic/TourTree.h b/src/mathic/TourTree.h
index 2eeedaa..5ef240e 100755
--- a/src/mathic/TourTree.h
+++ b/src/mathic/TourTree.h
@@ -107,7 +107,8 @@ namespace mathic {
   template<class C>
 	void TourTree<C>::push(Entry entry) {
 	MATHIC_SLOW_ASSERT(isValid());
-	if (!_tree.hasFreeCapacity(2))
+	// _players can be out of capacity if an earlier reallocation failed.
+	if (!_tree.hasFreeCapacity(2) || _players.size() == _players.capacity())
 	  reallocate();
 	if (empty()) {
 	  _players.push_back(Player(entry, Node()));
@@ -221,7 +222,8 @@ namespace mathic {
   template<class C>
 	void TourTree<C>::reallocate() {
 	MATHIC_ASSERT(isValid());
-	_tree.increaseCapacity();
+	if (!_tree.hasFreeCapacity(2))
+	  _tree.increaseCapacity();
 	const size_t newCapacity = _tree.capacity();
 	if (_players.empty())
 	  _players.reserve(newCapacity / 2 + 2);
-- 
2.43.0


From ee1e057d1a2fec4770003b4483569ae33507d5af Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:05 +0000
Subject: [PATCH 22/24] fix: DivList::removeElement counts towards automatic
 rebuilds

DivFinder.h documents that automatic rebuilds happen after a number of
insertions and removals. removeMultiples counts its removals, and so does
KDTree::removeElement, but DivList::removeElement did not.
---
 src/mathic/DivList.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mathic/DivList.h b/src/mathic/DivList.h
index 95da070..63652e4 100755
--- a/src/mathic/DivList.h
+++ b/src/mathic/DivList.h
@@ -468,6 +468,7 @@ namespace mathic {
         }
       }
       _list.erase(it);
+      reportChanges(1);
       return true;
     skip:;
     }
-- 
2.43.0


From a379360581d00b724ae252037cbd064220d116d5 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:53:41 +0000
Subject: [PATCH 23/24] fix: the name of a k-d tree without masks tells about
 automatic rebuilds

Rebuilding rebalances a tree whether it has masks or not, so trees without
masks that rebuild at different rates are different and were named the same.
---
 src/mathic/KDTree.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mathic/KDTree.h b/src/mathic/KDTree.h
index 95ed803..67506a3 100755
--- a/src/mathic/KDTree.h
+++ b/src/mathic/KDTree.h
@@ -318,7 +318,7 @@ namespace mathic {
     const C& conf = getConfiguration();
     out << "KDTree(" << (C::PackedTree ? "packed" : "binary") << ')';
     out << " leaf:" << C::LeafSize;
-    if (UseDivMask && conf.getDoAutomaticRebuilds()) {
+    if (conf.getDoAutomaticRebuilds()) {
       out << " autob:" << conf.getRebuildRatio()
           << '/' << conf.getRebuildMin();
     }
-- 
2.43.0


From c22bfa99b64852cdff7ae930691a0befb7ea5016 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:17:17 +0000
Subject: [PATCH 24/24] fix: turning on the divisor cache or automatic rebuilds
 later is safe

---
 src/mathic/DivList.h |  3 ++-
 src/mathic/KDTree.h  | 10 +++++-----
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/mathic/DivList.h b/src/mathic/DivList.h
index 63652e4..dd8900d 100755
--- a/src/mathic/DivList.h
+++ b/src/mathic/DivList.h
@@ -403,7 +403,8 @@ namespace mathic {
   template<class C>
     DivList<C>::DivList(const C& configuration):
   _conf(configuration),
-    _divMaskCalculator(configuration) {
+    _divMaskCalculator(configuration),
+    _changesTillRebuild(0) {
       resetNumberOfChangesTillRebuild();
     }
 
diff --git a/src/mathic/KDTree.h b/src/mathic/KDTree.h
index 67506a3..5f676e4 100755
--- a/src/mathic/KDTree.h
+++ b/src/mathic/KDTree.h
@@ -60,12 +60,12 @@ namespace mathic {
         is copied into the object, so a reference to the passed-in object is
         not kept. The configuration is not copied other than the initial copy. */
     KDTree(const C& configuration):
+      _changesTillRebuild(0),
+      _divisorCache(0),
       _divMaskCalculator(configuration),
       _tree(configuration),
       _size(0) {
       resetNumberOfChangesTillRebuild();
-      if (getConfiguration().getUseDivisorCache())
-        _divisorCache = 0;
     }
 
     static const bool UseDivMask = C::UseDivMask;
@@ -333,8 +333,8 @@ namespace mathic {
   template<class C>
   void KDTree<C>::resetNumberOfChangesTillRebuild() {
     const C& conf = getConfiguration();
-    if (conf.getUseDivisorCache())
-      _divisorCache = 0;
+    // also when not in use, as the configuration may turn the cache on later
+    _divisorCache = 0;
     if (!conf.getDoAutomaticRebuilds())
       return;
     MATHIC_ASSERT(conf.getRebuildRatio() > 0);
@@ -345,7 +345,7 @@ namespace mathic {
 
   template<class C>
   void KDTree<C>::reportChanges(size_t additions, size_t removals) {
-    if (getConfiguration().getUseDivisorCache() && (additions | removals) != 0)
+    if ((additions | removals) != 0)
       _divisorCache = 0;
     if (reportChangesRebuild(additions, removals))
       rebuild();
-- 
2.43.0

