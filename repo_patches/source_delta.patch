From 993e49200157d00bca246215e0b0b530705d6e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:40:46 +0000
Subject: [PATCH 01/65] fix: include the compared columns in the cache key of
 Distinct

SELECT DISTINCT ?x ?y and SELECT DISTINCT ?x over the same sorted input
shared one cache entry, so the second query returned duplicates.
---
 src/engine/Distinct.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/engine/Distinct.cpp b/src/engine/Distinct.cpp
index 97f2f74..56bcde1 100644
--- a/src/engine/Distinct.cpp
+++ b/src/engine/Distinct.cpp
@@ -24,7 +24,11 @@ string Distinct::asString(size_t indent) const {
   for (size_t i = 0; i < indent; ++i) {
     os << " ";
   }
-  os << "Distinct " << _subtree->asString(indent);
+  os << "Distinct on columns:";
+  for (size_t col : _keepIndices) {
+    os << col << " ";
+  }
+  os << "\n" << _subtree->asString(indent);
   return os.str();
 }
 
-- 
2.43.0


From 95cff0826943f3c6382c3558f233cc910b9cab7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:40:46 +0000
Subject: [PATCH 02/65] fix: include the column mapping in the cache key of
 Union

{?x <p> ?y} UNION {?x <q> ?y} and {?x <p> ?y} UNION {?y <q> ?x} shared one
cache entry although their columns are combined differently.
---
 src/engine/Union.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/engine/Union.cpp b/src/engine/Union.cpp
index 2be208b..e5e043a 100644
--- a/src/engine/Union.cpp
+++ b/src/engine/Union.cpp
@@ -46,6 +46,13 @@ string Union::asString(size_t indent) const {
   }
   os << "UNION\n";
   os << _subtrees[1]->asString(indent) << "\n";
+  for (size_t i = 0; i < indent; ++i) {
+    os << " ";
+  }
+  os << "column origins:";
+  for (const auto& origin : _columnOrigins) {
+    os << " [" << origin[0] << ", " << origin[1] << "]";
+  }
   return os.str();
 }
 
-- 
2.43.0


From 7d0b6b41605cc34c0bdc3e51a0c94ec1c194197f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:40:46 +0000
Subject: [PATCH 03/65] fix: include DISTINCT of aggregates in the cache key of
 GroupBy

COUNT(?x) and COUNT(DISTINCT ?x) over the same input shared one cache entry.
---
 src/engine/GroupBy.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/engine/GroupBy.cpp b/src/engine/GroupBy.cpp
index 2db20a8..cd9b805 100644
--- a/src/engine/GroupBy.cpp
+++ b/src/engine/GroupBy.cpp
@@ -58,6 +58,9 @@ string GroupBy::asString(size_t indent) const {
   }
   for (const auto& p : _aliases) {
     os << ParsedQuery::AggregateTypeAsString(p._type);
+    if (p._isDistinct) {
+      os << " DISTINCT ";
+    }
     if (p._type == ParsedQuery::AggregateType::GROUP_CONCAT) {
       os << p._delimiter;
     }
-- 
2.43.0


From 8b38afff1927c740dc9516fb605aeba9e0478064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:40:46 +0000
Subject: [PATCH 04/65] fix: include the subject column in the cache key of
 HasPredicateScan

Two queries asking for the predicates of different columns of the same
subquery shared one cache entry.
---
 src/engine/HasPredicateScan.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/engine/HasPredicateScan.cpp b/src/engine/HasPredicateScan.cpp
index bd6f731..a54fe83 100644
--- a/src/engine/HasPredicateScan.cpp
+++ b/src/engine/HasPredicateScan.cpp
@@ -36,7 +36,8 @@ string HasPredicateScan::asString(size_t indent) const {
       os << "HAS_RELATION_SCAN for the full relation";
       break;
     case ScanType::SUBQUERY_S:
-      os << "HAS_RELATION_SCAN with S = " << _subtree->asString(indent);
+      os << "HAS_RELATION_SCAN with S = column " << _subtreeColIndex << " of\n"
+         << _subtree->asString(indent);
       break;
   }
   return os.str();
-- 
2.43.0


From 1e38e4a0de9765fd4f796a72d10534f25519b897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:40:46 +0000
Subject: [PATCH 05/65] fix: include the matched columns in the cache key of
 Minus

MINUS {?x <q> ?y} and MINUS {?x <q> ?z} could share one cache entry when both
inputs were already sorted.
---
 src/engine/Minus.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/engine/Minus.cpp b/src/engine/Minus.cpp
index 07d194e..6280d0c 100644
--- a/src/engine/Minus.cpp
+++ b/src/engine/Minus.cpp
@@ -37,6 +37,10 @@ string Minus::asString(size_t indent) const {
   }
   os << "MINUS\n" << _left->asString(indent) << "\n";
   os << _right->asString(indent) << " ";
+  os << "matched-columns:";
+  for (const auto& columns : _matchedColumns) {
+    os << " [" << columns[0] << ", " << columns[1] << "]";
+  }
   return os.str();
 }
 
-- 
2.43.0


From 00e80464bf823a99599149e885121ff3f1765531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:40:47 +0000
Subject: [PATCH 06/65] fix: include the bound column in the cache key of
 TransitivePath

Paths bound to different columns of the same side subtree shared one cache
entry.
---
 src/engine/TransitivePath.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/engine/TransitivePath.cpp b/src/engine/TransitivePath.cpp
index 091220a..063b568 100644
--- a/src/engine/TransitivePath.cpp
+++ b/src/engine/TransitivePath.cpp
@@ -55,12 +55,12 @@ std::string TransitivePath::asString(size_t indent) const {
   os << " minDist " << _minDist << " maxDist " << _maxDist << "\n";
   os << _subtree->asString(indent) << "\n";
   if (_leftSideTree != nullptr) {
-    os << "Left subtree:\n";
+    os << "Left subtree bound on column " << _leftSideCol << ":\n";
     os << _leftSideTree->asString(indent) << "\n";
   }
   os << _subtree->asString(indent) << "\n";
   if (_rightSideTree != nullptr) {
-    os << "Right subtree:\n";
+    os << "Right subtree bound on column " << _rightSideCol << ":\n";
     os << _rightSideTree->asString(indent) << "\n";
   }
   return os.str();
-- 
2.43.0


From 1fba85fc5a8dfa78ffe2bf053c979cb269b2e025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:43:14 +0000
Subject: [PATCH 07/65] fix: start the server on knowledge bases with less than
 200,000 triples

The sort time estimation skipped even its smallest sample for small indices and
then failed its own check, so ServerMain terminated before listening.
---
 src/engine/SortPerformanceEstimator.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/engine/SortPerformanceEstimator.cpp b/src/engine/SortPerformanceEstimator.cpp
index 08e24ce..6e329eb 100644
--- a/src/engine/SortPerformanceEstimator.cpp
+++ b/src/engine/SortPerformanceEstimator.cpp
@@ -129,7 +129,9 @@ void SortPerformanceEstimator::computeEstimatesExpensively(
       auto rows = sampleValuesRows[i];
       auto cols = sampleValuesCols[j];
       try {
-        if (rows * cols > maxNumberOfElementsToSort) {
+        // The smallest table is always sorted, all other estimates are derived
+        // from it if necessary.
+        if ((i > 0 || j > 0) && rows * cols > maxNumberOfElementsToSort) {
           throw ad_utility::detail::AllocationExceedsLimitException{0, 0};
         }
         _samples[i][j] = measureSortingTimeInSeconds(rows, cols, allocator);
-- 
2.43.0


From 8d5cbef654424a3e2eeef63b527b03e39f6171d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:41:43 +0000
Subject: [PATCH 08/65] fix: keep the server running when processing a request
 throws

---
 src/engine/Server.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/engine/Server.cpp b/src/engine/Server.cpp
index c84d8b7..a7370bd 100644
--- a/src/engine/Server.cpp
+++ b/src/engine/Server.cpp
@@ -88,7 +88,14 @@ void Server::runAcceptLoop() {
     }
     client.setKeepAlive(true);
     LOG(INFO) << "Incoming connection, processing..." << std::endl;
-    process(&client);
+    try {
+      process(&client);
+    } catch (const std::exception& e) {
+      // An exception that leaves this function would terminate the server.
+      LOG(ERROR) << "Failed to process a request: " << e.what() << std::endl;
+    } catch (...) {
+      LOG(ERROR) << "Failed to process a request" << std::endl;
+    }
     client.close();
   }
 }
-- 
2.43.0


From 57741158c0eabe27d07a5b7e2542065615d018d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:41:43 +0000
Subject: [PATCH 09/65] fix: answer failed queries that are not valid UTF-8

---
 src/engine/Server.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/engine/Server.cpp b/src/engine/Server.cpp
index a7370bd..2aab6d2 100644
--- a/src/engine/Server.cpp
+++ b/src/engine/Server.cpp
@@ -447,7 +447,8 @@ string Server::composeResponseJson(const string& query,
   j["time"]["total"] = requestTimer.msecs();
   j["time"]["computeResult"] = requestTimer.msecs();
   j["exception"] = exception.what();
-  return j.dump(4);
+  // The query (and thus also the error message) might not be valid UTF-8.
+  return j.dump(4, ' ', false, json::error_handler_t::replace);
 }
 
 // _____________________________________________________________________________
-- 
2.43.0


From 846d2238c653753b58e63087fece1a9bbc11597c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:41:43 +0000
Subject: [PATCH 10/65] fix: answer requests with HTTP before GET with 400 Bad
 Request

---
 src/engine/Server.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/engine/Server.cpp b/src/engine/Server.cpp
index 2aab6d2..f096246 100644
--- a/src/engine/Server.cpp
+++ b/src/engine/Server.cpp
@@ -118,7 +118,8 @@ void Server::process(Socket* client) {
   size_t indexOfHTTP = request.find("HTTP");
   size_t upper = indexOfHTTP;
 
-  if (indexOfGET != request.npos && indexOfHTTP != request.npos) {
+  if (indexOfGET != request.npos && indexOfHTTP != request.npos &&
+      indexOfGET < indexOfHTTP) {
     size_t indexOfQuest = request.find("?", indexOfGET);
     if (indexOfQuest != string::npos && indexOfQuest < indexOfHTTP) {
       upper = indexOfQuest + 1;
-- 
2.43.0


From b24dabce175cd84bb53b3cd1a5152c06093cfa35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:45:03 +0000
Subject: [PATCH 11/65] fix: send error responses with content type
 application/json

---
 src/engine/Server.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/engine/Server.cpp b/src/engine/Server.cpp
index f096246..c733e05 100644
--- a/src/engine/Server.cpp
+++ b/src/engine/Server.cpp
@@ -249,6 +249,7 @@ void Server::process(Socket* client) {
       LOG(INFO) << '\n' << qet.getRootOperation()->getRuntimeInfo().toString();
     } catch (const std::exception& e) {
       response = composeResponseJson(query, e, requestTimer);
+      contentType = "application/json";
     }
     string httpResponse = createHttpResponse(response, contentType);
     auto bytesSent = client->send(httpResponse);
-- 
2.43.0


From 06ee389d667b003afed076d82492145c529fb604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:52:03 +0000
Subject: [PATCH 12/65] fix: observe the time limit in scans of the OPS
 permutation

---
 src/engine/IndexScan.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/engine/IndexScan.cpp b/src/engine/IndexScan.cpp
index cfb3ad9..3c97c48 100644
--- a/src/engine/IndexScan.cpp
+++ b/src/engine/IndexScan.cpp
@@ -367,7 +367,7 @@ void IndexScan::computeOPSfreeP(ResultTable* result) const {
   result->_resultTypes.push_back(ResultTable::ResultType::KB);
   result->_sortedBy = {0, 1};
   const auto& idx = _executionContext->getIndex();
-  idx.scan(_object, &result->_data, idx._OPS);
+  idx.scan(_object, &result->_data, idx._OPS, _timeoutTimer);
 }
 
 // _____________________________________________________________________________
-- 
2.43.0


From 6a5742b4b59cea56f755dead508a0291e34af87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:52:03 +0000
Subject: [PATCH 13/65] fix: observe the time limit in the scans of a join with
 a full index scan

---
 src/engine/Join.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/engine/Join.cpp b/src/engine/Join.cpp
index 3c08973..9d418a1 100644
--- a/src/engine/Join.cpp
+++ b/src/engine/Join.cpp
@@ -282,9 +282,10 @@ Join::ScanMethodType Join::getScanMethod(
   // this works because the join operations execution Context never changes
   // during its lifetime
   const auto& idx = _executionContext->getIndex();
-  const auto scanLambda = [&idx](const auto& perm) {
-    return
-        [&idx, &perm](Id id, IdTable* idTable) { idx.scan(id, idTable, perm); };
+  const auto scanLambda = [&idx, this](const auto& perm) {
+    return [&idx, &perm, timer = _timeoutTimer](Id id, IdTable* idTable) {
+      idx.scan(id, idTable, perm, timer);
+    };
   };
 
   switch (scan.getType()) {
-- 
2.43.0


From 8035823409a33f601dbb80280985ffce04244b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:58:26 +0000
Subject: [PATCH 14/65] fix: give memory back to the limit if it could not be
 allocated

---
 src/util/AllocatorWithLimit.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/util/AllocatorWithLimit.h b/src/util/AllocatorWithLimit.h
index 7d6f568..81ae2fe 100644
--- a/src/util/AllocatorWithLimit.h
+++ b/src/util/AllocatorWithLimit.h
@@ -142,7 +142,13 @@ class AllocatorWithLimit {
     // memory left. This will throw an exception if not enough memory is left.
     memoryLeft_.ptr()->wlock()->decrease_if_enough_left(n * sizeof(T));
     // the actual allocation
-    return allocator_.allocate(n);
+    try {
+      return allocator_.allocate(n);
+    } catch (...) {
+      // Nothing was allocated, so the memory is still left.
+      memoryLeft_.ptr()->wlock()->increase(n * sizeof(T));
+      throw;
+    }
   }
 
   // An allocator must have a function "deallocate" with exactly this signature.
-- 
2.43.0


From 878e09f7d61b6b68706104af3c9015a371b02634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:12:29 +0000
Subject: [PATCH 15/65] fix: do not declare columns after a descending one as
 sorted

---
 src/engine/OrderBy.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/engine/OrderBy.cpp b/src/engine/OrderBy.cpp
index c7abf83..a6f1740 100644
--- a/src/engine/OrderBy.cpp
+++ b/src/engine/OrderBy.cpp
@@ -63,10 +63,12 @@ vector<size_t> OrderBy::resultSortedOn() const {
   std::vector<size_t> sortedOn;
   sortedOn.reserve(_sortIndices.size());
   for (const pair<size_t, bool>& p : _sortIndices) {
-    if (!p.second) {
-      // Only ascending columns count as sorted.
-      sortedOn.push_back(p.first);
+    if (p.second) {
+      // Only ascending columns count as sorted. The columns that follow a
+      // descending column are only sorted where that column has equal values.
+      break;
     }
+    sortedOn.push_back(p.first);
   }
   return sortedOn;
 }
-- 
2.43.0


From 5ea6217442330f5c9db9047ac29dd12002f2ab2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:12:29 +0000
Subject: [PATCH 16/65] fix: sort the side bound to a transitive path on its
 join column

---
 src/engine/QueryPlanner.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/engine/QueryPlanner.cpp b/src/engine/QueryPlanner.cpp
index 41a9bff..9255efa 100644
--- a/src/engine/QueryPlanner.cpp
+++ b/src/engine/QueryPlanner.cpp
@@ -3021,7 +3021,7 @@ std::vector<QueryPlanner::SubtreePlan> QueryPlanner::createJoinCandidates(
           if (other->getType() == QueryExecutionTree::SCAN) {
             return candidates;
           }
-          auto sort = std::make_shared<Sort>(_qec, other, jcs[0][0]);
+          auto sort = std::make_shared<Sort>(_qec, other, otherCol);
           auto sortedOther = std::make_shared<QueryExecutionTree>(_qec);
           sortedOther->setVariableColumns(other->getVariableColumns());
           sortedOther->setContextVars(other->getContextVars());
@@ -3077,7 +3077,7 @@ std::vector<QueryPlanner::SubtreePlan> QueryPlanner::createJoinCandidates(
           if (other->getType() == QueryExecutionTree::SCAN) {
             return candidates;
           }
-          auto sort = std::make_shared<Sort>(_qec, other, jcs[0][0]);
+          auto sort = std::make_shared<Sort>(_qec, other, otherCol);
           auto sortedOther = std::make_shared<QueryExecutionTree>(_qec);
           sortedOther->setVariableColumns(other->getVariableColumns());
           sortedOther->setContextVars(other->getContextVars());
-- 
2.43.0


From 78274a7fc3d20f764512fef35b82485b80b0c5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:12:29 +0000
Subject: [PATCH 17/65] fix: keep the columns of every row that is bound to a
 transitive path

---
 src/engine/TransitivePath.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/engine/TransitivePath.cpp b/src/engine/TransitivePath.cpp
index 063b568..c693583 100644
--- a/src/engine/TransitivePath.cpp
+++ b/src/engine/TransitivePath.cpp
@@ -450,8 +450,12 @@ void TransitivePath::computeTransitivePathLeftBound(
       res.resize(res.size() + num_new);
       checkTimeoutAfterNCalls(num_new * resWidth);
       for (size_t j = 0; j < num_new; j++) {
-        for (size_t c = 0; c < resWidth; c++) {
-          res(res_row + j, c) = res(last_result_begin + j, c);
+        // Only the path is the same, the other columns belong to this row.
+        res(res_row + j, 0) = res(last_result_begin + j, 0);
+        res(res_row + j, 1) = res(last_result_begin + j, 1);
+        for (size_t c = 2; c < resWidth; c++) {
+          size_t inputCol = c - 2 < leftSideCol ? c - 2 : c - 1;
+          res(res_row + j, c) = left(i, inputCol);
         }
       }
       continue;
@@ -587,8 +591,12 @@ void TransitivePath::computeTransitivePathRightBound(
       size_t res_row = res.size();
       res.resize(res.size() + num_new);
       for (size_t j = 0; j < num_new; j++) {
-        for (size_t c = 0; c < resWidth; c++) {
-          res(res_row + j, c) = res(last_result_begin + j, c);
+        // Only the path is the same, the other columns belong to this row.
+        res(res_row + j, 0) = res(last_result_begin + j, 0);
+        res(res_row + j, 1) = res(last_result_begin + j, 1);
+        for (size_t c = 2; c < resWidth; c++) {
+          size_t inputCol = c - 2 < rightSideCol ? c - 2 : c - 1;
+          res(res_row + j, c) = right(i, inputCol);
         }
       }
       checkTimeoutAfterNCalls(num_new * resWidth);
-- 
2.43.0


From d15f38a453edfbb64135a973203d5d4161325d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:12:29 +0000
Subject: [PATCH 18/65] fix: recompute the sort order of a transitive path when
 a side is bound

---
 src/engine/TransitivePath.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/engine/TransitivePath.cpp b/src/engine/TransitivePath.cpp
index c693583..e48298e 100644
--- a/src/engine/TransitivePath.cpp
+++ b/src/engine/TransitivePath.cpp
@@ -750,6 +750,8 @@ std::shared_ptr<TransitivePath> TransitivePath::bindLeftSide(
       p->_resultWidth++;
     }
   }
+  // The copy may have inherited the sort order of the unbound path.
+  p->setResultSortedOn(p->resultSortedOn());
   return p;
 }
 
@@ -772,6 +774,8 @@ std::shared_ptr<TransitivePath> TransitivePath::bindRightSide(
       p->_resultWidth++;
     }
   }
+  // The copy may have inherited the sort order of the unbound path.
+  p->setResultSortedOn(p->resultSortedOn());
   return p;
 }
 
-- 
2.43.0


From 883b257a2485f56d0adb9763b825bf0e2bd701a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:15:32 +0000
Subject: [PATCH 19/65] fix: join on two columns only inputs that are sorted on
 both of them

---
 src/engine/QueryPlanner.cpp | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/src/engine/QueryPlanner.cpp b/src/engine/QueryPlanner.cpp
index 9255efa..c2858fb 100644
--- a/src/engine/QueryPlanner.cpp
+++ b/src/engine/QueryPlanner.cpp
@@ -2815,44 +2815,41 @@ std::vector<QueryPlanner::SubtreePlan> QueryPlanner::createJoinCandidates(
 
       // Check if a sub-result has to be re-sorted
       // Consider both ways to order join columns as primary / secondary
-      // Make four iterations instead of two so that first and second
-      // column can be swapped and more trees are constructed (of which
-      // the optimal solution will be picked).
+      // so that more trees are constructed (of which the optimal solution will
+      // be picked).
       // The order plays a role for the efficient implementation for
       // filtering directly with a scan's result.
-      for (size_t n = 0; n < 4; ++n) {
-        size_t c = n / 2;
-        size_t swap = n % 2;
+      for (size_t c = 0; c < 2; ++c) {
         auto left = std::make_shared<QueryExecutionTree>(_qec);
         auto right = std::make_shared<QueryExecutionTree>(_qec);
         const vector<size_t>& aSortedOn = a._qet->resultSortedOn();
-        if (aSortedOn.size() > 0 && aSortedOn[0] == jcs[c][(0 + swap) % 2] &&
-            (a._qet->getResultWidth() == 2 ||
+        if (aSortedOn.size() > 1 && aSortedOn[0] == jcs[c][0] &&
+            ((a._qet->getResultWidth() == 2 &&
+              aSortedOn[1] == jcs[(c + 1) % 2][0]) ||
              a._qet->getType() == QueryExecutionTree::SCAN)) {
           left = a._qet;
         } else {
           // Create an order by operation.
           vector<pair<size_t, bool>> sortIndices;
+          sortIndices.emplace_back(std::make_pair(jcs[c][0], false));
           sortIndices.emplace_back(
-              std::make_pair(jcs[c][(0 + swap) % 2], false));
-          sortIndices.emplace_back(
-              std::make_pair(jcs[(c + 1) % 2][(0 + swap) % 2], false));
+              std::make_pair(jcs[(c + 1) % 2][0], false));
           auto orderBy = std::make_shared<OrderBy>(_qec, a._qet, sortIndices);
           left->setVariableColumns(a._qet->getVariableColumns());
           left->setOperation(QueryExecutionTree::ORDER_BY, orderBy);
         }
         const vector<size_t>& bSortedOn = b._qet->resultSortedOn();
-        if (bSortedOn.size() > 0 && bSortedOn[0] == jcs[c][(1 + swap) % 2] &&
+        if (bSortedOn.size() > 1 && bSortedOn[0] == jcs[c][1] &&
+            bSortedOn[1] == jcs[(c + 1) % 2][1] &&
             b._qet->getResultWidth() == 2) {
           right = b._qet;
         } else {
           // Create a sort operation.
           // Create an order by operation.
           vector<pair<size_t, bool>> sortIndices;
+          sortIndices.emplace_back(std::make_pair(jcs[c][1], false));
           sortIndices.emplace_back(
-              std::make_pair(jcs[c][(1 + swap) % 2], false));
-          sortIndices.emplace_back(
-              std::make_pair(jcs[(c + 1) % 2][(1 + swap) % 2], false));
+              std::make_pair(jcs[(c + 1) % 2][1], false));
           auto orderBy = std::make_shared<OrderBy>(_qec, b._qet, sortIndices);
           right->setVariableColumns(b._qet->getVariableColumns());
           right->setOperation(QueryExecutionTree::ORDER_BY, orderBy);
-- 
2.43.0


From a595c47524c9692b94bdd02de9738b9f4efde370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:37:35 +0000
Subject: [PATCH 20/65] fix: bind a transitive path only through the side whose
 column matched

When both inputs of a join are transitive paths the test may have matched
because of the second one, but always the first one was bound. The query
?x <p>+ ?y . ?y <q>+ ?z then joined on the wrong column.
---
 src/engine/QueryPlanner.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/engine/QueryPlanner.cpp b/src/engine/QueryPlanner.cpp
index c2858fb..c63e047 100644
--- a/src/engine/QueryPlanner.cpp
+++ b/src/engine/QueryPlanner.cpp
@@ -2995,7 +2995,8 @@ std::vector<QueryPlanner::SubtreePlan> QueryPlanner::createJoinCandidates(
       std::shared_ptr<QueryExecutionTree> other;
       size_t otherCol;
       if (a._qet->getType() ==
-          QueryExecutionTree::OperationType::TRANSITIVE_PATH) {
+              QueryExecutionTree::OperationType::TRANSITIVE_PATH &&
+          jcs[0][0] == 0) {
         srcpath = std::reinterpret_pointer_cast<TransitivePath>(
             a._qet->getRootOperation());
         other = b._qet;
@@ -3052,7 +3053,8 @@ std::vector<QueryPlanner::SubtreePlan> QueryPlanner::createJoinCandidates(
       std::shared_ptr<QueryExecutionTree> other;
       size_t otherCol;
       if (a._qet->getType() ==
-          QueryExecutionTree::OperationType::TRANSITIVE_PATH) {
+              QueryExecutionTree::OperationType::TRANSITIVE_PATH &&
+          jcs[0][0] == 1) {
         srcpath = std::reinterpret_pointer_cast<TransitivePath>(
             a._qet->getRootOperation());
         other = b._qet;
-- 
2.43.0


From a2c44c6351c10d5ed416f252effa96babb0417db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:03:55 +0000
Subject: [PATCH 21/65] fix: apply every clause of HAVING, not only the last
 one

---
 src/engine/QueryPlanner.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/engine/QueryPlanner.cpp b/src/engine/QueryPlanner.cpp
index c63e047..fe4c5a0 100644
--- a/src/engine/QueryPlanner.cpp
+++ b/src/engine/QueryPlanner.cpp
@@ -978,10 +978,10 @@ vector<QueryPlanner::SubtreePlan> QueryPlanner::getHavingRow(
     for (const SparqlFilter& filter : pq._havingClauses) {
       SubtreePlan plan(_qec);
       auto& tree = *plan._qet;
-      tree.setVariableColumns(parent._qet->getVariableColumns());
+      tree.setVariableColumns(filtered._qet->getVariableColumns());
       tree.setOperation(QueryExecutionTree::FILTER,
-                        createFilterOperation(filter, parent));
-      tree.setContextVars(parent._qet->getContextVars());
+                        createFilterOperation(filter, filtered));
+      tree.setContextVars(filtered._qet->getContextVars());
       filtered = plan;
     }
     added.push_back(filtered);
-- 
2.43.0


From 440f72bc8ceadb242dfed51d8298dc4004cee526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:22:33 +0000
Subject: [PATCH 22/65] fix: end the search of the external vocabulary for
 words before the first one

---
 src/index/ExternalVocabulary.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/index/ExternalVocabulary.cpp b/src/index/ExternalVocabulary.cpp
index 8d5a9cd..50b0be4 100644
--- a/src/index/ExternalVocabulary.cpp
+++ b/src/index/ExternalVocabulary.cpp
@@ -37,7 +37,7 @@ Id ExternalVocabulary<Comp>::binarySearchInVocab(const string& word) const {
     if (cmp < 0) {
       lower = i + 1;
     } else if (cmp > 0) {
-      upper = i - 1;
+      upper = i;
     } else if (cmp == 0) {
       return i;
     }
-- 
2.43.0


From ad1c580416cbc635ce72739b48ac5b61d074af64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:22:33 +0000
Subject: [PATCH 23/65] fix: do not read behind a block when scanning for a key
 larger than its last

---
 src/index/Index.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/index/Index.cpp b/src/index/Index.cpp
index dc9ca1d..7881288 100644
--- a/src/index/Index.cpp
+++ b/src/index/Index.cpp
@@ -1149,7 +1149,7 @@ void Index::scanFunctionalRelation(const pair<off_t, size_t>& blockOff,
   auto it = std::lower_bound(
       block.begin(), block.end(), lhsId,
       [](const array<Id, 2>& elem, Id key) { return elem[0] < key; });
-  if ((*it)[0] == lhsId) {
+  if (it != block.end() && (*it)[0] == lhsId) {
     result->push_back({(*it)[1]});
   }
   LOG(TRACE) << "Read " << result->size() << " RHS.\n";
@@ -1174,7 +1174,7 @@ void Index::scanNonFunctionalRelation(const pair<off_t, size_t>& blockOff,
   auto it = std::lower_bound(
       block.begin(), block.end(), lhsId,
       [](const pair<Id, off_t>& elem, Id key) { return elem.first < key; });
-  if (it->first == lhsId) {
+  if (it != block.end() && it->first == lhsId) {
     size_t nofBytes = 0;
     if ((it + 1) != block.end()) {
       LOG(TRACE) << "Obtained upper bound from same block!\n";
-- 
2.43.0


From 33f7aaf2c7f675056e6d116f52da80ee5cc1ff74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:22:33 +0000
Subject: [PATCH 24/65] fix: do not read behind the entity blocks of the text
 index

---
 src/index/TextMetaData.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/index/TextMetaData.cpp b/src/index/TextMetaData.cpp
index ca86272..a0575af 100644
--- a/src/index/TextMetaData.cpp
+++ b/src/index/TextMetaData.cpp
@@ -53,7 +53,7 @@ bool TextMetaData::existsTextBlockForEntityId(const Id eid) const {
   vector<Id>::const_iterator it = std::lower_bound(
       _blockUpperBoundEntityIds.begin(), _blockUpperBoundEntityIds.end(), eid);
 
-  return (*it == eid);
+  return it != _blockUpperBoundEntityIds.end() && *it == eid;
 }
 
 // _____________________________________________________________________________
-- 
2.43.0


From 03c5b64bfd4119fb7470dd973342dd27d4980676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:22:33 +0000
Subject: [PATCH 25/65] fix: find nothing for entities and prefixes that do not
 occur in the text

---
 src/index/Index.Text.cpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/index/Index.Text.cpp b/src/index/Index.Text.cpp
index dfb0146..dc37517 100644
--- a/src/index/Index.Text.cpp
+++ b/src/index/Index.Text.cpp
@@ -816,6 +816,10 @@ void Index::getEntityPostingsForTerm(const string& term, vector<Id>& cids,
     }
     idRange._last = idRange._first;
   }
+  if (entityTerm && !_textMeta.existsTextBlockForEntityId(idRange._first)) {
+    LOG(DEBUG) << "Entity " << term << " not contained in the text.\n";
+    return;
+  }
   const auto& tbmd =
       entityTerm
           ? _textMeta.getBlockInfoByEntityId(idRange._first)
@@ -1168,7 +1172,10 @@ size_t Index::getIndexOfBestSuitedElTerm(const vector<string>& terms) const {
     bool entityTerm = (terms[i][0] == '<' && terms[i].back() == '>');
     IdRange range;
     if (terms[i].back() == PREFIX_CHAR) {
-      _textVocab.getIdRangeForFullTextPrefix(terms[i], &range);
+      if (!_textVocab.getIdRangeForFullTextPrefix(terms[i], &range)) {
+        LOG(DEBUG) << "Prefix: " << terms[i] << " not in vocabulary\n";
+        return i;
+      }
     } else {
       if (entityTerm) {
         if (!_vocab.getId(terms[i], &range._first)) {
@@ -1182,6 +1189,10 @@ size_t Index::getIndexOfBestSuitedElTerm(const vector<string>& terms) const {
       }
       range._last = range._first;
     }
+    if (entityTerm && !_textMeta.existsTextBlockForEntityId(range._first)) {
+      LOG(DEBUG) << "Entity " << terms[i] << " not contained in the text.\n";
+      return i;
+    }
     const auto& tbmd =
         entityTerm
             ? _textMeta.getBlockInfoByEntityId(range._first)
@@ -1391,6 +1402,10 @@ size_t Index::getSizeEstimate(const string& words) const {
       }
       range._last = range._first;
     }
+    if (entityTerm && !_textMeta.existsTextBlockForEntityId(range._first)) {
+      LOG(DEBUG) << "Entity " << terms[i] << " not contained in the text.\n";
+      return 0;
+    }
     const auto& tbmd =
         entityTerm
             ? _textMeta.getBlockInfoByEntityId(range._first)
-- 
2.43.0


From 7b26415c17fdfc6cfe19f7b1739e716d063d40df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:22:33 +0000
Subject: [PATCH 26/65] fix: keep the rows behind the excluded value in !=
 filters on sorted columns

---
 src/engine/Filter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/engine/Filter.cpp b/src/engine/Filter.cpp
index 1cecbf4..fb8b893 100644
--- a/src/engine/Filter.cpp
+++ b/src/engine/Filter.cpp
@@ -289,7 +289,7 @@ void Filter::computeFilterRange(IdTableStatic<WIDTH>* res, size_t lhs,
       res->insert(res->end(), lower, upper);
     } else {
       res->insert(res->end(), input.begin(), lower);
-      res->insert(res->end(), upper, res->end());
+      res->insert(res->end(), upper, input.end());
     }
   } else {
     const auto inv = [&](const bool b) { return INVERSE ? !b : b; };
-- 
2.43.0


From 976d275a4267ad7b7d702d05c4de7d7b4fda57e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:22:33 +0000
Subject: [PATCH 27/65] fix: compare with values before the first word
 correctly in <= and > filters

---
 src/engine/Filter.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/engine/Filter.cpp b/src/engine/Filter.cpp
index fb8b893..d02fca2 100644
--- a/src/engine/Filter.cpp
+++ b/src/engine/Filter.cpp
@@ -670,11 +670,20 @@ void Filter::computeResultFixedValue(
       } else if (_type == SparqlFilter::GE) {
         rhs = getIndex().getVocab().getValueIdForGE(rhs_string, level);
       } else if (_type == SparqlFilter::GT) {
-        rhs = getIndex().getVocab().getValueIdForGT(rhs_string, level);
+        // everything but the words up to and including the last equal one
+        rhs = 0;
+        rhs_upper_for_range =
+            getIndex().getVocab().upper_bound(rhs_string, level);
+        apply_range_filter = true;
+        range_filter_inverse = true;
       } else if (_type == SparqlFilter::LT) {
         rhs = getIndex().getVocab().getValueIdForLT(rhs_string, level);
       } else if (_type == SparqlFilter::LE) {
-        rhs = getIndex().getVocab().getValueIdForLE(rhs_string, level);
+        // all words up to and including the last equal one
+        rhs = 0;
+        rhs_upper_for_range =
+            getIndex().getVocab().upper_bound(rhs_string, level);
+        apply_range_filter = true;
       }
       // All other types of filters do not use r and work on _rhs directly
       break;
-- 
2.43.0


From 6d8e7ff898abb940bee80928f3322319d1fa840f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:24:34 +0000
Subject: [PATCH 28/65] fix: do not write behind the state of the random number
 generator

---
 src/util/Random.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/Random.h b/src/util/Random.h
index 8bb60a8..e9c3dd6 100644
--- a/src/util/Random.h
+++ b/src/util/Random.h
@@ -29,7 +29,7 @@ class FastRandomIntGenerator {
   FastRandomIntGenerator() {
     // Randomly initialize the shuffleTable
     std::random_device seeder{};
-    for (size_t i = 0; i <= _shuffleTable.size(); ++i) {
+    for (size_t i = 0; i < _shuffleTable.size(); ++i) {
       _shuffleTable[i] = seeder();
     }
   }
-- 
2.43.0


From 0c77f2d5de1dc4923fcd75f38c3990baa1be326f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:38:05 +0000
Subject: [PATCH 29/65] fix: use the literal of a prefix filter for its upper
 bound

FILTER prefix(?x, "abc") built the upper bound of the range from the
name of the variable and thus kept all words from "abc" on.
---
 src/parser/SparqlParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/SparqlParser.cpp b/src/parser/SparqlParser.cpp
index cdb303f..9b0e533 100644
--- a/src/parser/SparqlParser.cpp
+++ b/src/parser/SparqlParser.cpp
@@ -757,7 +757,7 @@ bool SparqlParser::parseFilter(vector<SparqlFilter>* _filters,
     _lexer.expect(",");
     _lexer.expect(SparqlToken::Type::RDFLITERAL);
     f1._rhs = _lexer.current().raw;
-    f2._rhs = f1._lhs;
+    f2._rhs = f1._rhs;
     f1._rhs = f1._rhs.substr(0, f1._rhs.size() - 1) + " ";
     f2._rhs = f2._rhs.substr(0, f2._rhs.size() - 2);
     f2._rhs += f1._rhs[f1._rhs.size() - 2] + 1;
-- 
2.43.0


From a563db02aa043cd42dae3453008485d3736bfbb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:38:05 +0000
Subject: [PATCH 30/65] fix: print equality filters of a parsed query as such

SparqlFilter::asString printed FILTER(?x = 3) as FILTER(?x < 3).
---
 src/parser/ParsedQuery.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/ParsedQuery.cpp b/src/parser/ParsedQuery.cpp
index dc2a201..e15781c 100644
--- a/src/parser/ParsedQuery.cpp
+++ b/src/parser/ParsedQuery.cpp
@@ -211,7 +211,7 @@ string SparqlFilter::asString() const {
   os << "FILTER(" << _lhs;
   switch (_type) {
     case EQ:
-      os << " < ";
+      os << " == ";
       break;
     case NE:
       os << " != ";
-- 
2.43.0


From 9c725d9881378c30cc1621c351f083b63b70af0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:38:05 +0000
Subject: [PATCH 31/65] fix: do not aggregate a row behind the last one without
 GROUP BY

SELECT (COUNT(?x) AS ?c) WHERE { ?s <p> ?x } counted one row too many,
because the last row of a block is given inclusively.
---
 src/engine/GroupBy.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/engine/GroupBy.cpp b/src/engine/GroupBy.cpp
index cd9b805..1e81735 100644
--- a/src/engine/GroupBy.cpp
+++ b/src/engine/GroupBy.cpp
@@ -627,7 +627,7 @@ void GroupBy::doGroupBy(const IdTable& dynInput,
   if (groupByCols.empty()) {
     // The entire input is a single group
     size_t blockStart = 0;
-    size_t blockEnd = input.size();
+    size_t blockEnd = input.size() - 1;
 
     result.emplace_back();
     size_t resIdx = result.size() - 1;
-- 
2.43.0


From d95f12eed9f942ae3bc6e4ee139d19bdda1f0437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:38:40 +0000
Subject: [PATCH 32/65] fix: divide AVG(DISTINCT ...) by the number of distinct
 values

The sum of the distinct values was divided by the number of all rows of
the group, AVG(DISTINCT ?x) of 1, 2, 2, 2 was 0.75.
---
 src/engine/GroupBy.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/engine/GroupBy.cpp b/src/engine/GroupBy.cpp
index 1e81735..d519ccb 100644
--- a/src/engine/GroupBy.cpp
+++ b/src/engine/GroupBy.cpp
@@ -191,6 +191,7 @@ void GroupBy::processGroup(const GroupBy::Aggregate& a, size_t blockStart,
   switch (a._type) {
     case ParsedQuery::AggregateType::AVG: {
       float res = 0;
+      size_t numValues = blockEnd - blockStart + 1;
       if (inputTypes[a._inCol] == ResultTable::ResultType::VERBATIM) {
         if (a._distinct) {
           for (size_t i = blockStart; i <= blockEnd; i++) {
@@ -201,6 +202,7 @@ void GroupBy::processGroup(const GroupBy::Aggregate& a, size_t blockStart,
               res += input(i, a._inCol);
             }
           }
+          numValues = distinctHashSet.size();
           distinctHashSet.clear();
         } else {
           for (size_t i = blockStart; i <= blockEnd; i++) {
@@ -221,6 +223,7 @@ void GroupBy::processGroup(const GroupBy::Aggregate& a, size_t blockStart,
               res += tmpF;
             }
           }
+          numValues = distinctHashSet.size();
           distinctHashSet.clear();
         } else {
           for (size_t i = blockStart; i <= blockEnd; i++) {
@@ -251,6 +254,7 @@ void GroupBy::processGroup(const GroupBy::Aggregate& a, size_t blockStart,
               }
             }
           }
+          numValues = distinctHashSet.size();
           distinctHashSet.clear();
         } else {
           for (size_t i = blockStart; i <= blockEnd; i++) {
@@ -268,7 +272,7 @@ void GroupBy::processGroup(const GroupBy::Aggregate& a, size_t blockStart,
           }
         }
       }
-      res /= (blockEnd - blockStart + 1);
+      res /= numValues;
 
       (*result)(resultRow, a._outCol) = 0;
       std::memcpy(&(*result)(resultRow, a._outCol), &res, sizeof(float));
-- 
2.43.0


From bff89b6f093260f7ddc8925fd073b1c29b598d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:38:40 +0000
Subject: [PATCH 33/65] fix: do not end GROUP_CONCAT(DISTINCT ...) with a
 delimiter

If the last value of a group had occurred before, or for a column of
numbers, the concatenation ended with a delimiter.
---
 src/engine/GroupBy.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/engine/GroupBy.cpp b/src/engine/GroupBy.cpp
index d519ccb..96ddd2d 100644
--- a/src/engine/GroupBy.cpp
+++ b/src/engine/GroupBy.cpp
@@ -297,6 +297,7 @@ void GroupBy::processGroup(const GroupBy::Aggregate& a, size_t blockStart,
       break;
     case ParsedQuery::AggregateType::GROUP_CONCAT: {
       std::ostringstream out;
+      bool lastIsDuplicate = false;
       std::string* delim = reinterpret_cast<string*>(a._userData);
       if (inputTypes[a._inCol] == ResultTable::ResultType::VERBATIM) {
         if (a._distinct) {
@@ -310,8 +311,9 @@ void GroupBy::processGroup(const GroupBy::Aggregate& a, size_t blockStart,
           }
           const auto it = distinctHashSet.find(input(blockEnd, a._inCol));
           if (it == distinctHashSet.end()) {
-            out << input(blockEnd, a._inCol) << *delim;
+            out << input(blockEnd, a._inCol);
           }
+          lastIsDuplicate = it != distinctHashSet.end();
           distinctHashSet.clear();
         } else {
           for (size_t i = blockStart; i + 1 <= blockEnd; i++) {
@@ -337,6 +339,7 @@ void GroupBy::processGroup(const GroupBy::Aggregate& a, size_t blockStart,
             std::memcpy(&f, &input(blockEnd, a._inCol), sizeof(float));
             out << f;
           }
+          lastIsDuplicate = it != distinctHashSet.end();
           distinctHashSet.clear();
         } else {
           for (size_t i = blockStart; i + 1 <= blockEnd; i++) {
@@ -361,6 +364,7 @@ void GroupBy::processGroup(const GroupBy::Aggregate& a, size_t blockStart,
           if (it == distinctHashSet.end()) {
             out << index.getTextExcerpt(input(blockEnd, a._inCol));
           }
+          lastIsDuplicate = it != distinctHashSet.end();
           distinctHashSet.clear();
         } else {
           for (size_t i = blockStart; i + 1 <= blockEnd; i++) {
@@ -388,6 +392,7 @@ void GroupBy::processGroup(const GroupBy::Aggregate& a, size_t blockStart,
             out << inTable->idToOptionalString(input(blockEnd, a._inCol))
                        .value_or("");
           }
+          lastIsDuplicate = it != distinctHashSet.end();
           distinctHashSet.clear();
         } else {
           for (size_t i = blockStart; i + 1 <= blockEnd; i++) {
@@ -429,6 +434,7 @@ void GroupBy::processGroup(const GroupBy::Aggregate& a, size_t blockStart,
               out << entity;
             }
           }
+          lastIsDuplicate = it != distinctHashSet.end();
           distinctHashSet.clear();
         } else {
           for (size_t i = blockStart; i + 1 <= blockEnd; i++) {
@@ -454,7 +460,12 @@ void GroupBy::processGroup(const GroupBy::Aggregate& a, size_t blockStart,
         }
       }
       (*result)(resultRow, a._outCol) = outTable->_localVocab->size();
-      outTable->_localVocab->push_back(out.str());
+      std::string concatenated = out.str();
+      if (lastIsDuplicate) {
+        // remove the delimiter behind the last of the distinct values
+        concatenated.resize(concatenated.size() - delim->size());
+      }
+      outTable->_localVocab->push_back(std::move(concatenated));
       break;
     }
     case ParsedQuery::AggregateType::MAX: {
-- 
2.43.0


From 799e06c5a041f370cdd8ce23d1f5a1e8bc3e9976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:38:40 +0000
Subject: [PATCH 34/65] fix: filter columns of floats by their values

Columns of floats are sorted by their bits, with negative values behind
the positive ones, so that the binary search for the value of a filter
kept wrong rows. Equality compared the bits and told 0 from -0.
---
 src/engine/Filter.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/engine/Filter.cpp b/src/engine/Filter.cpp
index d02fca2..f39da32 100644
--- a/src/engine/Filter.cpp
+++ b/src/engine/Filter.cpp
@@ -310,8 +310,10 @@ void Filter::computeFilterFixedValue(
     IdTableStatic<WIDTH>* res, size_t lhs, Id rhs,
     const IdTableView<WIDTH>& input,
     shared_ptr<const ResultTable> subRes) const {
-  bool lhs_is_sorted =
-      subRes->_sortedBy.size() > 0 && subRes->_sortedBy[0] == lhs;
+  // Columns of floats are sorted by their bits, not by their values.
+  bool lhs_is_sorted = T != ResultTable::ResultType::FLOAT &&
+                       subRes->_sortedBy.size() > 0 &&
+                       subRes->_sortedBy[0] == lhs;
   Id* rhs_array = new Id[res->cols()];
   IdTable::row_type rhs_row(rhs_array, res->cols());
   switch (_type) {
@@ -336,7 +338,11 @@ void Filter::computeFilterFixedValue(
         }
       } else {
         getEngine().filter(
-            input, [lhs, rhs](const auto& e) { return e[lhs] == rhs; }, res);
+            input,
+            [lhs, rhs](const auto& e) {
+              return ValueReader<T>::get(e[lhs]) == ValueReader<T>::get(rhs);
+            },
+            res);
       }
       break;
     case SparqlFilter::NE:
@@ -364,7 +370,11 @@ void Filter::computeFilterFixedValue(
         }
       } else {
         getEngine().filter(
-            input, [lhs, rhs](const auto& e) { return e[lhs] != rhs; }, res);
+            input,
+            [lhs, rhs](const auto& e) {
+              return ValueReader<T>::get(e[lhs]) != ValueReader<T>::get(rhs);
+            },
+            res);
       }
       break;
     case SparqlFilter::LT:
-- 
2.43.0


From 4d6fbc687f868f9ed9a5df285f504451c14740d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:39:10 +0000
Subject: [PATCH 35/65] fix: reject filters that compare columns of different
 types

The ids of such columns cannot be compared, HAVING(?count < ?average)
compared an integer with the bits of a float and kept every group.
---
 src/engine/Filter.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/engine/Filter.cpp b/src/engine/Filter.cpp
index f39da32..f180445 100644
--- a/src/engine/Filter.cpp
+++ b/src/engine/Filter.cpp
@@ -254,6 +254,12 @@ void Filter::computeResult(ResultTable* result) {
   int width = result->_data.cols();
   if (_rhs[0] == '?') {
     size_t rhsInd = _subtree->getVariableColumn(_rhs);
+    if (subRes->getResultType(lhsInd) != subRes->getResultType(rhsInd)) {
+      AD_THROW(ad_semsearch::Exception::NOT_YET_IMPLEMENTED,
+               "Comparing columns of different types is not supported but "
+               "required by filter: " +
+                   asString());
+    }
     CALL_FIXED_SIZE_1(width, computeResultDynamicValue, &result->_data, lhsInd,
                       rhsInd, subRes->_data, subRes->getResultType(lhsInd));
   } else {
-- 
2.43.0


From 4c946744b29c648ad1c8429ce8aa9b9b5fc67062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:40:14 +0000
Subject: [PATCH 36/65] fix: compare strings that were put together by a query
 by their text

Equal strings may have different ids in the local vocabulary of a
result. HAVING(?concat = <x>) kept only the first group with that text.
---
 src/engine/Filter.cpp | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/src/engine/Filter.cpp b/src/engine/Filter.cpp
index f180445..669745c 100644
--- a/src/engine/Filter.cpp
+++ b/src/engine/Filter.cpp
@@ -732,18 +732,9 @@ void Filter::computeResultFixedValue(
                    asString());
       break;
     case ResultTable::ResultType::LOCAL_VOCAB:
-      if (_type == SparqlFilter::EQ || _type == SparqlFilter::NE) {
-        // Find a matching entry in subRes' _localVocab. If _rhs is not in the
-        // _localVocab of subRes r will be equal to  _localVocab.size() and
-        // not match the index of any entry in _localVocab.
-        for (rhs = 0; rhs < subRes->_localVocab->size(); rhs++) {
-          if ((*subRes->_localVocab)[rhs] == _rhs) {
-            break;
-          }
-        }
-      } else if (_type != SparqlFilter::LANG_MATCHES &&
-                 _type != SparqlFilter::PREFIX &&
-                 _type != SparqlFilter::REGEX) {
+      if (_type != SparqlFilter::EQ && _type != SparqlFilter::NE &&
+          _type != SparqlFilter::LANG_MATCHES &&
+          _type != SparqlFilter::PREFIX && _type != SparqlFilter::REGEX) {
         // Comparison based filters on the local vocab are hard, as the
         // vocabularyis not sorted.
         AD_THROW(
@@ -800,8 +791,19 @@ void Filter::computeResultFixedValue(
             &result, lhs, rhs, input, subRes);
         break;
       case ResultTable::ResultType::LOCAL_VOCAB:
-        computeFilterFixedValue<ResultTable::ResultType::LOCAL_VOCAB>(
-            &result, lhs, rhs, input, subRes);
+        if (_type == SparqlFilter::EQ || _type == SparqlFilter::NE) {
+          // Equal strings may have different ids in the _localVocab.
+          getEngine().filter(
+              input,
+              [this, lhs, &subRes](const auto& e) {
+                return (subRes->idToOptionalString(e[lhs]) == _rhs) ==
+                       (_type == SparqlFilter::EQ);
+              },
+              &result);
+        } else {
+          computeFilterFixedValue<ResultTable::ResultType::LOCAL_VOCAB>(
+              &result, lhs, rhs, input, subRes);
+        }
         break;
       case ResultTable::ResultType::TEXT:
         computeFilterFixedValue<ResultTable::ResultType::TEXT>(
-- 
2.43.0


From dc74db06b53ec507cca6a3978da316cf2ed72769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:44:27 +0000
Subject: [PATCH 37/65] fix: reject filters that compare two columns of
 assembled strings by their ids

---
 src/engine/Filter.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/engine/Filter.cpp b/src/engine/Filter.cpp
index 669745c..36157b5 100644
--- a/src/engine/Filter.cpp
+++ b/src/engine/Filter.cpp
@@ -260,6 +260,13 @@ void Filter::computeResult(ResultTable* result) {
                "required by filter: " +
                    asString());
     }
+    if (subRes->getResultType(lhsInd) == ResultTable::ResultType::LOCAL_VOCAB) {
+      // Equal strings may have different ids in the _localVocab.
+      AD_THROW(ad_semsearch::Exception::NOT_YET_IMPLEMENTED,
+               "Comparing two columns of dynamically assembled strings is not "
+               "supported but required by filter: " +
+                   asString());
+    }
     CALL_FIXED_SIZE_1(width, computeResultDynamicValue, &result->_data, lhsInd,
                       rhsInd, subRes->_data, subRes->getResultType(lhsInd));
   } else {
-- 
2.43.0


From 024f78560a2da6e722685f77ffd9d145cf0d079e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:47:26 +0000
Subject: [PATCH 38/65] fix: give the command line programs gigabytes instead
 of bytes for queries

---
 src/SparqlEngineMain.cpp    | 2 +-
 src/WriteIndexListsMain.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/SparqlEngineMain.cpp b/src/SparqlEngineMain.cpp
index 4254297..e3155c9 100644
--- a/src/SparqlEngineMain.cpp
+++ b/src/SparqlEngineMain.cpp
@@ -153,7 +153,7 @@ int main(int argc, char** argv) {
 
     ad_utility::AllocatorWithLimit<Id> allocator{
         ad_utility::makeAllocationMemoryLeftThreadsafeObject(
-            DEFAULT_MEM_FOR_QUERIES_IN_GB)};
+            DEFAULT_MEM_FOR_QUERIES_IN_GB * (1ull << 30u))};
 
     SortPerformanceEstimator sortPerformanceEstimator;
     QueryExecutionContext qec(index, engine, &cache, &pinnedSizes, allocator,
diff --git a/src/WriteIndexListsMain.cpp b/src/WriteIndexListsMain.cpp
index 7ff5254..850135a 100644
--- a/src/WriteIndexListsMain.cpp
+++ b/src/WriteIndexListsMain.cpp
@@ -94,7 +94,7 @@ int main(int argc, char** argv) {
     PinnedSizes pinnedSizes;
     ad_utility::AllocatorWithLimit<Id> allocator{
         ad_utility::makeAllocationMemoryLeftThreadsafeObject(
-            DEFAULT_MEM_FOR_QUERIES_IN_GB)};
+            DEFAULT_MEM_FOR_QUERIES_IN_GB * (1ull << 30u))};
     SortPerformanceEstimator sortPerformanceEstimator;
     QueryExecutionContext qec(index, engine, &cache, &pinnedSizes, allocator,
                               sortPerformanceEstimator);
-- 
2.43.0


From 6b3f7e2b1d2046cfed0bed19475d8acc04f1a04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:47:26 +0000
Subject: [PATCH 39/65] fix: let SparqlEngineMain use patterns unless
 --no-patterns is given

---
 src/SparqlEngineMain.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SparqlEngineMain.cpp b/src/SparqlEngineMain.cpp
index e3155c9..fce02d9 100644
--- a/src/SparqlEngineMain.cpp
+++ b/src/SparqlEngineMain.cpp
@@ -84,7 +84,7 @@ int main(int argc, char** argv) {
   bool text = false;
   bool interactive = false;
   bool onDiskLiterals = false;
-  bool usePatterns = false;
+  bool usePatterns = true;
 
   optind = 1;
   // Process command line arguments.
-- 
2.43.0


From c1fc8fb297d77edb7b23a0ee3e6fd1aa241ec277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:47:26 +0000
Subject: [PATCH 40/65] fix: accept the help option of CreatePatternsMain

---
 src/index/CreatePatternsMain.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/index/CreatePatternsMain.cpp b/src/index/CreatePatternsMain.cpp
index dc620b9..520fdb6 100644
--- a/src/index/CreatePatternsMain.cpp
+++ b/src/index/CreatePatternsMain.cpp
@@ -84,11 +84,15 @@ int main(int argc, char** argv) {
   optind = 1;
   // Process command line arguments.
   while (true) {
-    int c = getopt_long(argc, argv, "i:", options, NULL);
+    int c = getopt_long(argc, argv, "hi:", options, NULL);
     if (c == -1) {
       break;
     }
     switch (c) {
+      case 'h':
+        printUsage(argv[0]);
+        return 0;
+        break;
       case 'i':
         baseName = optarg;
         break;
-- 
2.43.0


From 5c511d3c76efdd4b41816a08c2a1f1158a0d9bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:47:26 +0000
Subject: [PATCH 41/65] fix: announce the options of the server and the index
 builder by their names

---
 src/ServerMain.cpp             | 6 +++---
 src/index/IndexBuilderMain.cpp | 2 --
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/ServerMain.cpp b/src/ServerMain.cpp
index 324cd0b..4524931 100644
--- a/src/ServerMain.cpp
+++ b/src/ServerMain.cpp
@@ -61,17 +61,17 @@ void printUsage(char* execName) {
           "query processing and caching. If exceeded, query will return with "
           "an error, but the engine will not crash."
        << endl;
-  cout << "  " << std::setw(20) << "c, cache-size-in-gb" << std::setw(1)
+  cout << "  " << std::setw(20) << "c, cache-max-size-gb" << std::setw(1)
        << "Maximum memory size in GB for all cache entries (pinned and "
           "non-pinned). Note that the cache is part of the amount of memory "
           "limited by --memory-for-queries."
        << endl;
-  cout << "  " << std::setw(20) << "e, cache-max-size-single-element"
+  cout << "  " << std::setw(20) << "e, cache-max-size-gb-single-entry"
        << std::setw(1)
        << "Maximum size in GB for a single cache entry. In other words, "
           "results larger than this will never be cached."
        << endl;
-  cout << "  " << std::setw(20) << "k, cache-max-num-values" << std::setw(1)
+  cout << "  " << std::setw(20) << "k, cache-max-num-entries" << std::setw(1)
        << "Maximum number of entries in the cache. If exceeded, remove "
           "least-recently used entries from the cache if possible. Note that "
           "this condition and the size limit specified via --cache-max-size-gb "
diff --git a/src/index/IndexBuilderMain.cpp b/src/index/IndexBuilderMain.cpp
index ac83e90..77a6047 100644
--- a/src/index/IndexBuilderMain.cpp
+++ b/src/index/IndexBuilderMain.cpp
@@ -108,8 +108,6 @@ void printUsage(char* execName) {
   cerr << "  " << std::setw(20) << "l, on-disk-literals" << std::setw(1)
        << "    "
        << "Externalize parts of the KB vocab." << endl;
-  cerr << "  " << std::setw(20) << "n, ntriples-file" << std::setw(1) << "    "
-       << "NT file to build KB index from." << endl;
   cerr << "  " << std::setw(20) << "no-patterns" << std::setw(1) << "    "
        << "Disable the use of patterns. This disables ql:has-predicate."
        << endl;
-- 
2.43.0


From 0b951b4d9ec0e81c1f71369cf1f2baef0a58defe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:47:26 +0000
Subject: [PATCH 42/65] fix: read input of unknown format as turtle as
 announced

---
 src/TurtleParserMain.cpp       | 1 +
 src/index/IndexBuilderMain.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/TurtleParserMain.cpp b/src/TurtleParserMain.cpp
index 54be8ae..72b2fec 100644
--- a/src/TurtleParserMain.cpp
+++ b/src/TurtleParserMain.cpp
@@ -195,6 +195,7 @@ int main(int argc, char** argv) {
              "its extension. Assuming the input to be turtle. Please specify "
              "--file-format (-F)\n";
       LOG(WARN) << "In case this is not correct \n";
+      fileFormat = "ttl";
     }
     if (filetypeDeduced) {
       LOG(INFO) << "Assuming input file format to be " << fileFormat
diff --git a/src/index/IndexBuilderMain.cpp b/src/index/IndexBuilderMain.cpp
index 77a6047..ee3ea56 100644
--- a/src/index/IndexBuilderMain.cpp
+++ b/src/index/IndexBuilderMain.cpp
@@ -291,6 +291,7 @@ int main(int argc, char** argv) {
                        "specify "
                        "--file-format (-F)\n";
           LOG(WARN) << "In case this is not correct \n";
+          filetype = "ttl";
         }
         if (filetypeDeduced) {
           LOG(INFO) << "Assuming input file format to be " << filetype
-- 
2.43.0


From a4d7584dc7b59233aead2c4cd609d26e8e578808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:08:49 +0000
Subject: [PATCH 43/65] fix: initialize the characters of property paths only
 once

---
 src/parser/PropertyPathParser.cpp | 10 ++++------
 src/parser/PropertyPathParser.h   |  1 -
 2 files changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/parser/PropertyPathParser.cpp b/src/parser/PropertyPathParser.cpp
index 5f43ab0..95d17c7 100644
--- a/src/parser/PropertyPathParser.cpp
+++ b/src/parser/PropertyPathParser.cpp
@@ -13,8 +13,6 @@
 #include "../util/StringUtils.h"
 #include "ParseException.h"
 
-bool PropertyPathParser::delimiters_initialized = false;
-
 std::array<bool, 256> PropertyPathParser::DELIMITER_CHARS;
 std::array<bool, 256> PropertyPathParser::VALID_CHARS;
 
@@ -37,10 +35,10 @@ PropertyPath PropertyPathParser::parse() {
 // _____________________________________________________________________________
 std::vector<PropertyPathParser::Token> PropertyPathParser::tokenize(
     std::string_view str) {
-  // runs only once to initialize the delimiter characters
-  if (!delimiters_initialized) {
-    initDelimiters();
-  }
+  // runs only once to initialize the delimiter characters, also if several
+  // queries are parsed concurrently
+  [[maybe_unused]] static const bool delimitersInitialized =
+      (initDelimiters(), true);
 
   std::vector<Token> tokens;
 
diff --git a/src/parser/PropertyPathParser.h b/src/parser/PropertyPathParser.h
index 7f678e4..b42fcdf 100644
--- a/src/parser/PropertyPathParser.h
+++ b/src/parser/PropertyPathParser.h
@@ -88,5 +88,4 @@ class PropertyPathParser {
   // Static members
   static std::array<bool, 256> DELIMITER_CHARS;
   static std::array<bool, 256> VALID_CHARS;
-  static bool delimiters_initialized;
 };
-- 
2.43.0


From 2ca4a79eb5823877a3137c1f88a98e2e2e5b8743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:34:45 +0000
Subject: [PATCH 44/65] fix: order text words that collate equally by their
 bytes

---
 src/index/StringSortComparator.h | 2 +-
 src/index/Vocabulary.cpp         | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/index/StringSortComparator.h b/src/index/StringSortComparator.h
index cc4716d..559870f 100644
--- a/src/index/StringSortComparator.h
+++ b/src/index/StringSortComparator.h
@@ -370,7 +370,7 @@ class SimpleStringComparator {
     if (cmpRes != 0 || level != Level::TOTAL) {
       return cmpRes;
     }
-    return a.compare(b) < 0;
+    return a.compare(b);
   }
 
   /**
diff --git a/src/index/Vocabulary.cpp b/src/index/Vocabulary.cpp
index f59bb9e..22f73a0 100644
--- a/src/index/Vocabulary.cpp
+++ b/src/index/Vocabulary.cpp
@@ -116,7 +116,9 @@ void Vocabulary<S, C>::createFromSet(const ad_utility::HashSet<S>& set) {
   _words.reserve(set.size());
   _words.insert(begin(_words), begin(set), end(set));
   LOG(INFO) << "... sorting ...\n";
-  std::sort(begin(_words), end(_words), _caseComparator);
+  std::sort(begin(_words), end(_words), [this](const S& a, const S& b) {
+    return _caseComparator(a, b, SortLevel::TOTAL);
+  });
   LOG(INFO) << "Done creating vocabulary.\n";
 }
 
-- 
2.43.0


From 430b42be7eb05cf198bf8e5802278f68a5608044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:34:45 +0000
Subject: [PATCH 45/65] fix: do not order an empty pattern before an equal one

---
 src/global/Pattern.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/global/Pattern.h b/src/global/Pattern.h
index d08042c..573711b 100644
--- a/src/global/Pattern.h
+++ b/src/global/Pattern.h
@@ -57,22 +57,22 @@ struct Pattern {
   }
 
   bool operator<(const Pattern& other) const {
-    if (size() == 0) {
-      return true;
-    }
     if (other.size() == 0) {
       return false;
     }
+    if (size() == 0) {
+      return true;
+    }
     return _data[0] < other._data[0];
   }
 
   bool operator>(const Pattern& other) const {
-    if (other.size() == 0) {
-      return true;
-    }
     if (size() == 0) {
       return false;
     }
+    if (other.size() == 0) {
+      return true;
+    }
     return _data[0] > other._data[0];
   }
 
-- 
2.43.0


From c64c173f56cf5526c236cf4bd04ceb6e30bbe5d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:34:45 +0000
Subject: [PATCH 46/65] fix: do not order queue entries with the same score
 before each other

---
 src/util/PriorityQueue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/PriorityQueue.h b/src/util/PriorityQueue.h
index 386867c..8d8efa5 100644
--- a/src/util/PriorityQueue.h
+++ b/src/util/PriorityQueue.h
@@ -274,7 +274,7 @@ class HeapBasedPQ {
     // std::priority_queue is a max_heap by default, this makes it a min_heap as
     // documented, s.t. the two implementations behave similarly
     return [comp](const PqEntry& a, const PqEntry& b) {
-      return !comp(a.mScore, b.mScore);
+      return comp(b.mScore, a.mScore);
     };
   }
 
-- 
2.43.0


From 42ef4b5334e6aa653c8d10eb37b14fd4a7517031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:34:46 +0000
Subject: [PATCH 47/65] fix: merge partial vocabularies in the order they are
 sorted in

---
 src/VocabularyMergerMain.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/VocabularyMergerMain.cpp b/src/VocabularyMergerMain.cpp
index 11a60b0..7ee3be5 100644
--- a/src/VocabularyMergerMain.cpp
+++ b/src/VocabularyMergerMain.cpp
@@ -19,5 +19,9 @@ int main(int argc, char** argv) {
   size_t numFiles = atoi(argv[2]);
 
   VocabularyMerger m;
-  m.mergeVocabulary(basename, numFiles, TripleComponentComparator());
+  m.mergeVocabulary(basename, numFiles,
+                    [cmp = TripleComponentComparator()](std::string_view a,
+                                                        std::string_view b) {
+                      return cmp(a, b, TripleComponentComparator::Level::TOTAL);
+                    });
 }
-- 
2.43.0


From 2c202effb9dc6b376a97c2ee72f2f9cc932e9707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:42:42 +0000
Subject: [PATCH 48/65] fix: name every kind of query token in error messages

---
 src/parser/SparqlLexer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/SparqlLexer.cpp b/src/parser/SparqlLexer.cpp
index c67c245..c71b61c 100644
--- a/src/parser/SparqlLexer.cpp
+++ b/src/parser/SparqlLexer.cpp
@@ -8,8 +8,8 @@
 #include "Tokenizer.h"
 
 const std::string SparqlToken::TYPE_NAMES[] = {
-    "IRI",       "WS",         "KEYWORD", "VARIABLE", "SYMBOL",
-    "AGGREGATE", "RDFLITERAL", "INTEGER", "FLOAT",    "LOGICAL_OR"};
+    "IRI",    "WS",        "KEYWORD",    "GROUP_BY", "ORDER_BY", "VARIABLE",
+    "SYMBOL", "AGGREGATE", "RDFLITERAL", "INTEGER",  "FLOAT",    "LOGICAL_OR"};
 
 const std::string SparqlLexer::LANGTAG = "@[a-zA-Z]+(-[a-zA-Z0-9]+)*";
 const std::string SparqlLexer::IRIREF =
-- 
2.43.0


From e2f8e3cd6be862371ed36f7543d2d39d7c5a9725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:19:53 +0000
Subject: [PATCH 49/65] fix: stop with an error when an input file of the index
 builder cannot be opened

---
 src/parser/ContextFileParser.cpp | 4 +++-
 src/parser/NTriplesParser.cpp    | 4 +++-
 src/parser/TsvParser.cpp         | 5 ++++-
 3 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/parser/ContextFileParser.cpp b/src/parser/ContextFileParser.cpp
index 700f250..93bf73b 100644
--- a/src/parser/ContextFileParser.cpp
+++ b/src/parser/ContextFileParser.cpp
@@ -10,7 +10,9 @@
 // _____________________________________________________________________________
 ContextFileParser::ContextFileParser(const string& contextFile,
                                      LocaleManager localeManager)
-    : _in(contextFile), _localeManager(std::move(localeManager)) {}
+    : _in(contextFile), _localeManager(std::move(localeManager)) {
+  AD_CHECK(_in.is_open());
+}
 
 // _____________________________________________________________________________
 ContextFileParser::~ContextFileParser() { _in.close(); }
diff --git a/src/parser/NTriplesParser.cpp b/src/parser/NTriplesParser.cpp
index 7b79d43..2d29df5 100644
--- a/src/parser/NTriplesParser.cpp
+++ b/src/parser/NTriplesParser.cpp
@@ -11,7 +11,9 @@
 using ad_utility::lstrip;
 
 // _____________________________________________________________________________
-NTriplesParser::NTriplesParser(const string& file) : _in(file) {}
+NTriplesParser::NTriplesParser(const string& file) : _in(file) {
+  AD_CHECK(_in.is_open());
+}
 
 // _____________________________________________________________________________
 NTriplesParser::~NTriplesParser() { _in.close(); }
diff --git a/src/parser/TsvParser.cpp b/src/parser/TsvParser.cpp
index 4e55581..f748302 100644
--- a/src/parser/TsvParser.cpp
+++ b/src/parser/TsvParser.cpp
@@ -5,10 +5,13 @@
 #include "./TsvParser.h"
 #include <cassert>
 #include <iostream>
+#include "../util/Exception.h"
 #include "../util/Log.h"
 
 // _____________________________________________________________________________
-TsvParser::TsvParser(const string& tsvFile) : _in(tsvFile) {}
+TsvParser::TsvParser(const string& tsvFile) : _in(tsvFile) {
+  AD_CHECK(_in.is_open());
+}
 
 // _____________________________________________________________________________
 TsvParser::~TsvParser() { _in.close(); }
-- 
2.43.0


From b66c3fec87ab446990076039b7902d922068729b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:19:53 +0000
Subject: [PATCH 50/65] fix: stop with an error when a block of an index file
 cannot be written

---
 src/util/File.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/util/File.h b/src/util/File.h
index 593529d..2ba1b92 100644
--- a/src/util/File.h
+++ b/src/util/File.h
@@ -151,7 +151,12 @@ class File {
   // returns number of bytes written
   size_t write(const void* sourceBuffer, size_t nofBytesToWrite) {
     assert(_file);
-    return fwrite(sourceBuffer, (size_t)1, nofBytesToWrite, _file);
+    size_t written = fwrite(sourceBuffer, (size_t)1, nofBytesToWrite, _file);
+    if (written != nofBytesToWrite) {
+      throw std::runtime_error("! ERROR writing file \"" + _name + "\" (" +
+                               strerror(errno) + ")");
+    }
+    return written;
   }
 
   // write to current file pointer position
-- 
2.43.0


From ee29892ee44641ebca2c2e802f0bdec7f0488fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:19:53 +0000
Subject: [PATCH 51/65] fix: stop with an error when a vocabulary or settings
 file of the index cannot be written

---
 src/index/Index.Text.cpp            | 1 +
 src/index/Index.cpp                 | 3 +++
 src/index/Vocabulary.cpp            | 4 ++++
 src/index/VocabularyGeneratorImpl.h | 4 ++++
 src/util/MmapVectorImpl.h           | 1 +
 5 files changed, 13 insertions(+)

diff --git a/src/index/Index.Text.cpp b/src/index/Index.Text.cpp
index dc37517..9b00b11 100644
--- a/src/index/Index.Text.cpp
+++ b/src/index/Index.Text.cpp
@@ -57,6 +57,7 @@ void Index::buildDocsDB(const string& docsFileName) {
 
   delete[] buf;
   ofs.close();
+  AD_CHECK(!ofs.fail());
   // Now append the tmp file to the docsDB file.
   ad_utility::File out(string(_onDiskBase + ".text.docsDB").c_str(), "a");
   for (size_t i = 0; i < offsets.size(); ++i) {
diff --git a/src/index/Index.cpp b/src/index/Index.cpp
index 7881288..a000297 100644
--- a/src/index/Index.cpp
+++ b/src/index/Index.cpp
@@ -110,6 +110,7 @@ void Index::createFromFile(const string& filename) {
     for (const auto& prefix : prefixes) {
       prefixFile << prefix << std::endl;
     }
+    AD_CHECK(!prefixFile.fail());
   }
   _configurationJson["prefixes"] = _vocabPrefixCompressed;
   Vocabulary<CompressedString, TripleComponentComparator>::prefixCompressFile(
@@ -1332,6 +1333,8 @@ void Index::writeConfiguration() const {
   std::ofstream f(_onDiskBase + CONFIGURATION_FILE);
   AD_CHECK(f.is_open());
   f << _configurationJson;
+  f.close();
+  AD_CHECK(!f.fail());
 }
 
 // ___________________________________________________________________________
diff --git a/src/index/Vocabulary.cpp b/src/index/Vocabulary.cpp
index 22f73a0..dc62ee1 100644
--- a/src/index/Vocabulary.cpp
+++ b/src/index/Vocabulary.cpp
@@ -82,6 +82,7 @@ void Vocabulary<S, C>::writeToFile(const string& fileName) const {
     out << _words[_words.size() - 1];
   }
   out.close();
+  AD_CHECK(!out.fail());
   LOG(INFO) << "Done writing vocabulary to file.\n";
 }
 
@@ -104,6 +105,7 @@ void Vocabulary<S, C>::writeToBinaryFileForMerging(
     out.write((char*)&zeros, sizeof(zeros));
   }
   out.close();
+  AD_CHECK(!out.fail());
   LOG(INFO) << "Done writing vocabulary to file.\n";
 }
 
@@ -309,6 +311,8 @@ void Vocabulary<S, C>::prefixCompressFile(const string& infile,
   while (std::getline(in, word)) {
     out << v.compressPrefix(word).toStringView() << '\n';
   }
+  out.close();
+  AD_CHECK(!out.fail());
 }
 
 // ___________________________________________________________________________
diff --git a/src/index/VocabularyGeneratorImpl.h b/src/index/VocabularyGeneratorImpl.h
index 167ff33..680b082 100644
--- a/src/index/VocabularyGeneratorImpl.h
+++ b/src/index/VocabularyGeneratorImpl.h
@@ -124,6 +124,9 @@ VocabularyMerger::VocMergeRes VocabularyMerger::mergeVocabulary(const std::strin
   if (!sortedBuffer.empty()) {
     writeQueueWordsToIdVec(sortedBuffer);
   }
+  _outfile.close();
+  _outfileExternal.close();
+  AD_CHECK(!_outfile.fail() && !_outfileExternal.fail());
   VocMergeRes result;
   result._numWordsTotal = _totalWritten;
   result._langPredLowerBound = _langPredLowerBound;
@@ -283,6 +286,7 @@ void writePartialVocabularyToFile(const ItemVec& els, const string& fileName) {
     out.write((char*)&id, sizeof(id));
   }
   out.close();
+  AD_CHECK(!out.fail());
   LOG(INFO) << "Done writing vocabulary to file.\n";
 }
 
diff --git a/src/util/MmapVectorImpl.h b/src/util/MmapVectorImpl.h
index ffb2ac4..644be39 100644
--- a/src/util/MmapVectorImpl.h
+++ b/src/util/MmapVectorImpl.h
@@ -44,6 +44,7 @@ void MmapVector<T>::writeMetaDataToEnd() {
   ofs.write((char*)&MagicNumber, sizeof(MagicNumber));
   ofs.write((char*)&Version, sizeof(Version));
   ofs.close();
+  AD_CHECK(!ofs.fail());
 }
 
 // __________________________________________________________________________
-- 
2.43.0


From 63fe512686bd1e70f5945e28269d292a124fc5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:19:53 +0000
Subject: [PATCH 52/65] fix: do not start with an empty vocabulary when its
 file cannot be opened

---
 src/index/Vocabulary.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/index/Vocabulary.cpp b/src/index/Vocabulary.cpp
index dc62ee1..490638b 100644
--- a/src/index/Vocabulary.cpp
+++ b/src/index/Vocabulary.cpp
@@ -25,6 +25,7 @@ void Vocabulary<S, C>::readFromFile(const string& fileName,
   LOG(INFO) << "Reading vocabulary from file " << fileName << "\n";
   _words.clear();
   std::fstream in(fileName.c_str(), std::ios_base::in);
+  AD_CHECK(in.is_open());
   string line;
   [[maybe_unused]] bool first = true;
   std::string lastExpandedString;
-- 
2.43.0


From e143a8b54b4f7d6e1c0bb8c66357b94f5f1e1b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:19:53 +0000
Subject: [PATCH 53/65] fix: do not read forever behind the end of a truncated
 index file

---
 src/util/File.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/util/File.h b/src/util/File.h
index 2ba1b92..dc89552 100644
--- a/src/util/File.h
+++ b/src/util/File.h
@@ -217,6 +217,10 @@ class File {
       if (ret < 0) {
         return ret;
       }
+      if (ret == 0) {
+        throw std::runtime_error("! ERROR reading file \"" + _name +
+                                 "\" (unexpected end of file)");
+      }
       bytesRead += ret;
     }
     return bytesRead;
-- 
2.43.0


From 629d74b922827e6e13d6cf553524796c98c9a0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:20:04 +0000
Subject: [PATCH 54/65] fix: report a failure to read or extend an index in the
 exit status

---
 src/SparqlEngineMain.cpp         | 1 +
 src/WriteIndexListsMain.cpp      | 1 +
 src/index/CreatePatternsMain.cpp | 1 +
 3 files changed, 3 insertions(+)

diff --git a/src/SparqlEngineMain.cpp b/src/SparqlEngineMain.cpp
index fce02d9..8833613 100644
--- a/src/SparqlEngineMain.cpp
+++ b/src/SparqlEngineMain.cpp
@@ -194,6 +194,7 @@ int main(int argc, char** argv) {
     }
   } catch (const std::exception& e) {
     cout << e.what() << std::endl;
+    return 1;
   }
 
   return 0;
diff --git a/src/WriteIndexListsMain.cpp b/src/WriteIndexListsMain.cpp
index 850135a..23cf596 100644
--- a/src/WriteIndexListsMain.cpp
+++ b/src/WriteIndexListsMain.cpp
@@ -123,6 +123,7 @@ int main(int argc, char** argv) {
 
   } catch (const std::exception& e) {
     cout << e.what() << std::endl;
+    return 1;
   }
 
   return 0;
diff --git a/src/index/CreatePatternsMain.cpp b/src/index/CreatePatternsMain.cpp
index 520fdb6..e2110f4 100644
--- a/src/index/CreatePatternsMain.cpp
+++ b/src/index/CreatePatternsMain.cpp
@@ -124,6 +124,7 @@ int main(int argc, char** argv) {
     index.addPatternsToExistingIndex();
   } catch (const std::exception& e) {
     LOG(ERROR) << e.what() << std::endl;
+    return 1;
   }
   return 0;
 }
-- 
2.43.0


From 5ed334c60d9858a73940fc6219208ad207ee3603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:26:49 +0000
Subject: [PATCH 55/65] fix: stop with an error when an input or index file
 cannot be read

---
 src/index/ExternalVocabulary.cpp |  1 +
 src/index/Index.cpp              |  1 +
 src/index/PrefixHeuristic.cpp    |  2 ++
 src/index/Vocabulary.cpp         |  3 ++-
 src/parser/ContextFileParser.cpp |  1 +
 src/parser/NTriplesParser.cpp    |  1 +
 src/parser/TsvParser.cpp         |  1 +
 src/util/File.h                  | 20 ++++++++++++++++----
 8 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/src/index/ExternalVocabulary.cpp b/src/index/ExternalVocabulary.cpp
index 50b0be4..6915764 100644
--- a/src/index/ExternalVocabulary.cpp
+++ b/src/index/ExternalVocabulary.cpp
@@ -84,6 +84,7 @@ void ExternalVocabulary<Comp>::buildFromTextFile(const string& textFileName,
     currentOffset += _file.write(word.data(), word.size());
     _size++;
   }
+  AD_CHECK(!infile.bad());
   _startOfOffsets = currentOffset;
   offsets.push_back(_startOfOffsets);
   _file.write(offsets.data(), offsets.size() * sizeof(off_t));
diff --git a/src/index/Index.cpp b/src/index/Index.cpp
index a000297..d50e5a9 100644
--- a/src/index/Index.cpp
+++ b/src/index/Index.cpp
@@ -1355,6 +1355,7 @@ void Index::readConfiguration() {
       for (string prefix; std::getline(prefixFile, prefix);) {
         prefixes.emplace_back(std::move(prefix));
       }
+      AD_CHECK(!prefixFile.bad());
       _vocab.initializePrefixes(prefixes);
     } else {
       _vocab.initializePrefixes(std::vector<std::string>());
diff --git a/src/index/PrefixHeuristic.cpp b/src/index/PrefixHeuristic.cpp
index ac7131d..630850d 100644
--- a/src/index/PrefixHeuristic.cpp
+++ b/src/index/PrefixHeuristic.cpp
@@ -172,6 +172,7 @@ std::vector<string> calculatePrefixes(const string& filename,
 
   if (!std::getline(ifs, lastWord)) {
     // file is empty
+    AD_CHECK(!ifs.bad());
     return {};
   }
 
@@ -204,6 +205,7 @@ std::vector<string> calculatePrefixes(const string& filename,
       LOG(INFO) << "words read: " << numWords << std::endl;
     }
   }
+  AD_CHECK(!ifs.bad());
 
   LOG(INFO) << "Finished building prefix tree!" << std::endl;
   LOG(INFO) << "Start searching for maximal compressing prefixes" << std::endl;
diff --git a/src/index/Vocabulary.cpp b/src/index/Vocabulary.cpp
index 490638b..e6deb6a 100644
--- a/src/index/Vocabulary.cpp
+++ b/src/index/Vocabulary.cpp
@@ -52,6 +52,7 @@ void Vocabulary<S, C>::readFromFile(const string& fileName,
       _words.push_back(line);
     }
   }
+  AD_CHECK(!in.bad());
   in.close();
   LOG(INFO) << "Done reading vocabulary from file.\n";
   LOG(INFO) << "It contains " << _words.size() << " elements\n";
@@ -313,7 +314,7 @@ void Vocabulary<S, C>::prefixCompressFile(const string& infile,
     out << v.compressPrefix(word).toStringView() << '\n';
   }
   out.close();
-  AD_CHECK(!out.fail());
+  AD_CHECK(!in.bad() && !out.fail());
 }
 
 // ___________________________________________________________________________
diff --git a/src/parser/ContextFileParser.cpp b/src/parser/ContextFileParser.cpp
index 93bf73b..55013ac 100644
--- a/src/parser/ContextFileParser.cpp
+++ b/src/parser/ContextFileParser.cpp
@@ -42,5 +42,6 @@ bool ContextFileParser::getLine(ContextFileParser::Line& line) {
 #endif
     return true;
   }
+  AD_CHECK(!_in.bad());
   return false;
 }
diff --git a/src/parser/NTriplesParser.cpp b/src/parser/NTriplesParser.cpp
index 2d29df5..763d92f 100644
--- a/src/parser/NTriplesParser.cpp
+++ b/src/parser/NTriplesParser.cpp
@@ -105,5 +105,6 @@ bool NTriplesParser::getLine(array<string, 3>& res) {
     res[2] = line.substr(i, j - i);
     return true;
   }
+  AD_CHECK(!_in.bad());
   return false;
 }
diff --git a/src/parser/TsvParser.cpp b/src/parser/TsvParser.cpp
index f748302..43e67b6 100644
--- a/src/parser/TsvParser.cpp
+++ b/src/parser/TsvParser.cpp
@@ -31,5 +31,6 @@ bool TsvParser::getLine(array<string, 3>& res) {
     res[2] = line.substr(j + 1, k - (j + 1));
     return true;
   }
+  AD_CHECK(!_in.bad());
   return false;
 }
diff --git a/src/util/File.h b/src/util/File.h
index dc89552..e313e3b 100644
--- a/src/util/File.h
+++ b/src/util/File.h
@@ -37,6 +37,12 @@ class File {
   string _name;
   FILE* _file;
 
+  //! Reports the last failure to read from the file.
+  [[noreturn]] void throwReadError() const {
+    throw std::runtime_error("! ERROR reading file \"" + _name + "\" (" +
+                             strerror(errno) + ")");
+  }
+
  public:
   //! Default constructor
   File() {
@@ -118,7 +124,11 @@ class File {
   // returns the number of bytes read
   size_t read(void* targetBuffer, size_t nofBytesToRead) {
     assert(_file);
-    return fread(targetBuffer, (size_t)1, nofBytesToRead, _file);
+    size_t bytesRead = fread(targetBuffer, (size_t)1, nofBytesToRead, _file);
+    if (bytesRead < nofBytesToRead && ferror(_file)) {
+      throwReadError();
+    }
+    return bytesRead;
   }
 
   // Reads a line from the file into param line and interprets it as ASCII.
@@ -132,6 +142,9 @@ class File {
   bool readLine(string* line, char* buf, size_t bufferSize) {
     assert(_file);
     char* retVal = fgets(buf, bufferSize, _file);
+    if (!retVal && ferror(_file)) {
+      throwReadError();
+    }
     size_t stringLength = strlen(buf);
     if (retVal && stringLength > 0 && buf[stringLength - 1] == '\n') {
       // Remove the trailing \n
@@ -196,8 +209,7 @@ class File {
   }
 
   //! Read nofBytesToRead bytes from file starting at the given offset.
-  //! Returns the number of bytes read or the error returned by pread()
-  //! which is < 0
+  //! Returns the number of bytes read, throws if they cannot all be read.
   ssize_t read(void* targetBuffer, size_t nofBytesToRead, off_t offset,
                ad_utility::SharedConcurrentTimeoutTimer timer = nullptr) {
     assert(_file);
@@ -215,7 +227,7 @@ class File {
         timer->wlock()->checkTimeoutAndThrow();
       }
       if (ret < 0) {
-        return ret;
+        throwReadError();
       }
       if (ret == 0) {
         throw std::runtime_error("! ERROR reading file \"" + _name +
-- 
2.43.0


From 6f6304534bcebecb014c10c6d219393abc4df9a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:26:24 +0000
Subject: [PATCH 56/65] fix: escape the fields of CSV and TSV exports

A literal with a tab or a line break made a row of a TSV export fall
apart, and quotation marks inside a literal were not doubled in CSV.
---
 src/engine/QueryExecutionTree.cpp | 15 ++++++++----
 src/parser/RdfEscaping.cpp        | 40 +++++++++++++++++++++++++++++++
 src/parser/RdfEscaping.h          | 10 ++++++++
 3 files changed, 61 insertions(+), 4 deletions(-)

diff --git a/src/engine/QueryExecutionTree.cpp b/src/engine/QueryExecutionTree.cpp
index e5fea88..623e053 100644
--- a/src/engine/QueryExecutionTree.cpp
+++ b/src/engine/QueryExecutionTree.cpp
@@ -6,6 +6,7 @@
 #include <algorithm>
 #include <sstream>
 #include <string>
+#include "../parser/RdfEscaping.h"
 #include "./Distinct.h"
 #include "./Filter.h"
 #include "./IndexScan.h"
@@ -270,6 +271,11 @@ void QueryExecutionTree::writeTable(
         validIndices,
     std::ostream& out) const {
   shared_ptr<const ResultTable> res = getResult();
+  // Strings may contain the separator and newlines.
+  auto escape = [sep](const string& field) {
+    return sep == ',' ? RdfEscaping::escapeForCsv(field)
+                      : RdfEscaping::escapeForTsv(field);
+  };
   for (size_t i = from; i < upperBound; ++i) {
     for (size_t j = 0; j < validIndices.size(); ++j) {
       if (validIndices[j]) {
@@ -280,9 +286,9 @@ void QueryExecutionTree::writeTable(
                                 .idToOptionalString(data(i, val.first))
                                 .value_or("");
             if (ad_utility::startsWith(entity, VALUE_PREFIX)) {
-              out << ad_utility::convertIndexWordToValueLiteral(entity);
+              out << escape(ad_utility::convertIndexWordToValueLiteral(entity));
             } else {
-              out << entity;
+              out << escape(entity);
             }
             break;
           }
@@ -290,7 +296,7 @@ void QueryExecutionTree::writeTable(
             out << data(i, val.first);
             break;
           case ResultTable::ResultType::TEXT:
-            out << _qec->getIndex().getTextExcerpt(data(i, val.first));
+            out << escape(_qec->getIndex().getTextExcerpt(data(i, val.first)));
             break;
           case ResultTable::ResultType::FLOAT: {
             float f;
@@ -299,7 +305,8 @@ void QueryExecutionTree::writeTable(
             break;
           }
           case ResultTable::ResultType::LOCAL_VOCAB: {
-            out << res->idToOptionalString(data(i, val.first)).value_or("");
+            out << escape(
+                res->idToOptionalString(data(i, val.first)).value_or(""));
             break;
           }
           default:
diff --git a/src/parser/RdfEscaping.cpp b/src/parser/RdfEscaping.cpp
index 1df8443..f30092d 100644
--- a/src/parser/RdfEscaping.cpp
+++ b/src/parser/RdfEscaping.cpp
@@ -245,4 +245,44 @@ std::string unescapePrefixedIri(std::string_view literal) {
   res.append(literal);
   return res;
 }
+
+// _____________________________________________________________________________
+std::string escapeForCsv(const std::string& field) {
+  if (field.find_first_of("\",\r\n") == std::string::npos) {
+    return field;
+  }
+  std::string result = "\"";
+  for (char c : field) {
+    if (c == '"') {
+      result += '"';
+    }
+    result += c;
+  }
+  result += '"';
+  return result;
+}
+
+// _____________________________________________________________________________
+std::string escapeForTsv(const std::string& field) {
+  std::string result;
+  for (char c : field) {
+    switch (c) {
+      case '\t':
+        result += "\\t";
+        break;
+      case '\n':
+        result += "\\n";
+        break;
+      case '\r':
+        result += "\\r";
+        break;
+      case '\\':
+        result += "\\\\";
+        break;
+      default:
+        result += c;
+    }
+  }
+  return result;
+}
 }  // namespace RdfEscaping
diff --git a/src/parser/RdfEscaping.h b/src/parser/RdfEscaping.h
index 1854b9a..5acf1aa 100644
--- a/src/parser/RdfEscaping.h
+++ b/src/parser/RdfEscaping.h
@@ -64,6 +64,16 @@ std::string unescapeIriref(std::string_view iriref);
  * the '\'.
  */
 std::string unescapePrefixedIri(std::string_view literal);
+
+/// Escape a string such that it can be a field of a comma-separated table (RFC
+/// 4180): if it contains commas, quotation marks or line breaks it is put in
+/// quotation marks, and the quotation marks inside are doubled.
+std::string escapeForCsv(const std::string& field);
+
+/// Escape a string such that it can be a field of a tab-separated table: tabs
+/// and line breaks are replaced by "\\t", "\\n" and "\\r", backslashes by
+/// "\\\\".
+std::string escapeForTsv(const std::string& field);
 }  // namespace RdfEscaping
 
 #endif  // QLEVER_RDFESCAPING_H
-- 
2.43.0


From 8c629590b75fef7aa2271fecd0df05711f0314ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:26:24 +0000
Subject: [PATCH 57/65] fix: store the name given with --kb-index-name in the
 index

The name was set on the permutations of the builder, but not on the
metadata that is written, so the statistics always showed an empty name.
---
 src/index/Index.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/index/Index.cpp b/src/index/Index.cpp
index d50e5a9..914d877 100644
--- a/src/index/Index.cpp
+++ b/src/index/Index.cpp
@@ -494,6 +494,8 @@ void Index::createPermutationPair(
     exchangeMultiplicities(&(metaData.value().first),
                            &(metaData.value().second));
     LOG(INFO) << "Done" << '\n';
+    metaData.value().first.setName(getKbName());
+    metaData.value().second.setName(getKbName());
     LOG(INFO) << "Writing MetaData for " << p1._readableName << " and "
               << p2._readableName << std::endl;
     ad_utility::File f1(_onDiskBase + ".index" + p1._fileSuffix, "r+");
-- 
2.43.0


From b40380af481f808f4e53a1e24bdb0ee264375f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:26:24 +0000
Subject: [PATCH 58/65] fix: escape index names in the statistics

A quotation mark in the name of an index made the answer invalid JSON.
---
 src/engine/Server.cpp | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/src/engine/Server.cpp b/src/engine/Server.cpp
index c733e05..5724310 100644
--- a/src/engine/Server.cpp
+++ b/src/engine/Server.cpp
@@ -496,24 +496,21 @@ void Server::serveFile(Socket* client, const string& requestedFile) const {
 
 // _____________________________________________________________________________
 string Server::composeStatsJson() const {
-  std::ostringstream os;
-  os << "{\n"
-     << "\"kbindex\": \"" << _index.getKbName() << "\",\n"
-     << "\"permutations\": \"" << (_index.hasAllPermutations() ? "6" : "2")
-     << "\",\n";
+  nlohmann::ordered_json j;
+  j["kbindex"] = _index.getKbName();
+  j["permutations"] = _index.hasAllPermutations() ? "6" : "2";
   if (_index.hasAllPermutations()) {
-    os << "\"nofsubjects\": \"" << _index.getNofSubjects() << "\",\n";
-    os << "\"nofpredicates\": \"" << _index.getNofPredicates() << "\",\n";
-    os << "\"nofobjects\": \"" << _index.getNofObjects() << "\",\n";
+    j["nofsubjects"] = std::to_string(_index.getNofSubjects());
+    j["nofpredicates"] = std::to_string(_index.getNofPredicates());
+    j["nofobjects"] = std::to_string(_index.getNofObjects());
   }
 
-  os << "\"noftriples\": \"" << _index.getNofTriples() << "\",\n"
-     << "\"textindex\": \"" << _index.getTextName() << "\",\n"
-     << "\"nofrecords\": \"" << _index.getNofTextRecords() << "\",\n"
-     << "\"nofwordpostings\": \"" << _index.getNofWordPostings() << "\",\n"
-     << "\"nofentitypostings\": \"" << _index.getNofEntityPostings() << "\"\n"
-     << "}\n";
-  return os.str();
+  j["noftriples"] = std::to_string(_index.getNofTriples());
+  j["textindex"] = _index.getTextName();
+  j["nofrecords"] = std::to_string(_index.getNofTextRecords());
+  j["nofwordpostings"] = std::to_string(_index.getNofWordPostings());
+  j["nofentitypostings"] = std::to_string(_index.getNofEntityPostings());
+  return j.dump(0, ' ', false, json::error_handler_t::replace) + '\n';
 }
 
 // _______________________________________
-- 
2.43.0


From d688dd18c0bada19cd375e5bfd32a58ae1157ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:11:21 +0000
Subject: [PATCH 59/65] fix: release the memory of queries that fail

A GROUP BY or FILTER whose computation ends with an error kept the separators
of GROUP_CONCAT and the row a filter compares with. The text list readers and
the renumbering of patterns used memory that only the normal path released.
---
 src/engine/Filter.cpp      |  5 ++---
 src/engine/GroupBy.cpp     | 30 +++++++++++-------------------
 src/index/Index.Text.cpp   | 22 ++++++++++------------
 src/parser/ParsedQuery.cpp |  9 ++-------
 4 files changed, 25 insertions(+), 41 deletions(-)

diff --git a/src/engine/Filter.cpp b/src/engine/Filter.cpp
index 36157b5..d72cc33 100644
--- a/src/engine/Filter.cpp
+++ b/src/engine/Filter.cpp
@@ -327,8 +327,8 @@ void Filter::computeFilterFixedValue(
   bool lhs_is_sorted = T != ResultTable::ResultType::FLOAT &&
                        subRes->_sortedBy.size() > 0 &&
                        subRes->_sortedBy[0] == lhs;
-  Id* rhs_array = new Id[res->cols()];
-  IdTable::row_type rhs_row(rhs_array, res->cols());
+  std::vector<Id> rhs_array(res->cols());
+  IdTable::row_type rhs_row(rhs_array.data(), res->cols());
   switch (_type) {
     case SparqlFilter::EQ:
       if (lhs_is_sorted) {
@@ -637,7 +637,6 @@ void Filter::computeFilterFixedValue(
           res);
     } break;
   }
-  delete[] rhs_array;
 }
 
 // _____________________________________________________________________________
diff --git a/src/engine/GroupBy.cpp b/src/engine/GroupBy.cpp
index 96ddd2d..3217c15 100644
--- a/src/engine/GroupBy.cpp
+++ b/src/engine/GroupBy.cpp
@@ -4,6 +4,8 @@
 
 #include "GroupBy.h"
 
+#include <list>
+
 #include "../index/Index.h"
 #include "../util/Conversions.h"
 #include "../util/HashSet.h"
@@ -734,13 +736,17 @@ void GroupBy::computeResult(ResultTable* result) {
   }
 
   // parse the aggregate aliases
+  // The user data of the GROUP_CONCAT aggregates (references to the elements
+  // of a list stay valid).
+  std::list<std::string> delimiters;
   for (const ParsedQuery::Alias& alias : _aliases) {
     if (alias._isAggregate) {
       aggregates.emplace_back();
       aggregates.back()._type = alias._type;
       aggregates.back()._distinct = alias._isDistinct;
       if (alias._type == ParsedQuery::AggregateType::GROUP_CONCAT) {
-        aggregates.back()._userData = new std::string(alias._delimiter);
+        aggregates.back()._userData =
+            &delimiters.emplace_back(alias._delimiter);
       } else {
         aggregates.back()._userData = nullptr;
       }
@@ -809,22 +815,8 @@ void GroupBy::computeResult(ResultTable* result) {
   int inWidth = subresult->_data.cols();
   int outWidth = result->_data.cols();
 
-  auto cleanup = [&aggregates]() {
-    // Free the user data used by GROUP_CONCAT aggregates.
-    for (Aggregate& a : aggregates) {
-      if (a._type == ParsedQuery::AggregateType::GROUP_CONCAT) {
-        delete static_cast<std::string*>(a._userData);
-      }
-    }
-  };
-  try {
-    CALL_FIXED_SIZE_2(inWidth, outWidth, doGroupBy, subresult->_data,
-                      inputResultTypes, groupByCols, aggregates, &result->_data,
-                      subresult.get(), result, getIndex());
-    cleanup();
-    LOG(DEBUG) << "GroupBy result computation done." << std::endl;
-  } catch (...) {
-    cleanup();
-    throw;
-  }
+  CALL_FIXED_SIZE_2(inWidth, outWidth, doGroupBy, subresult->_data,
+                    inputResultTypes, groupByCols, aggregates, &result->_data,
+                    subresult.get(), result, getIndex());
+  LOG(DEBUG) << "GroupBy result computation done." << std::endl;
 }
diff --git a/src/index/Index.Text.cpp b/src/index/Index.Text.cpp
index 9b00b11..2c00377 100644
--- a/src/index/Index.Text.cpp
+++ b/src/index/Index.Text.cpp
@@ -886,10 +886,10 @@ void Index::readGapComprList(size_t nofElements, off_t from, size_t nofBytes,
   LOG(TRACE) << "NofElements: " << nofElements << ", from: " << from
              << ", nofBytes: " << nofBytes << '\n';
   result.resize(nofElements + 250);
-  uint64_t* encoded = new uint64_t[nofBytes / 8];
-  _textIndexFile.read(encoded, nofBytes, from);
+  std::vector<uint64_t> encoded(nofBytes / 8);
+  _textIndexFile.read(encoded.data(), nofBytes, from);
   LOG(DEBUG) << "Decoding Simple8b code...\n";
-  ad_utility::Simple8bCode::decode(encoded, nofElements, result.data());
+  ad_utility::Simple8bCode::decode(encoded.data(), nofElements, result.data());
   LOG(DEBUG) << "Reverting gaps to actual IDs...\n";
   T id = 0;
   for (size_t i = 0; i < result.size(); ++i) {
@@ -897,7 +897,6 @@ void Index::readGapComprList(size_t nofElements, off_t from, size_t nofBytes,
     result[i] = id;
   }
   result.resize(nofElements);
-  delete[] encoded;
   LOG(DEBUG) << "Done reading gap-encoded list. Size: " << result.size()
              << "\n";
 }
@@ -911,30 +910,29 @@ void Index::readFreqComprList(size_t nofElements, off_t from, size_t nofBytes,
   LOG(TRACE) << "NofElements: " << nofElements << ", from: " << from
              << ", nofBytes: " << nofBytes << '\n';
   size_t nofCodebookBytes;
-  uint64_t* encoded = new uint64_t[nofElements];
+  std::vector<uint64_t> encoded(nofElements);
   result.resize(nofElements + 250);
   off_t current = from;
   size_t ret = _textIndexFile.read(&nofCodebookBytes, sizeof(off_t), current);
   LOG(TRACE) << "Nof Codebook Bytes: " << nofCodebookBytes << '\n';
   AD_CHECK_EQ(sizeof(off_t), ret);
   current += ret;
-  T* codebook = new T[nofCodebookBytes / sizeof(T)];
-  ret = _textIndexFile.read(codebook, nofCodebookBytes, current);
+  std::vector<T> codebook(nofCodebookBytes / sizeof(T));
+  ret = _textIndexFile.read(codebook.data(), nofCodebookBytes, current);
   current += ret;
   AD_CHECK_EQ(ret, size_t(nofCodebookBytes));
-  ret = _textIndexFile.read(
-      encoded, static_cast<size_t>(nofBytes - (current - from)), current);
+  ret = _textIndexFile.read(encoded.data(),
+                            static_cast<size_t>(nofBytes - (current - from)),
+                            current);
   current += ret;
   AD_CHECK_EQ(size_t(current - from), nofBytes);
   LOG(DEBUG) << "Decoding Simple8b code...\n";
-  ad_utility::Simple8bCode::decode(encoded, nofElements, result.data());
+  ad_utility::Simple8bCode::decode(encoded.data(), nofElements, result.data());
   LOG(DEBUG) << "Reverting frequency encoded items to actual IDs...\n";
   result.resize(nofElements);
   for (size_t i = 0; i < result.size(); ++i) {
     result[i] = codebook[result[i]];
   }
-  delete[] encoded;
-  delete[] codebook;
   LOG(DEBUG) << "Done reading frequency-encoded list. Size: " << result.size()
              << "\n";
 }
diff --git a/src/parser/ParsedQuery.cpp b/src/parser/ParsedQuery.cpp
index e15781c..d258faa 100644
--- a/src/parser/ParsedQuery.cpp
+++ b/src/parser/ParsedQuery.cpp
@@ -532,10 +532,9 @@ void ParsedQuery::GraphPattern::toString(std::ostringstream& os,
 
 // _____________________________________________________________________________
 void ParsedQuery::GraphPattern::recomputeIds(size_t* id_count) {
-  bool allocatedIdCounter = false;
+  size_t ownIdCounter = 0;
   if (id_count == nullptr) {
-    id_count = new size_t(0);
-    allocatedIdCounter = true;
+    id_count = &ownIdCounter;
   }
   _id = *id_count;
   (*id_count)++;
@@ -567,10 +566,6 @@ void ParsedQuery::GraphPattern::recomputeIds(size_t* id_count) {
       }
     });
   }
-
-  if (allocatedIdCounter) {
-    delete id_count;
-  }
 }
 
 // _____________________________________________________________________________
-- 
2.43.0


From 1d35cc3ad1fa6cc4d4e7ecec41cdf4644290f8f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:44:57 +0000
Subject: [PATCH 60/65] fix: column numbers of variables joined on several
 columns

---
 src/engine/MultiColumnJoin.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/engine/MultiColumnJoin.cpp b/src/engine/MultiColumnJoin.cpp
index 1974138..f794d9c 100644
--- a/src/engine/MultiColumnJoin.cpp
+++ b/src/engine/MultiColumnJoin.cpp
@@ -122,18 +122,22 @@ void MultiColumnJoin::computeResult(ResultTable* result) {
 ad_utility::HashMap<string, size_t> MultiColumnJoin::getVariableColumns()
     const {
   ad_utility::HashMap<string, size_t> retVal(_left->getVariableColumns());
-  size_t columnIndex = retVal.size();
+  size_t leftSize = _left->getResultWidth();
   for (const auto& it : _right->getVariableColumns()) {
+    size_t columnIndex = leftSize + it.second;
     bool isJoinColumn = false;
+    // Reduce the index for every column of _right that is being joined on,
+    // and the index of which is smaller than the index of it.
     for (const std::array<Id, 2>& a : _joinColumns) {
-      if (a[1] == it.second) {
+      if (a[1] < it.second) {
+        columnIndex--;
+      } else if (a[1] == it.second) {
         isJoinColumn = true;
         break;
       }
     }
     if (!isJoinColumn) {
       retVal[it.first] = columnIndex;
-      columnIndex++;
     }
   }
   return retVal;
-- 
2.43.0


From 79a32a8e7d6e73d3641016890aad1649e81dfd38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:45:07 +0000
Subject: [PATCH 61/65] fix: value types of columns that only the second part
 of a UNION has

---
 src/engine/Union.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/engine/Union.cpp b/src/engine/Union.cpp
index e5e043a..a7d8dac 100644
--- a/src/engine/Union.cpp
+++ b/src/engine/Union.cpp
@@ -147,7 +147,7 @@ void Union::computeResult(ResultTable* result) {
     if (o[0] != NO_COLUMN) {
       result->_resultTypes.push_back(subRes1->getResultType(o[0]));
     } else if (o[1] != NO_COLUMN) {
-      result->_resultTypes.push_back(subRes1->getResultType(o[1]));
+      result->_resultTypes.push_back(subRes2->getResultType(o[1]));
     } else {
       result->_resultTypes.push_back(ResultTable::ResultType::KB);
     }
-- 
2.43.0


From 403d0b867eaf6ac069c59ae34fa0886738a7fe0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:50:16 +0000
Subject: [PATCH 62/65] fix: keep the strings made by GROUP_CONCAT in all
 operations

---
 src/engine/GroupBy.cpp          |  3 +++
 src/engine/HasPredicateScan.cpp |  1 +
 src/engine/Join.cpp             |  3 +++
 src/engine/Minus.cpp            |  1 +
 src/engine/MultiColumnJoin.cpp  |  1 +
 src/engine/OptionalJoin.cpp     |  1 +
 src/engine/ResultTable.cpp      | 29 +++++++++++++++++++++++++++++
 src/engine/ResultTable.h        |  8 ++++++--
 src/engine/TransitivePath.cpp   |  2 ++
 src/engine/TwoColumnJoin.cpp    |  1 +
 src/engine/Union.cpp            |  2 ++
 11 files changed, 50 insertions(+), 2 deletions(-)

diff --git a/src/engine/GroupBy.cpp b/src/engine/GroupBy.cpp
index 3217c15..6420ae5 100644
--- a/src/engine/GroupBy.cpp
+++ b/src/engine/GroupBy.cpp
@@ -767,6 +767,9 @@ void GroupBy::computeResult(ResultTable* result) {
   RuntimeInformation& runtimeInfo = getRuntimeInfo();
   runtimeInfo.addChild(_subtree->getRootOperation()->getRuntimeInfo());
 
+  // The strings of the input are kept, those of GROUP_CONCAT are appended.
+  *result->_localVocab = *subresult->_localVocab;
+
   // populate the result type vector
   result->_resultTypes.resize(result->_data.cols());
   for (size_t i = 0; i < result->_data.cols(); i++) {
diff --git a/src/engine/HasPredicateScan.cpp b/src/engine/HasPredicateScan.cpp
index a54fe83..fad75e0 100644
--- a/src/engine/HasPredicateScan.cpp
+++ b/src/engine/HasPredicateScan.cpp
@@ -247,6 +247,7 @@ void HasPredicateScan::computeResult(ResultTable* result) {
                                   subresult->_resultTypes.begin(),
                                   subresult->_resultTypes.end());
       result->_resultTypes.push_back(ResultTable::ResultType::KB);
+      result->_localVocab = subresult->_localVocab;
       int inWidth = subresult->_data.cols();
       int outWidth = result->_data.cols();
       CALL_FIXED_SIZE_2(inWidth, outWidth, HasPredicateScan::computeSubqueryS,
diff --git a/src/engine/Join.cpp b/src/engine/Join.cpp
index 9d418a1..03033e2 100644
--- a/src/engine/Join.cpp
+++ b/src/engine/Join.cpp
@@ -129,6 +129,7 @@ void Join::computeResult(ResultTable* result) {
   CALL_FIXED_SIZE_3(lwidth, rwidth, reswidth, join, leftRes->_data,
                     _leftJoinCol, rightRes->_data, _rightJoinCol,
                     &result->_data);
+  result->setLocalVocab(*leftRes, *rightRes, lwidth);
 
   LOG(DEBUG) << "Join result computation done." << endl;
 }
@@ -252,6 +253,7 @@ void Join::computeResultForJoinWithFullScanDummy(ResultTable* result) const {
     result->_resultTypes.insert(result->_resultTypes.end(),
                                 nonDummyRes->_resultTypes.begin(),
                                 nonDummyRes->_resultTypes.end());
+    result->_localVocab = nonDummyRes->_localVocab;
     doComputeJoinWithFullScanDummyLeft(nonDummyRes->_data, &result->_data);
   } else {
     AD_CHECK(!isFullScanDummy(_left))
@@ -266,6 +268,7 @@ void Join::computeResultForJoinWithFullScanDummy(ResultTable* result) const {
     result->_resultTypes.push_back(ResultTable::ResultType::KB);
     result->_resultTypes.push_back(ResultTable::ResultType::KB);
 
+    result->_localVocab = nonDummyRes->_localVocab;
     doComputeJoinWithFullScanDummyRight(nonDummyRes->_data, &result->_data);
   }
 
diff --git a/src/engine/Minus.cpp b/src/engine/Minus.cpp
index 6280d0c..b5f3381 100644
--- a/src/engine/Minus.cpp
+++ b/src/engine/Minus.cpp
@@ -67,6 +67,7 @@ void Minus::computeResult(ResultTable* result) {
   // We have the same output columns as the left input, so we also
   // have the same output column types.
   result->_resultTypes = leftResult->_resultTypes;
+  result->_localVocab = leftResult->_localVocab;
 
   LOG(DEBUG) << "Computing minus of results of size " << leftResult->size()
              << " and " << rightResult->size() << endl;
diff --git a/src/engine/MultiColumnJoin.cpp b/src/engine/MultiColumnJoin.cpp
index f794d9c..71652c8 100644
--- a/src/engine/MultiColumnJoin.cpp
+++ b/src/engine/MultiColumnJoin.cpp
@@ -115,6 +115,7 @@ void MultiColumnJoin::computeResult(ResultTable* result) {
   CALL_FIXED_SIZE_3(leftWidth, rightWidth, resWidth, computeMultiColumnJoin,
                     leftResult->_data, rightResult->_data, _joinColumns,
                     &result->_data);
+  result->setLocalVocab(*leftResult, *rightResult, leftWidth);
   LOG(DEBUG) << "MultiColumnJoin result computation done." << endl;
 }
 
diff --git a/src/engine/OptionalJoin.cpp b/src/engine/OptionalJoin.cpp
index df9b5fd..925e79e 100644
--- a/src/engine/OptionalJoin.cpp
+++ b/src/engine/OptionalJoin.cpp
@@ -120,6 +120,7 @@ void OptionalJoin::computeResult(ResultTable* result) {
   CALL_FIXED_SIZE_3(leftWidth, rightWidth, resWidth, optionalJoin,
                     leftResult->_data, rightResult->_data, _leftOptional,
                     _rightOptional, _joinColumns, &result->_data);
+  result->setLocalVocab(*leftResult, *rightResult, leftWidth);
   LOG(DEBUG) << "OptionalJoin result computation done." << endl;
 }
 
diff --git a/src/engine/ResultTable.cpp b/src/engine/ResultTable.cpp
index b7b482e..301c4fa 100644
--- a/src/engine/ResultTable.cpp
+++ b/src/engine/ResultTable.cpp
@@ -18,6 +18,35 @@ void ResultTable::clear() {
   _data.clear();
 }
 
+// _____________________________________________________________________________
+void ResultTable::setLocalVocab(const ResultTable& first,
+                                const ResultTable& second, size_t secondFromCol,
+                                size_t secondFromRow) {
+  if (second._localVocab->empty() || first._localVocab == second._localVocab) {
+    _localVocab = first._localVocab;
+    return;
+  }
+  if (first._localVocab->empty()) {
+    _localVocab = second._localVocab;
+    return;
+  }
+  const size_t offset = first._localVocab->size();
+  auto words = std::make_shared<vector<string>>(*first._localVocab);
+  words->insert(words->end(), second._localVocab->begin(),
+                second._localVocab->end());
+  _localVocab = std::move(words);
+  for (size_t col = secondFromCol; col < _data.cols(); ++col) {
+    if (getResultType(col) != ResultType::LOCAL_VOCAB) {
+      continue;
+    }
+    for (size_t row = secondFromRow; row < _data.size(); ++row) {
+      if (_data(row, col) != ID_NO_VALUE) {
+        _data(row, col) += offset;
+      }
+    }
+  }
+}
+
 // _____________________________________________________________________________
 ResultTable::~ResultTable() { clear(); }
 
diff --git a/src/engine/ResultTable.h b/src/engine/ResultTable.h
index 676708b..a65bcfb 100644
--- a/src/engine/ResultTable.h
+++ b/src/engine/ResultTable.h
@@ -61,8 +61,6 @@ class ResultTable {
   // being moved or deleted having a single copy used by several operations
   // should not lead to any references to the _localVocab being invalidated
   // due to later use.
-  // WARNING: Currently only operations that can run after a GroupBy copy
-  //          the _localVocab of a subresult.
   std::shared_ptr<vector<string>> _localVocab;
 
   ResultTable(ad_utility::AllocatorWithLimit<Id> allocator);
@@ -86,6 +84,12 @@ class ResultTable {
     return std::nullopt;
   }
 
+  // Use the strings of the two inputs that this result was computed from. The
+  // entries from the given column and row on have been copied from the second
+  // input, their ids are changed if both inputs have strings.
+  void setLocalVocab(const ResultTable& first, const ResultTable& second,
+                     size_t secondFromCol, size_t secondFromRow = 0);
+
   size_t size() const;
   size_t width() const { return _data.cols(); }
 
diff --git a/src/engine/TransitivePath.cpp b/src/engine/TransitivePath.cpp
index e48298e..a65a402 100644
--- a/src/engine/TransitivePath.cpp
+++ b/src/engine/TransitivePath.cpp
@@ -701,6 +701,7 @@ void TransitivePath::computeResult(ResultTable* result) {
         result->_resultTypes.push_back(leftRes->getResultType(c));
       }
     }
+    result->_localVocab = leftRes->_localVocab;
     runtimeInfo.addChild(_leftSideTree->getRootOperation()->getRuntimeInfo());
     int leftWidth = leftRes->_data.cols();
     CALL_FIXED_SIZE_3(subWidth, leftWidth, _resultWidth,
@@ -715,6 +716,7 @@ void TransitivePath::computeResult(ResultTable* result) {
         result->_resultTypes.push_back(rightRes->getResultType(c));
       }
     }
+    result->_localVocab = rightRes->_localVocab;
     runtimeInfo.addChild(_rightSideTree->getRootOperation()->getRuntimeInfo());
     int rightWidth = rightRes->_data.cols();
     CALL_FIXED_SIZE_3(subWidth, rightWidth, _resultWidth,
diff --git a/src/engine/TwoColumnJoin.cpp b/src/engine/TwoColumnJoin.cpp
index 5bc3a01..7f6aa5e 100644
--- a/src/engine/TwoColumnJoin.cpp
+++ b/src/engine/TwoColumnJoin.cpp
@@ -115,6 +115,7 @@ void TwoColumnJoin::computeResult(ResultTable* result) {
     result->_resultTypes.insert(result->_resultTypes.end(),
                                 toFilter->_resultTypes.begin(),
                                 toFilter->_resultTypes.end());
+    result->_localVocab = toFilter->_localVocab;
     AD_CHECK_GE(result->_data.cols(), 2);
 
     int inWidth = toFilter->_data.cols();
diff --git a/src/engine/Union.cpp b/src/engine/Union.cpp
index a7d8dac..c88f907 100644
--- a/src/engine/Union.cpp
+++ b/src/engine/Union.cpp
@@ -159,6 +159,8 @@ void Union::computeResult(ResultTable* result) {
   CALL_FIXED_SIZE_3(leftWidth, rightWidth, outWidth, computeUnion,
                     &result->_data, subRes1->_data, subRes2->_data,
                     _columnOrigins);
+  // The rows of the second input follow those of the first one.
+  result->setLocalVocab(*subRes1, *subRes2, 0, subRes1->size());
 
   LOG(DEBUG) << "Union result computation done." << std::endl;
 }
-- 
2.43.0


From a17a5a9b1074ff009d8d3b316812583d5a978fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:50:16 +0000
Subject: [PATCH 63/65] fix: value types of columns joined with a text search

---
 src/engine/TextOperationWithFilter.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/engine/TextOperationWithFilter.cpp b/src/engine/TextOperationWithFilter.cpp
index 886b0a8..18646a8 100644
--- a/src/engine/TextOperationWithFilter.cpp
+++ b/src/engine/TextOperationWithFilter.cpp
@@ -88,9 +88,15 @@ void TextOperationWithFilter::computeResult(ResultTable* result) {
   result->_resultTypes.reserve(result->_data.cols());
   result->_resultTypes.push_back(ResultTable::ResultType::TEXT);
   result->_resultTypes.push_back(ResultTable::ResultType::VERBATIM);
-  for (size_t i = 2; i < result->_data.cols(); i++) {
+  // The columns of the filter follow the other entities of the text.
+  size_t filterStart = result->_data.cols() - filterResult->_data.cols();
+  for (size_t i = 2; i < filterStart; i++) {
     result->_resultTypes.push_back(ResultTable::ResultType::KB);
   }
+  for (size_t i = 0; i < filterResult->_data.cols(); i++) {
+    result->_resultTypes.push_back(filterResult->getResultType(i));
+  }
+  result->_localVocab = filterResult->_localVocab;
   if (filterResult->_data.cols() == 1) {
     getExecutionContext()->getIndex().getFilteredECListForWordsWidthOne(
         _words, filterResult->_data, getNofVars(), _textLimit, &result->_data);
-- 
2.43.0


From 0884fe26ccbed88ed25ff7e01488c456b6531834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:53:49 +0000
Subject: [PATCH 64/65] fix: show unbound values in columns of numbers as such

---
 src/engine/QueryExecutionTree.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/engine/QueryExecutionTree.cpp b/src/engine/QueryExecutionTree.cpp
index 623e053..f27b96e 100644
--- a/src/engine/QueryExecutionTree.cpp
+++ b/src/engine/QueryExecutionTree.cpp
@@ -217,7 +217,8 @@ nlohmann::json QueryExecutionTree::writeJsonTable(
     json.emplace_back();
     auto& row = json.back();
     for (const auto& opt : validIndices) {
-      if (!opt) {
+      // Unbound values have the same id in columns of all types.
+      if (!opt || data(i, opt->first) == ID_NO_VALUE) {
         row.emplace_back(nullptr);
         continue;
       }
@@ -278,7 +279,8 @@ void QueryExecutionTree::writeTable(
   };
   for (size_t i = from; i < upperBound; ++i) {
     for (size_t j = 0; j < validIndices.size(); ++j) {
-      if (validIndices[j]) {
+      // Nothing is written for unbound values.
+      if (validIndices[j] && data(i, validIndices[j]->first) != ID_NO_VALUE) {
         const auto& val = *validIndices[j];
         switch (val.second) {
           case ResultTable::ResultType::KB: {
-- 
2.43.0


From cb744fc844737a6b97491eaf16594a45fc04e95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:38:36 +0000
Subject: [PATCH 65/65] fix: keep the merged word intact when an external word
 is written

The merger detects words that occur in several partial vocabularies by
comparing with the last written word. For external words the prefix
character was stripped in that word itself, so the next equal word got a
new id and joins and lookups on it lost results.
---
 src/index/VocabularyGeneratorImpl.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/index/VocabularyGeneratorImpl.h b/src/index/VocabularyGeneratorImpl.h
index 680b082..5920c3d 100644
--- a/src/index/VocabularyGeneratorImpl.h
+++ b/src/index/VocabularyGeneratorImpl.h
@@ -159,8 +159,10 @@ void VocabularyMerger::writeQueueWordsToIdVec(const std::vector<QueueWord>& buff
       if (_lastWritten < EXTERNALIZED_LITERALS_PREFIX) {
         _outfile << RdfEscaping::escapeNewlinesAndBackslashes(_lastWritten) << '\n';
       } else {
-        // we have to strip the externalization character again
-        auto& c = _lastWritten[0];
+        // we have to strip the externalization character again, but only in
+        // what we write: the next words are compared with _lastWritten.
+        std::string externalWord = _lastWritten;
+        auto& c = externalWord[0];
         switch (c) {
           case EXTERNALIZED_LITERALS_PREFIX_CHAR:
             c = '"';
@@ -174,7 +176,7 @@ void VocabularyMerger::writeQueueWordsToIdVec(const std::vector<QueueWord>& buff
                           "should never happen\n";
             AD_CHECK(false)
         }
-        _outfileExternal << RdfEscaping::escapeNewlinesAndBackslashes(_lastWritten) << '\n';
+        _outfileExternal << RdfEscaping::escapeNewlinesAndBackslashes(externalWord) << '\n';
       }
 
       // write id to corresponding vec
-- 
2.43.0

