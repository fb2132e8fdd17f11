From f2a98158c8e2bf3135d043db46a3857ef48a8646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:16 +0000
Subject: [PATCH 01/30] fix: pairwise operations start at the smallest variable
 index of all pairs

BddArrayOpBF kept the top index of the last non-terminal pair only, so the
requests of earlier pairs with smaller indices were neither expanded nor
reduced when a later pair started lower in the order.
---
 src/calBddOp.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/calBddOp.c b/src/calBddOp.c
index cf6e2f2..91888e9 100644
--- a/src/calBddOp.c
+++ b/src/calBddOp.c
@@ -679,8 +679,8 @@ BddArrayOpBF(Cal_BddManager_t * bddManager, Cal_Bdd_t*  bddArray,
 {
   Cal_BddId_t minId, bddId;
   /*Cal_BddIndex_t minIndex = 0;*/
-  int minIndex = 0;
-  int bddIndex;
+  int minIndex = bddManager->numVars;
+  int pairIndex, bddIndex;
   CalHashTable_t *hashTable, **hashTableArray, *uniqueTableForId;
   Cal_Bdd_t F, G, result;
   int numPairs = numFunction/2;
@@ -692,7 +692,8 @@ BddArrayOpBF(Cal_BddManager_t * bddManager, Cal_Bdd_t*  bddArray,
     F = bddArray[i<<1];
     G = bddArray[(i<<1)+1];
     if ((*calOpProc)(bddManager, F, G, &result) == 0){
-      CalBddGetMinIdAndMinIndex(bddManager, F, G, minId, minIndex);
+      CalBddGetMinIdAndMinIndex(bddManager, F, G, minId, pairIndex);
+      if (pairIndex < minIndex) minIndex = pairIndex;
       CalHashTableFindOrAdd(hashTableArray[minId], F, G, &result);
     }
     resultArray[i] = result;
-- 
2.43.0


From 9e8397c591bcc4fcf1dc7668ee94f7d96653db85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:57 +0000
Subject: [PATCH 02/30] fix: Cal_BddCompose returns the null diagram for null
 arguments

---
 src/calBddCompose.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/calBddCompose.c b/src/calBddCompose.c
index 96770d0..6cda2c3 100644
--- a/src/calBddCompose.c
+++ b/src/calBddCompose.c
@@ -82,7 +82,7 @@ Cal_BddCompose(Cal_BddManager bddManager, Cal_Bdd  fUserBdd,
   Cal_Bdd_t F, G, H;
 
   if (CalBddPreProcessing(bddManager, 3, fUserBdd, gUserBdd, hUserBdd) == 0){
-    result = bddManager->bddNull;
+    return Cal_BddNull(bddManager);
   }
   F = CalBddGetInternalBdd(bddManager, fUserBdd);
   G = CalBddGetInternalBdd(bddManager, gUserBdd);
-- 
2.43.0


From 0966fd6f99ab4a609884a9d1d6f51daf8b830e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:58 +0000
Subject: [PATCH 03/30] fix: Cal_BddCompose with a constant variable takes its
 reference through the regular pointer

---
 src/calBddCompose.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/calBddCompose.c b/src/calBddCompose.c
index 6cda2c3..b1d53d2 100644
--- a/src/calBddCompose.c
+++ b/src/calBddCompose.c
@@ -89,8 +89,7 @@ Cal_BddCompose(Cal_BddManager bddManager, Cal_Bdd  fUserBdd,
   H = CalBddGetInternalBdd(bddManager, hUserBdd);
 
   if(CalBddIsBddConst(G)){
-    CalBddNodeIcrRefCount(fUserBdd);
-    return fUserBdd;
+    return Cal_BddIdentity(bddManager, fUserBdd);
   }
   CalNodeManagerAllocNode(bddManager->nodeManagerArray[0], requestNode);
   CalRequestNodePutF(requestNode, F);
-- 
2.43.0


From 4aefb4ac82a61004207eacf28b8f4aea8cd210f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:00 +0000
Subject: [PATCH 04/30] fix: pairwise OR and XOR honour the node limit like
 pairwise AND

---
 src/calBddOp.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/calBddOp.c b/src/calBddOp.c
index 91888e9..41c6a50 100644
--- a/src/calBddOp.c
+++ b/src/calBddOp.c
@@ -315,6 +315,14 @@ Cal_BddPairwiseOr(Cal_BddManager bddManager, Cal_Bdd *userBddArray)
   }
   Cal_MemFree(bddArray);
   Cal_MemFree(resultArray);
+  if (CalBddPostProcessing(bddManager)  == CAL_BDD_OVERFLOWED){
+    for (i=0; i<num/2; i++){
+      Cal_BddFree(bddManager, userResultArray[i]);
+      userResultArray[i] = Cal_BddNull(bddManager);
+    }
+    Cal_BddManagerGC(bddManager);
+    return userResultArray;
+  }
   return userResultArray;
 }
 
@@ -349,6 +357,14 @@ Cal_BddPairwiseXor(Cal_BddManager bddManager, Cal_Bdd *userBddArray)
   }
   Cal_MemFree(bddArray);
   Cal_MemFree(resultArray);
+  if (CalBddPostProcessing(bddManager)  == CAL_BDD_OVERFLOWED){
+    for (i=0; i<num/2; i++){
+      Cal_BddFree(bddManager, userResultArray[i]);
+      userResultArray[i] = Cal_BddNull(bddManager);
+    }
+    Cal_BddManagerGC(bddManager);
+    return userResultArray;
+  }
   return userResultArray;
 }
 
-- 
2.43.0


From 6c75be06b6ffd9d97d027ae7084558c03f9a3a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:02 +0000
Subject: [PATCH 05/30] fix: multiway operations honour the node limit

---
 src/calBddOp.c | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/calBddOp.c b/src/calBddOp.c
index 41c6a50..2630b10 100644
--- a/src/calBddOp.c
+++ b/src/calBddOp.c
@@ -377,6 +377,7 @@ Cal_BddMultiwayAnd(Cal_BddManager bddManager, Cal_Bdd *userBddArray)
   Cal_Bdd_t result;
   Cal_Bdd_t *calBddArray;
   Cal_Bdd userBdd;
+  Cal_Bdd userResult;
 
   for (numBdds  = 0; (userBdd = userBddArray[numBdds]); numBdds++){
     if (CalBddPreProcessing(bddManager, 1, userBdd) == 0){
@@ -399,7 +400,13 @@ Cal_BddMultiwayAnd(Cal_BddManager bddManager, Cal_Bdd *userBddArray)
     result = BddMultiwayOp(bddManager, calBddArray, numBdds, CalOpAnd);
     Cal_MemFree(calBddArray);
   }
-  return CalBddGetExternalBdd(bddManager, result);
+  userResult = CalBddGetExternalBdd(bddManager, result);
+  if (CalBddPostProcessing(bddManager) == CAL_BDD_OVERFLOWED){
+    Cal_BddFree(bddManager, userResult);
+    Cal_BddManagerGC(bddManager);
+    return Cal_BddNull(bddManager);
+  }
+  return userResult;
 }
 
 /**Function********************************************************************
@@ -411,6 +418,7 @@ Cal_BddMultiwayOr(Cal_BddManager bddManager, Cal_Bdd *userBddArray)
   Cal_Bdd_t result;
   Cal_Bdd_t *calBddArray;
   Cal_Bdd userBdd;
+  Cal_Bdd userResult;
 
   for (numBdds = 0; (userBdd = userBddArray[numBdds]); numBdds++){
     if (CalBddPreProcessing(bddManager, 1, userBdd) == 0){
@@ -433,7 +441,13 @@ Cal_BddMultiwayOr(Cal_BddManager bddManager, Cal_Bdd *userBddArray)
     result = BddMultiwayOp(bddManager, calBddArray, numBdds, CalOpOr);
     Cal_MemFree(calBddArray);
   }
-  return CalBddGetExternalBdd(bddManager, result);
+  userResult = CalBddGetExternalBdd(bddManager, result);
+  if (CalBddPostProcessing(bddManager) == CAL_BDD_OVERFLOWED){
+    Cal_BddFree(bddManager, userResult);
+    Cal_BddManagerGC(bddManager);
+    return Cal_BddNull(bddManager);
+  }
+  return userResult;
 }
 
 /**Function********************************************************************
@@ -445,6 +459,7 @@ Cal_BddMultiwayXor(Cal_BddManager bddManager, Cal_Bdd *userBddArray)
   Cal_Bdd_t result;
   Cal_Bdd_t *calBddArray;
   Cal_Bdd userBdd;
+  Cal_Bdd userResult;
 
   for (numBdds = 0; (userBdd = userBddArray[numBdds]); numBdds++){
     if (CalBddPreProcessing(bddManager, 1, userBdd) == 0){
@@ -467,7 +482,13 @@ Cal_BddMultiwayXor(Cal_BddManager bddManager, Cal_Bdd *userBddArray)
     result = BddMultiwayOp(bddManager, calBddArray, numBdds, CalOpXor);
     Cal_MemFree(calBddArray);
   }
-  return CalBddGetExternalBdd(bddManager, result);
+  userResult = CalBddGetExternalBdd(bddManager, result);
+  if (CalBddPostProcessing(bddManager) == CAL_BDD_OVERFLOWED){
+    Cal_BddFree(bddManager, userResult);
+    Cal_BddManagerGC(bddManager);
+    return Cal_BddNull(bddManager);
+  }
+  return userResult;
 }
 
 
-- 
2.43.0


From b9c721ec244943ab79db30bd3e4fc06695ddcca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:08 +0000
Subject: [PATCH 06/30] fix: intersection, implication and satisfying-cube
 operations honour the node limit

---
 src/cal.c           | 18 ++++++++++++++++--
 src/calBddSatisfy.c | 18 ++++++++++++++++--
 2 files changed, 32 insertions(+), 4 deletions(-)

diff --git a/src/cal.c b/src/cal.c
index eac49b8..842ea6e 100644
--- a/src/cal.c
+++ b/src/cal.c
@@ -286,6 +286,7 @@ Cal_BddIntersects(Cal_BddManager bddManager, Cal_Bdd fUserBdd, Cal_Bdd
                   gUserBdd)
 {
   Cal_Bdd_t result;
+  Cal_Bdd userResult;
   Cal_Bdd_t f, g;
   if (CalBddPreProcessing(bddManager, 2, fUserBdd, gUserBdd) == 0){
     return Cal_BddNull(bddManager);
@@ -293,7 +294,13 @@ Cal_BddIntersects(Cal_BddManager bddManager, Cal_Bdd fUserBdd, Cal_Bdd
   f = CalBddGetInternalBdd(bddManager, fUserBdd);
   g = CalBddGetInternalBdd(bddManager, gUserBdd);
   result = BddIntersectsStep(bddManager,f,g);
-  return CalBddGetExternalBdd(bddManager, result);
+  userResult = CalBddGetExternalBdd(bddManager, result);
+  if (CalBddPostProcessing(bddManager) == CAL_BDD_OVERFLOWED){
+    Cal_BddFree(bddManager, userResult);
+    Cal_BddManagerGC(bddManager);
+    return Cal_BddNull(bddManager);
+  }
+  return userResult;
 }
 
 /**Function********************************************************************
@@ -302,6 +309,7 @@ Cal_Bdd
 Cal_BddImplies(Cal_BddManager bddManager, Cal_Bdd fUserBdd, Cal_Bdd gUserBdd)
 {
   Cal_Bdd_t result;
+  Cal_Bdd userResult;
   Cal_Bdd_t f, g;
   if (CalBddPreProcessing(bddManager, 2, fUserBdd, gUserBdd)){
     Cal_Bdd_t gNot;
@@ -313,7 +321,13 @@ Cal_BddImplies(Cal_BddManager bddManager, Cal_Bdd fUserBdd, Cal_Bdd gUserBdd)
   else{
     return Cal_BddNull(bddManager);
   }
-  return CalBddGetExternalBdd(bddManager, result);
+  userResult = CalBddGetExternalBdd(bddManager, result);
+  if (CalBddPostProcessing(bddManager) == CAL_BDD_OVERFLOWED){
+    Cal_BddFree(bddManager, userResult);
+    Cal_BddManagerGC(bddManager);
+    return Cal_BddNull(bddManager);
+  }
+  return userResult;
 }
 
 /**Function********************************************************************
diff --git a/src/calBddSatisfy.c b/src/calBddSatisfy.c
index 96a0615..b16c1cc 100644
--- a/src/calBddSatisfy.c
+++ b/src/calBddSatisfy.c
@@ -84,6 +84,7 @@ Cal_Bdd
 Cal_BddSatisfy(Cal_BddManager bddManager, Cal_Bdd  fUserBdd)
 {
   Cal_Bdd_t f;
+  Cal_Bdd userResult;
   if(CalBddPreProcessing(bddManager, 1, fUserBdd)){
     f = CalBddGetInternalBdd(bddManager, fUserBdd);
     if(CalBddIsBddZero(bddManager, f)){
@@ -91,7 +92,13 @@ Cal_BddSatisfy(Cal_BddManager bddManager, Cal_Bdd  fUserBdd)
       return (fUserBdd);
     }
     f = BddSatisfyStep(bddManager, f);
-    return CalBddGetExternalBdd(bddManager, f);
+    userResult = CalBddGetExternalBdd(bddManager, f);
+    if (CalBddPostProcessing(bddManager) == CAL_BDD_OVERFLOWED){
+      Cal_BddFree(bddManager, userResult);
+      Cal_BddManagerGC(bddManager);
+      return Cal_BddNull(bddManager);
+    }
+    return userResult;
   }
   return Cal_BddNull(bddManager);
 }
@@ -105,6 +112,7 @@ Cal_BddSatisfySupport(Cal_BddManager bddManager, Cal_Bdd fUserBdd)
   Cal_BddId_t *support, *p;
   long i;
   Cal_Bdd_t result;
+  Cal_Bdd userResult;
   Cal_Bdd_t f;
 
   if(CalBddPreProcessing(bddManager, 1, fUserBdd)){
@@ -129,7 +137,13 @@ Cal_BddSatisfySupport(Cal_BddManager bddManager, Cal_Bdd fUserBdd)
     }
     result = BddSatisfySupportStep(bddManager, f, support);
     Cal_MemFree(support);
-    return CalBddGetExternalBdd(bddManager, result);
+    userResult = CalBddGetExternalBdd(bddManager, result);
+    if (CalBddPostProcessing(bddManager) == CAL_BDD_OVERFLOWED){
+      Cal_BddFree(bddManager, userResult);
+      Cal_BddManagerGC(bddManager);
+      return Cal_BddNull(bddManager);
+    }
+    return userResult;
   }
   return Cal_BddNull(bddManager);
 }
-- 
2.43.0


From a081fb416205125c051d899f3b4ab304d41349c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:08 +0000
Subject: [PATCH 07/30] fix: composition, substitution and variable exchange
 honour the node limit

---
 src/calBddCompose.c    | 9 ++++++++-
 src/calBddSubstitute.c | 9 ++++++++-
 src/calBddSwapVars.c   | 9 ++++++++-
 3 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/calBddCompose.c b/src/calBddCompose.c
index b1d53d2..d0e066f 100644
--- a/src/calBddCompose.c
+++ b/src/calBddCompose.c
@@ -78,6 +78,7 @@ Cal_BddCompose(Cal_BddManager bddManager, Cal_Bdd  fUserBdd,
                Cal_Bdd  gUserBdd, Cal_Bdd hUserBdd)
 {
   Cal_Bdd_t result;
+  Cal_Bdd userResult;
   CalRequestNode_t *requestNode;
   Cal_Bdd_t F, G, H;
 
@@ -108,7 +109,13 @@ Cal_BddCompose(Cal_BddManager bddManager, Cal_Bdd  fUserBdd,
   CalNodeManagerFreeNode(bddManager->nodeManagerArray[0], requestNode);
   bddManager->requestNodeListArray[0] = Cal_Nil(CalRequestNode_t);
 
-  return CalBddGetExternalBdd(bddManager, result);
+  userResult = CalBddGetExternalBdd(bddManager, result);
+  if (CalBddPostProcessing(bddManager) == CAL_BDD_OVERFLOWED){
+    Cal_BddFree(bddManager, userResult);
+    Cal_BddManagerGC(bddManager);
+    return Cal_BddNull(bddManager);
+  }
+  return userResult;
 }
 
 /*---------------------------------------------------------------------------*/
diff --git a/src/calBddSubstitute.c b/src/calBddSubstitute.c
index 26eef5e..f874edf 100644
--- a/src/calBddSubstitute.c
+++ b/src/calBddSubstitute.c
@@ -82,6 +82,7 @@ Cal_Bdd
 Cal_BddSubstitute(Cal_BddManager bddManager, Cal_Bdd fUserBdd)
 {
   CalRequest_t result;
+  Cal_Bdd userResult;
   int bddId, bddIndex, lastIndex;
   CalHashTable_t *hashTable;
   CalHashTable_t *uniqueTableForId;
@@ -129,7 +130,13 @@ Cal_BddSubstitute(Cal_BddManager bddManager, Cal_Bdd fUserBdd)
     CalHashTableCleanUp(reqQueForSubstitute[bddId]);
   }
 
-  return CalBddGetExternalBdd(bddManager, result);
+  userResult = CalBddGetExternalBdd(bddManager, result);
+  if (CalBddPostProcessing(bddManager) == CAL_BDD_OVERFLOWED){
+    Cal_BddFree(bddManager, userResult);
+    Cal_BddManagerGC(bddManager);
+    return Cal_BddNull(bddManager);
+  }
+  return userResult;
 }
 
 /*---------------------------------------------------------------------------*/
diff --git a/src/calBddSwapVars.c b/src/calBddSwapVars.c
index f0f3eae..6fd96fe 100644
--- a/src/calBddSwapVars.c
+++ b/src/calBddSwapVars.c
@@ -86,6 +86,7 @@ Cal_BddSwapVars(Cal_BddManager  bddManager, Cal_Bdd  fUserBdd,
   Cal_Bdd_t f,g,h,tmpBdd;
   Cal_BddIndex_t gIndex, hIndex;
   CalRequest_t result;
+  Cal_Bdd userResult;
   int bddId, bddIndex;
   CalHashTable_t *hashTable;
   CalHashTable_t *uniqueTableForId;
@@ -193,7 +194,13 @@ Cal_BddSwapVars(Cal_BddManager  bddManager, Cal_Bdd  fUserBdd,
     CalHashTableCleanUp(reqQueForCompose[bddId]);
     CalHashTableCleanUp(reqQueForITE[bddId]);
   }
-  return CalBddGetExternalBdd(bddManager, result);
+  userResult = CalBddGetExternalBdd(bddManager, result);
+  if (CalBddPostProcessing(bddManager) == CAL_BDD_OVERFLOWED){
+    Cal_BddFree(bddManager, userResult);
+    Cal_BddManagerGC(bddManager);
+    return Cal_BddNull(bddManager);
+  }
+  return userResult;
 }
 
 /*---------------------------------------------------------------------------*/
-- 
2.43.0


From 0885100d4603793de7cf856f4f9a9392b4c089dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:48 +0000
Subject: [PATCH 08/30] fix: substitution returns its if-then-else requests to
 the node managers

---
 src/calBddSubstitute.c    |  9 ++++-----
 src/calBddVarSubstitute.c | 12 ++++++------
 2 files changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/calBddSubstitute.c b/src/calBddSubstitute.c
index f874edf..3368396 100644
--- a/src/calBddSubstitute.c
+++ b/src/calBddSubstitute.c
@@ -349,20 +349,19 @@ CalHashTableSubstituteReduce(
   }
 
 
-  /*last = Cal_Nil(CalRequestNode_t);*/
   for(requestNode = requestNodeListForITE;
       requestNode != Cal_Nil(CalRequestNode_t);
-      /*last = requestNode, */
-      requestNode = CalRequestNodeGetNextRequestNode(requestNode)){
+      requestNode = next){
+    next = CalRequestNodeGetNextRequestNode(requestNode);
     CalRequestNodeGetThenRequest(requestNode, result);
     CalBddNodeGetRefCount(requestNode, refCount);
     CalRequestIsForwardedTo(result);
     CalBddAddRefCount(result, refCount);
     CalRequestNodePutThenRequest(requestNode, result);
+    endNode->nextBddNode = requestNode;
+    endNode = requestNode;
   }
 
-  /*CalBddNodePutNextBddNode(endNode, requestNodeListForITE);*/
-  endNode->nextBddNode = requestNodeListForITE;
   hashTable->endNode = endNode;
 
   /* ITE Cleanup */
diff --git a/src/calBddVarSubstitute.c b/src/calBddVarSubstitute.c
index 4dc1bba..0cd2a0a 100644
--- a/src/calBddVarSubstitute.c
+++ b/src/calBddVarSubstitute.c
@@ -278,7 +278,7 @@ CalHashTableSubstituteReduce(
   /*CalRequestNode_t *requestNodeList = hashTable->requestNodeList;*/
   CalRequestNode_t *endNode = hashTable->endNode;
   CalRequestNode_t *requestNodeListForITE = Cal_Nil(CalRequestNode_t);
-  CalRequestNode_t *requestNode, *next, *last;
+  CalRequestNode_t *requestNode, *next;
   CalBddNode_t *bddNode;
   Cal_Bdd_t varBdd;
   Cal_Bdd_t thenBdd, elseBdd, result;
@@ -476,19 +476,19 @@ CalHashTableSubstituteReduce(
     }
   }
 
-  last = Cal_Nil(CalRequestNode_t);
-  for(requestNode = requestNodeListForITE; 
+  for(requestNode = requestNodeListForITE;
       requestNode != Cal_Nil(CalRequestNode_t);
-      last = requestNode, 
-      requestNode = CalRequestNodeGetNextRequestNode(requestNode)){
+      requestNode = next){
+    next = CalRequestNodeGetNextRequestNode(requestNode);
     CalRequestNodeGetThenRequest(requestNode, result);
     CalBddNodeGetRefCount(requestNode, refCount);
     CalRequestIsForwardedTo(result);
     CalBddAddRefCount(result, refCount);
     CalRequestNodePutThenRequest(requestNode, result);
+    endNode->nextBddNode = requestNode;
+    endNode = requestNode;
   }
 
-  endNode->nextBddNode = requestNodeListForITE;
   hashTable->endNode = endNode;
   /* ITE Cleanup */
   for(bddId = 1; bddId <= bddManager->numVars; bddId++){
-- 
2.43.0


From 6b73b8b066cdd1762c9408786bedd542ca8e7757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:29 +0000
Subject: [PATCH 09/30] fix: generalised cofactors with an empty care set yield
 the operand, not the null diagram

---
 src/calReduce.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/calReduce.c b/src/calReduce.c
index 81d2420..2bad4dc 100644
--- a/src/calReduce.c
+++ b/src/calReduce.c
@@ -232,6 +232,10 @@ BddReduceBF(
   int bddIndex;
   Cal_BddId_t bddId, minId;
 
+  /* every function agrees with f on an empty care set */
+  if (CalBddIsBddZero(bddManager, c)){
+    return f;
+  }
 
   if ((*calOpProc)(bddManager, f, c, &result) == 1){
     return result;
-- 
2.43.0


From b35cd1f2bc7e41a113bf7fb98559fa3649e22345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:44 +0000
Subject: [PATCH 10/30] fix: print the function profile of a valid diagram, and
 nothing for the null one

---
 src/calPrintProfile.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/calPrintProfile.c b/src/calPrintProfile.c
index 3360319..96da4fa 100644
--- a/src/calPrintProfile.c
+++ b/src/calPrintProfile.c
@@ -135,7 +135,7 @@ Cal_BddPrintFunctionProfile(Cal_BddManager bddManager,
                             FILE * fp)
 {
   long *levelCounts;
-  if (CalBddPreProcessing(bddManager, 1, f)){
+  if (CalBddPreProcessing(bddManager, 1, f) == 0){
 	return;
   }
   levelCounts = Cal_MemAlloc(long, bddManager->numVars+1);
-- 
2.43.0


From 46d02c1001d3110eda47310aa4be1c94052b1c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:52 +0000
Subject: [PATCH 11/30] fix: count a node reached a third time as shared when
 printing or dumping

---
 src/calPrint.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/calPrint.c b/src/calPrint.c
index 4aa73f0..8d19427 100644
--- a/src/calPrint.c
+++ b/src/calPrint.c
@@ -173,8 +173,8 @@ CalBddMarkSharedNodes(Cal_BddManager_t *bddManager, Cal_Bdd_t f)
   if ((mark = CalBddGetMark(f))){
     if (mark == 1){
       CalBddPutMark(f, 2);
-      return;
     }
+    return;
   }
   CalBddPutMark(f, 1);
   CalBddGetThenBdd(f, thenBdd);
-- 
2.43.0


From e73e2e937c7591f652f1b5f90e9e6574c2589945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:03 +0000
Subject: [PATCH 12/30] fix: reject a dump that labels more shared nodes than
 its header announces

---
 src/calDump.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/calDump.c b/src/calDump.c
index d9e8870..81d7114 100644
--- a/src/calDump.c
+++ b/src/calDump.c
@@ -475,6 +475,10 @@ BddUndumpBddStep(
       }
     case NODELABEL_ENCODING:
       nodeNumber =  *sharedSoFar;
+      if(nodeNumber >= numberShared){
+        *error = CAL_BDD_UNDUMP_FORMAT;
+        return CalBddNull(bddManager);
+      }
       ++*sharedSoFar;
       v = BddUndumpBddStep(bddManager, vars, fp, numberVars, shared,
           numberShared, sharedSoFar, indexSize, nodeNumberSize, error);
-- 
2.43.0


From c01a47b3e8dab4ee0b652c31b25a00b8c7bd3f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:04 +0000
Subject: [PATCH 13/30] fix: release the support list after dumping a diagram

---
 src/calDump.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/calDump.c b/src/calDump.c
index 81d7114..a514d5f 100644
--- a/src/calDump.c
+++ b/src/calDump.c
@@ -238,12 +238,14 @@ Cal_BddDumpBdd(
         ok = 0;
       }
     }
+    for(i = 0; support[i]; ++i){
+      Cal_BddFree(bddManager, support[i]);
+    }
+    Cal_MemFree(support);
     if(!ok){
       Cal_MemFree(normalizedIndexes);
-      Cal_MemFree(support);
       return 0;
     }
-    Cal_MemFree(support);
     /* Everything checked now; barring I/O errors, we should be able to */
     /* Write a valid output file. */
     f = CalBddGetInternalBdd(bddManager, fUserBdd);
-- 
2.43.0


From 16ef5958adbafc048a9ffe061e35a320a6089dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:01 +0000
Subject: [PATCH 14/30] fix: report node-limit overflow when a diagram is read
 back

---
 src/calDump.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/calDump.c b/src/calDump.c
index a514d5f..4162cd1 100644
--- a/src/calDump.c
+++ b/src/calDump.c
@@ -111,6 +111,7 @@ Cal_BddUndumpBdd(
   Cal_Bdd_t v;
   Cal_Bdd_t result;
   Cal_Bdd_t *vars;
+  Cal_Bdd userResult;
 
   *error = 0;
   for(i = 0; userVars[i]; ++i){
@@ -183,7 +184,14 @@ Cal_BddUndumpBdd(
    * already been incremented in BddUndumpBddStep.
    */
   CalBddDcrRefCount(result);
-  return CalBddGetExternalBdd(bddManager, result);
+  userResult = CalBddGetExternalBdd(bddManager, result);
+  if (CalBddPostProcessing(bddManager) == CAL_BDD_OVERFLOWED){
+    *error = CAL_BDD_UNDUMP_OVERFLOW;
+    Cal_BddFree(bddManager, userResult);
+    Cal_BddManagerGC(bddManager);
+    return Cal_BddNull(bddManager);
+  }
+  return userResult;
 }
 
 /**Function********************************************************************
-- 
2.43.0


From f563dd58b382c1be11ec5119d0c98b4184bf8059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:03 +0000
Subject: [PATCH 15/30] fix: report a failed write when dumping a diagram

---
 src/calDump.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/calDump.c b/src/calDump.c
index 4162cd1..0fd9eab 100644
--- a/src/calDump.c
+++ b/src/calDump.c
@@ -269,7 +269,8 @@ Cal_BddDumpBdd(
     BddDumpBddStep(bddManager, f, fp, h, normalizedIndexes, indexSize, nodeNumberSize);
     CalHashTableOneQuit(h);
     Cal_MemFree(normalizedIndexes);
-    return (1);
+    /* Report a failed write, also one that only shows when buffers are flushed. */
+    return (fflush(fp) == 0 && !ferror(fp));
   }
   return (0);
 }
-- 
2.43.0


From 266cb0baa5aca5e5955b8546f9f92bfd8c1e058a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:17 +0000
Subject: [PATCH 16/30] fix: redirect the projection functions when nodes are
 repacked after a collection

---
 src/calGC.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/calGC.c b/src/calGC.c
index 8599983..8ff7721 100644
--- a/src/calGC.c
+++ b/src/calGC.c
@@ -363,6 +363,11 @@ CalRepackNodesAfterGC(Cal_BddManager_t *bddManager)
 
   CalCacheTableTwoRepackUpdate(bddManager->cacheTable);
 
+  /* Fix the projection functions of the variables */
+  for (id = 1; id <= bddManager->numVars; id++){
+    CalBddIsForwardedTo(bddManager->varBdds[id]);
+  }
+
   /* Fix the user BDDs */
   CalBddReorderFixUserBddPtrs(bddManager);
 
-- 
2.43.0


From ae98de0b116390e1d0c13a519f735d48dd5ca8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:42 +0000
Subject: [PATCH 17/30] fix: reordering takes functions held only by variable
 associations into account

---
 src/calInteract.c | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/src/calInteract.c b/src/calInteract.c
index 6d7caa4..b794039 100644
--- a/src/calInteract.c
+++ b/src/calInteract.c
@@ -77,6 +77,7 @@
 /*---------------------------------------------------------------------------*/
 
 static void ddSuppInteract(Cal_BddManager_t *bddManager, Cal_Bdd_t f, int *support);
+static void ddAssocInteract(Cal_BddManager_t *bddManager, CalAssociation_t *assoc, int *support);
 static void ddClearLocal(Cal_Bdd_t f);
 static void ddUpdateInteract(Cal_BddManager_t *bddManager, int *support);
 
@@ -171,6 +172,7 @@ CalInitInteract(Cal_BddManager_t *bddManager)
   int *support;
   long numBins;
   CalBddNode_t **bins, *bddNode, *nextBddNode;
+  CalAssociation_t *assoc;
 
   int n = bddManager->numVars;
 
@@ -201,6 +203,13 @@ CalInitInteract(Cal_BddManager_t *bddManager)
       ddUpdateInteract(bddManager, support);
     }
   }
+  /* The functions kept by variable associations, including the temporary
+     one, may not be held by anything else */
+  for (assoc = bddManager->associationList; assoc; assoc = assoc->next){
+    ddAssocInteract(bddManager, assoc, support);
+  }
+  ddAssocInteract(bddManager, bddManager->tempAssociation, support);
+
   /* If there are some results pending in the pipeline, we need to
      take those into account as well */
 
@@ -264,6 +273,30 @@ ddSuppInteract(Cal_BddManager_t *bddManager, Cal_Bdd_t f, int *support)
 } /* end of ddSuppInteract */
 
 
+/**Function********************************************************************
+  Adds the interactions of the functions held by a variable association.
+******************************************************************************/
+static void
+ddAssocInteract(Cal_BddManager_t *bddManager, CalAssociation_t *assoc,
+                int *support)
+{
+  int i, k;
+  int n = bddManager->numVars;
+  Cal_Bdd_t f;
+
+  for (i = 1; i <= n; i++){
+    f = assoc->varAssociation[i];
+    if (CalBddIsBddNull(bddManager, f)) continue;
+    for (k = 0; k < n; k++) {
+      support[k] = 0;
+    }
+    ddSuppInteract(bddManager, f, support);
+    ddClearLocal(f);
+    ddUpdateInteract(bddManager, support);
+  }
+} /* end of ddAssocInteract */
+
+
 /**Function********************************************************************
   Performs a DFS from f, clearing the LSB of the then pointers.
 ******************************************************************************/
-- 
2.43.0


From c8b2dea8a8604eef323b03c192cbf19de5f2974b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:27 +0000
Subject: [PATCH 18/30] fix: follow association entries only to nodes that were
 really moved when packing

---
 src/calAssociation.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/calAssociation.c b/src/calAssociation.c
index 5a196aa..d46fe3d 100644
--- a/src/calAssociation.c
+++ b/src/calAssociation.c
@@ -385,7 +385,7 @@ CalVarAssociationRepackUpdate(Cal_BddManager_t *  bddManager,
     nextAssoc = assoc->next;
     for (i=1; i <= bddManager->numVars; i++){
       if (CalBddGetBddId(assoc->varAssociation[i]) == id){
-        CalBddForward(assoc->varAssociation[i]);
+        CalBddIsForwardedTo(assoc->varAssociation[i]);
       }
     }
   }
@@ -393,7 +393,7 @@ CalVarAssociationRepackUpdate(Cal_BddManager_t *  bddManager,
   assoc = bddManager->tempAssociation;
   for (i=1; i <= bddManager->numVars; i++){
     if (CalBddGetBddId(assoc->varAssociation[i]) == id){
-      CalBddForward(assoc->varAssociation[i]);
+      CalBddIsForwardedTo(assoc->varAssociation[i]);
     }
   }
 }
-- 
2.43.0


From 3254e532c541ef4e0aab5bd799ed0a5d917a9e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:11 +0000
Subject: [PATCH 19/30] fix: reordering while pipeline requests wait updates
 both of their operands

---
 src/calPipeline.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/calPipeline.c b/src/calPipeline.c
index 91bb09a..abb729e 100644
--- a/src/calPipeline.c
+++ b/src/calPipeline.c
@@ -183,6 +183,8 @@ Cal_PipelineCreateProvisionalBdd(Cal_BddManager bddManager, Cal_Bdd fUserBdd,
   CalRequestNodePutNextRequestNode(requestNode,
       bddManager->requestNodeListArray[insertDepth]);
   bddManager->requestNodeListArray[insertDepth] = requestNode;
+  /* None of the stages has been executed yet */
+  bddManager->currentPipelineDepth = bddManager->pipelineDepth;
 
   CalBddGetMinId2(bddManager, f, g, bddId);
   CalBddPutBddId(provisionalBdd, bddId);
-- 
2.43.0


From c53740f32bd7313c785bbd1831af1b93f1e5e87d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:08 +0000
Subject: [PATCH 20/30] fix: refuse a pipeline request beyond the maximum depth
 before counting its stage

---
 src/calPipeline.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/calPipeline.c b/src/calPipeline.c
index abb729e..c480168 100644
--- a/src/calPipeline.c
+++ b/src/calPipeline.c
@@ -166,14 +166,14 @@ Cal_PipelineCreateProvisionalBdd(Cal_BddManager bddManager, Cal_Bdd fUserBdd,
       insertDepth = operandDepth + 1;
     }
   }
-  if (bddManager->pipelineDepth <= insertDepth){
-    bddManager->pipelineDepth = insertDepth + 1;
-  }
   if (insertDepth >= MAX_INSERT_DEPTH){
     CalBddWarningMessage("Provisional Bdd not created");
     CalBddWarningMessage("Maximum pipeline depth is reached");
     return Cal_BddNull(bddManager);
   }
+  if (bddManager->pipelineDepth <= insertDepth){
+    bddManager->pipelineDepth = insertDepth + 1;
+  }
 
   CalNodeManagerAllocNode(bddManager->nodeManagerArray[0], requestNode);
   CalRequestNodePutF(requestNode, f);
-- 
2.43.0


From 64ea7e34b2f5e42eb1b534a0e1cf0c7962e73762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:44 +0000
Subject: [PATCH 21/30] fix: an aborted pipeline gives back its references and
 ends

---
 src/calPipeline.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/calPipeline.c b/src/calPipeline.c
index c480168..3c15ac1 100644
--- a/src/calPipeline.c
+++ b/src/calPipeline.c
@@ -248,6 +248,15 @@ Cal_PipelineExecute(Cal_BddManager bddManager)
     if (CalBddPostProcessing(bddManager) == CAL_BDD_OVERFLOWED){
       /* Abort, may be we should clean up a little bit */
       fprintf(stderr,"Bdd Overflow: Aborting\n");
+      /* Give the references on the results of the executed stages back */
+      for (i=0; i<bddManager->pipelineDepth-pipelineDepth; i++){
+        for (node=bddManager->requestNodeListArray[i]; node; node = nextNode){
+          nextNode = CalBddNodeGetNextBddNode(node);
+          CalBddNodeGetThenBdd(node, thenBdd);
+          CalBddDcrRefCount(thenBdd);
+        }
+      }
+      Cal_PipelineQuit(bddManager);
       return 0;
     }
     requestNodeListArray += bddManager->depth;
-- 
2.43.0


From ee5464c9d38cc2814d811b107e270545dcdd0b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:34 +0000
Subject: [PATCH 22/30] fix: an unknown operation does not leave the pipeline
 started

---
 src/calPipeline.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/calPipeline.c b/src/calPipeline.c
index 3c15ac1..dd9b00b 100644
--- a/src/calPipeline.c
+++ b/src/calPipeline.c
@@ -115,7 +115,6 @@ Cal_PipelineInit(Cal_BddManager bddManager, Cal_BddOp_t bddOp)
     return 0;
   }
   else{
-    bddManager->pipelineState = CREATE;
     switch(bddOp){
     case CAL_AND :
       bddManager->pipelineFn = CalOpAnd;
@@ -130,6 +129,7 @@ Cal_PipelineInit(Cal_BddManager bddManager, Cal_BddOp_t bddOp)
       CalBddWarningMessage("Unknown Bdd Operation type");
       return 0;
     }
+    bddManager->pipelineState = CREATE;
     return 1;
   }
 }
-- 
2.43.0


From 724f28e3fc21e9021399fba1335766cc565abb11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:52 +0000
Subject: [PATCH 23/30] fix: breadth-first reordering gives the forwarding
 nodes back to the free lists

---
 src/calReorderBF.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/calReorderBF.c b/src/calReorderBF.c
index 6ed8128..0e468c8 100644
--- a/src/calReorderBF.c
+++ b/src/calReorderBF.c
@@ -140,6 +140,7 @@ BddReorderFixForwardingNodes(Cal_BddManager bddManager,
   CalHashTable_t *uniqueTableForId =
       bddManager->uniqueTable[id];
   CalBddNode_t *bddNode, *nextBddNode;
+  CalBddNode_t *lastBddNode = Cal_Nil(CalBddNode_t);
   Cal_Bdd_t thenBdd;
 
   /* These are the forwarding nodes. */
@@ -151,6 +152,7 @@ BddReorderFixForwardingNodes(Cal_BddManager bddManager,
     if (CalBddIsForwarded(thenBdd)) {
       CalBddForward(thenBdd);
       CalBddNodePutThenBdd(bddNode, thenBdd);
+      lastBddNode = bddNode;
     }
     else {
       /* there should not be anymore double forwarding */
@@ -159,9 +161,12 @@ BddReorderFixForwardingNodes(Cal_BddManager bddManager,
     Cal_Assert(CalBddIsForwarded(thenBdd) == 0);
   }
   /* Adjust the list */
-  uniqueTableForId->endNode->nextBddNode =
-      uniqueTableForId->startNode.nextBddNode;
-  uniqueTableForId->startNode.nextBddNode = bddNode;
+  if (lastBddNode && bddNode){
+    uniqueTableForId->endNode->nextBddNode = requestNodeList;
+    uniqueTableForId->startNode.nextBddNode = bddNode;
+    lastBddNode->nextBddNode = Cal_Nil(CalBddNode_t);
+    uniqueTableForId->endNode = lastBddNode;
+  }
 }
 
 /**Function********************************************************************
@@ -521,6 +526,9 @@ BddReorderSwapVarIndex(Cal_BddManager_t * bddManager, int varIndex,
     endNode->nextBddNode = bddNode;
     endNode = bddNode;
     */
+    if (startNode == Cal_Nil(CalBddNode_t)){
+      uniqueTableForId->endNode = bddNode;
+    }
     bddNode->nextBddNode = startNode;
     startNode = bddNode;
 
-- 
2.43.0


From 8541c4e1bb7f8816b896fd4926fb4af8ca11a514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:11 +0000
Subject: [PATCH 24/30] fix: end the result lists of pairwise operations with a
 null diagram

---
 src/calBddOp.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/calBddOp.c b/src/calBddOp.c
index 2630b10..5995e8c 100644
--- a/src/calBddOp.c
+++ b/src/calBddOp.c
@@ -267,7 +267,8 @@ Cal_BddPairwiseAnd(Cal_BddManager bddManager, Cal_Bdd *userBddArray)
     bddArray[i] = CalBddGetInternalBdd(bddManager, userBddArray[i]);
   }
   resultArray =  BddArrayOpBF(bddManager, bddArray, num, CalOpAnd);
-  userResultArray = Cal_MemAlloc(Cal_Bdd, num/2);
+  userResultArray = Cal_MemAlloc(Cal_Bdd, num/2+1);
+  userResultArray[num/2] = Cal_BddNull(bddManager);
   for (i=0; i<num/2; i++){
     userResultArray[i] = CalBddGetExternalBdd(bddManager, resultArray[i]);
   }
@@ -309,7 +310,8 @@ Cal_BddPairwiseOr(Cal_BddManager bddManager, Cal_Bdd *userBddArray)
     bddArray[i] = CalBddGetInternalBdd(bddManager, userBddArray[i]);
   }
   resultArray =  BddArrayOpBF(bddManager, bddArray, num, CalOpOr);
-  userResultArray = Cal_MemAlloc(Cal_Bdd, num/2);
+  userResultArray = Cal_MemAlloc(Cal_Bdd, num/2+1);
+  userResultArray[num/2] = Cal_BddNull(bddManager);
   for (i=0; i<num/2; i++){
     userResultArray[i] = CalBddGetExternalBdd(bddManager, resultArray[i]);
   }
@@ -351,7 +353,8 @@ Cal_BddPairwiseXor(Cal_BddManager bddManager, Cal_Bdd *userBddArray)
     bddArray[i] = CalBddGetInternalBdd(bddManager, userBddArray[i]);
   }
   resultArray =  BddArrayOpBF(bddManager, bddArray, num, CalOpXor);
-  userResultArray = Cal_MemAlloc(Cal_Bdd, num/2);
+  userResultArray = Cal_MemAlloc(Cal_Bdd, num/2+1);
+  userResultArray[num/2] = Cal_BddNull(bddManager);
   for (i=0; i<num/2; i++){
     userResultArray[i] = CalBddGetExternalBdd(bddManager, resultArray[i]);
   }
-- 
2.43.0


From 03533e4105932e389a0be2ad719b42535fb5a3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:28 +0000
Subject: [PATCH 25/30] fix: C++ pairwise operations release the C array and
 accept a missing one

---
 src/calObj.hh | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/calObj.hh b/src/calObj.hh
index 4ebd6d1..f6e47a6 100644
--- a/src/calObj.hh
+++ b/src/calObj.hh
@@ -741,12 +741,12 @@ protected:
   {
     std::vector<BDD> res;
 
+    if (bddArray == NULL) { return res; }
+
     for (int i = 0; Cal_BddIsBddNull(bddManager, bddArray[i]) == 0; i++){
-      if (CalBddPreProcessing(bddManager, 1, bddArray[i]) == 0){
-        return std::vector<BDD>();
-      }
       res.push_back(BDD(bddManager, bddArray[i]));
     }
+    Cal_MemFree(bddArray);
 
     return res;
   }
-- 
2.43.0


From 9d4faa74640872f65782d63efd3ef819e81db835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:30 +0000
Subject: [PATCH 26/30] fix: C++ profiles return the counts they are filled
 with

---
 src/calObj.hh | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/calObj.hh b/src/calObj.hh
index f6e47a6..3925fe4 100644
--- a/src/calObj.hh
+++ b/src/calObj.hh
@@ -598,7 +598,7 @@ public:
   std::vector<long> Profile(bool negout = true) const
   {
     std::vector<long> results;
-    results.reserve(Cal_BddVars(this->_bddManager)+1);
+    results.resize(Cal_BddVars(this->_bddManager)+1);
     Cal_BddProfile(this->_bddManager, this->_bdd, results.data(), negout);
     return results;
   }
@@ -630,7 +630,7 @@ public:
   std::vector<long> FunctionProfile() const
   {
     std::vector<long> results;
-    results.reserve(Cal_BddVars(this->_bddManager)+1);
+    results.resize(Cal_BddVars(this->_bddManager)+1);
     Cal_BddFunctionProfile(this->_bddManager, this->_bdd, results.data());
     return results;
   }
@@ -1956,7 +1956,7 @@ public:
       BDD::C_Bdd_vector(this->_bddManager, std::move(begin), std::move(end));
 
     std::vector<long> levelCounts;
-    levelCounts.reserve(this->Vars()+1);
+    levelCounts.resize(this->Vars()+1);
 
     Cal_BddProfileMultiple(this->_bddManager,
                            c_arg.data(),
@@ -2067,7 +2067,7 @@ public:
       BDD::C_Bdd_vector(this->_bddManager, std::move(begin), std::move(end));
 
     std::vector<long> funcCounts;
-    funcCounts.reserve(Vars()+1);
+    funcCounts.resize(Vars()+1);
 
     Cal_BddFunctionProfileMultiple(this->_bddManager, c_arg.data(), funcCounts.data());
 
-- 
2.43.0


From 3fdb0ad816962f4c8522d0a77874e0f5b16c9592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:29 +0000
Subject: [PATCH 27/30] fix: no automatic garbage collection when it is turned
 off

CalBddPostProcessing ignored the mode set by Cal_BddSetGCMode.
---
 src/calUtil.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/calUtil.c b/src/calUtil.c
index 66df24e..5336e4c 100644
--- a/src/calUtil.c
+++ b/src/calUtil.c
@@ -218,12 +218,13 @@ CalBddPostProcessing(Cal_BddManager_t *bddManager)
   bddManager->gcCheck = CAL_GC_CHECK;
   if(bddManager->numNodes > bddManager->uniqueTableGCLimit){
     long origNodes = bddManager->numNodes;
-    Cal_BddManagerGC(bddManager);
+    if (bddManager->gcMode != 0) Cal_BddManagerGC(bddManager);
     if ((bddManager->numNodes > bddManager->reorderingThreshold) &&
         (3*bddManager->numNodes > 2* bddManager->uniqueTableGCLimit) &&
         (bddManager->reorderTechnique != CAL_REORDER_NONE)){
       CalCacheTableTwoFlush(bddManager->cacheTable);
       if (bddManager->reorderMethod == CAL_REORDER_METHOD_BF){
+        if (bddManager->gcMode == 0) Cal_BddManagerGC(bddManager);
         CalBddReorderAuxBF(bddManager);
       }
       else{
@@ -233,8 +234,9 @@ CalBddPostProcessing(Cal_BddManager_t *bddManager)
     else {
       /* Check if we should repack */
       Cal_Assert(CalCheckAllValidity(bddManager));
-      if (bddManager->numNodes <
-          bddManager->repackAfterGCThreshold*origNodes){
+      if ((bddManager->gcMode != 0) &&
+          (bddManager->numNodes <
+           bddManager->repackAfterGCThreshold*origNodes)){
         CalRepackNodesAfterGC(bddManager);
       }
       Cal_Assert(CalCheckAllValidity(bddManager));
-- 
2.43.0


From 0fe6496f50767f1c57d7a4cc86ddbf552479f606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:02:35 +0000
Subject: [PATCH 28/30] fix: Cal_AssociationInit counts one reference per entry
 it keeps

A pair list that names a variable twice keeps the last function only, but
every function of the list got a reference. Cal_AssociationQuit releases
one per entry, so the others stayed referenced for ever.
---
 src/calAssociation.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/calAssociation.c b/src/calAssociation.c
index d46fe3d..9d5716c 100644
--- a/src/calAssociation.c
+++ b/src/calAssociation.c
@@ -173,9 +173,11 @@ Cal_AssociationInit(Cal_BddManager bddManager,
   p->refCount = 1;
   /* Protect BDDs in the association. */
   if(pairs){
-    for(i = 0; i < numAssociations; i++){
-      f = associationInfo[(i<<1)+1];
-      CalBddIcrRefCount(f);
+    for(i = 1; i <= bddManager->numVars; i++){
+      f = varAssociation[i];
+      if(!CalBddIsBddNull(bddManager, f)){
+        CalBddIcrRefCount(f);
+      }
     }
   }
   Cal_MemFree(associationInfo);
-- 
2.43.0


From a0be1163018c7b6c9e6f3c3a0d9f2a8a42a45603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:20:22 +0000
Subject: [PATCH 29/30] fix: validity assertions after a collection only when
 one was made

With the garbage collection turned off, nodes without references are still
in the tables when CalBddPostProcessing checks them in debug builds.
---
 src/calUtil.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/calUtil.c b/src/calUtil.c
index 5336e4c..ff335f1 100644
--- a/src/calUtil.c
+++ b/src/calUtil.c
@@ -231,12 +231,11 @@ CalBddPostProcessing(Cal_BddManager_t *bddManager)
         CalBddReorderAuxDF(bddManager);
       }
     }
-    else {
+    else if (bddManager->gcMode != 0){
       /* Check if we should repack */
       Cal_Assert(CalCheckAllValidity(bddManager));
-      if ((bddManager->gcMode != 0) &&
-          (bddManager->numNodes <
-           bddManager->repackAfterGCThreshold*origNodes)){
+      if (bddManager->numNodes <
+          bddManager->repackAfterGCThreshold*origNodes){
         CalRepackNodesAfterGC(bddManager);
       }
       Cal_Assert(CalCheckAllValidity(bddManager));
-- 
2.43.0


From 30768ff6f35305c50f25633261cd63757e894084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:20:44 +0000
Subject: [PATCH 30/30] fix: release the old bins of the tables packed after
 window reordering

CalBddPackNodesForMultipleIds gave each packed unique table new bins and
never released the old ones.
---
 src/calHashTable.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/calHashTable.c b/src/calHashTable.c
index c9e187b..b9500dc 100644
--- a/src/calHashTable.c
+++ b/src/calHashTable.c
@@ -799,6 +799,8 @@ CalBddPackNodesForMultipleIds(Cal_BddManager_t *bddManager,
           Cal_Assert(!(CalBddNodeIsRefCountZero(dupNode)));
         }
       }
+      /* Free the old bins */
+      Cal_MemFree(oldBins);
 
 #ifdef __FOO__
       /*fprintf(stdout,"Repacking id = %d, index = %d\n", id, index+level);*/
-- 
2.43.0

