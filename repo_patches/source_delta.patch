From 1c0b71068188833943b1f9072333828bea5ebca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:11 +0000
Subject: [PATCH 01/32] Add runtime verification hooks (guarded by CAL_VERIF)

---
 src/calCacheTableTwo.c |   4 +
 src/calInt.h           |  21 +++
 src/calVerif.c         | 328 +++++++++++++++++++++++++++++++++++++++++
 src/calVerif.h         |  70 +++++++++
 4 files changed, 423 insertions(+)
 create mode 100644 src/calVerif.c
 create mode 100644 src/calVerif.h

diff --git a/src/calCacheTableTwo.c b/src/calCacheTableTwo.c
index 8450793..cb874ec 100644
--- a/src/calCacheTableTwo.c
+++ b/src/calCacheTableTwo.c
@@ -43,6 +43,10 @@
 /*---------------------------------------------------------------------------*/
 /* cache table management related constants */
 #define CACHE_TABLE_DEFAULT_SIZE_INDEX 16
+#ifdef CAL_VERIF
+#undef CACHE_TABLE_DEFAULT_SIZE_INDEX
+#define CACHE_TABLE_DEFAULT_SIZE_INDEX calVerifCacheSizeIndex
+#endif
 #define CACHE_TABLE_DEFAULT_CACHE_RATIO 4
 
 /*---------------------------------------------------------------------------*/
diff --git a/src/calInt.h b/src/calInt.h
index 0a88629..4de167c 100644
--- a/src/calInt.h
+++ b/src/calInt.h
@@ -91,6 +91,19 @@
 
 /* End Performance Related Constants */
 
+#ifdef CAL_VERIF
+/* Runtime verification build: make the thresholds above tunable at run time,
+   such that collection, repacking and growth of tables are also reached by
+   small workloads. */
+#include "calVerif.h"
+#undef CAL_MIN_GC_LIMIT
+#define CAL_MIN_GC_LIMIT calVerifMinGCLimit
+#undef CAL_NUM_PAGES_THRESHOLD
+#define CAL_NUM_PAGES_THRESHOLD calVerifNumPagesThreshold
+#undef CAL_GC_CHECK
+#define CAL_GC_CHECK calVerifGCCheck
+#endif /* CAL_VERIF */
+
 /* Memory Management related constants */
 #define NODE_SIZE sizeof(CalBddNode_t)		/* sizeof(CalBddNode_t) */
 
@@ -219,6 +232,10 @@
 /* Hash table management related constants. */
 #define HASH_TABLE_DEFAULT_MAX_DENSITY 5
 #define HASH_TABLE_DEFAULT_SIZE_INDEX 8
+#ifdef CAL_VERIF
+#undef HASH_TABLE_DEFAULT_SIZE_INDEX
+#define HASH_TABLE_DEFAULT_SIZE_INDEX calVerifHashSizeIndex
+#endif
 #define HASH_TABLE_DEFAULT_NUM_BINS TABLE_SIZE(HASH_TABLE_DEFAULT_SIZE_INDEX)
 #define HASH_TABLE_DEFAULT_MAX_CAPACITY HASH_TABLE_DEFAULT_NUM_BINS*HASH_TABLE_DEFAULT_MAX_DENSITY
 extern unsigned long calPrimes[];
@@ -244,6 +261,10 @@ extern unsigned long calPrimes[];
 
 #define  CAL_LARGE_BDD (1<<19) /* For smaller BDDs, we would
                                   use depth-first exist and forall routines */
+#ifdef CAL_VERIF
+#undef CAL_LARGE_BDD
+#define CAL_LARGE_BDD calVerifLargeBdd
+#endif
 
 
 /*---------------------------------------------------------------------------*/
diff --git a/src/calVerif.c b/src/calVerif.c
new file mode 100644
index 0000000..80e10bb
--- /dev/null
+++ b/src/calVerif.c
@@ -0,0 +1,328 @@
+/**CFile***********************************************************************
+
+  FileName    [calVerif.c]
+
+  PackageName [cal]
+
+  Synopsis    [Observation points and tunable thresholds for runtime
+               verification. Compiles to nothing unless CAL_VERIF is defined.]
+
+******************************************************************************/
+
+#ifdef CAL_VERIF
+
+#include "calInt.h"
+
+long calVerifMinGCLimit = 10000;
+int calVerifGCCheck = 100;
+int calVerifNumPagesThreshold = 3;
+long calVerifLargeBdd = (1<<19);
+int calVerifHashSizeIndex = 8;
+int calVerifCacheSizeIndex = 16;
+
+/**Function********************************************************************
+******************************************************************************/
+CalVerifEdge_t
+CalVerifRoot(Cal_BddManager bddManager, Cal_Bdd userBdd)
+{
+  Cal_Bdd_t f = CalBddGetInternalBdd(bddManager, userBdd);
+  CalVerifEdge_t edge;
+  edge.node = CalBddGetBddNode(f);
+  edge.id = CalBddGetBddId(f);
+  return edge;
+}
+
+/**Function********************************************************************
+******************************************************************************/
+void
+CalVerifExpand(CalVerifEdge_t edge, CalVerifEdge_t *thenEdge,
+               CalVerifEdge_t *elseEdge)
+{
+  Cal_Bdd_t f, f1, f0;
+  CalBddPutBddNode(f, (CalBddNode_t *)edge.node);
+  CalBddPutBddId(f, edge.id);
+  CalBddGetThenBdd(f, f1);
+  CalBddGetElseBdd(f, f0);
+  thenEdge->node = CalBddGetBddNode(f1);
+  thenEdge->id = CalBddGetBddId(f1);
+  elseEdge->node = CalBddGetBddNode(f0);
+  elseEdge->id = CalBddGetBddId(f0);
+}
+
+/**Function********************************************************************
+******************************************************************************/
+int
+CalVerifIsOne(Cal_BddManager bddManager, CalVerifEdge_t edge)
+{
+  return edge.node == (void *)CalBddGetBddNode(bddManager->bddOne);
+}
+
+/**Function********************************************************************
+******************************************************************************/
+int
+CalVerifIsZero(Cal_BddManager bddManager, CalVerifEdge_t edge)
+{
+  return edge.node == (void *)CalBddGetBddNode(bddManager->bddZero);
+}
+
+/**Function********************************************************************
+******************************************************************************/
+int
+CalVerifHandleRefCount(Cal_Bdd userBdd)
+{
+  CalBddNode_t *bddNode = CAL_BDD_POINTER(userBdd);
+  Cal_BddRefCount_t refCount;
+  CalBddNodeGetRefCount(bddNode, refCount);
+  return refCount;
+}
+
+/**Function********************************************************************
+******************************************************************************/
+long
+CalVerifIndexToId(Cal_BddManager bddManager, long index)
+{
+  if (index < 0 || index >= bddManager->numVars) return -1;
+  return bddManager->indexToId[index];
+}
+
+/**Function********************************************************************
+******************************************************************************/
+long
+CalVerifIdToIndex(Cal_BddManager bddManager, long id)
+{
+  if (id < 1 || id > bddManager->numVars) return -1;
+  return bddManager->idToIndex[id];
+}
+
+/**Function********************************************************************
+  Reference counting map from node to the number of references found.
+******************************************************************************/
+typedef struct {
+  CalBddNode_t *node;
+  long count;
+} VerifEntry_t;
+
+typedef struct {
+  VerifEntry_t *entries;
+  unsigned long size; /* power of two */
+} VerifMap_t;
+
+static VerifEntry_t *
+VerifMapFind(VerifMap_t *map, CalBddNode_t *node)
+{
+  unsigned long i = (((CalAddress_t)node >> 4) * 0x9E3779B97F4A7C15UL) >> 20;
+  for (;; i++){
+    VerifEntry_t *entry = &map->entries[i & (map->size - 1)];
+    if (entry->node == node || entry->node == 0) return entry;
+  }
+}
+
+static int
+VerifAddRef(Cal_BddManager bddManager, VerifMap_t *map, Cal_Bdd_t f)
+{
+  VerifEntry_t *entry;
+  CalBddNode_t *node = CAL_BDD_POINTER(CalBddGetBddNode(f));
+  if (node == CAL_BDD_POINTER(CalBddGetBddNode(bddManager->bddOne))) return 1;
+  entry = VerifMapFind(map, node);
+  if (entry->node == 0) return 0;
+  entry->count++;
+  return 1;
+}
+
+#define VERIF_FAIL(...)                                 \
+  {                                                     \
+    snprintf(buffer, bufferSize, __VA_ARGS__);          \
+    if (map.entries) free(map.entries);                 \
+    return 0;                                           \
+  }
+
+/**Function********************************************************************
+******************************************************************************/
+int
+CalVerifCheckStructure(Cal_BddManager bddManager, char *buffer, int bufferSize)
+{
+  VerifMap_t map;
+  int id, i, oneId;
+  long bin, numEntries, total = 0, index;
+  CalHashTable_t *table;
+  CalBddNode_t *node, *next, *other;
+  CalAssociation_t *assoc;
+  Cal_Bdd_t f1, f0;
+  Cal_BddRefCount_t refCount;
+  VerifEntry_t *entry;
+
+  map.entries = 0;
+  buffer[0] = 0;
+
+  /* The order is a permutation */
+  for (index = 0; index < bddManager->numVars; index++){
+    id = bddManager->indexToId[index];
+    if (id < 1 || id > bddManager->numVars || bddManager->idToIndex[id] != index)
+      VERIF_FAIL("order: index %ld has id %d whose index differs", index, id);
+  }
+
+  for (id = 1; id <= bddManager->numVars; id++)
+    total += bddManager->uniqueTable[id]->numEntries;
+  if ((long)bddManager->numNodes != total + 1)
+    VERIF_FAIL("count: node counter is %ld but tables have %ld entries",
+               (long)bddManager->numNodes, total);
+  for (map.size = 64; map.size < 2*(unsigned long)total + 16; map.size <<= 1);
+  map.entries = (VerifEntry_t *)calloc(map.size, sizeof(VerifEntry_t));
+
+  /* Register all nodes */
+  for (id = 1; id <= bddManager->numVars; id++){
+    table = bddManager->uniqueTable[id];
+    numEntries = 0;
+    for (bin = 0; bin < table->numBins; bin++){
+      for (node = table->bins[bin]; node; node = next){
+        next = CalBddNodeGetNextBddNode(node);
+        if (++numEntries > table->numEntries)
+          VERIF_FAIL("table: more nodes than counted (%ld) for id %d",
+                     table->numEntries, id);
+        entry = VerifMapFind(&map, node);
+        if (entry->node) VERIF_FAIL("table: node listed twice, id %d", id);
+        entry->node = node;
+      }
+    }
+    if (numEntries != table->numEntries)
+      VERIF_FAIL("table: %ld nodes but %ld counted for id %d", numEntries,
+                 table->numEntries, id);
+  }
+
+  /* Check each node, and count references */
+  for (id = 1; id <= bddManager->numVars; id++){
+    table = bddManager->uniqueTable[id];
+    for (bin = 0; bin < table->numBins; bin++){
+      for (node = table->bins[bin]; node; node = next){
+        next = CalBddNodeGetNextBddNode(node);
+        CalBddNodeGetThenBdd(node, f1);
+        CalBddNodeGetElseBdd(node, f0);
+        if (!CalBddIsOutPos(f1))
+          VERIF_FAIL("node: complemented then-edge, id %d", id);
+        if (CalBddIsEqual(f1, f0))
+          VERIF_FAIL("node: equal children, id %d", id);
+        if (VerifAddRef(bddManager, &map, f1) == 0)
+          VERIF_FAIL("node: then-child not in a unique table, id %d", id);
+        if (VerifAddRef(bddManager, &map, f0) == 0)
+          VERIF_FAIL("node: else-child not in a unique table, id %d", id);
+        oneId = CalBddGetBddId(f1);
+        if (oneId > bddManager->numVars ||
+            bddManager->idToIndex[id] >= bddManager->idToIndex[oneId])
+          VERIF_FAIL("node: then-child id %d not below id %d", oneId, id);
+        oneId = CalBddGetBddId(f0);
+        if (oneId > bddManager->numVars ||
+            bddManager->idToIndex[id] >= bddManager->idToIndex[oneId])
+          VERIF_FAIL("node: else-child id %d not below id %d", oneId, id);
+        if (CalDoHash2(CalBddGetBddNode(f1), CalBddGetBddNode(f0), table) !=
+            (CalAddress_t)bin)
+          VERIF_FAIL("node: in wrong bin, id %d", id);
+        for (other = next; other; other = CalBddNodeGetNextBddNode(other)){
+          Cal_Bdd_t g1, g0;
+          CalBddNodeGetThenBdd(other, g1);
+          CalBddNodeGetElseBdd(other, g0);
+          if (CalBddIsEqual(f1, g1) && CalBddIsEqual(f0, g0))
+            VERIF_FAIL("node: duplicate node, id %d", id);
+        }
+      }
+    }
+  }
+
+  /* References from handles */
+  table = bddManager->uniqueTable[0];
+  numEntries = 0;
+  for (bin = 0; bin < table->numBins; bin++){
+    for (node = table->bins[bin]; node; node = CalBddNodeGetNextBddNode(node)){
+      if (++numEntries > table->numEntries)
+        VERIF_FAIL("handles: more than counted (%ld)", table->numEntries);
+      CalBddNodeGetThenBdd(node, f1);
+      if (VerifAddRef(bddManager, &map, f1) == 0)
+        VERIF_FAIL("handles: node of a handle is not in a unique table");
+    }
+  }
+
+  /* References from associations */
+  for (assoc = bddManager->associationList; ; assoc = assoc->next){
+    if (assoc == Cal_Nil(CalAssociation_t)) assoc = bddManager->tempAssociation;
+    for (i = 1; i <= bddManager->numVars; i++){
+      if (CalBddGetBddId(assoc->varAssociation[i]) != CAL_BDD_NULL_ID){
+        if (VerifAddRef(bddManager, &map, assoc->varAssociation[i]) == 0)
+          VERIF_FAIL("association %d: node for id %d is not in a unique table",
+                     assoc->id, i);
+      }
+    }
+    if (assoc == bddManager->tempAssociation) break;
+  }
+
+  /* Compare with reference counts; requests of a pipeline also hold some */
+  for (id = 1; id <= bddManager->numVars; id++){
+    table = bddManager->uniqueTable[id];
+    for (bin = 0; bin < table->numBins; bin++){
+      for (node = table->bins[bin]; node; node = CalBddNodeGetNextBddNode(node)){
+        CalBddNodeGetRefCount(node, refCount);
+        entry = VerifMapFind(&map, node);
+        if (refCount == CAL_MAX_REF_COUNT) continue;
+        if (refCount < entry->count)
+          VERIF_FAIL("refcount: node of id %d has count %d but %ld references",
+                     id, (int)refCount, entry->count);
+        if (refCount > entry->count && bddManager->pipelineState == READY)
+          VERIF_FAIL("refcount: node of id %d leaks, count %d but %ld references",
+                     id, (int)refCount, entry->count);
+      }
+    }
+  }
+  free(map.entries);
+  return 1;
+}
+
+/**Function********************************************************************
+******************************************************************************/
+void
+CalVerifScribbleFreeNodes(Cal_BddManager bddManager)
+{
+  int id;
+  CalBddNode_t *node;
+  for (id = 0; id <= bddManager->numVars; id++){
+    node = bddManager->nodeManagerArray[id]->freeNodeList;
+    for (; node; node = CAL_BDD_POINTER(node->nextBddNode)){
+      if ((CalAddress_t)node->nextBddNode & 0xf) break;
+      node->thenBddNode = (CalBddNode_t *)0xdead0000dead0000UL;
+      node->elseBddNode = (CalBddNode_t *)0xdead0000dead0000UL;
+      node->thenBddId = 0xdead;
+      node->elseBddId = 0xdead;
+    }
+  }
+}
+
+/**Function********************************************************************
+******************************************************************************/
+long
+CalVerifNumGC(Cal_BddManager bddManager)
+{
+  return bddManager->numGC;
+}
+
+/**Function********************************************************************
+******************************************************************************/
+long
+CalVerifNumReorderings(Cal_BddManager bddManager)
+{
+  return bddManager->numReorderings;
+}
+
+/**Function********************************************************************
+******************************************************************************/
+long
+CalVerifNumSwaps(Cal_BddManager bddManager)
+{
+  return bddManager->numSwaps + bddManager->numTrivialSwaps;
+}
+
+/**Function********************************************************************
+******************************************************************************/
+long
+CalVerifNumHandles(Cal_BddManager bddManager)
+{
+  return bddManager->uniqueTable[0]->numEntries;
+}
+
+#endif /* CAL_VERIF */
diff --git a/src/calVerif.h b/src/calVerif.h
new file mode 100644
index 0000000..9e59cb7
--- /dev/null
+++ b/src/calVerif.h
@@ -0,0 +1,70 @@
+/**CHeaderFile*****************************************************************
+
+  FileName    [calVerif.h]
+
+  PackageName [cal]
+
+  Synopsis    [Observation points and tunable thresholds for runtime
+               verification. Everything in here only exists when compiling with
+               CAL_VERIF defined.]
+
+******************************************************************************/
+
+#ifndef _CALVERIF
+#define _CALVERIF
+
+#ifdef CAL_VERIF
+
+#include "cal.h"
+
+#ifdef __cplusplus
+extern "C" {
+#endif
+
+/* Thresholds which are compile-time constants otherwise. */
+extern long calVerifMinGCLimit;       /* CAL_MIN_GC_LIMIT */
+extern int calVerifGCCheck;           /* CAL_GC_CHECK */
+extern int calVerifNumPagesThreshold; /* CAL_NUM_PAGES_THRESHOLD */
+extern long calVerifLargeBdd;         /* CAL_LARGE_BDD */
+extern int calVerifHashSizeIndex;     /* HASH_TABLE_DEFAULT_SIZE_INDEX */
+extern int calVerifCacheSizeIndex;    /* CACHE_TABLE_DEFAULT_SIZE_INDEX */
+
+/* A (possibly complemented) edge to a node. */
+typedef struct {
+  void *node;
+  unsigned short id; /* 0 for the constants */
+} CalVerifEdge_t;
+
+/* Read-only traversal. */
+extern CalVerifEdge_t CalVerifRoot(Cal_BddManager bddManager, Cal_Bdd userBdd);
+extern void CalVerifExpand(CalVerifEdge_t edge, CalVerifEdge_t *thenEdge, CalVerifEdge_t *elseEdge);
+extern int CalVerifIsOne(Cal_BddManager bddManager, CalVerifEdge_t edge);
+extern int CalVerifIsZero(Cal_BddManager bddManager, CalVerifEdge_t edge);
+
+/* Number of references held on a handle (saturating at 255). */
+extern int CalVerifHandleRefCount(Cal_Bdd userBdd);
+
+/* Order without side effects: id at an index, index of an id. */
+extern long CalVerifIndexToId(Cal_BddManager bddManager, long index);
+extern long CalVerifIdToIndex(Cal_BddManager bddManager, long id);
+
+/* Walks the unique tables, handles and associations and writes a description
+   of the first inconsistency into buffer. Returns 1 if there is none. */
+extern int CalVerifCheckStructure(Cal_BddManager bddManager, char *buffer, int bufferSize);
+
+/* Fills the unused nodes of all node managers with junk. */
+extern void CalVerifScribbleFreeNodes(Cal_BddManager bddManager);
+
+/* Event counters. */
+extern long CalVerifNumGC(Cal_BddManager bddManager);
+extern long CalVerifNumReorderings(Cal_BddManager bddManager);
+extern long CalVerifNumSwaps(Cal_BddManager bddManager);
+extern long CalVerifNumHandles(Cal_BddManager bddManager);
+
+#ifdef __cplusplus
+}
+#endif
+
+#endif /* CAL_VERIF */
+
+#endif /* _CALVERIF */
-- 
2.43.0


From 3c0c9713d74558d8c32b8c993df96cc1e2d59135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:04 +0000
Subject: [PATCH 02/32] Verification hooks: count unreachable and saturated
 nodes

---
 src/calVerif.c | 94 ++++++++++++++++++++++++++++++++++++++++++++++++++
 src/calVerif.h |  8 +++++
 2 files changed, 102 insertions(+)

diff --git a/src/calVerif.c b/src/calVerif.c
index 80e10bb..1dc04ca 100644
--- a/src/calVerif.c
+++ b/src/calVerif.c
@@ -274,6 +274,100 @@ CalVerifCheckStructure(Cal_BddManager bddManager, char *buffer, int bufferSize)
   return 1;
 }
 
+/**Function********************************************************************
+  Marks everything reachable from f.
+******************************************************************************/
+static void
+VerifMark(Cal_BddManager bddManager, VerifMap_t *map, Cal_Bdd_t f)
+{
+  VerifEntry_t *entry;
+  Cal_Bdd_t f1, f0;
+  CalBddNode_t *node = CAL_BDD_POINTER(CalBddGetBddNode(f));
+  if (node == CAL_BDD_POINTER(CalBddGetBddNode(bddManager->bddOne))) return;
+  entry = VerifMapFind(map, node);
+  if (entry->node == 0 || entry->count) return;
+  entry->count = 1;
+  CalBddNodeGetThenBdd(node, f1);
+  CalBddNodeGetElseBdd(node, f0);
+  VerifMark(bddManager, map, f1);
+  VerifMark(bddManager, map, f0);
+}
+
+/**Function********************************************************************
+******************************************************************************/
+long
+CalVerifNumGarbage(Cal_BddManager bddManager)
+{
+  VerifMap_t map;
+  long total = 0, bin, garbage = 0;
+  int id, i;
+  CalHashTable_t *table;
+  CalBddNode_t *node;
+  CalAssociation_t *assoc;
+  Cal_Bdd_t f;
+  Cal_BddRefCount_t refCount;
+
+  for (id = 1; id <= bddManager->numVars; id++)
+    total += bddManager->uniqueTable[id]->numEntries;
+  for (map.size = 64; map.size < 2*(unsigned long)total + 16; map.size <<= 1);
+  map.entries = (VerifEntry_t *)calloc(map.size, sizeof(VerifEntry_t));
+  for (id = 1; id <= bddManager->numVars; id++){
+    table = bddManager->uniqueTable[id];
+    for (bin = 0; bin < table->numBins; bin++)
+      for (node = table->bins[bin]; node; node = CalBddNodeGetNextBddNode(node))
+        VerifMapFind(&map, node)->node = node;
+  }
+  for (id = 0; id <= bddManager->numVars; id++){
+    table = bddManager->uniqueTable[id];
+    for (bin = 0; bin < table->numBins; bin++)
+      for (node = table->bins[bin]; node; node = CalBddNodeGetNextBddNode(node)){
+        CalBddNodeGetRefCount(node, refCount);
+        if (id && refCount < CAL_MAX_REF_COUNT) continue;
+        if (id){
+          CalBddPutBddNode(f, node);
+          CalBddPutBddId(f, id);
+        }
+        else {
+          CalBddNodeGetThenBdd(node, f);
+        }
+        VerifMark(bddManager, &map, f);
+      }
+  }
+  for (assoc = bddManager->associationList; ; assoc = assoc->next){
+    if (assoc == Cal_Nil(CalAssociation_t)) assoc = bddManager->tempAssociation;
+    for (i = 1; i <= bddManager->numVars; i++)
+      if (CalBddGetBddId(assoc->varAssociation[i]) != CAL_BDD_NULL_ID)
+        VerifMark(bddManager, &map, assoc->varAssociation[i]);
+    if (assoc == bddManager->tempAssociation) break;
+  }
+  for (bin = 0; bin < (long)map.size; bin++)
+    if (map.entries[bin].node && map.entries[bin].count == 0) garbage++;
+  free(map.entries);
+  return garbage;
+}
+
+/**Function********************************************************************
+******************************************************************************/
+long
+CalVerifNumSaturated(Cal_BddManager bddManager)
+{
+  long bin, saturated = 0;
+  int id;
+  CalHashTable_t *table;
+  CalBddNode_t *node;
+  Cal_BddRefCount_t refCount;
+  for (id = 0; id <= bddManager->numVars; id++){
+    table = bddManager->uniqueTable[id];
+    for (bin = 0; bin < table->numBins; bin++)
+      for (node = table->bins[bin]; node; node = CalBddNodeGetNextBddNode(node)){
+        CalBddNodeGetRefCount(node, refCount);
+        if (refCount == CAL_MAX_REF_COUNT) saturated++;
+      }
+  }
+  /* the handle of the constants and the variables' own nodes always are */
+  return saturated - 1 - bddManager->numVars;
+}
+
 /**Function********************************************************************
 ******************************************************************************/
 void
diff --git a/src/calVerif.h b/src/calVerif.h
index 9e59cb7..8015649 100644
--- a/src/calVerif.h
+++ b/src/calVerif.h
@@ -52,6 +52,14 @@ extern long CalVerifIdToIndex(Cal_BddManager bddManager, long id);
    of the first inconsistency into buffer. Returns 1 if there is none. */
 extern int CalVerifCheckStructure(Cal_BddManager bddManager, char *buffer, int bufferSize);
 
+/* Nodes that nothing refers to (other than nodes whose reference count has
+   saturated, which are kept forever). */
+extern long CalVerifNumGarbage(Cal_BddManager bddManager);
+
+/* Nodes and handles with a saturated reference count, apart from those which
+   are created that way. */
+extern long CalVerifNumSaturated(Cal_BddManager bddManager);
+
 /* Fills the unused nodes of all node managers with junk. */
 extern void CalVerifScribbleFreeNodes(Cal_BddManager bddManager);
 
-- 
2.43.0


From 7167ae277a2cac051fcc7a09c6006c93176d0abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:24 +0000
Subject: [PATCH 03/32] fix: pairwise operations must process every level any
 pair needs

BddArrayOpBF kept the top index of the last pair only, so requests of
earlier pairs above that level were returned unprocessed.
---
 src/calBddOp.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/calBddOp.c b/src/calBddOp.c
index cf6e2f2..5ad855f 100644
--- a/src/calBddOp.c
+++ b/src/calBddOp.c
@@ -679,8 +679,8 @@ BddArrayOpBF(Cal_BddManager_t * bddManager, Cal_Bdd_t*  bddArray,
 {
   Cal_BddId_t minId, bddId;
   /*Cal_BddIndex_t minIndex = 0;*/
-  int minIndex = 0;
-  int bddIndex;
+  int minIndex = bddManager->numVars;
+  int pairIndex, bddIndex;
   CalHashTable_t *hashTable, **hashTableArray, *uniqueTableForId;
   Cal_Bdd_t F, G, result;
   int numPairs = numFunction/2;
@@ -692,8 +692,9 @@ BddArrayOpBF(Cal_BddManager_t * bddManager, Cal_Bdd_t*  bddArray,
     F = bddArray[i<<1];
     G = bddArray[(i<<1)+1];
     if ((*calOpProc)(bddManager, F, G, &result) == 0){
-      CalBddGetMinIdAndMinIndex(bddManager, F, G, minId, minIndex);
+      CalBddGetMinIdAndMinIndex(bddManager, F, G, minId, pairIndex);
       CalHashTableFindOrAdd(hashTableArray[minId], F, G, &result);
+      if (pairIndex < minIndex) minIndex = pairIndex;
     }
     resultArray[i] = result;
   }
-- 
2.43.0


From 667ae2df8563e6b43f831ec4ce0ec8c044f9282b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:04 +0000
Subject: [PATCH 04/32] fix: interaction matrix must not shift into the sign
 bit of an int

---
 src/calInteract.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/calInteract.c b/src/calInteract.c
index 6d7caa4..ea8c777 100644
--- a/src/calInteract.c
+++ b/src/calInteract.c
@@ -117,7 +117,7 @@ CalSetInteract(Cal_BddManager_t *bddManager, int x, int y)
     posn = ((((bddManager->numVars << 1) - x - 3) * x) >> 1) + y - 1;
     word = posn >> LOGBPL;
     bit = posn & (BPL-1);
-    bddManager->interact[word] |= 1 << bit;
+    bddManager->interact[word] |= 1L << bit;
 
 } /* end of CalSetInteract */
 
-- 
2.43.0


From e50c2ce4ab91d29ddc85b845675d610c0cdbf811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:12 +0000
Subject: [PATCH 05/32] fix: reordering must treat BDDs held by associations as
 interacting

The interaction matrix was computed from user handles only; two variables
that occur together just in an association's BDD were swapped without
rewriting that BDD's nodes.
---
 src/calInteract.c | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/src/calInteract.c b/src/calInteract.c
index ea8c777..4644d14 100644
--- a/src/calInteract.c
+++ b/src/calInteract.c
@@ -79,6 +79,7 @@
 static void ddSuppInteract(Cal_BddManager_t *bddManager, Cal_Bdd_t f, int *support);
 static void ddClearLocal(Cal_Bdd_t f);
 static void ddUpdateInteract(Cal_BddManager_t *bddManager, int *support);
+static void ddAssociationInteract(Cal_BddManager_t *bddManager, CalAssociation_t *assoc, int *support);
 
 /**AutomaticEnd***************************************************************/
 
@@ -171,6 +172,7 @@ CalInitInteract(Cal_BddManager_t *bddManager)
   int *support;
   long numBins;
   CalBddNode_t **bins, *bddNode, *nextBddNode;
+  CalAssociation_t *assoc;
 
   int n = bddManager->numVars;
 
@@ -201,6 +203,12 @@ CalInitInteract(Cal_BddManager_t *bddManager)
       ddUpdateInteract(bddManager, support);
     }
   }
+  /* The BDDs held by the associations are roots as well */
+  for (assoc = bddManager->associationList; assoc; assoc = assoc->next){
+    ddAssociationInteract(bddManager, assoc, support);
+  }
+  ddAssociationInteract(bddManager, bddManager->tempAssociation, support);
+
   /* If there are some results pending in the pipeline, we need to
      take those into account as well */
 
@@ -240,6 +248,28 @@ CalInitInteract(Cal_BddManager_t *bddManager)
 /*---------------------------------------------------------------------------*/
 
 
+/**Function********************************************************************
+  Accounts for the BDDs held by an association.
+******************************************************************************/
+static void
+ddAssociationInteract(Cal_BddManager_t *bddManager, CalAssociation_t *assoc,
+                      int *support)
+{
+  int i, k;
+
+  for (i = 1; i <= bddManager->numVars; i++) {
+    if (CalBddGetBddId(assoc->varAssociation[i]) != CAL_BDD_NULL_ID) {
+      for (k = 0; k < bddManager->numVars; k++) {
+        support[k] = 0;
+      }
+      ddSuppInteract(bddManager, assoc->varAssociation[i], support);
+      ddClearLocal(assoc->varAssociation[i]);
+      ddUpdateInteract(bddManager, support);
+    }
+  }
+} /* end of ddAssociationInteract */
+
+
 /**Function********************************************************************
   Find the support of f.
 
-- 
2.43.0


From 4ccdd5083c1328316e2d2ccdaa0da0110a85e57c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:06 +0000
Subject: [PATCH 06/32] fix: association BDDs are only forwarded when they were
 moved

CalVarAssociationRepackUpdate followed the then edge of every association
BDD of the repacked level, including those of levels that were not
repacked at all.
---
 src/calAssociation.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/calAssociation.c b/src/calAssociation.c
index 5a196aa..d46fe3d 100644
--- a/src/calAssociation.c
+++ b/src/calAssociation.c
@@ -385,7 +385,7 @@ CalVarAssociationRepackUpdate(Cal_BddManager_t *  bddManager,
     nextAssoc = assoc->next;
     for (i=1; i <= bddManager->numVars; i++){
       if (CalBddGetBddId(assoc->varAssociation[i]) == id){
-        CalBddForward(assoc->varAssociation[i]);
+        CalBddIsForwardedTo(assoc->varAssociation[i]);
       }
     }
   }
@@ -393,7 +393,7 @@ CalVarAssociationRepackUpdate(Cal_BddManager_t *  bddManager,
   assoc = bddManager->tempAssociation;
   for (i=1; i <= bddManager->numVars; i++){
     if (CalBddGetBddId(assoc->varAssociation[i]) == id){
-      CalBddForward(assoc->varAssociation[i]);
+      CalBddIsForwardedTo(assoc->varAssociation[i]);
     }
   }
 }
-- 
2.43.0


From 360002088b11a01d54b755ba62952e04cfe74bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:43 +0000
Subject: [PATCH 07/32] fix: operation codes of temporary associations must not
 be reused

Every quantification or substitution under the temporary association takes
fresh 16 bit cache operation codes. After some ten thousand operations they
ran into the codes of other operations and finally wrapped around, and stale
cache entries were returned as results.
---
 src/calBddVarSubstitute.c |  2 +-
 src/calInt.h              |  2 ++
 src/calQuant.c            |  7 +++----
 src/calUtil.c             | 18 ++++++++++++++++++
 4 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/src/calBddVarSubstitute.c b/src/calBddVarSubstitute.c
index 4dc1bba..29fc14c 100644
--- a/src/calBddVarSubstitute.c
+++ b/src/calBddVarSubstitute.c
@@ -88,7 +88,7 @@ Cal_BddVarSubstitute(Cal_BddManager bddManager, Cal_Bdd fUserBdd)
     CalAssociation_t *assoc = bddManager->currentAssociation;
     unsigned short opCode;
     if (assoc->id == -1){
-      opCode = bddManager->tempOpCode--;
+      opCode = CalBddManagerNewTempOpCode(bddManager, 1);
     }
     else {
       opCode = CAL_OP_VAR_SUBSTITUTE + assoc->id;
diff --git a/src/calInt.h b/src/calInt.h
index 4de167c..844f825 100644
--- a/src/calInt.h
+++ b/src/calInt.h
@@ -258,6 +258,7 @@ extern unsigned long calPrimes[];
 #define  CAL_OP_COMPOSE 0x6000
 #define  CAL_OP_SUBST 0x7000
 #define  CAL_OP_VAR_SUBSTITUTE 0x8000
+#define  CAL_OP_TEMP_MIN 0x9000 /* the codes above are for temporary associations */
 
 #define  CAL_LARGE_BDD (1<<19) /* For smaller BDDs, we would
                                   use depth-first exist and forall routines */
@@ -1633,6 +1634,7 @@ EXTERN void CalUniqueTablePrint(Cal_BddManager_t *bddManager);
 EXTERN void CalBddFunctionPrint(Cal_BddManager_t * bddManager, Cal_Bdd_t calBdd, char * name);
 EXTERN int CalBddPreProcessing(Cal_BddManager_t *bddManager, int count, ...);
 EXTERN int CalBddPostProcessing(Cal_BddManager_t *bddManager);
+EXTERN unsigned short CalBddManagerNewTempOpCode(Cal_BddManager_t *bddManager, int numCodes);
 EXTERN int CalBddArrayPreProcessing(Cal_BddManager_t *bddManager, Cal_Bdd *userBddArray);
 EXTERN Cal_Bdd_t CalBddGetInternalBdd(Cal_BddManager bddManager, Cal_Bdd userBdd);
 EXTERN Cal_Bdd CalBddGetExternalBdd(Cal_BddManager_t *bddManager, Cal_Bdd_t internalBdd);
diff --git a/src/calQuant.c b/src/calQuant.c
index e5ec784..df25f6c 100644
--- a/src/calQuant.c
+++ b/src/calQuant.c
@@ -106,7 +106,7 @@ Cal_BddExists(Cal_BddManager bddManager, Cal_Bdd fUserBdd)
     unsigned short opCode;
 
     if (assoc->id == -1){
-      opCode = bddManager->tempOpCode--;
+      opCode = CalBddManagerNewTempOpCode(bddManager, 1);
     }
     else {
       opCode = CAL_OP_QUANT + assoc->id;
@@ -145,8 +145,7 @@ Cal_BddRelProd(Cal_BddManager bddManager, Cal_Bdd fUserBdd, Cal_Bdd gUserBdd)
     unsigned short opCode;
 
     if (bddManager->currentAssociation->id == -1){
-      opCode = bddManager->tempOpCode--;
-      bddManager->tempOpCode--;
+      opCode = CalBddManagerNewTempOpCode(bddManager, 2);
     }
     else {
       opCode = CAL_OP_REL_PROD + assoc->id;
@@ -184,7 +183,7 @@ Cal_BddForAll(Cal_BddManager bddManager, Cal_Bdd fUserBdd)
 
     CalBddNot(f, f);
     if (assoc->id == -1){
-      opCode = bddManager->tempOpCode--;
+      opCode = CalBddManagerNewTempOpCode(bddManager, 1);
     }
     else {
       opCode = CAL_OP_QUANT + assoc->id;
diff --git a/src/calUtil.c b/src/calUtil.c
index 66df24e..203c42d 100644
--- a/src/calUtil.c
+++ b/src/calUtil.c
@@ -254,6 +254,24 @@ CalBddPostProcessing(Cal_BddManager_t *bddManager)
   return CAL_BDD_OK;
 }
 
+/**Function********************************************************************
+  Returns operation codes (the returned one and the numCodes-1 below it) for
+  the cache entries of an operation on the temporary association. When they are
+  used up, the cache is flushed so that they can be used once again.
+******************************************************************************/
+unsigned short
+CalBddManagerNewTempOpCode(Cal_BddManager_t *bddManager, int numCodes)
+{
+  unsigned short opCode;
+  if (bddManager->tempOpCode < CAL_OP_TEMP_MIN + numCodes){
+    CalCacheTableTwoFlush(bddManager->cacheTable);
+    bddManager->tempOpCode = -1;
+  }
+  opCode = bddManager->tempOpCode;
+  bddManager->tempOpCode -= numCodes;
+  return opCode;
+}
+
 /**Function********************************************************************
 ******************************************************************************/
 int
-- 
2.43.0


From 9ce04feadd382d9be4a608d196fe8a7a6d6cdd58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:13 +0000
Subject: [PATCH 08/32] fix: repacking several levels must free the replaced
 hash bins

---
 src/calHashTable.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/calHashTable.c b/src/calHashTable.c
index c9e187b..ed2e92c 100644
--- a/src/calHashTable.c
+++ b/src/calHashTable.c
@@ -799,6 +799,7 @@ CalBddPackNodesForMultipleIds(Cal_BddManager_t *bddManager,
           Cal_Assert(!(CalBddNodeIsRefCountZero(dupNode)));
         }
       }
+      Cal_MemFree(oldBins);
 
 #ifdef __FOO__
       /*fprintf(stdout,"Repacking id = %d, index = %d\n", id, index+level);*/
-- 
2.43.0


From 9ddd7a0c2948d3efc185f31f32b9fc33e89ecb71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:29 +0000
Subject: [PATCH 09/32] fix: function profile of several BDDs must not depend
 on hash chain order

The arguments were entered a second time in the table of highest references;
once the table was rehashed, lookups found the older entry.
---
 src/calBddSize.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/calBddSize.c b/src/calBddSize.c
index 18db633..6dacd6b 100644
--- a/src/calBddSize.c
+++ b/src/calBddSize.c
@@ -296,12 +296,14 @@ Cal_BddFunctionProfileMultiple(Cal_BddManager bddManager, Cal_Bdd
     }
   }
   h = CalHashTableOneInit(bddManager, sizeof(int));
+  i = -1;
   for(f = fArray; !CalBddIsBddNull(bddManager, *f); ++f){
-    BddHighestRefStep(bddManager, *f, h);
+    if(!CalHashTableOneLookup(h, *f, Cal_Nil(char *))){
+      CalHashTableOneInsert(h, *f, (char *)&i);
+    }
   }
-  i = -1;
   for(f = fArray; !CalBddIsBddNull(bddManager, *f); ++f){
-    CalHashTableOneInsert(h, *f, (char *)&i);
+    BddHighestRefStep(bddManager, *f, h);
   }
   for(f = fArray; !CalBddIsBddNull(bddManager, *f); ++f){
     BddDominatedStep(bddManager, *f, funcCounts, h);
-- 
2.43.0


From 96173e245677d94f082a54e14cc9d8c18d686b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:48 +0000
Subject: [PATCH 10/32] fix: operations must not collect garbage while
 collection is turned off

The mode set by Cal_BddSetGCMode was not consulted when an operation
finished. The node limit is still enforced.
---
 src/calUtil.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/calUtil.c b/src/calUtil.c
index 203c42d..579a095 100644
--- a/src/calUtil.c
+++ b/src/calUtil.c
@@ -216,7 +216,8 @@ CalBddPostProcessing(Cal_BddManager_t *bddManager)
 {
   if (bddManager->gcCheck > 0) return CAL_BDD_OK;
   bddManager->gcCheck = CAL_GC_CHECK;
-  if(bddManager->numNodes > bddManager->uniqueTableGCLimit){
+  if(bddManager->gcMode &&
+     (bddManager->numNodes > bddManager->uniqueTableGCLimit)){
     long origNodes = bddManager->numNodes;
     Cal_BddManagerGC(bddManager);
     if ((bddManager->numNodes > bddManager->reorderingThreshold) &&
@@ -240,17 +241,17 @@ CalBddPostProcessing(Cal_BddManager_t *bddManager)
       Cal_Assert(CalCheckAllValidity(bddManager));
     }
     Cal_BddManagerSetGCLimit(bddManager);
-    if (bddManager->nodeLimit && (bddManager->numNodes >
-                                  bddManager->nodeLimit)){
-      CalBddWarningMessage("Overflow: Node Limit Exceeded");
-      bddManager->overflow = 1;
-      return CAL_BDD_OVERFLOWED;
-    }
     /*
      * Check to see if the cache table needs to be rehashed.
      */
     CalCacheTableRehash(bddManager);
   }
+  if (bddManager->nodeLimit && (bddManager->numNodes >
+                                bddManager->nodeLimit)){
+    CalBddWarningMessage("Overflow: Node Limit Exceeded");
+    bddManager->overflow = 1;
+    return CAL_BDD_OVERFLOWED;
+  }
   return CAL_BDD_OK;
 }
 
-- 
2.43.0


From b259a0b99a3ca29fa58dbaa62c68812bcdf582bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:53 +0000
Subject: [PATCH 11/32] fix: Reduce and Between with an empty care set must
 return a function

The null BDD of the terminal case was wrapped as if it were a result, so
that Between(0, 1) returned a handle that denotes nothing.
---
 src/calReduce.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/calReduce.c b/src/calReduce.c
index 81d2420..c0f0764 100644
--- a/src/calReduce.c
+++ b/src/calReduce.c
@@ -233,6 +233,10 @@ BddReduceBF(
   Cal_BddId_t bddId, minId;
 
 
+  if (CalBddIsBddZero(bddManager, c)){
+    return f; /* Every function agrees with f on the empty care set */
+  }
+
   if ((*calOpProc)(bddManager, f, c, &result) == 1){
     return result;
   }
-- 
2.43.0


From 9fbe49235f126bc17089b61530a4b9a1fa8a8e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:20 +0000
Subject: [PATCH 12/32] fix: Compose with a null operand must return null

The null operand was noticed but dereferenced nevertheless.
---
 src/calBddCompose.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/calBddCompose.c b/src/calBddCompose.c
index 96770d0..6cda2c3 100644
--- a/src/calBddCompose.c
+++ b/src/calBddCompose.c
@@ -82,7 +82,7 @@ Cal_BddCompose(Cal_BddManager bddManager, Cal_Bdd  fUserBdd,
   Cal_Bdd_t F, G, H;
 
   if (CalBddPreProcessing(bddManager, 3, fUserBdd, gUserBdd, hUserBdd) == 0){
-    result = bddManager->bddNull;
+    return Cal_BddNull(bddManager);
   }
   F = CalBddGetInternalBdd(bddManager, fUserBdd);
   G = CalBddGetInternalBdd(bddManager, gUserBdd);
-- 
2.43.0


From ed16538ed7be95bc257fd237db1325bed8a284c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:00 +0000
Subject: [PATCH 13/32] fix: CalBddMarkSharedNodes keeps the shared mark when a
 node is met a third time

---
 src/calPrint.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/calPrint.c b/src/calPrint.c
index 4aa73f0..8d19427 100644
--- a/src/calPrint.c
+++ b/src/calPrint.c
@@ -173,8 +173,8 @@ CalBddMarkSharedNodes(Cal_BddManager_t *bddManager, Cal_Bdd_t f)
   if ((mark = CalBddGetMark(f))){
     if (mark == 1){
       CalBddPutMark(f, 2);
-      return;
     }
+    return;
   }
   CalBddPutMark(f, 1);
   CalBddGetThenBdd(f, thenBdd);
-- 
2.43.0


From 1b23b83d7b0d811c1aa34d3b7ec3cc51da7b4e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:10 +0000
Subject: [PATCH 14/32] fix: Cal_BddDumpBdd releases the support variables it
 asked for

---
 src/calDump.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/calDump.c b/src/calDump.c
index d9e8870..49a52ea 100644
--- a/src/calDump.c
+++ b/src/calDump.c
@@ -238,12 +238,14 @@ Cal_BddDumpBdd(
         ok = 0;
       }
     }
+    for(i = 0; support[i]; ++i){
+      Cal_BddFree(bddManager, support[i]);
+    }
+    Cal_MemFree(support);
     if(!ok){
       Cal_MemFree(normalizedIndexes);
-      Cal_MemFree(support);
       return 0;
     }
-    Cal_MemFree(support);
     /* Everything checked now; barring I/O errors, we should be able to */
     /* Write a valid output file. */
     f = CalBddGetInternalBdd(bddManager, fUserBdd);
-- 
2.43.0


From affcb0a3ad56f6ef7e57d6aaef64c6640c3999a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:52 +0000
Subject: [PATCH 15/32] fix: Cal_BddUndumpBdd rejects damaged files instead of
 reading freed, null or out-of-range labels

---
 src/calDump.c | 63 +++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 46 insertions(+), 17 deletions(-)

diff --git a/src/calDump.c b/src/calDump.c
index 49a52ea..1aca35b 100644
--- a/src/calDump.c
+++ b/src/calDump.c
@@ -84,7 +84,7 @@ static long indexMask[] = {0xffl, 0xffffl, 0xffffffl};
 static void Write(Cal_BddManager_t * bddManager, unsigned long n, int bytes, FILE * fp);
 static void BddDumpBddStep(Cal_BddManager_t * bddManager, Cal_Bdd_t f, FILE * fp, CalHashTable_t * h, Cal_BddIndex_t * normalizedIndexes, int indexSize, int nodeNumberSize);
 static unsigned long Read(int * error, int bytes, FILE * fp);
-static Cal_Bdd_t BddUndumpBddStep(Cal_BddManager_t * bddManager, Cal_Bdd_t * vars, FILE * fp, Cal_BddIndex_t numberVars, Cal_Bdd_t * shared, long numberShared, long * sharedSoFar, int indexSize, int nodeNumberSize, int * error);
+static Cal_Bdd_t BddUndumpBddStep(Cal_BddManager_t * bddManager, Cal_Bdd_t * vars, FILE * fp, Cal_BddIndex_t numberVars, Cal_Bdd_t ** shared, long * sharedCapacity, long numberShared, long * sharedSoFar, long depth, int indexSize, int nodeNumberSize, int * error);
 static int BytesNeeded(long n);
 
 /**AutomaticEnd***************************************************************/
@@ -107,6 +107,7 @@ Cal_BddUndumpBdd(
   int indexSize;
   int nodeNumberSize;
   Cal_Bdd_t *shared;
+  long sharedCapacity;
   long sharedSoFar;
   Cal_Bdd_t v;
   Cal_Bdd_t result;
@@ -153,16 +154,19 @@ Cal_BddUndumpBdd(
     Cal_MemFree(vars);
     return Cal_BddNull(bddManager);
   }
-  shared = Cal_MemAlloc(Cal_Bdd_t, numberShared);
-  for(i = 0; i < numberShared; ++i){
-    shared[i] = CalBddNull(bddManager);
-  }
+  /*
+   * The number of shared nodes is only a claim of the file: make room for the
+   * labels as they are read.
+   */
+  shared = Cal_Nil(Cal_Bdd_t);
+  sharedCapacity = 0;
   sharedSoFar = 0;
-  result = BddUndumpBddStep(bddManager, vars, fp, numberVars, shared,
-      numberShared, &sharedSoFar, indexSize, nodeNumberSize, error);
+  result = BddUndumpBddStep(bddManager, vars, fp, numberVars, &shared,
+      &sharedCapacity, numberShared, &sharedSoFar, 2*(long)numberVars+1,
+      indexSize, nodeNumberSize, error);
   Cal_MemFree(vars);
 
-  for(i = 0; i < numberShared; ++i){
+  for(i = 0; i < sharedSoFar; ++i){
     v = shared[i];
     if(!CalBddIsBddNull(bddManager, v)){
       CalBddFree(v);
@@ -371,7 +375,7 @@ Read(
   FILE * fp)
 {
   int c;
-  long result;
+  unsigned long result;
 
   result = 0;
   if(*error){
@@ -402,9 +406,11 @@ BddUndumpBddStep(
   Cal_Bdd_t * vars,
   FILE * fp,
   Cal_BddIndex_t  numberVars,
-  Cal_Bdd_t * shared,
+  Cal_Bdd_t ** shared,
+  long * sharedCapacity,
   long  numberShared,
   long * sharedSoFar,
+  long  depth,
   int  indexSize,
   int  nodeNumberSize,
   int * error)
@@ -417,6 +423,11 @@ BddUndumpBddStep(
   Cal_Bdd_t temp1, temp2;
   Cal_Bdd_t result;
 
+  /* No path of a BDD has more labels and nodes than this. */
+  if(depth < 0){
+    *error = CAL_BDD_UNDUMP_FORMAT;
+    return CalBddNull(bddManager);
+  }
   i = Read(error, indexSize, fp);
   if(*error){
     return CalBddNull(bddManager);
@@ -459,14 +470,14 @@ BddUndumpBddStep(
     case POSNODE_ENCODING:
     case NEGNODE_ENCODING:
       nodeNumber = Read(error, nodeNumberSize, fp);
-      if(!*error && (nodeNumber >=  numberShared ||
-          CalBddIsBddNull(bddManager, shared[nodeNumber]))){
+      if(!*error && (nodeNumber >=  *sharedSoFar ||
+          CalBddIsBddNull(bddManager, (*shared)[nodeNumber]))){
         *error = CAL_BDD_UNDUMP_FORMAT;
       }
       if(*error){
         return CalBddNull(bddManager);
       }
-      v = shared[nodeNumber];
+      v = (*shared)[nodeNumber];
       v = CalBddIdentity(bddManager, v);
       if(encoding == POSNODE_ENCODING){
         return (v);
@@ -477,10 +488,23 @@ BddUndumpBddStep(
       }
     case NODELABEL_ENCODING:
       nodeNumber =  *sharedSoFar;
+      if(nodeNumber >= numberShared){
+        *error = CAL_BDD_UNDUMP_FORMAT;
+        return CalBddNull(bddManager);
+      }
+      if(nodeNumber >= *sharedCapacity){
+        *sharedCapacity = 2*nodeNumber+16;
+        *shared = Cal_MemRealloc(Cal_Bdd_t, *shared, *sharedCapacity);
+      }
+      (*shared)[nodeNumber] = CalBddNull(bddManager);
       ++*sharedSoFar;
       v = BddUndumpBddStep(bddManager, vars, fp, numberVars, shared,
-          numberShared, sharedSoFar, indexSize, nodeNumberSize, error);
-      shared[nodeNumber] = v;
+          sharedCapacity, numberShared, sharedSoFar, depth-1, indexSize,
+          nodeNumberSize, error);
+      if(*error){
+        return CalBddNull(bddManager);
+      }
+      (*shared)[nodeNumber] = v;
       v = CalBddIdentity(bddManager, v);
       return (v);
     default:
@@ -493,9 +517,14 @@ BddUndumpBddStep(
     return CalBddNull(bddManager);
   }
   temp1 = BddUndumpBddStep(bddManager, vars, fp, numberVars, shared,
-       numberShared, sharedSoFar, indexSize, nodeNumberSize, error);
+       sharedCapacity, numberShared, sharedSoFar, depth-1, indexSize,
+       nodeNumberSize, error);
+  if(*error){
+      return CalBddNull(bddManager);
+  }
   temp2 = BddUndumpBddStep(bddManager, vars, fp, numberVars, shared,
-       numberShared, sharedSoFar, indexSize, nodeNumberSize, error);
+       sharedCapacity, numberShared, sharedSoFar, depth-1, indexSize,
+       nodeNumberSize, error);
   if(*error){
       CalBddFree(temp1);
       return CalBddNull(bddManager);
-- 
2.43.0


From 4b71041d4e35e236fdcf32fbcc5a9c232e76cf42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:20 +0000
Subject: [PATCH 16/32] fix: Cal_BddPrintFunctionProfile prints the profile

---
 src/calPrintProfile.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/calPrintProfile.c b/src/calPrintProfile.c
index 3360319..96da4fa 100644
--- a/src/calPrintProfile.c
+++ b/src/calPrintProfile.c
@@ -135,7 +135,7 @@ Cal_BddPrintFunctionProfile(Cal_BddManager bddManager,
                             FILE * fp)
 {
   long *levelCounts;
-  if (CalBddPreProcessing(bddManager, 1, f)){
+  if (CalBddPreProcessing(bddManager, 1, f) == 0){
 	return;
   }
   levelCounts = Cal_MemAlloc(long, bddManager->numVars+1);
-- 
2.43.0


From a8d1eefdca82bd324cc198dc4dc1620877132fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:27 +0000
Subject: [PATCH 17/32] fix: interaction matrix includes nodes with a saturated
 reference count

---
 src/calInteract.c | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/calInteract.c b/src/calInteract.c
index 4644d14..1be157a 100644
--- a/src/calInteract.c
+++ b/src/calInteract.c
@@ -173,6 +173,8 @@ CalInitInteract(Cal_BddManager_t *bddManager)
   long numBins;
   CalBddNode_t **bins, *bddNode, *nextBddNode;
   CalAssociation_t *assoc;
+  Cal_BddRefCount_t refCount;
+  int id;
 
   int n = bddManager->numVars;
 
@@ -209,6 +211,29 @@ CalInitInteract(Cal_BddManager_t *bddManager)
   }
   ddAssociationInteract(bddManager, bddManager->tempAssociation, support);
 
+  /* Nodes with a saturated reference count are never freed, so they take part
+     in the swaps even if no root reaches them */
+  for (id = 1; id <= n; id++){
+    bins = bddManager->uniqueTable[id]->bins;
+    numBins = bddManager->uniqueTable[id]->numBins;
+    for (i=0; i<numBins; i++){
+      for (bddNode = bins[i]; bddNode;
+           bddNode = CalBddNodeGetNextBddNode(bddNode)) {
+        Cal_Bdd_t saturatedBdd;
+        CalBddNodeGetRefCount(bddNode, refCount);
+        if (refCount != CAL_MAX_REF_COUNT) continue;
+        CalBddPutBddId(saturatedBdd, id);
+        CalBddPutBddNode(saturatedBdd, bddNode);
+        for (k = 0; k < n; k++) {
+          support[k] = 0;
+        }
+        ddSuppInteract(bddManager, saturatedBdd, support);
+        ddClearLocal(saturatedBdd);
+        ddUpdateInteract(bddManager, support);
+      }
+    }
+  }
+
   /* If there are some results pending in the pipeline, we need to
      take those into account as well */
 
-- 
2.43.0


From 6881b18a90e02f8d302dcf816c8508a165874d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:12 +0000
Subject: [PATCH 18/32] fix: repacking after garbage collection must update the
 variables' own nodes

---
 src/calGC.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/calGC.c b/src/calGC.c
index 8599983..263f503 100644
--- a/src/calGC.c
+++ b/src/calGC.c
@@ -354,6 +354,8 @@ CalRepackNodesAfterGC(Cal_BddManager_t *bddManager)
 #endif
     nodeManager->numPages = numPagesRequired;
     nodeManager->freeNodeList = freeNodeList;
+    /* The node of the variable itself may be one of those moved */
+    CalBddIsForwardedTo(bddManager->varBdds[id]);
   }
   /* Need to update the handles to the nodes being moved */
   if (bddManager->pipelineState == CREATE){
-- 
2.43.0


From b0c903a2515e30e94a5e8667f6e6ea0fc2c78684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:39 +0000
Subject: [PATCH 19/32] fix: Cal_BddPrintBdd must not be interrupted by a
 garbage collection

---
 src/calPrint.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/calPrint.c b/src/calPrint.c
index 8d19427..0d7d2f3 100644
--- a/src/calPrint.c
+++ b/src/calPrint.c
@@ -96,7 +96,13 @@ Cal_BddPrintBdd(Cal_BddManager bddManager,
   long next;
   CalHashTable_t *hashTable;
 
-  Cal_Bdd_t f = CalBddGetInternalBdd(bddManager,fUserBdd);
+  Cal_Bdd_t f;
+
+  /* A collection that is due must not take place within the naming function */
+  if (CalBddPreProcessing(bddManager, 1, fUserBdd) == 0){
+    return;
+  }
+  f = CalBddGetInternalBdd(bddManager,fUserBdd);
   CalBddMarkSharedNodes(bddManager, f);
   hashTable = CalHashTableOneInit(bddManager, sizeof(long));
   next = 0;
-- 
2.43.0


From 49c6445ec7436712290ae711041413ee03be4d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:13 +0000
Subject: [PATCH 20/32] Verification hooks: check the nodes of the variables

---
 src/calVerif.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/calVerif.c b/src/calVerif.c
index 1dc04ca..b82f6c6 100644
--- a/src/calVerif.c
+++ b/src/calVerif.c
@@ -227,6 +227,13 @@ CalVerifCheckStructure(Cal_BddManager bddManager, char *buffer, int bufferSize)
     }
   }
 
+  /* The nodes of the variables */
+  for (id = 1; id <= bddManager->numVars; id++){
+    f1 = bddManager->varBdds[id];
+    if (CalBddGetBddId(f1) != id || !VerifMapFind(&map, CalBddGetBddNode(f1))->node)
+      VERIF_FAIL("variable: its node is not in the unique table, id %d", id);
+  }
+
   /* References from handles */
   table = bddManager->uniqueTable[0];
   numEntries = 0;
-- 
2.43.0


From 9ed4b7b9143431656d7e01a91ce43db31b3b19b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:51 +0000
Subject: [PATCH 21/32] fix: C++ profiles are returned with their contents

The vectors were only reserved, so their size stayed zero.
---
 src/calObj.hh | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/calObj.hh b/src/calObj.hh
index 4ebd6d1..8673917 100644
--- a/src/calObj.hh
+++ b/src/calObj.hh
@@ -597,8 +597,7 @@ public:
   //////////////////////////////////////////////////////////////////////////////
   std::vector<long> Profile(bool negout = true) const
   {
-    std::vector<long> results;
-    results.reserve(Cal_BddVars(this->_bddManager)+1);
+    std::vector<long> results(Cal_BddVars(this->_bddManager)+1);
     Cal_BddProfile(this->_bddManager, this->_bdd, results.data(), negout);
     return results;
   }
@@ -629,8 +628,7 @@ public:
   //////////////////////////////////////////////////////////////////////////////
   std::vector<long> FunctionProfile() const
   {
-    std::vector<long> results;
-    results.reserve(Cal_BddVars(this->_bddManager)+1);
+    std::vector<long> results(Cal_BddVars(this->_bddManager)+1);
     Cal_BddFunctionProfile(this->_bddManager, this->_bdd, results.data());
     return results;
   }
@@ -1955,8 +1953,7 @@ public:
     std::vector<Cal_Bdd> c_arg =
       BDD::C_Bdd_vector(this->_bddManager, std::move(begin), std::move(end));
 
-    std::vector<long> levelCounts;
-    levelCounts.reserve(this->Vars()+1);
+    std::vector<long> levelCounts(this->Vars()+1);
 
     Cal_BddProfileMultiple(this->_bddManager,
                            c_arg.data(),
@@ -2066,8 +2063,7 @@ public:
     std::vector<Cal_Bdd> c_arg =
       BDD::C_Bdd_vector(this->_bddManager, std::move(begin), std::move(end));
 
-    std::vector<long> funcCounts;
-    funcCounts.reserve(Vars()+1);
+    std::vector<long> funcCounts(this->Vars()+1);
 
     Cal_BddFunctionProfileMultiple(this->_bddManager, c_arg.data(), funcCounts.data());
 
-- 
2.43.0


From 96ea3da6f1a0b194b6899acdba5ef60d05e7265d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:31 +0000
Subject: [PATCH 22/32] fix: C++ pairwise operations read past their array of
 results and leak it

The C functions return exactly one entry per pair without a terminator, or
no array at all.
---
 src/calObj.hh | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/src/calObj.hh b/src/calObj.hh
index 8673917..fcb45ae 100644
--- a/src/calObj.hh
+++ b/src/calObj.hh
@@ -731,21 +731,26 @@ protected:
   }
 
   //////////////////////////////////////////////////////////////////////////////
-  /// \brief Convert a null-terminated list of `Cal_Bdd`s from the C API to a
-  ///        C++ vector of `BDD` classes.
+  /// \brief Convert the array of results of a pairwise operation of the C API
+  ///        to a C++ vector of `BDD` classes. The array is freed.
+  ///
+  /// \param args The null-terminated arguments of the pairwise operation.
   //////////////////////////////////////////////////////////////////////////////
   static std::vector<BDD>
-  From_C_Array(Cal_BddManager bddManager, Cal_Bdd * bddArray)
+  From_C_Array(Cal_BddManager bddManager,
+               const std::vector<Cal_Bdd> &args,
+               Cal_Bdd * bddArray)
   {
     std::vector<BDD> res;
 
-    for (int i = 0; Cal_BddIsBddNull(bddManager, bddArray[i]) == 0; i++){
-      if (CalBddPreProcessing(bddManager, 1, bddArray[i]) == 0){
-        return std::vector<BDD>();
-      }
-      res.push_back(BDD(bddManager, bddArray[i]));
+    if (bddArray == NULL) { return res; }
+
+    for (size_t i = 0; !BDD::IsNull(bddManager, args[i]); i += 2) {
+      res.push_back(BDD(bddManager, bddArray[i / 2]));
     }
 
+    Cal_MemFree(bddArray);
+
     return res;
   }
 
@@ -1618,7 +1623,8 @@ public:
       BDD::C_Bdd_vector(this->_bddManager, std::move(begin), std::move(end));
 
     std::vector<BDD> res =
-      BDD::From_C_Array(this->_bddManager, Cal_BddPairwiseAnd(this->_bddManager, c_arg.data()));
+      BDD::From_C_Array(this->_bddManager, c_arg,
+                        Cal_BddPairwiseAnd(this->_bddManager, c_arg.data()));
 
     BDD::Free(this->_bddManager, c_arg.begin(), c_arg.end());
 
@@ -1662,7 +1668,8 @@ public:
       BDD::C_Bdd_vector(this->_bddManager, std::move(begin), std::move(end));
 
     std::vector<BDD> res =
-      BDD::From_C_Array(this->_bddManager, Cal_BddPairwiseOr(this->_bddManager, c_arg.data()));
+      BDD::From_C_Array(this->_bddManager, c_arg,
+                        Cal_BddPairwiseOr(this->_bddManager, c_arg.data()));
 
     BDD::Free(this->_bddManager, c_arg.begin(), c_arg.end());
 
@@ -1699,7 +1706,8 @@ public:
       BDD::C_Bdd_vector(this->_bddManager, std::move(begin), std::move(end));
 
     std::vector<BDD> res =
-      BDD::From_C_Array(this->_bddManager, Cal_BddPairwiseXor(this->_bddManager, c_arg.data()));
+      BDD::From_C_Array(this->_bddManager, c_arg,
+                        Cal_BddPairwiseXor(this->_bddManager, c_arg.data()));
 
     BDD::Free(this->_bddManager, c_arg.begin(), c_arg.end());
 
-- 
2.43.0


From 38d25f167d5b1f716f31d9079eaa98573cf18b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:34 +0000
Subject: [PATCH 23/32] fix: IsOne, IsZero and IsConst of a default-constructed
 C++ BDD crash

It has no manager.
---
 src/calObj.hh | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/calObj.hh b/src/calObj.hh
index fcb45ae..de5d203 100644
--- a/src/calObj.hh
+++ b/src/calObj.hh
@@ -185,7 +185,7 @@ public:
   /// \see BDD::IsZero(), BDD::IsConst()
   //////////////////////////////////////////////////////////////////////////////
   bool IsOne() const
-  { return Cal_BddIsBddOne(this->_bddManager, this->_bdd); }
+  { return !this->IsNull() && Cal_BddIsBddOne(this->_bddManager, this->_bdd); }
 
   //////////////////////////////////////////////////////////////////////////////
   /// \brief `true` if the this BDD is constant zero, `false `otherwise.
@@ -193,7 +193,7 @@ public:
   /// \see BDD::IsOne(), BDD::IsConst()
   //////////////////////////////////////////////////////////////////////////////
   bool IsZero() const
-  { return Cal_BddIsBddZero(this->_bddManager, this->_bdd); }
+  { return !this->IsNull() && Cal_BddIsBddZero(this->_bddManager, this->_bdd); }
 
   //////////////////////////////////////////////////////////////////////////////
   /// \brief `true` if the this BDD is NULL, `false` otherwise.
@@ -208,7 +208,7 @@ public:
   /// \see BDD::IsOne(), BDD::IsZero()
   //////////////////////////////////////////////////////////////////////////////
   bool IsConst() const
-  { return Cal_BddIsBddConst(this->_bddManager, this->_bdd); }
+  { return !this->IsNull() && Cal_BddIsBddConst(this->_bddManager, this->_bdd); }
 
   //////////////////////////////////////////////////////////////////////////////
   /// \brief `true` if the this BDD is a cube, `false` otherwise.
-- 
2.43.0


From 5d368b6b13f4caede42d95dd75b0ab539ec6c099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:17 +0000
Subject: [PATCH 24/32] fix: C++ difference with a null BDD must return null

Complementing the null BDD crashes.
---
 src/calObj.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/calObj.hh b/src/calObj.hh
index de5d203..9cb7a36 100644
--- a/src/calObj.hh
+++ b/src/calObj.hh
@@ -485,7 +485,7 @@ public:
   /// \brief Logical Difference operation.
   //////////////////////////////////////////////////////////////////////////////
   BDD Diff(const BDD &g) const
-  { return *this & ~g; }
+  { return g.IsNull() ? g : *this & ~g; }
 
   //////////////////////////////////////////////////////////////////////////////
   /// \see BDD::Diff()
-- 
2.43.0


From 2ef7d8aeb6dbd8f59a8b0afeedfbee0a2d5d8b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:39 +0000
Subject: [PATCH 25/32] fix: a pipeline aborted by the node limit keeps no
 references to its results

---
 src/calPipeline.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/calPipeline.c b/src/calPipeline.c
index 91bb09a..27aef71 100644
--- a/src/calPipeline.c
+++ b/src/calPipeline.c
@@ -244,8 +244,15 @@ Cal_PipelineExecute(Cal_BddManager bddManager)
     /* Save the current pipelineDepth */
     bddManager->currentPipelineDepth = pipelineDepth;
     if (CalBddPostProcessing(bddManager) == CAL_BDD_OVERFLOWED){
-      /* Abort, may be we should clean up a little bit */
+      /* Abort, unlocking the results computed so far */
       fprintf(stderr,"Bdd Overflow: Aborting\n");
+      for (i=0; i<bddManager->pipelineDepth-pipelineDepth; i++){
+        for (node=bddManager->requestNodeListArray[i]; node; node = nextNode){
+          nextNode = CalBddNodeGetNextBddNode(node);
+          CalBddNodeGetThenBdd(node, thenBdd);
+          CalBddDcrRefCount(thenBdd);
+        }
+      }
       return 0;
     }
     requestNodeListArray += bddManager->depth;
-- 
2.43.0


From 7519569aea2d4aea6ed29e9c65afc2f4692d511c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:22 +0000
Subject: [PATCH 26/32] fix: interaction matrix indices do not overflow with
 many variables

---
 src/calInteract.c | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/calInteract.c b/src/calInteract.c
index 1be157a..cd5c736 100644
--- a/src/calInteract.c
+++ b/src/calInteract.c
@@ -109,13 +109,14 @@ static void ddAssociationInteract(Cal_BddManager_t *bddManager, CalAssociation_t
 void
 CalSetInteract(Cal_BddManager_t *bddManager, int x, int y)
 {
-    int posn, word, bit;
+    long posn, word;
+    int bit;
 
     Cal_Assert(x < y);
     Cal_Assert(y < bddManager->numVars);
     Cal_Assert(x >= 0);
 
-    posn = ((((bddManager->numVars << 1) - x - 3) * x) >> 1) + y - 1;
+    posn = (((((long)bddManager->numVars << 1) - x - 3) * x) >> 1) + y - 1;
     word = posn >> LOGBPL;
     bit = posn & (BPL-1);
     bddManager->interact[word] |= 1L << bit;
@@ -133,7 +134,8 @@ CalSetInteract(Cal_BddManager_t *bddManager, int x, int y)
 int
 CalTestInteract(Cal_BddManager_t *bddManager, int x, int y)
 {
-    int posn, word, bit, result;
+    long posn, word;
+    int bit, result;
 
     x -= 1;
     y -= 1;
@@ -147,7 +149,7 @@ CalTestInteract(Cal_BddManager_t *bddManager, int x, int y)
     Cal_Assert(y < bddManager->numVars);
     Cal_Assert(x >= 0);
 
-    posn = ((((bddManager->numVars << 1) - x - 3) * x) >> 1) + y - 1;
+    posn = (((((long)bddManager->numVars << 1) - x - 3) * x) >> 1) + y - 1;
     word = posn >> LOGBPL;
     bit = posn & (BPL-1);
     result = (bddManager->interact[word] >> bit) & 1;
@@ -167,7 +169,7 @@ int
 CalInitInteract(Cal_BddManager_t *bddManager)
 {
   int i,k;
-  int words;
+  long w, words;
   long *interact;
   int *support;
   long numBins;
@@ -178,11 +180,11 @@ CalInitInteract(Cal_BddManager_t *bddManager)
 
   int n = bddManager->numVars;
 
-  words = ((n * (n-1)) >> (1 + LOGBPL)) + 1;
+  words = (((long)n * (n-1)) >> (1 + LOGBPL)) + 1;
   bddManager->interact = interact = Cal_MemAlloc(long, words);
   if (interact == NULL) return(0);
-  for (i = 0; i < words; i++) {
-      interact[i] = 0;
+  for (w = 0; w < words; w++) {
+      interact[w] = 0;
   }
 
   support = Cal_MemAlloc(int, n);
-- 
2.43.0


From 897c953ceb92889acbea64cded45aa69ece98cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:57 +0000
Subject: [PATCH 27/32] fix: a pipeline stays usable after a provisional BDD
 exceeds the maximum depth

---
 src/calPipeline.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/calPipeline.c b/src/calPipeline.c
index 27aef71..ce82561 100644
--- a/src/calPipeline.c
+++ b/src/calPipeline.c
@@ -166,14 +166,14 @@ Cal_PipelineCreateProvisionalBdd(Cal_BddManager bddManager, Cal_Bdd fUserBdd,
       insertDepth = operandDepth + 1;
     }
   }
-  if (bddManager->pipelineDepth <= insertDepth){
-    bddManager->pipelineDepth = insertDepth + 1;
-  }
   if (insertDepth >= MAX_INSERT_DEPTH){
     CalBddWarningMessage("Provisional Bdd not created");
     CalBddWarningMessage("Maximum pipeline depth is reached");
     return Cal_BddNull(bddManager);
   }
+  if (bddManager->pipelineDepth <= insertDepth){
+    bddManager->pipelineDepth = insertDepth + 1;
+  }
 
   CalNodeManagerAllocNode(bddManager->nodeManagerArray[0], requestNode);
   CalRequestNodePutF(requestNode, f);
-- 
2.43.0


From 19cbadbf73b1c9eb4f911f59656c602e25a91ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:02 +0000
Subject: [PATCH 28/32] fix: a pipeline is not left open when its operation is
 unknown

---
 src/calPipeline.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/calPipeline.c b/src/calPipeline.c
index ce82561..42dc322 100644
--- a/src/calPipeline.c
+++ b/src/calPipeline.c
@@ -128,6 +128,7 @@ Cal_PipelineInit(Cal_BddManager bddManager, Cal_BddOp_t bddOp)
       break;
     default  :
       CalBddWarningMessage("Unknown Bdd Operation type");
+      bddManager->pipelineState = READY;
       return 0;
     }
     return 1;
-- 
2.43.0


From 87c41a1bbc0916f627d0f07f9e7543fb16076236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:55 +0000
Subject: [PATCH 29/32] fix: composing a complemented BDD for a constant does
 not corrupt a reference count

---
 src/calBddCompose.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/calBddCompose.c b/src/calBddCompose.c
index 6cda2c3..25dc833 100644
--- a/src/calBddCompose.c
+++ b/src/calBddCompose.c
@@ -89,8 +89,7 @@ Cal_BddCompose(Cal_BddManager bddManager, Cal_Bdd  fUserBdd,
   H = CalBddGetInternalBdd(bddManager, hUserBdd);
 
   if(CalBddIsBddConst(G)){
-    CalBddNodeIcrRefCount(fUserBdd);
-    return fUserBdd;
+    return CalBddGetExternalBdd(bddManager, F);
   }
   CalNodeManagerAllocNode(bddManager->nodeManagerArray[0], requestNode);
   CalRequestNodePutF(requestNode, F);
-- 
2.43.0


From eea85383334090859f1e7472ab042d0da626de21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:43 +0000
Subject: [PATCH 30/32] fix: Cal_BddIntersects and Cal_BddImplies visited every
 path when the conjunction is empty

---
 src/cal.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/cal.c b/src/cal.c
index eac49b8..9b952a0 100644
--- a/src/cal.c
+++ b/src/cal.c
@@ -682,6 +682,12 @@ BddIntersectsStep(Cal_BddManager_t * bddManager, Cal_Bdd_t  f, Cal_Bdd_t  g)
       return bddManager->bddZero;
   }
   if (CAL_BDD_OUT_OF_ORDER(f, g)) CAL_BDD_SWAP(f, g);
+  /* Pairs with an empty conjunction are remembered as operands of a NAND;
+     otherwise they are visited once per path that leads to them. */
+  if (CalCacheTableTwoLookup(bddManager, f, g, CAL_OP_NAND, &temp) &&
+      CalBddIsBddOne(bddManager, temp)){
+    return bddManager->bddZero;
+  }
   CalBddGetMinId2(bddManager, f, g, topId);
   CalBddGetCofactors(f, topId, f1, f2);
   CalBddGetCofactors(g, topId, g1, g2);
@@ -689,6 +695,8 @@ BddIntersectsStep(Cal_BddManager_t * bddManager, Cal_Bdd_t  f, Cal_Bdd_t  g)
   if (CalBddIsBddZero(bddManager, temp)){
     temp = BddIntersectsStep(bddManager, f2, g2);
     if (CalBddIsBddZero(bddManager, temp)){
+      CalCacheTableTwoInsert(bddManager, f, g, bddManager->bddOne,
+                             CAL_OP_NAND, 0);
       return bddManager->bddZero;
     }
     else{
-- 
2.43.0


From e943cfbb3df173646eb2215a3dd21238d0be1564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:51 +0000
Subject: [PATCH 31/32] fix: Cal_BddStats reported a peak below the current
 number of nodes

---
 src/cal.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cal.c b/src/cal.c
index 9b952a0..570124f 100644
--- a/src/cal.c
+++ b/src/cal.c
@@ -359,6 +359,10 @@ Cal_BddStats(Cal_BddManager bddManager, FILE * fp)
   fprintf(fp, "**** CAL statistics ****\n");
   fprintf(fp, "Total BDD Node Usage : %ld nodes, %ld Bytes\n",
           bddManager->numNodes, bddManager->numNodes*sizeof(CalBddNode_t));
+  if (bddManager->numPeakNodes < bddManager->numNodes){
+    /* Only collections and reorderings record the peak otherwise */
+    bddManager->numPeakNodes = bddManager->numNodes;
+  }
   fprintf(fp, "Peak BDD Node Usage : %ld nodes, %ld Bytes\n",
           bddManager->numPeakNodes,
           bddManager->numPeakNodes*sizeof(CalBddNode_t));
-- 
2.43.0


From 40866a05f87ccc59b3af9454a4ace04616d52444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:36 +0000
Subject: [PATCH 32/32] Verification hooks: cached results, locked nodes, ids
 of children

---
 src/calCacheTableTwo.c | 21 +++++++++++++++++
 src/calVerif.c         | 53 +++++++++++++++++++++++++++++++++++++++++-
 src/calVerif.h         | 10 ++++++++
 3 files changed, 83 insertions(+), 1 deletion(-)

diff --git a/src/calCacheTableTwo.c b/src/calCacheTableTwo.c
index cb874ec..c31d9de 100644
--- a/src/calCacheTableTwo.c
+++ b/src/calCacheTableTwo.c
@@ -505,6 +505,27 @@ CalCacheTableMemoryConsumption(CalCacheTable_t *cacheTable)
   return (unsigned long) (sizeof(cacheTable)+cacheTable->numBins*sizeof(CacheEntry_t));
 }
 
+#ifdef CAL_VERIF
+/**Function********************************************************************
+******************************************************************************/
+int
+CalVerifCacheEntry(Cal_BddManager bddManager, long position, CalVerifEdge_t *edges)
+{
+  CalCacheTable_t *cacheTable = bddManager->cacheTable;
+  CacheEntry_t *bin;
+  if (position >= cacheTable->numBins) return 0;
+  bin = cacheTable->bins + position;
+  memset((char *)edges, 0, 3*sizeof(CalVerifEdge_t));
+  if (bin->opCode == CAL_OP_INVALID) return 1;
+  edges[0].node = (void *)((CalAddress_t)bin->operand1 & ~0x2);
+  edges[0].id = 1;
+  edges[1].node = bin->operand2;
+  edges[2].node = bin->resultBddNode;
+  edges[2].id = bin->resultBddId;
+  return 1;
+}
+#endif
+
 /*---------------------------------------------------------------------------*/
 /* Definition of static functions                                            */
 /*---------------------------------------------------------------------------*/
diff --git a/src/calVerif.c b/src/calVerif.c
index b82f6c6..a276f6e 100644
--- a/src/calVerif.c
+++ b/src/calVerif.c
@@ -100,6 +100,7 @@ CalVerifIdToIndex(Cal_BddManager bddManager, long id)
 typedef struct {
   CalBddNode_t *node;
   long count;
+  int id;
 } VerifEntry_t;
 
 typedef struct {
@@ -124,7 +125,7 @@ VerifAddRef(Cal_BddManager bddManager, VerifMap_t *map, Cal_Bdd_t f)
   CalBddNode_t *node = CAL_BDD_POINTER(CalBddGetBddNode(f));
   if (node == CAL_BDD_POINTER(CalBddGetBddNode(bddManager->bddOne))) return 1;
   entry = VerifMapFind(map, node);
-  if (entry->node == 0) return 0;
+  if (entry->node == 0 || entry->id != CalBddGetBddId(f)) return 0;
   entry->count++;
   return 1;
 }
@@ -150,6 +151,7 @@ CalVerifCheckStructure(Cal_BddManager bddManager, char *buffer, int bufferSize)
   Cal_Bdd_t f1, f0;
   Cal_BddRefCount_t refCount;
   VerifEntry_t *entry;
+  CalVerifEdge_t cached[3];
 
   map.entries = 0;
   buffer[0] = 0;
@@ -182,6 +184,7 @@ CalVerifCheckStructure(Cal_BddManager bddManager, char *buffer, int bufferSize)
         entry = VerifMapFind(&map, node);
         if (entry->node) VERIF_FAIL("table: node listed twice, id %d", id);
         entry->node = node;
+        entry->id = id;
       }
     }
     if (numEntries != table->numEntries)
@@ -260,6 +263,20 @@ CalVerifCheckStructure(Cal_BddManager bddManager, char *buffer, int bufferSize)
     if (assoc == bddManager->tempAssociation) break;
   }
 
+  /* The cache of results only knows nodes in use, and temporary results only
+     during a pipeline */
+  for (bin = 0; CalVerifCacheEntry(bddManager, bin, cached); bin++){
+    for (i = 0; i < 3; i++){
+      node = CAL_BDD_POINTER(cached[i].node);
+      if (node == 0 || bddManager->pipelineState != READY) continue;
+      if (node == CAL_BDD_POINTER(CalBddGetBddNode(bddManager->bddOne))) continue;
+      entry = VerifMapFind(&map, node);
+      if (entry->node == 0 || (i == 2 && entry->id != cached[i].id))
+        VERIF_FAIL("cache: entry %ld, %s is not in a unique table", bin,
+                   i == 2 ? "its result" : "an operand");
+    }
+  }
+
   /* Compare with reference counts; requests of a pipeline also hold some */
   for (id = 1; id <= bddManager->numVars; id++){
     table = bddManager->uniqueTable[id];
@@ -375,6 +392,40 @@ CalVerifNumSaturated(Cal_BddManager bddManager)
   return saturated - 1 - bddManager->numVars;
 }
 
+/**Function********************************************************************
+******************************************************************************/
+long
+CalVerifNumLockedNodes(Cal_BddManager bddManager)
+{
+  long bin, locked = 0;
+  int id;
+  CalHashTable_t *table;
+  CalBddNode_t *node;
+  Cal_BddRefCount_t refCount;
+  for (id = 1; id <= bddManager->numVars; id++){
+    table = bddManager->uniqueTable[id];
+    for (bin = 0; bin < table->numBins; bin++)
+      for (node = table->bins[bin]; node; node = CalBddNodeGetNextBddNode(node)){
+        CalBddNodeGetRefCount(node, refCount);
+        if (refCount == CAL_MAX_REF_COUNT) locked++;
+      }
+  }
+  return locked;
+}
+
+/**Function********************************************************************
+******************************************************************************/
+long
+CalVerifNumCacheEntries(Cal_BddManager bddManager)
+{
+  long bin, entries = 0;
+  CalVerifEdge_t cached[3];
+  for (bin = 0; CalVerifCacheEntry(bddManager, bin, cached); bin++){
+    if (cached[0].id) entries++;
+  }
+  return entries;
+}
+
 /**Function********************************************************************
 ******************************************************************************/
 void
diff --git a/src/calVerif.h b/src/calVerif.h
index 8015649..dbf2cce 100644
--- a/src/calVerif.h
+++ b/src/calVerif.h
@@ -60,6 +60,16 @@ extern long CalVerifNumGarbage(Cal_BddManager bddManager);
    are created that way. */
 extern long CalVerifNumSaturated(Cal_BddManager bddManager);
 
+/* Nodes with a saturated reference count. */
+extern long CalVerifNumLockedNodes(Cal_BddManager bddManager);
+
+/* The operands and the result at a position of the cache of results; the id of
+   the first operand is 1 if it is occupied. Returns 0 beyond its end. */
+extern int CalVerifCacheEntry(Cal_BddManager bddManager, long position, CalVerifEdge_t *edges);
+
+/* Occupied entries of the cache of results. */
+extern long CalVerifNumCacheEntries(Cal_BddManager bddManager);
+
 /* Fills the unused nodes of all node managers with junk. */
 extern void CalVerifScribbleFreeNodes(Cal_BddManager bddManager);
 
-- 
2.43.0

