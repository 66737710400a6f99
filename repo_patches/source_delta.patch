From 6518584ee1d9b0134263e1cee734144bdf7db5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:30 +0000
Subject: [PATCH 01/79] Guarded (SPH_MC_HOOKS) scheduling points in the
 inline-assembly atomics

---
 src/sasatom.h        | 21 +++++++++++++++++++++
 src/sasatom_x86_64.h |  1 +
 2 files changed, 22 insertions(+)

diff --git a/src/sasatom.h b/src/sasatom.h
index 49e086a..b31060d 100644
--- a/src/sasatom.h
+++ b/src/sasatom.h
@@ -35,6 +35,22 @@ typedef unsigned int  sas_spin_lock_t;
 /*! Pointer to sas_spin_lock_t type */
 typedef void*         sas_lock_ptr_t;
 
+/// @cond HIDE_FROM_DOXYGEN
+#ifdef SPH_MC_HOOKS
+/* Verification hook: announces an inline-assembly atomic access to a
+ * controlled scheduler.  Compiled out unless SPH_MC_HOOKS is defined. */
+# ifdef __cplusplus
+extern "C"
+# else
+extern
+# endif
+void sph_mc_point (const volatile void *addr, unsigned long size, int kind);
+# define SPH_MC_POINT(addr, size) sph_mc_point ((addr), (size), 2)
+#else
+# define SPH_MC_POINT(addr, size) do { } while (0)
+#endif
+/// @endcond
+
 #if defined(__powerpc64__) || defined (__powerpc__)
 #include "sasatom_powerpc.h"
 #elif defined(__x86_64__)
@@ -179,6 +195,7 @@ sas_fetch_and_or_long(unsigned long *pointer, long int delta)
 static inline int
 sas_compare_and_swap (volatile long int *p, long int oldval, long int newval)
 {
+  SPH_MC_POINT (p, sizeof (*p));
   return __arch_compare_and_swap(p, oldval, newval);
 }
 
@@ -191,6 +208,7 @@ sas_compare_and_swap (volatile long int *p, long int oldval, long int newval)
 static inline long int
 sas_atomic_swap (long int *p, long int replace)
 {
+  SPH_MC_POINT (p, sizeof (*p));
   return __arch_atomic_swap(p, replace);
 }
 
@@ -200,6 +218,7 @@ sas_atomic_swap (long int *p, long int replace)
 static inline void
 sas_atomic_inc(long int *p)
 {
+  SPH_MC_POINT (p, sizeof (*p));
   __arch_atomic_inc(p);
 }
 
@@ -209,6 +228,7 @@ sas_atomic_inc(long int *p)
 static inline void
 sas_atomic_dec(long int *p)
 {
+  SPH_MC_POINT (p, sizeof (*p));
   __arch_atomic_dec(p);
 }
 
@@ -245,6 +265,7 @@ sas_spin_lock (volatile sas_spin_lock_t *lock)
 static inline int
 sas_spin_trylock (volatile sas_spin_lock_t *lock)
 {
+  SPH_MC_POINT (lock, sizeof (*lock));
   return __arch_sas_spin_trylock(lock);
 }
 
diff --git a/src/sasatom_x86_64.h b/src/sasatom_x86_64.h
index 9c0d233..b9669a6 100644
--- a/src/sasatom_x86_64.h
+++ b/src/sasatom_x86_64.h
@@ -138,6 +138,7 @@ __arch_sas_spin_lock (volatile sas_spin_lock_t *lock)
   char rc;
 
   do {
+    SPH_MC_POINT (lock, sizeof (*lock));
     __asm__ __volatile__ ("lock; cmpxchg %2, %1; sete %0"
                           : "=a" (rc), "=m" (*lock)
                           : "r" (1), "m" (*lock), "0" (0)
-- 
2.43.0


From c87d8070913538e1649e43481002b6e44f64f56d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:34 +0000
Subject: [PATCH 02/79] fix: define SASIndexContainsKey_nolock with the
 declared signature so that it links

---
 src/sasindex.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sasindex.cpp b/src/sasindex.cpp
index 860fcb9..da32d84 100644
--- a/src/sasindex.cpp
+++ b/src/sasindex.cpp
@@ -1199,7 +1199,7 @@ SASIndexContainsKey (SASIndex_t  heap, SASIndexKey_t *key)
 }
 
 int
-SASIndexContainsKey_nolock (SASIndex_t  heap, SASIndexKey_t *key)
+SASIndexContainsKey_nolock (SASIndex_t  heap, const SASIndexKey_t *key)
 {
     SASIndexHeader	*btree = (SASIndexHeader*)heap;
 	__IDXnodePosRef ref = {NULL, 0};
-- 
2.43.0


From 4fe3f6aafaf2b833c6739c60b3f0975971ffe6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:23 +0000
Subject: [PATCH 03/79] fix: keep the key count and the minimum/maximum of
 string trees and indexes exact

A refused put, a replace and the removal of an absent key changed the count, and the
new minimum or maximum after a removal was looked up only one level below the root.
---
 src/sasindex.cpp       | 22 ++++++++++++----------
 src/sasstringbtree.cpp | 22 ++++++++++++----------
 2 files changed, 24 insertions(+), 20 deletions(-)

diff --git a/src/sasindex.cpp b/src/sasindex.cpp
index da32d84..511aab2 100644
--- a/src/sasindex.cpp
+++ b/src/sasindex.cpp
@@ -1385,6 +1385,7 @@ SASIndexPut (SASIndex_t  heap, SASIndexKey_t *key, void *value)
 			{
 			    btree->root = node;
 				btree->common->modCount++;
+				btree->common->count++;
 			    if ( SASIndexKeyCompare(key, btree->common->min_key) < 0 ) 
 			    	SASIndexUpdateMin(heap, key);
 			    if ( SASIndexKeyCompare(key, btree->common->max_key) > 0 ) 
@@ -1397,9 +1398,9 @@ SASIndexPut (SASIndex_t  heap, SASIndexKey_t *key, void *value)
 		    SASIndexUpdateMin(heap, key);
 		    SASIndexUpdateMax(heap, key);
 			btree->common->modCount++;
+			btree->common->count++;
 			result = true;
 		};
-		btree->common->count++;
 		SASUnlock(heap);
     }
 	return result; /* False indicates duplicate key */
@@ -1423,6 +1424,7 @@ SASIndexPut_nolock (SASIndex_t  heap, SASIndexKey_t *key, void *value)
 			{
 			    btree->root = node;
 				btree->common->modCount++;
+				btree->common->count++;
 			    if ( SASIndexKeyCompare(key, btree->common->min_key) < 0 )
 			    	SASIndexUpdateMin(heap, key);
 			    if ( SASIndexKeyCompare(key, btree->common->max_key) > 0 )
@@ -1435,9 +1437,9 @@ SASIndexPut_nolock (SASIndex_t  heap, SASIndexKey_t *key, void *value)
 		    SASIndexUpdateMin(heap, key);
 		    SASIndexUpdateMax(heap, key);
 			btree->common->modCount++;
+			btree->common->count++;
 			result = true;
 		};
-		btree->common->count++;
     }
 	return result; /* False indicates duplicate key */
 }
@@ -1465,7 +1467,6 @@ SASIndexReplace (SASIndex_t  heap, SASIndexKey_t *key, void *value)
 				result = SASIndexNodePutValIndexed(ref.node, ref.pos, value);
 		    }
 		}
-		btree->common->count++;
 		SASUnlock(heap);
     }
 	return result; // return prev value if already exist
@@ -1493,7 +1494,6 @@ SASIndexReplace_nolock (SASIndex_t  heap, SASIndexKey_t *key, void *value)
 				result = SASIndexNodePutValIndexed(ref.node, ref.pos, value);
 		    }
 		}
-		btree->common->count++;
     }
 	return result; // return prev value if already exist
 }
@@ -1531,13 +1531,14 @@ SASIndexRemove (SASIndex_t  heap, SASIndexKey_t *key)
 		    }
 		    if ( btree->root != NULL )
 		    {
-				btree->common->count--;
+				if (found)
+					btree->common->count--;
 				if (btree->common->count > 0)
 				{
 				    if(SASIndexKeyCompare(key, btree->common->min_key) == 0)
 				    {
 				        node = (SASIndexNodeHeader *) btree->root;
-				        if (node->branch[0] != NULL)
+				        while (node->branch[0] != NULL)
 				        {
 				            node = node->branch[0];
 				        }
@@ -1546,7 +1547,7 @@ SASIndexRemove (SASIndex_t  heap, SASIndexKey_t *key)
 				    if(SASIndexKeyCompare(key, btree->common->max_key) == 0)
 				    {
 				        node = (SASIndexNodeHeader *) btree->root;
-				        if(node->branch[node->count] != NULL)
+				        while (node->branch[node->count] != NULL)
 				        {
 				            node = node->branch[node->count];
 				        }
@@ -1598,13 +1599,14 @@ SASIndexRemove_nolock (SASIndex_t  heap, SASIndexKey_t *key)
 		    }
 		    if ( btree->root != NULL )
 		    {
-				btree->common->count--;
+				if (found)
+					btree->common->count--;
 				if (btree->common->count > 0)
 				{
 				    if(SASIndexKeyCompare(key, btree->common->min_key) == 0)
 				    {
 				        node = (SASIndexNodeHeader *) btree->root;
-				        if (node->branch[0] != NULL)
+				        while (node->branch[0] != NULL)
 				        {
 				            node = node->branch[0];
 				        }
@@ -1613,7 +1615,7 @@ SASIndexRemove_nolock (SASIndex_t  heap, SASIndexKey_t *key)
 				    if(SASIndexKeyCompare(key, btree->common->max_key) == 0)
 				    {
 				        node = (SASIndexNodeHeader *) btree->root;
-				        if(node->branch[node->count] != NULL)
+				        while (node->branch[node->count] != NULL)
 				        {
 				            node = node->branch[node->count];
 				        }
diff --git a/src/sasstringbtree.cpp b/src/sasstringbtree.cpp
index 512837e..e99be13 100644
--- a/src/sasstringbtree.cpp
+++ b/src/sasstringbtree.cpp
@@ -1505,6 +1505,7 @@ SASStringBTreePut (SASStringBTree_t heap, const char *key, void *value)
 	    {
 	      btree->root = node;
 	      btree->common->modCount++;
+	      btree->common->count++;
 	      if (strcmp (key, btree->common->min_key) < 0)
 		SASStringBTreeUpdateMin (heap, key);
 	      if (strcmp (key, btree->common->max_key) > 0)
@@ -1519,9 +1520,9 @@ SASStringBTreePut (SASStringBTree_t heap, const char *key, void *value)
 	  SASStringBTreeUpdateMin (heap, key);
 	  SASStringBTreeUpdateMax (heap, key);
 	  btree->common->modCount++;
+	  btree->common->count++;
 	  result = true;
 	};
-      btree->common->count++;
       SASUnlock (heap);
     }
   return result;		/* False indicates duplicate key */
@@ -1544,6 +1545,7 @@ SASStringBTreePut_nolock (SASStringBTree_t heap, const char *key, void *value)
             {
               btree->root = node;
               btree->common->modCount++;
+              btree->common->count++;
               if (strcmp (key, btree->common->min_key) < 0)
                 SASStringBTreeUpdateMin (heap, key);
               if (strcmp (key, btree->common->max_key) > 0)
@@ -1558,9 +1560,9 @@ SASStringBTreePut_nolock (SASStringBTree_t heap, const char *key, void *value)
           SASStringBTreeUpdateMin (heap, key);
           SASStringBTreeUpdateMax (heap, key);
           btree->common->modCount++;
+          btree->common->count++;
           result = true;
         };
-      btree->common->count++;
     }
   return result;                /* False indicates duplicate key */
 }
@@ -1589,7 +1591,6 @@ SASStringBTreeReplace (SASStringBTree_t heap, const char *key, void *value)
 		SASStringBTreeNodePutValIndexed (ref.node, ref.pos, value);
 	    }
 	}
-      btree->common->count++;
       SASUnlock (heap);
     }
   return result;		// return prev value if already exist
@@ -1618,7 +1619,6 @@ SASStringBTreeReplace_nolock (SASStringBTree_t heap, const char *key, void *valu
                 SASStringBTreeNodePutValIndexed (ref.node, ref.pos, value);
             }
         }
-      btree->common->count++;
     }
   return result;                // return prev value if already exist
 }
@@ -1656,20 +1656,21 @@ SASStringBTreeRemove (SASStringBTree_t heap, const char *key)
 	    }
 	  if (btree->root != NULL)
 	    {
-	      btree->common->count--;
+	      if (found)
+		  btree->common->count--;
               if (btree->common->count > 0)
                 {
                   if(strcmp(key, btree->common->min_key) == 0)
                     {
                        node = (SASStringBTreeNodeHeader *) btree->root;
-                       if (node->branch[0] != NULL)
+                       while (node->branch[0] != NULL)
                           node = node->branch[0];
                        SASStringBTreeUpdateMin(heap, node->keys[1]);
                     }
                   if(strcmp(key, btree->common->max_key) == 0)
                     {
                        node = (SASStringBTreeNodeHeader *) btree->root;
-                       if (node->branch[node->count] != NULL)
+                       while (node->branch[node->count] != NULL)
                           node = node->branch[node->count];
                        SASStringBTreeUpdateMax(heap, node->keys[(node->count)]);
                     }
@@ -1723,20 +1724,21 @@ SASStringBTreeRemove_nolock (SASStringBTree_t heap, const char *key)
             }
           if (btree->root != NULL)
             {
-              btree->common->count--;
+              if (found)
+		  btree->common->count--;
               if (btree->common->count > 0)
                 {
                   if(strcmp(key, btree->common->min_key) == 0)
                     {
                        node = (SASStringBTreeNodeHeader *) btree->root;
-                       if (node->branch[0] != NULL)
+                       while (node->branch[0] != NULL)
                           node = node->branch[0];
                        SASStringBTreeUpdateMin(heap, node->keys[1]);
                     }
                   if(strcmp(key, btree->common->max_key) == 0)
                     {
                        node = (SASStringBTreeNodeHeader *) btree->root;
-                       if (node->branch[node->count] != NULL)
+                       while (node->branch[node->count] != NULL)
                           node = node->branch[node->count];
                        SASStringBTreeUpdateMax(heap, node->keys[(node->count)]);
                     }
-- 
2.43.0


From 1b0154f68b96205cc2c7ba00593e544879a07a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:30 +0000
Subject: [PATCH 04/79] fix: unlock exactly the expansion blocks that were
 locked when a tree or index grows

---
 src/sasindex.cpp       | 6 ++----
 src/sasstringbtree.cpp | 6 ++----
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/sasindex.cpp b/src/sasindex.cpp
index 511aab2..4894b74 100644
--- a/src/sasindex.cpp
+++ b/src/sasindex.cpp
@@ -412,11 +412,11 @@ SASIndexAlloc (SASIndex_t heap)
 					SASIndexHeader	*expandBlock = list->heap[i];
 					if ( i > 0 )
 	    				SASLock(expandBlock, SasUserLock__WRITE);
+					last_lock = i;
 			    	if ( SASIndexPercentUsed (expandBlock) 
 			    	       < DEFAULT_LOAD_FACTOR )
 			    	{
 			    		expandHeader = expandBlock;
-			    		last_lock = i;
 			    		break;
 			    	}
 				}
@@ -424,7 +424,6 @@ SASIndexAlloc (SASIndex_t heap)
 				{
 					expandHeader = (SASIndexHeader*)
 					                 SASIndexExpandCreate (heap);
-		    		last_lock = list->count-2;
 				}
 	    	} else {
 	    		expandHeader = lastHeader;
@@ -727,17 +726,16 @@ SASIndexSpillAllocExtended (SASIndex_t heap, lock_on_t lock_on)
 	    	
 	    	if (SASIndexPercentUsed(lastHeader) >= DEFAULT_LOAD_FACTOR)
 	    	{
-	    		last_lock = list->count-2;
 				for ( i = 0; i < list->count-1; i++ )
 				{
 					SASIndexHeader	*expandBlock = list->heap[i];
 					if ( i > 0 )
                                         if (lock_on) SASLock(expandBlock, SasUserLock__WRITE);
+					last_lock = i;
 			    	if ( SASIndexPercentUsed (expandBlock) 
 			    	       < DEFAULT_LOAD_FACTOR )
 			    	{
 			    		expandHeader = expandBlock;
-			    		last_lock = i;
 			    		break;
 			    	}
 				}
diff --git a/src/sasstringbtree.cpp b/src/sasstringbtree.cpp
index e99be13..96e8bc8 100644
--- a/src/sasstringbtree.cpp
+++ b/src/sasstringbtree.cpp
@@ -430,11 +430,11 @@ SASStringBTreeAlloc (SASStringBTree_t heap)
 		  SASStringBTreeHeader *expandBlock = list->heap[i];
 		  if (i > 0)
 		    SASLock (expandBlock, SasUserLock__WRITE);
+		  last_lock = i;
 		  if (SASStringBTreePercentUsed (expandBlock)
 		      < DEFAULT_LOAD_FACTOR)
 		    {
 		      expandHeader = expandBlock;
-		      last_lock = i;
 		      break;
 		    }
 		}
@@ -442,7 +442,6 @@ SASStringBTreeAlloc (SASStringBTree_t heap)
 		{
 		  expandHeader = (SASStringBTreeHeader *)
 		    SASStringBTreeExpandCreate (heap);
-	          last_lock = list->count - 2;
 		}
 	    }
 	  else
@@ -787,17 +786,16 @@ SASStringBTreeSpillAllocExtended (SASStringBTree_t heap, lock_on_t lock_on)
 
 	  if (SASStringBTreePercentUsed (lastHeader) >= DEFAULT_LOAD_FACTOR)
 	    {
-	      last_lock = list->count - 2;
 	      for (i = 0; i < list->count - 1; i++)
 		{
 		  SASStringBTreeHeader *expandBlock = list->heap[i];
 		  if (i > 0)
 		    if (lock_on) SASLock (expandBlock, SasUserLock__WRITE);
+		  last_lock = i;
 		  if (SASStringBTreePercentUsed (expandBlock)
 		      < DEFAULT_LOAD_FACTOR)
 		    {
 		      expandHeader = expandBlock;
-		      last_lock = i;
 		      break;
 		    }
 		}
-- 
2.43.0


From c49ba234c4a69c71a1761b12dd3d8278b6c1cb22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:11 +0000
Subject: [PATCH 05/79] fix: release the storage of a key that a node split
 pushes up

---
 src/sasindexnode.cpp         | 6 ++++++
 src/sasstringbtreenode.cpp   | 6 ++++++
 src/sasstringbtreenode.h     | 4 ++--
 src/sasstringbtreenodepriv.h | 2 +-
 4 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/sasindexnode.cpp b/src/sasindexnode.cpp
index 7cd8b95..3de77dc 100644
--- a/src/sasindexnode.cpp
+++ b/src/sasindexnode.cpp
@@ -1321,6 +1321,12 @@ SASIndexNodePushIn (SASIndexNode_t node_t, __IDXnodeKeyRef * ref,
     }
 
   SASIndexNodeKeyReplace (node, (k + 1), ref->key, lock_on);
+  if (ref->node != NULL)
+    {				/* the key was pushed up by a split below, which
+				   left its storage in the old node.  */
+      SASIndexNodeNearDealloc (node, ref->key, SASIndexKeySize (ref->key),
+			 lock_on);
+    }
   node->vals[k + 1] = ref->val;
   node->branch[k + 1] = (SASIndexNodeHeader *) ref->node;
   node->count++;
diff --git a/src/sasstringbtreenode.cpp b/src/sasstringbtreenode.cpp
index 87babe4..6f8f5a2 100644
--- a/src/sasstringbtreenode.cpp
+++ b/src/sasstringbtreenode.cpp
@@ -1330,6 +1330,12 @@ SASStringBTreeNodePushIn (SASStringBTreeNode_t node_t,
     }
 
   SASStringBTreeNodeKeyReplace (node, (k + 1), ref->key, lock_on);
+  if (ref->node != NULL)
+    {				/* the key was pushed up by a split below, which
+				   left its storage in the old node.  */
+      SASStringBTreeNodeNearDealloc (node, ref->key, strlen (ref->key) + 1,
+				 lock_on);
+    }
   node->vals[k + 1] = ref->val;
   node->branch[k + 1] = (SASStringBTreeNodeHeader *) ref->node;
   node->count++;
diff --git a/src/sasstringbtreenode.h b/src/sasstringbtreenode.h
index 1106809..3b41d90 100644
--- a/src/sasstringbtreenode.h
+++ b/src/sasstringbtreenode.h
@@ -235,7 +235,7 @@ SASStringBTreeNodeAlloc (SASStringBTreeNode_t heap, block_size_t alloc_size,
  * if \a alloc_size does not hold the correct size of \a heap.
  */
 extern __C__ int
-SASStringBTreeNodeFree (SASStringBTreeNode_t heap, void *free_block,
+SASStringBTreeNodeFree (SASStringBTreeNode_t heap, const void *free_block,
 			block_size_t alloc_size, lock_on_t lock_on);
 
 /*!
@@ -298,7 +298,7 @@ SASStringBTreeNodeAllocNoLock (SASStringBTreeNode_t heap,
  * if \a alloc_size does not hold the correct size of \a heap.
  */
 extern __C__ int
-SASStringBTreeNodeFreeNoLock (SASStringBTreeNode_t heap, void *free_block,
+SASStringBTreeNodeFreeNoLock (SASStringBTreeNode_t heap, const void *free_block,
 			      block_size_t alloc_size);
 
 /*!
diff --git a/src/sasstringbtreenodepriv.h b/src/sasstringbtreenodepriv.h
index 82014aa..20994a5 100644
--- a/src/sasstringbtreenodepriv.h
+++ b/src/sasstringbtreenodepriv.h
@@ -52,7 +52,7 @@ SASStringBTreeSpillInit (void* heap_seg,  sas_type_t sasType,
                          block_size_t heap_size);
 
 extern __C__ int
-SASStringBTreeNodeNearDealloc(SASStringBTreeNode_t heap, void* free_block, 
+SASStringBTreeNodeNearDealloc(SASStringBTreeNode_t heap, const void* free_block, 
                                block_size_t alloc_size, lock_on_t lock_on);
 
 #endif /* __SAS_STRINGBTREENODE_PRIVH */
-- 
2.43.0


From ff6dd9339f27073f508663ef2fc9f653e561f9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:08 +0000
Subject: [PATCH 06/79] fix: reserve enough room for the multi-producer queue
 header

The header takes 360 bytes; with entries starting at offset 256 the first
entries overlay qtail and headerFreeSpace.
---
 src/sphmultipcqueue.cpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/sphmultipcqueue.cpp b/src/sphmultipcqueue.cpp
index f353c9f..f2c77a8 100644
--- a/src/sphmultipcqueue.cpp
+++ b/src/sphmultipcqueue.cpp
@@ -57,11 +57,7 @@ typedef struct SPHMPMCQHeader
 
 #ifdef __LP64__
 #define HEAP_OFFSET 128
-#if 1
-#define DEFAULT_PAGE 256
-#else
 #define DEFAULT_PAGE 384
-#endif
 #else
 #define HEAP_OFFSET 64
 #define DEFAULT_PAGE 256
-- 
2.43.0


From 3f01f7a47b421b422a607df1c7f112235eaa5c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:08 +0000
Subject: [PATCH 07/79] fix: round queue and logger entry strides up to the
 allocation unit

(stride + 16) & ~16 leaves strides such as 40 or 100 unaligned, so that the
length recorded in units of 16 bytes is short.
---
 src/sphlflogger.cpp      | 2 +-
 src/sphmultipcqueue.cpp  | 2 +-
 src/sphsinglepcqueue.cpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sphlflogger.cpp b/src/sphlflogger.cpp
index 9f46dc4..82e6a0a 100644
--- a/src/sphlflogger.cpp
+++ b/src/sphlflogger.cpp
@@ -91,7 +91,7 @@ SPHLFLoggerInitInternal (void *buf_seg, sas_type_t sasType,
   heapBlock->end_log_buf = (longPtr_t) stackEnd;
   heapBlock->align_mask = (longPtr_t) DEFAULT_ALIGN_MASK;
   heapBlock->options = options;
-  heapBlock->default_entry_stride = (stride + round) & ~round;
+  heapBlock->default_entry_stride = (stride + round - 1) & ~(round - 1);
 
   remaining = DEFAULT_PAGE - sizeof (SASLFLoggerHeader);
   heapBlock->headerFreeSpace = (freeNode *) & heapBlock[1];
diff --git a/src/sphmultipcqueue.cpp b/src/sphmultipcqueue.cpp
index f2c77a8..093b22b 100644
--- a/src/sphmultipcqueue.cpp
+++ b/src/sphmultipcqueue.cpp
@@ -95,7 +95,7 @@ SPHMPMCQInitInternal (void *buf_seg, sas_type_t sasType,
 	debug_printf("%s(%p, %ld, %d) sizeof(header)=%zu round=%ld\n",__FUNCTION__,buf_seg, buf_size, stride, sizeof (SPHMPMCQHeader), round);
 	if (stride != NODEFAULT_ENTRY_STRIDE) {
 		/* insure stride keep minimal alignment */
-		stride = (stride + round) & ~round;
+		stride = (stride + round - 1) & ~(round - 1);
 		/* round buf_size to be an integral number of strides */
 		buf_size = buf_size - DEFAULT_PAGE;
 		buf_size = buf_size / stride;
diff --git a/src/sphsinglepcqueue.cpp b/src/sphsinglepcqueue.cpp
index 8e2a3c1..7c6dec9 100644
--- a/src/sphsinglepcqueue.cpp
+++ b/src/sphsinglepcqueue.cpp
@@ -102,7 +102,7 @@ SPHSinglePCQueueInitInternal (void *buf_seg, sas_type_t sasType,
   if (stride != NODEFAULT_ENTRY_STRIDE)
     {
       /* insure stride keep minimal alignment */
-      stride = (stride + round) & ~round;
+      stride = (stride + round - 1) & ~(round - 1);
       /* round buf_size to be an integral number of strides */
       buf_size = buf_size - DEFAULT_PAGE;
       buf_size = buf_size / stride;
-- 
2.43.0


From 621e58f0b2f5b4135e3f8cb244e18180a7d6b139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:39 +0000
Subject: [PATCH 08/79] fix: clear the entry headers when a queue is
 initialised or reset

A queue on storage that is not all zero, or reset while entries were in it,
found its slots taken for ever.  A queue without a stride also took its end
256 bytes past its block.
---
 src/sphmultipcqueue.cpp  | 17 ++++++++++++++++-
 src/sphsinglepcqueue.cpp | 19 ++++++++++++++++++-
 2 files changed, 34 insertions(+), 2 deletions(-)

diff --git a/src/sphmultipcqueue.cpp b/src/sphmultipcqueue.cpp
index 093b22b..ee327ee 100644
--- a/src/sphmultipcqueue.cpp
+++ b/src/sphmultipcqueue.cpp
@@ -67,6 +67,19 @@ typedef struct SPHMPMCQHeader
 #define NODEFAULT_ENTRY_STRIDE (0)
 #define NODEFAULT_LOG_OPTIONS (0)
 
+/* An entry is allocatable only while its header is zero.  */
+static void
+SPHMPMCQClearEntries (SPHMPMCQHeader *headerBlock)
+{
+	longPtr_t stride = headerBlock->default_entry_stride;
+	longPtr_t entry = headerBlock->startq;
+
+	do {
+		((SPHLFEntryHeader_t *) entry)->entryID.idUnit = 0;
+		entry += stride;
+	} while (stride != NODEFAULT_ENTRY_STRIDE && entry < headerBlock->endq);
+}
+
 static SPHMPMCQ_t
 SPHMPMCQInitInternal (void *buf_seg, sas_type_t sasType,
 		      block_size_t buf_size,
@@ -92,12 +105,12 @@ SPHMPMCQInitInternal (void *buf_seg, sas_type_t sasType,
 
 	if (heapBlock)
 		initSOMSASBlock ((SASBlockHeader *) heapBlock, sasType, buf_size, NULL);
+	buf_size = buf_size - DEFAULT_PAGE;
 	debug_printf("%s(%p, %ld, %d) sizeof(header)=%zu round=%ld\n",__FUNCTION__,buf_seg, buf_size, stride, sizeof (SPHMPMCQHeader), round);
 	if (stride != NODEFAULT_ENTRY_STRIDE) {
 		/* insure stride keep minimal alignment */
 		stride = (stride + round - 1) & ~(round - 1);
 		/* round buf_size to be an integral number of strides */
-		buf_size = buf_size - DEFAULT_PAGE;
 		buf_size = buf_size / stride;
 		buf_size = buf_size * stride;
 		debug_printf ("%s stride=%d, buf_size=%ld\n",__FUNCTION__,stride,buf_size);
@@ -121,6 +134,7 @@ SPHMPMCQInitInternal (void *buf_seg, sas_type_t sasType,
 	heapBlock->align_mask = (longPtr_t) DEFAULT_ALIGN_MASK;
 	heapBlock->options = options;
 	heapBlock->default_entry_stride = stride;
+	SPHMPMCQClearEntries (heapBlock);
 
 	remaining = DEFAULT_PAGE - sizeof (SPHMPMCQHeader);
 	heapBlock->headerFreeSpace = (freeNode *) & heapBlock[1];
@@ -214,6 +228,7 @@ SPHMPMCQResetAsync (SPHMPMCQ_t queue)
 
 	if (SOMSASCheckBlockSigAndType ((SASBlockHeader *) headerBlock,SAS_RUNTIME_PCQUEUE_TM)) {
 		sas_read_barrier ();
+		SPHMPMCQClearEntries (headerBlock);
 		headerBlock->qhead = headerBlock->startq;
 		headerBlock->qtail = headerBlock->startq;
 	} else {
diff --git a/src/sphsinglepcqueue.cpp b/src/sphsinglepcqueue.cpp
index 7c6dec9..b0afc1c 100644
--- a/src/sphsinglepcqueue.cpp
+++ b/src/sphsinglepcqueue.cpp
@@ -79,6 +79,21 @@ typedef struct SPHPCQueueHeader
 #define NODEFAULT_ENTRY_STRIDE (0)
 #define NODEFAULT_LOG_OPTIONS (0)
 
+/* An entry is allocatable only while its header is zero.  */
+static void
+SPHSinglePCQueueClearEntries (SPHPCQueueHeader * headerBlock)
+{
+  longPtr_t stride = headerBlock->default_entry_stride;
+  longPtr_t entry = headerBlock->startq;
+
+  do
+    {
+      ((SPHLFEntryHeader_t *) entry)->entryID.idUnit = 0;
+      entry += stride;
+    }
+  while (stride != NODEFAULT_ENTRY_STRIDE && entry < headerBlock->endq);
+}
+
 SPHSinglePCQueue_t
 SPHSinglePCQueueInitInternal (void *buf_seg, sas_type_t sasType,
 			      block_size_t buf_size,
@@ -99,12 +114,12 @@ SPHSinglePCQueueInitInternal (void *buf_seg, sas_type_t sasType,
     ("SPHSinglePCQueueInitInternal(%p, %ld, %d) sizeof(header)=%zu round=%ld\n",
      buf_seg, buf_size, stride, sizeof (SPHPCQueueHeader), round);
 #endif
+  buf_size = buf_size - DEFAULT_PAGE;
   if (stride != NODEFAULT_ENTRY_STRIDE)
     {
       /* insure stride keep minimal alignment */
       stride = (stride + round - 1) & ~(round - 1);
       /* round buf_size to be an integral number of strides */
-      buf_size = buf_size - DEFAULT_PAGE;
       buf_size = buf_size / stride;
       buf_size = buf_size * stride;
 #ifdef __SASDebugPrint__
@@ -133,6 +148,7 @@ SPHSinglePCQueueInitInternal (void *buf_seg, sas_type_t sasType,
   heapBlock->align_mask = (longPtr_t) DEFAULT_ALIGN_MASK;
   heapBlock->options = options;
   heapBlock->default_entry_stride = stride;
+  SPHSinglePCQueueClearEntries (heapBlock);
 
   remaining = DEFAULT_PAGE - sizeof (SPHPCQueueHeader);
   heapBlock->headerFreeSpace = (freeNode *) & heapBlock[1];
@@ -231,6 +247,7 @@ SPHSinglePCQueueResetAsync (SPHSinglePCQueue_t queue)
 				  SAS_RUNTIME_PCQUEUE))
 	{
 	  sas_read_barrier ();
+	  SPHSinglePCQueueClearEntries (headerBlock);
 	  headerBlock->qhead = headerBlock->startq;
 	  headerBlock->qtail = headerBlock->startq;
 	}
-- 
2.43.0


From 5de3d3f757e9925d05fa95c1f28b422a5280c5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:39 +0000
Subject: [PATCH 09/79] fix: SPHMPMCQGetEntries and SPHMPMCQPrefetch check for
 the multi-producer queue type

GetEntries divided by zero without a stride instead of returning the
documented 0, and did not reject other handles; Prefetch rejected every queue.
---
 src/sphmultipcqueue.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/sphmultipcqueue.cpp b/src/sphmultipcqueue.cpp
index ee327ee..f326d82 100644
--- a/src/sphmultipcqueue.cpp
+++ b/src/sphmultipcqueue.cpp
@@ -216,6 +216,11 @@ SPHMPMCQGetEntries (SPHMPMCQ_t queue)
 {
 	SPHMPMCQHeader *headerBlock = (SPHMPMCQHeader *) queue;
 	debug_printf("%-6d: %s NEW\n",sphdeGetTID(),__FUNCTION__);
+	if (!SOMSASCheckBlockSigAndType ((SASBlockHeader *) headerBlock,
+					  SAS_RUNTIME_PCQUEUE_TM))
+		return -1;
+	if (headerBlock->default_entry_stride == NODEFAULT_ENTRY_STRIDE)
+		return 0;
 	return (headerBlock->endq - headerBlock->startq) / headerBlock->default_entry_stride;
 }
 
@@ -543,7 +548,7 @@ SPHMPMCQPrefetch (SPHMPMCQ_t queue)
 	int rc = 0;
 
 	if (SOMSASCheckBlockSigAndType ((SASBlockHeader *) headerBlock,
-				  SAS_RUNTIME_PCQUEUE)) {
+				  SAS_RUNTIME_PCQUEUE_TM)) {
 		block_size_t logsize = headerBlock->blockHeader.blockSize;
 		block_size_t pagesz = getpagesize ();
 		volatile char *touchptr = (char *) queue;
-- 
2.43.0


From 6c1299cbe7577a8b1320eff9a01634896973ab24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:39 +0000
Subject: [PATCH 10/79] fix: define SPHMPMCQGetNextEntry, which the header
 declares and documents

---
 src/sphmultipcqueue.cpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/sphmultipcqueue.cpp b/src/sphmultipcqueue.cpp
index f326d82..1ae430b 100644
--- a/src/sphmultipcqueue.cpp
+++ b/src/sphmultipcqueue.cpp
@@ -534,6 +534,23 @@ SPHMPMCQFreeEntryDirect (SPHMPMCQ_t queue,
 	return rc;
 }
 
+SPHLFEntryDirect_t
+SPHMPMCQGetNextEntry (SPHMPMCQ_t queue)
+{
+	SPHMPMCQHeader *headerBlock = (SPHMPMCQHeader *) queue;
+	SPHLFEntryHeader_t *entryPtr = 0;
+
+	if (SOMSASCheckBlockSigAndType ((SASBlockHeader *) headerBlock,SAS_RUNTIME_PCQUEUE_TM)) {
+		sas_read_barrier ();
+		entryPtr = (SPHLFEntryHeader_t *)headerBlock->qtail;
+		if (!entryPtr->entryID.detail.allocated)
+			entryPtr = 0;
+	} else {
+		debug_printf("%s(%p) type check failed\n",__FUNCTION__,queue);
+	}
+	return ((SPHLFEntryDirect_t)entryPtr);
+}
+
 int
 SPHMPMCQSetCachePrefetch (SPHMPMCQ_t queue, int prefetch)
 {
-- 
2.43.0


From 9242692d31bf014f386af3bc3f198aa5404fbf63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:39 +0000
Subject: [PATCH 11/79] fix: setting the cache prefetch option keeps the other
 options

The mask was applied uninverted, which cleared every option but the old
prefetch bits: a circular log stopped being circular.
---
 src/sphlflogger.cpp      | 2 +-
 src/sphsinglepcqueue.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sphlflogger.cpp b/src/sphlflogger.cpp
index 82e6a0a..7f29d92 100644
--- a/src/sphlflogger.cpp
+++ b/src/sphlflogger.cpp
@@ -1014,7 +1014,7 @@ SPHLFLoggerSetCachePrefetch (SPHLFLogger_t log, int prefetch)
 	  if (prefetch == 1)
 	    prefetch_opt = SPHLFLOGGER_CACHE_PREFETCH0;
 	}
-      temp = sas_fetch_and_and (&headerBlock->options, temp);
+      temp = sas_fetch_and_and (&headerBlock->options, ~temp);
       temp = sas_fetch_and_or (&headerBlock->options, prefetch_opt);
     }
   else
diff --git a/src/sphsinglepcqueue.cpp b/src/sphsinglepcqueue.cpp
index b0afc1c..21e9e64 100644
--- a/src/sphsinglepcqueue.cpp
+++ b/src/sphsinglepcqueue.cpp
@@ -1215,7 +1215,7 @@ SPHSinglePCQueueSetCachePrefetch (SPHSinglePCQueue_t queue, int prefetch)
 	    prefetch_opt = SPHSPCQUEUE_CACHE_PREFETCH0;
 	}
 
-      temp = sas_fetch_and_and (&headerBlock->options, temp);
+      temp = sas_fetch_and_and (&headerBlock->options, ~temp);
       temp = sas_fetch_and_or (&headerBlock->options, prefetch_opt);
     }
   else
-- 
2.43.0


From 2fd6e8ea5a8a2e9a682fe0189347d253fc478bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:24 +0000
Subject: [PATCH 12/79] fix: a queue entry's size is the stride also beyond
 4080 bytes

The 8-bit length field of the entry header wraps for longer entries.
---
 src/sphsinglepcqueue.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sphsinglepcqueue.cpp b/src/sphsinglepcqueue.cpp
index 21e9e64..7783d4a 100644
--- a/src/sphsinglepcqueue.cpp
+++ b/src/sphsinglepcqueue.cpp
@@ -1112,7 +1112,7 @@ SPHSinglePCQueueGetNextComplete (SPHSinglePCQueue_t queue,
       if (headerBlock->qhead != queue_entry
 	  && entrytemp.detail.valid && entrytemp.detail.allocated)
 	{
-	  alloc_round = entrytemp.detail.len * DEFAULT_ALLOC_UNIT;
+	  alloc_round = headerBlock->default_entry_stride;
 	  handlespace->entry = entryPtr;
 	  handlespace->total_size = alloc_round;
 	  if (entrytemp.detail.timestamped)
-- 
2.43.0


From c00a4afbf3e1868d3f6f7c2f1b66f16a408e3a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:52 +0000
Subject: [PATCH 13/79] fix: serialize the allocation of new locks from the
 common lock heap

---
 src/saslockl.cpp | 8 ++++++--
 src/saslockl.h   | 3 ++-
 src/sasmlock.cpp | 4 +++-
 src/sasmlock.h   | 1 +
 4 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/saslockl.cpp b/src/saslockl.cpp
index df217d6..6a0880b 100644
--- a/src/saslockl.cpp
+++ b/src/saslockl.cpp
@@ -89,8 +89,8 @@ SasLockListNode<Item, Key>::operator delete( void *deadObject )
 
 // List constructor
 template<class Item, class Key>
-SasLockList<Item, Key>::SasLockList(void)
-: headPtr(NULL), count(0)
+SasLockList<Item, Key>::SasLockList(spin_lock_t * heapLock)
+: headPtr(NULL), count(0), heap_lock(heapLock)
 {
    void *byteAddr = SASNearAlloc( (void*) this, sizeof(SasUserLock) );
    lock = new(byteAddr) SasUserLock();
@@ -255,9 +255,13 @@ SasLockList<Item, Key>::lockNode(Key keyAddr, sas_userlock_request_t lockT)
    fprintf (stderr, "%s - new-up a lock\n", __FUNCTION__);
 #endif
 
+   // All lists allocate from the same heap, and the list lock only protects
+   // this list.
+   spin_lock(heap_lock);
    char *byteAddr = (char*) SASNearAlloc( (void*) this, sizeof(SasUserLock) );
    SasUserLock * newUserLock = new(byteAddr) SasUserLock();
    add(newUserLock);
+   spin_unlock(heap_lock);
    switch (lockT) {
       case SasUserLock__READ:
          newUserLock->read_lock(lock, keyAddr);	 // lock item
diff --git a/src/saslockl.h b/src/saslockl.h
index e585d7f..0c25015 100644
--- a/src/saslockl.h
+++ b/src/saslockl.h
@@ -95,7 +95,7 @@ template<class Item, class Key>
 class SasLockList
 {
 public:
-  SasLockList(void);
+  SasLockList(spin_lock_t * heapLock);
   ~SasLockList(void);
   void * operator new(size_t size, SasMasterLock * const masterLock );
   void operator delete( void *deadObject );
@@ -116,6 +116,7 @@ private:
   SasLockListNode<Item, Key>	* headPtr;   // First node in list
   size_t			count;      // Current number of nodes
   SasUserLock			*lock;      // Locking mechanism
+  spin_lock_t			*heap_lock; // Serializes allocation for all lists
 };
 
 
diff --git a/src/sasmlock.cpp b/src/sasmlock.cpp
index 43d76e4..88352e7 100644
--- a/src/sasmlock.cpp
+++ b/src/sasmlock.cpp
@@ -294,10 +294,12 @@ SasMasterLock::initHashTable(void)
 
    // Now construct a SasUserLock object in each slot in the hash table
 
+   spin_lock_init(&heap_lock);
+
    unsigned int loop;
    for (loop = 0; loop < tableSize; ++loop)
     {
-      slots[loop] = new( this ) SasLockList<SasUserLock,vm_address_t>();
+      slots[loop] = new( this ) SasLockList<SasUserLock,vm_address_t>(&heap_lock);
     }
 
 #ifdef __SOMDebugPrint__
diff --git a/src/sasmlock.h b/src/sasmlock.h
index 3695b90..0090460 100644
--- a/src/sasmlock.h
+++ b/src/sasmlock.h
@@ -80,6 +80,7 @@ private:
   //unsigned int eyecatcher;
   unsigned int tableSize;
   SasLockList<SasUserLock,vm_address_t> ** slots;
+  spin_lock_t heap_lock;	// serializes allocation of new locks
   //unsigned int eyecatcher2;
   
   long hash(void * kk);
-- 
2.43.0


From d3af09121fa3f8cae7a1d7d909d801a2422920ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:09 +0000
Subject: [PATCH 14/79] fix: a lock object stays with its address while threads
 wait for it

---
 src/sasulock.cpp | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/sasulock.cpp b/src/sasulock.cpp
index df4c0eb..c6335e8 100644
--- a/src/sasulock.cpp
+++ b/src/sasulock.cpp
@@ -190,8 +190,13 @@ SasUserLock::read_lock(SasUserLock * lockObj, vm_address_t lockAddr)
 // So, if lockObj == NULL, that implies the user did not pass in
 // a lock object for their SasLockList and therefore, do not need us
 // to unlock it.
+// Claim this object for the address first, so that the next user of the list
+// finds it (an object whose address is set is not given to another address).
   if (lockObj != NULL)
+  {
+      address = lockAddr;
       lockObj->unlock();
+  }
 
 
   // if this thread already has a write lock then
@@ -378,8 +383,13 @@ SasUserLock::write_lock(SasUserLock * lockObj, vm_address_t lockAddr)
 // to unlock another lock object.  If the caller did not
 // specify a lock object, then by default, lockObj is set = NULL,
 // so there's nothing to do.
+// Claim this object for the address first, so that the next user of the list
+// finds it (an object whose address is set is not given to another address).
   if (lockObj != NULL)
+  {
+      address = lockAddr;
       lockObj->unlock();
+  }
 
 
   // if this thread already has the the write lock
@@ -508,8 +518,10 @@ SasUserLock::unlock(void)
   {
     total_readers_count--;
 // Zero-out the address datamember to indicate the lock object
-// is available for use.
-    if (total_readers_count==0)
+// is available for use, unless a thread still waits for it.
+    if ((total_readers_count==0) &&
+        (status == SasUserLock__not_exclusive) &&
+        (readers_waiting==0) && (writers_waiting==0))
 	address = NullAddress;
 
 #ifdef coherenceCheck
@@ -585,8 +597,9 @@ SasUserLock::unlock(void)
         return;
       }
       // Zero-out the address datamember to indicate the lock object
-      // is available for use.
-      address = NullAddress;
+      // is available for use, unless a thread still waits for it.
+      if ((readers_waiting==0) && (writers_waiting==0))
+        address = NullAddress;
 
       writer_thread_id = 0;
       writer_task_id = 0;
-- 
2.43.0


From 5335b434c3aec4f28b9db3a95128fd0ddd340d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:22 +0000
Subject: [PATCH 15/79] fix: a writer waiting for readers to finish is woken by
 its own semaphore

---
 src/sasulock.cpp | 25 +++++++++++++++++++------
 src/sasulock.h   |  2 ++
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/sasulock.cpp b/src/sasulock.cpp
index c6335e8..1bfb1fe 100644
--- a/src/sasulock.cpp
+++ b/src/sasulock.cpp
@@ -65,6 +65,8 @@ SasUserLock::SasUserLock(vm_address_t addrToLock)
   sem_init(&readers_waiting_sem, 1, MAX_READER_THREADS);
   writers_waiting               = 0;
   sem_init(&writers_waiting_sem, 1, 1);
+  drain_waiting                 = 0;
+  sem_init(&drain_waiting_sem, 1, 0);
   writer_thread_id              = 0;
   writer_task_id                = 0;
   writer_thread_lock_count      = 0;
@@ -91,6 +93,7 @@ SasUserLock::~SasUserLock(void)
   spin_lock(&data_lock);
   sem_destroy(&readers_waiting_sem);
   sem_destroy(&writers_waiting_sem);
+  sem_destroy(&drain_waiting_sem);
   if ((total_readers_count == 0) &&
       (readers_waiting == 0) &&
       (writers_waiting == 0))
@@ -454,15 +457,14 @@ SasUserLock::write_lock(SasUserLock * lockObj, vm_address_t lockAddr)
   // while still being used by the readers
   while (total_readers_count)
   {
-    // look like a writer so that the unlock code wakes us up.
-    writers_waiting++;
+    // the last reader wakes us up.  This must not share the semaphore of
+    // the waiting writers, or one of those takes the wake-up.
+    drain_waiting = 1;
 
-    SasUserLock::thread_sleep(	(vm_address_t)&writers_waiting,
-				&writers_waiting_sem, &data_lock);
+    SasUserLock::thread_sleep(	(vm_address_t)&drain_waiting,
+				&drain_waiting_sem, &data_lock);
 
     spin_lock(&data_lock);
-    if (writers_waiting)
-      writers_waiting--;
   }
   // no more readers, so we now have the write lock
 
@@ -506,6 +508,7 @@ SasUserLock::unlock(void)
 #endif
   boolean_t	wakeup_writers = FALSE;
   boolean_t	wakeup_readers = FALSE;
+  boolean_t	wakeup_drain = FALSE;
   // mach_thread_self() is a ukernel call so let's
   // issue it only once in this routine.  This is
   // a local automatic variable so it is also
@@ -535,6 +538,11 @@ SasUserLock::unlock(void)
 #endif
     if ((total_readers_count==0) && (writers_waiting))
       wakeup_writers = TRUE;
+    if ((total_readers_count==0) && (drain_waiting))
+    {
+      drain_waiting = 0;
+      wakeup_drain = TRUE;
+    }
     // unlock the reader that has it
     for (int i = 0; i < MAX_READER_THREADS; i++)
     {
@@ -635,6 +643,11 @@ SasUserLock::unlock(void)
   } // end else no readers waiting
   spin_unlock(&data_lock);
 
+  if (wakeup_drain)
+  {
+    SasUserLock::thread_wakeup(	(vm_address_t)&drain_waiting,
+				&drain_waiting_sem, WAKE_ONE);
+  }
   if (wakeup_writers)
   {
     SasUserLock::thread_wakeup(	(vm_address_t)&writers_waiting,
diff --git a/src/sasulock.h b/src/sasulock.h
index 8389b3a..cde1513 100644
--- a/src/sasulock.h
+++ b/src/sasulock.h
@@ -123,6 +123,8 @@ private:
   sem_t                 readers_waiting_sem;
   volatile int          writers_waiting;
   sem_t                 writers_waiting_sem;
+  volatile int          drain_waiting;	// new writer waits for the readers
+  sem_t                 drain_waiting_sem;
   pid_t                 writer_task_id;
   pid_t                 writer_thread_id;
   volatile int          writer_thread_lock_count;
-- 
2.43.0


From 3bc4c070662398da3b0ea5488f41824e705fb044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:11 +0000
Subject: [PATCH 16/79] fix: a reader waits for a slot when the reader table is
 full

---
 src/sasulock.cpp | 26 +++++++++++++++++---------
 src/sasulock.h   |  1 +
 2 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/sasulock.cpp b/src/sasulock.cpp
index 1bfb1fe..9b43a14 100644
--- a/src/sasulock.cpp
+++ b/src/sasulock.cpp
@@ -165,6 +165,16 @@ SasUserLock::thread_wakeup(	vm_address_t event,
 	sem_post(sem);
 }
 
+// Is there an unused slot in the reader table?
+boolean_t
+SasUserLock::reader_slot_free(void)
+{
+  for (int i = 0; i < MAX_READER_THREADS; i++)
+    if (readers[i].reader_thread_lock_count == 0)
+      return TRUE;
+  return FALSE;
+}
+
 // Get a shared read lock.  Many threads can have a read lock.
 // While read locks are held no write lock will be granted.
 // The lockObj pointer passed in allows us to release the
@@ -263,8 +273,9 @@ SasUserLock::read_lock(SasUserLock * lockObj, vm_address_t lockAddr)
     }  // end scan for has reader lock already
   }    // end if(total_readers_count)
 
-  // wait until all the writers are done.
-  while (status == SasUserLock__exclusive || writers_waiting)
+  // wait until all the writers are done and the reader table has room.
+  while (status == SasUserLock__exclusive || writers_waiting ||
+         !reader_slot_free())
     {
       readers_waiting++;
 
@@ -342,13 +353,7 @@ SasUserLock::read_lock(SasUserLock * lockObj, vm_address_t lockAddr)
         }  // end open slot in table
     }   // end for loop looking for a slot
 
-  // if we get here, we still have the spin lock,
-  // and we did not find a slot to use.  I can't
-  // readily hang this thread, but I CAN hang onto
-  // the spin lock so that all other threads will
-  // lock up.  Oughta notice that.  Thus,
-  // I intentionally didn't release the spin lock
-  // here.
+  // not reached: the wait above ends only when there is a slot to use.
 #ifdef mylockdebug
   fprintf (stderr, "%s\n", __FUNCTION__);
   fprintf (stderr, " thread[%ld,%ld] - no opne slots in reader table\n",
@@ -573,6 +578,9 @@ SasUserLock::unlock(void)
           // remove the thread id
           readers[i].reader_thread_id = 0;
           readers[i].reader_task_id = 0;
+          // a reader may be waiting for a slot in the table
+          if (readers_waiting)
+            wakeup_readers = TRUE;
         }
       }
     } // end for loop
diff --git a/src/sasulock.h b/src/sasulock.h
index cde1513..358ca5d 100644
--- a/src/sasulock.h
+++ b/src/sasulock.h
@@ -108,6 +108,7 @@ public:
 #endif
   boolean_t	waiters(void);
 private:
+  boolean_t reader_slot_free(void);
   void thread_sleep (	vm_address_t event,
 			sem_t       *sem,
   			spin_lock_t *lock);
-- 
2.43.0


From 4d04da0548b139d1d75f2db4d9bb0e63221a4300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:05 +0000
Subject: [PATCH 17/79] fix: tree enumeration delivers the first and the start
 key, and survives changes

An enumeration skipped the only or least key when it was "" or 0, ended
early when the start key was the greatest, delivered keys before an absent
start key, counted wrongly, never ended once the tree became empty, and kept
a pointer to a key in the tree that a removal could free.
---
 src/sasindexenum.cpp       |  43 +++++++++++-----
 src/sasstringbtreeenum.cpp | 101 +++++++++++++++++++++++++------------
 2 files changed, 101 insertions(+), 43 deletions(-)

diff --git a/src/sasindexenum.cpp b/src/sasindexenum.cpp
index d86b9b1..eca111e 100644
--- a/src/sasindexenum.cpp
+++ b/src/sasindexenum.cpp
@@ -35,6 +35,25 @@ typedef struct __IDXEnumeration
   SASIndexKey_t entryIndex;
 } __IDXEnumeration;
 
+/* Keep a copy of the current key: the index may move, overwrite or free its
+   own copy before the next step.  */
+static void
+SASIndexEnumSetKey (__IDXEnumeration * indexenum, SASIndexKey_t * key)
+{
+  memcpy (&indexenum->entryIndex, key, key->copy_size);
+  indexenum->curkey = &indexenum->entryIndex;
+}
+
+/* Before the first step (no current node) the key is where to start, which
+   may be the maximum key itself.  */
+static bool
+SASIndexEnumKeysLeft (__IDXEnumeration * indexenum, SASIndexKey_t * maxkey)
+{
+  int cmp = SASIndexKeyCompare (indexenum->curkey, maxkey);
+
+  return (indexenum->ref.node == NULL) ? (cmp <= 0) : (cmp < 0);
+}
+
 typedef void *SASIndexEnum_t;
 
 SASIndexEnum_t
@@ -94,8 +113,7 @@ SASIndexEnumNext (SASIndexEnum_t idxenum)
 #endif
   if (maxkey != NULL)
     {
-      indexenum->hasmore =
-	(SASIndexKeyCompare (indexenum->curkey, maxkey) < 0);
+      indexenum->hasmore = SASIndexEnumKeysLeft (indexenum, maxkey);
       if (indexenum->hasmore)
 	{
 	  SASIndexNode_t curnode = indexenum->ref.node;
@@ -112,7 +130,7 @@ SASIndexEnumNext (SASIndexEnum_t idxenum)
 		      curpos++;
 		      indexenum->ref.pos = curpos;
 		      result = curSBnode->vals[curpos];
-		      indexenum->curkey = curSBnode->keys[curpos];
+		      SASIndexEnumSetKey (indexenum, curSBnode->keys[curpos]);
 		      indexenum->hasmore =
 			(SASIndexKeyCompare (indexenum->curkey, maxkey) < 0);
 		      found = true;
@@ -128,7 +146,7 @@ SASIndexEnumNext (SASIndexEnum_t idxenum)
 			  curSBnode = (SASIndexNodeHeader *) curnode;
 			  curpos = indexenum->ref.pos;
 			  result = curSBnode->vals[curpos];
-			  indexenum->curkey = curSBnode->keys[curpos];
+			  SASIndexEnumSetKey (indexenum, curSBnode->keys[curpos]);
 			  indexenum->hasmore =
 			    (SASIndexKeyCompare (indexenum->curkey, maxkey) <
 			     0);
@@ -165,7 +183,7 @@ SASIndexEnumNext (SASIndexEnum_t idxenum)
 		  SASIndexNodeHeader *curSBnode =
 		    (SASIndexNodeHeader *) indexenum->ref.node;
 		  result = curSBnode->vals[curpos];
-		  indexenum->curkey = curSBnode->keys[curpos];
+		  SASIndexEnumSetKey (indexenum, curSBnode->keys[curpos]);
 		  indexenum->curmod = treemod;
 		  indexenum->hasmore =
 		    (SASIndexKeyCompare (indexenum->curkey, maxkey) < 0);
@@ -180,10 +198,11 @@ SASIndexEnumNext (SASIndexEnum_t idxenum)
 		}
 	    }
 	}
-#ifdef __SASDebugPrint__
     }
   else
     {
+      indexenum->hasmore = false;
+#ifdef __SASDebugPrint__
       sas_printf ("SASIndexEnumNext; enum->tree=%p invalid\n",
 		  indexenum->tree);
 #endif
@@ -209,8 +228,7 @@ SASIndexEnumNext_nolock (SASIndexEnum_t idxenum)
 #endif
   if (maxkey != NULL)
     {
-      indexenum->hasmore =
-	(SASIndexKeyCompare (indexenum->curkey, maxkey) < 0);
+      indexenum->hasmore = SASIndexEnumKeysLeft (indexenum, maxkey);
       if (indexenum->hasmore)
 	{
 	  SASIndexNode_t curnode = indexenum->ref.node;
@@ -227,7 +245,7 @@ SASIndexEnumNext_nolock (SASIndexEnum_t idxenum)
 		      curpos++;
 		      indexenum->ref.pos = curpos;
 		      result = curSBnode->vals[curpos];
-		      indexenum->curkey = curSBnode->keys[curpos];
+		      SASIndexEnumSetKey (indexenum, curSBnode->keys[curpos]);
 		      indexenum->hasmore =
 			(SASIndexKeyCompare (indexenum->curkey, maxkey) < 0);
 		      found = true;
@@ -243,7 +261,7 @@ SASIndexEnumNext_nolock (SASIndexEnum_t idxenum)
 			  curSBnode = (SASIndexNodeHeader *) curnode;
 			  curpos = indexenum->ref.pos;
 			  result = curSBnode->vals[curpos];
-			  indexenum->curkey = curSBnode->keys[curpos];
+			  SASIndexEnumSetKey (indexenum, curSBnode->keys[curpos]);
 			  indexenum->hasmore =
 			    (SASIndexKeyCompare (indexenum->curkey, maxkey) <
 			     0);
@@ -280,7 +298,7 @@ SASIndexEnumNext_nolock (SASIndexEnum_t idxenum)
 		  SASIndexNodeHeader *curSBnode =
 		    (SASIndexNodeHeader *) indexenum->ref.node;
 		  result = curSBnode->vals[curpos];
-		  indexenum->curkey = curSBnode->keys[curpos];
+		  SASIndexEnumSetKey (indexenum, curSBnode->keys[curpos]);
 		  indexenum->curmod = treemod;
 		  indexenum->hasmore =
 		    (SASIndexKeyCompare (indexenum->curkey, maxkey) < 0);
@@ -295,10 +313,11 @@ SASIndexEnumNext_nolock (SASIndexEnum_t idxenum)
 		}
 	    }
 	}
-#ifdef __SASDebugPrint__
     }
   else
     {
+      indexenum->hasmore = false;
+#ifdef __SASDebugPrint__
       sas_printf ("SASIndexEnumNext_nolock; enum->tree=%p invalid\n",
 		  indexenum->tree);
 #endif
diff --git a/src/sasstringbtreeenum.cpp b/src/sasstringbtreeenum.cpp
index 74c0568..29d3205 100644
--- a/src/sasstringbtreeenum.cpp
+++ b/src/sasstringbtreeenum.cpp
@@ -32,9 +32,44 @@ typedef struct __SBEnumeration
   long curmod;
   long curcount;
   bool hasmore;
+  char *keybuf;
+  size_t keybuf_size;
   char entryString[sizeof (void *)];
 } __SBEnumeration;
 
+/* Keep a copy of the current key: the tree may move, overwrite or free its
+   own copy before the next step.  */
+static void
+SASStringBTreeEnumSetKey (__SBEnumeration * stringenum, char *key)
+{
+  size_t len = strlen (key) + 1;
+
+  if (len > stringenum->keybuf_size)
+    {
+      char *newbuf = (char *) malloc (len + len);
+      if (newbuf == NULL)
+	{
+	  stringenum->curkey = key;
+	  return;
+	}
+      free (stringenum->keybuf);
+      stringenum->keybuf = newbuf;
+      stringenum->keybuf_size = len + len;
+    }
+  memcpy (stringenum->keybuf, key, len);
+  stringenum->curkey = stringenum->keybuf;
+}
+
+/* Before the first step (no current node) the key is where to start, which
+   may be the maximum key itself.  */
+static bool
+SASStringBTreeEnumKeysLeft (__SBEnumeration * stringenum, char *maxkey)
+{
+  int cmp = strcmp (stringenum->curkey, maxkey);
+
+  return (stringenum->ref.node == NULL) ? (cmp <= 0) : (cmp < 0);
+}
+
 typedef void *SASStringBTreeEnum_t;
 
 SASStringBTreeEnum_t
@@ -52,6 +87,8 @@ SASStringBTreeEnumCreate (SASStringBTree_t tree)
 	  stringenum->tree = tree;
 	  stringenum->ref.node = NULL;
 	  stringenum->ref.pos = 0;
+	  stringenum->keybuf = NULL;
+	  stringenum->keybuf_size = 0;
 	  stringenum->entryString[0] = '\0';
 	  stringenum->curkey = &stringenum->entryString[0];
 	}
@@ -81,20 +118,20 @@ SASStringBTreeEnumCreateStartAt (SASStringBTree_t tree, char *start_key)
     {
       SASLock (tree, SasUserLock__WRITE);
       maxkey = SASStringBTreeGetMaxKey (tree);
-      if ((maxkey != NULL) && (strcmp (start_key, maxkey) < 0))
+      if ((maxkey != NULL) && (strcmp (start_key, maxkey) <= 0))
 	{
 	  stringenum->curmod = SASStringBTreeGetModCount (tree);
 	  stringenum->curcount = SASStringBTreeGetCurCount (tree);
 	  if (stringenum->curmod != 0L)
 	    {
-	      stringenum->hasmore = (strcmp (start_key, maxkey) < 0);
+	      stringenum->hasmore = true;
 	      stringenum->tree = tree;
 	      stringenum->ref.node = NULL;
 	      stringenum->ref.pos = 0;
 	      memcpy ((char *) &stringenum->entryString[0],
 		      start_key, startkey_len);
-	      if (stringenum->entryString[0] != '\0')
-		stringenum->entryString[startkey_len - 2] -= 1;
+	      stringenum->keybuf = NULL;
+	      stringenum->keybuf_size = 0;
 	      stringenum->curkey = &stringenum->entryString[0];
 	    }
 	  else
@@ -115,8 +152,12 @@ SASStringBTreeEnumCreateStartAt (SASStringBTree_t tree, char *start_key)
 }
 
 void
-SASStringBTreeEnumDestroy (SASStringBTreeEnum_t stringenum)
+SASStringBTreeEnumDestroy (SASStringBTreeEnum_t sbtenum)
 {
+  __SBEnumeration *stringenum = (__SBEnumeration *) sbtenum;
+
+  if (stringenum != NULL)
+    free (stringenum->keybuf);
   free (stringenum);
 }
 
@@ -158,7 +199,7 @@ SASStringBTreeEnumNext (SASStringBTreeEnum_t sbtenum)
 #endif
   if (maxkey != NULL)
     {
-      stringenum->hasmore = (strcmp (stringenum->curkey, maxkey) < 0);
+      stringenum->hasmore = SASStringBTreeEnumKeysLeft (stringenum, maxkey);
       if (stringenum->hasmore)
 	{
 	  SASStringBTreeNode_t curnode = stringenum->ref.node;
@@ -176,7 +217,7 @@ SASStringBTreeEnumNext (SASStringBTreeEnum_t sbtenum)
 		      curpos++;
 		      stringenum->ref.pos = curpos;
 		      result = curSBnode->vals[curpos];
-		      stringenum->curkey = curSBnode->keys[curpos];
+		      SASStringBTreeEnumSetKey (stringenum, curSBnode->keys[curpos]);
 		      stringenum->hasmore =
 			(strcmp (stringenum->curkey, maxkey) < 0);
 		      found = true;
@@ -193,18 +234,13 @@ SASStringBTreeEnumNext (SASStringBTreeEnum_t sbtenum)
 			  curSBnode = (SASStringBTreeNodeHeader *) curnode;
 			  curpos = stringenum->ref.pos;
 			  result = curSBnode->vals[curpos];
-			  stringenum->curkey = curSBnode->keys[curpos];
-			  stringenum->curcount -= 1;
+			  SASStringBTreeEnumSetKey (stringenum, curSBnode->keys[curpos]);
 			  stringenum->hasmore =
 			    (strcmp (stringenum->curkey, maxkey) < 0);
 			}
 		    }
-		  if (stringenum->hasmore)
+		  if (found)
 		    stringenum->curcount -= 1;
-		  else if (found)
-		    stringenum->curcount = 1;
-		  else
-		    stringenum->curcount = 0;
 		}
 	    }
 	  if (!found)
@@ -239,10 +275,13 @@ SASStringBTreeEnumNext (SASStringBTreeEnum_t sbtenum)
 		  SASStringBTreeNodeHeader *curSBnode =
 		    (SASStringBTreeNodeHeader *) stringenum->ref.node;
 		  result = curSBnode->vals[curpos];
-		  stringenum->curkey = curSBnode->keys[curpos];
+		  SASStringBTreeEnumSetKey (stringenum, curSBnode->keys[curpos]);
+		  if (treemod != stringenum->curmod)
+		    stringenum->curcount =
+		      SASStringBTreeGetCurCount (stringenum->tree);
+		  else
+		    stringenum->curcount -= 1;
 		  stringenum->curmod = treemod;
-		  stringenum->curcount =
-		    SASStringBTreeGetCurCount (stringenum->tree);
 		  stringenum->hasmore =
 		    (strcmp (stringenum->curkey, maxkey) < 0);
 #if __SASDebugPrint__ > 1
@@ -256,10 +295,11 @@ SASStringBTreeEnumNext (SASStringBTreeEnum_t sbtenum)
 		}
 	    }
 	}
-#ifdef __SASDebugPrint__
     }
   else
     {
+      stringenum->hasmore = false;
+#ifdef __SASDebugPrint__
       sas_printf ("SASStringBTreeEnumNext; enum->tree=%p invalid\n",
 		  stringenum->tree);
 #endif
@@ -286,7 +326,7 @@ SASStringBTreeEnumNext_nolock (SASStringBTreeEnum_t sbtenum)
 #endif
   if (maxkey != NULL)
     {
-      stringenum->hasmore = (strcmp (stringenum->curkey, maxkey) < 0);
+      stringenum->hasmore = SASStringBTreeEnumKeysLeft (stringenum, maxkey);
       if (stringenum->hasmore)
 	{
 	  SASStringBTreeNode_t curnode = stringenum->ref.node;
@@ -304,7 +344,7 @@ SASStringBTreeEnumNext_nolock (SASStringBTreeEnum_t sbtenum)
 		      curpos++;
 		      stringenum->ref.pos = curpos;
 		      result = curSBnode->vals[curpos];
-		      stringenum->curkey = curSBnode->keys[curpos];
+		      SASStringBTreeEnumSetKey (stringenum, curSBnode->keys[curpos]);
 		      stringenum->hasmore =
 			(strcmp (stringenum->curkey, maxkey) < 0);
 		      found = true;
@@ -321,18 +361,13 @@ SASStringBTreeEnumNext_nolock (SASStringBTreeEnum_t sbtenum)
 			  curSBnode = (SASStringBTreeNodeHeader *) curnode;
 			  curpos = stringenum->ref.pos;
 			  result = curSBnode->vals[curpos];
-			  stringenum->curkey = curSBnode->keys[curpos];
-			  stringenum->curcount -= 1;
+			  SASStringBTreeEnumSetKey (stringenum, curSBnode->keys[curpos]);
 			  stringenum->hasmore =
 			    (strcmp (stringenum->curkey, maxkey) < 0);
 			}
 		    }
-		  if (stringenum->hasmore)
+		  if (found)
 		    stringenum->curcount -= 1;
-		  else if (found)
-		    stringenum->curcount = 1;
-		  else
-		    stringenum->curcount = 0;
 		}
 	    }
 	  if (!found)
@@ -367,10 +402,13 @@ SASStringBTreeEnumNext_nolock (SASStringBTreeEnum_t sbtenum)
 		  SASStringBTreeNodeHeader *curSBnode =
 		    (SASStringBTreeNodeHeader *) stringenum->ref.node;
 		  result = curSBnode->vals[curpos];
-		  stringenum->curkey = curSBnode->keys[curpos];
+		  SASStringBTreeEnumSetKey (stringenum, curSBnode->keys[curpos]);
+		  if (treemod != stringenum->curmod)
+		    stringenum->curcount =
+		      SASStringBTreeGetCurCount (stringenum->tree);
+		  else
+		    stringenum->curcount -= 1;
 		  stringenum->curmod = treemod;
-		  stringenum->curcount =
-		    SASStringBTreeGetCurCount (stringenum->tree);
 		  stringenum->hasmore =
 		    (strcmp (stringenum->curkey, maxkey) < 0);
 #if __SASDebugPrint__ > 1
@@ -384,10 +422,11 @@ SASStringBTreeEnumNext_nolock (SASStringBTreeEnum_t sbtenum)
 		}
 	    }
 	}
-#ifdef __SASDebugPrint__
     }
   else
     {
+      stringenum->hasmore = false;
+#ifdef __SASDebugPrint__
       sas_printf ("SASStringBTreeEnumNext_nolock; enum->tree=%p invalid\n",
 		  stringenum->tree);
 #endif
-- 
2.43.0


From 2e1ffd0421215a6431780e4af3751d213e9a40b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:05 +0000
Subject: [PATCH 18/79] fix: key order of different lengths and of negative
 zero

Keys of different lengths were compared bytewise (little endian), which does
not agree with the word order used for equal lengths; -0.0 sorted below every
number and could not be read back.
---
 src/sasindexkey.h | 42 ++++++++++++++++++------------------------
 1 file changed, 18 insertions(+), 24 deletions(-)

diff --git a/src/sasindexkey.h b/src/sasindexkey.h
index 659cc77..6b80e07 100644
--- a/src/sasindexkey.h
+++ b/src/sasindexkey.h
@@ -94,36 +94,29 @@ SASIndexKeyCompare (const SASIndexKey_t * op_a, const SASIndexKey_t * op_b)
   else
     {
       size_t len = op_a->compare_size;
+      unsigned int i;
 
-      if (op_a->compare_size != op_b->compare_size)
-	{
-	  if (op_a->compare_size > op_b->compare_size)
-	    len = op_b->compare_size;
-
-	  rc = memcmp (&op_a->data[0], &op_b->data[0], len);
+      if (op_a->compare_size > op_b->compare_size)
+	len = op_b->compare_size;
 
-	  if ((rc == 0) && (op_a->compare_size != op_b->compare_size))
+      for (i = 1; i < (len / sizeof (machine_uint_t)); i++)
+	{
+	  if (op_a->data[i] != op_b->data[i])
 	    {
-	      if (op_a->compare_size < op_b->compare_size)
-		rc = -1;
-	      else
+	      if (op_a->data[i] > op_b->data[i])
 		rc = 1;
+	      else
+		rc = -1;
+	      break;
 	    }
 	}
-      else if (len > sizeof (machine_uint_t))
+
+      if (rc == 0)
 	{
-	  unsigned int i = 1;
-	  for (i = 1; i < (len / sizeof (machine_uint_t)); i++)
-	    {
-	      if (op_a->data[i] != op_b->data[i])
-		{
-		  if (op_a->data[i] > op_b->data[i])
-		    rc = 1;
-		  else
-		    rc = -1;
-		  break;
-		}
-	    }
+	  if (op_a->compare_size < op_b->compare_size)
+	    rc = -1;
+	  else if (op_a->compare_size > op_b->compare_size)
+	    rc = 1;
 	}
     }
   return rc;
@@ -309,7 +302,8 @@ SASIndexKeyInitDouble (SASIndexKey_t * dest, double value)
 {
   sasindexkeymap_t	key_val;
 
-  key_val.double_key = value;
+  /* -0.0 equals 0.0, so both get the same key.  */
+  key_val.double_key = (value == 0.0) ? 0.0 : value;
 #ifdef __WORDSIZE_64
   dest->compare_size = sizeof (unsigned long long);
   dest->copy_size = sizeof (void *) + sizeof (unsigned long long);
-- 
2.43.0


From 5cf548d509099e198114429d846b25b765bc6c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:51 +0000
Subject: [PATCH 19/79] fix: bit-vector allocation returns when no run fits

bitv_alloc and the aligned forms looped for ever when the vector had free
units but no (aligned) run of the requested length, and sizes of more
than one word shifted by the word size.  Alignments smaller than the unit
were refused although every unit satisfies them.
---
 src/bitv.c | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/bitv.c b/src/bitv.c
index 7472138..836facc 100644
--- a/src/bitv.c
+++ b/src/bitv.c
@@ -73,6 +73,8 @@ bitv_alloc (bitv_cb_t * cb, bitv_word * bvec, size_t size)
   printf ("alloc_units=%ld, req_msk=%lx, cur_msk=%lx\n",
 	  alloc_units, req_msk0, cur_msk);
 #endif
+  if (alloc_units == 0 || alloc_units > bits_per_long)
+    return -1;		/* can not fit within a bitv_word */
   while (cur_msk != 0UL)
     {
       bitv_word req_msk;
@@ -114,6 +116,8 @@ bitv_alloc (bitv_cb_t * cb, bitv_word * bvec, size_t size)
 	  else
 	    {
 	      req_msk >>= 1;
+	      if (i == (bits_per_long - alloc_units))
+		cur_msk = 0UL;
 	    }
 	}
     }
@@ -144,6 +148,8 @@ bitv_alloc_marked (bitv_cb_t * cb, bitv_word * bvec, bitv_word * endvec,
   printf ("alloc_units=%ld, req_msk=%lx, cur_msk=%lx\n",
 	  alloc_units, req_msk0, cur_msk);
 #endif
+  if (alloc_units == 0 || alloc_units > bits_per_long)
+    return -1;		/* can not fit within a bitv_word */
   while (cur_msk != 0UL)
     {
       bitv_word req_msk;
@@ -224,11 +230,11 @@ bitv_aligned_alloc (bitv_cb_t * cb, bitv_word * bvec, size_t size,
 */
   ssize_t result = -1;
   size_t alloc_units = bitv_round_unit (cb, size);
-  size_t align_shift = __builtin_ffsl (align >> cb->alloc_shift);
+  size_t align_shift __attribute__((unused)) = __builtin_ffsl (align >> cb->alloc_shift);
   size_t align_units = bitv_round_unit (cb, align);
   bitv_word req_msk0 = bitv_size_to_mask (cb, size);
   bitv_word cur_msk = *bvec;
-  if (align != (1 << (align_shift + cb->alloc_shift - 1)))
+  if (!bitv_popcountl_one (align))
     {
 #ifdef PRINT_DEBUG
       printf ("error align value must be a power of 2\n");
@@ -240,6 +246,8 @@ bitv_aligned_alloc (bitv_cb_t * cb, bitv_word * bvec, size_t size,
       return -1;
     }
 
+  if (alloc_units == 0 || alloc_units > bits_per_long)
+    return -1;		/* can not fit within a bitv_word */
   while (cur_msk != 0UL)
     {
       bitv_word req_msk;
@@ -282,8 +290,9 @@ bitv_aligned_alloc (bitv_cb_t * cb, bitv_word * bvec, size_t size,
 	    }
 	  else
 	    {
-	      req_msk >>= align_units;
-	      if (req_msk == 0UL)
+	      if (i + align_units <= (bits_per_long - alloc_units))
+		req_msk >>= align_units;
+	      else
 		cur_msk = 0UL;
 	    }
 	}
@@ -308,11 +317,11 @@ bitv_aligned_alloc_marked (bitv_cb_t * cb, bitv_word * bvec,
 */
   ssize_t result = -1;
   size_t alloc_units = bitv_round_unit (cb, size);
-  size_t align_shift = __builtin_ffsl (align >> cb->alloc_shift);
+  size_t align_shift __attribute__((unused)) = __builtin_ffsl (align >> cb->alloc_shift);
   size_t align_units = bitv_round_unit (cb, align);
   bitv_word req_msk0 = bitv_size_to_mask (cb, size);
   bitv_word cur_msk = *bvec;
-  if (align != (1 << (align_shift + cb->alloc_shift - 1)))
+  if (!bitv_popcountl_one (align))
     {
 #ifdef PRINT_DEBUG
       printf ("error align value must be a power of 2\n");
@@ -324,6 +333,8 @@ bitv_aligned_alloc_marked (bitv_cb_t * cb, bitv_word * bvec,
       return -1;
     }
 
+  if (alloc_units == 0 || alloc_units > bits_per_long)
+    return -1;		/* can not fit within a bitv_word */
   while (cur_msk != 0UL)
     {
       bitv_word req_msk;
@@ -382,7 +393,7 @@ bitv_aligned_alloc_marked (bitv_cb_t * cb, bitv_word * bvec,
 	    }
 	  else
 	    {
-	      if (i < (bits_per_long - alloc_units))
+	      if (i + align_units <= (bits_per_long - alloc_units))
 		req_msk >>= align_units;
 	      else
 		cur_msk = 0UL;
-- 
2.43.0


From c9f41399740c3e570d94d8d48b23639ec0e83fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:51 +0000
Subject: [PATCH 20/79] fix: lock-free heap empty requests and vector count

A request of zero bytes claimed a whole run of units, the number of
bit-vector words was truncated to 16 bits for large heaps, and
SPHLockFreeHeapNearFind looked for a simple heap.
---
 src/sphlockfreeheap.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/sphlockfreeheap.cpp b/src/sphlockfreeheap.cpp
index 43b7cf6..9e543a6 100644
--- a/src/sphlockfreeheap.cpp
+++ b/src/sphlockfreeheap.cpp
@@ -32,7 +32,7 @@ typedef struct SPHLockFreeHeapHeader
 {
   SASBlockHeader blockHeader;
   bitv_cb_t bitv_cb;
-  unsigned short vec_cnt;
+  unsigned int vec_cnt;
   bitv_word *alloc_vec;
   bitv_word *endmrk_vec;
   bitv_word vecbuf[8];
@@ -75,7 +75,7 @@ SPHLockFreeHeapInit (void *heap_seg, sas_type_t sasType,
 	("SPHLockFreeHeapInit alloc=%p, endmrk=%p, endbuf=%p, header_size=%zu\n",
 	 heapHdr->alloc_vec, heapHdr->endmrk_vec, endbuf_vec, header_size);
 #endif
-      for (int i = 0; i < heapHdr->vec_cnt; i++)
+      for (unsigned int i = 0; i < heapHdr->vec_cnt; i++)
 	{
 	  heapHdr->alloc_vec[i] = (bitv_word) ((long) -1);
 	  heapHdr->endmrk_vec[i] = 0;
@@ -182,7 +182,7 @@ SPHLockFreeHeapAllocNoLock (SPHLockFreeHeap_t heap, size_t alloc_size)
 #else
       maxAlloc = MAX_UNITS << unit_shift;
 #endif
-      if (alloc_size < maxAlloc)
+      if (alloc_size > 0 && alloc_size < maxAlloc)
 	{
 	  ssize_t offset = -1;
 	  long cnt = heapHdr->vec_cnt;
@@ -262,7 +262,7 @@ SPHLockFreeHeapAlignAllocNoLock (SPHLockFreeHeap_t heap,
       maxAlloc = MAX_UNITS << unit_shift;
       maxAlign = bits_per_long << (unit_shift);
 #endif
-      if ((alloc_size < maxAlloc)
+      if ((alloc_size > 0) && (alloc_size < maxAlloc)
 	  && bitv_popcountl_one (alignment) && (alignment <= (maxAlign)))
 	{
 	  ssize_t offset = -1;
@@ -599,7 +599,7 @@ SPHLockFreeHeapNearFind (void *nearObj)
   headerBlock = (SASBlockHeader *) SASFindHeader (nearObj);
   if (headerBlock)
     {
-      if (SOMSASCheckBlockSigAndType (headerBlock, SAS_SIMPLEHEAP_TYPE))
+      if (SOMSASCheckBlockSigAndType (headerBlock, SAS_RUNTIME_LOCKFREEHEAP))
 	{
 	  result = (SPHLockFreeHeap_t) headerBlock;
 #ifdef __SASDebugPrint__
-- 
2.43.0


From 301625cbae6acdd21ac635120a4025ea52ea53c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:42 +0000
Subject: [PATCH 21/79] fix: struct fields of an entry never extend past its
 end

The padding for an over-aligned struct could exceed the space left in the
entry; the unsigned difference then looked like a huge amount of space.
---
 src/sphlfentry.h    | 20 ++++++--------------
 src/sphlflogentry.h | 20 ++++++--------------
 2 files changed, 12 insertions(+), 28 deletions(-)

diff --git a/src/sphlfentry.h b/src/sphlfentry.h
index 4e5743a..924cc92 100644
--- a/src/sphlfentry.h
+++ b/src/sphlfentry.h
@@ -394,16 +394,12 @@ SPHLFEntryGetStructPtr (SPHLFEntryHandle_t *handle,
 		+ adjust)
 		& mask);
 
-	if ((unsigned long)ptr != (unsigned long)handle->next)
-	{
-		len -= ((unsigned long)ptr
-			- (unsigned long)handle->next);
-	}
+	adjust = (unsigned long)ptr - (unsigned long)handle->next;
 
-	if (len >= __size)
+	if (len >= adjust && (len - adjust) >= __size)
 	{
 		handle->next = ptr + __size;
-		handle->remaining = len - __size;
+		handle->remaining = len - adjust - __size;
 	} else {
 		ptr = NULL;
 	}
@@ -449,16 +445,12 @@ SPHLFEntryAllocStruct (SPHLFEntryHandle_t *handle,
 		+ adjust)
 		& mask);
 
-	if ((unsigned long)ptr != (unsigned long)handle->next)
-	{
-		len -= ((unsigned long)ptr
-			- (unsigned long)handle->next);
-	}
+	adjust = (unsigned long)ptr - (unsigned long)handle->next;
 
-	if (len >= __size)
+	if (len >= adjust && (len - adjust) >= __size)
 	{
 		handle->next = ptr + __size;
-		handle->remaining = len - __size;
+		handle->remaining = len - adjust - __size;
 	} else {
 		ptr = NULL;
 	}
diff --git a/src/sphlflogentry.h b/src/sphlflogentry.h
index b8147dd..dac38dc 100644
--- a/src/sphlflogentry.h
+++ b/src/sphlflogentry.h
@@ -326,16 +326,12 @@ SPHLFlogEntryGetStructPtr (SPHLFLoggerHandle_t *handle,
 		+ adjust)
 		& mask);
 
-	if ((unsigned long)ptr != (unsigned long)handle->next)
-	{
-		len -= ((unsigned long)ptr
-			- (unsigned long)handle->next);
-	}
+	adjust = (unsigned long)ptr - (unsigned long)handle->next;
 
-	if (len >= __size)
+	if (len >= adjust && (len - adjust) >= __size)
 	{
 		handle->next = ptr + __size;
-		handle->remaining = len - __size;
+		handle->remaining = len - adjust - __size;
 	} else {
 		ptr = NULL;
 	}
@@ -381,16 +377,12 @@ SPHLFlogEntryAllocStruct (SPHLFLoggerHandle_t *handle,
 		+ adjust)
 		& mask);
 
-	if ((unsigned long)ptr != (unsigned long)handle->next)
-	{
-		len -= ((unsigned long)ptr
-			- (unsigned long)handle->next);
-	}
+	adjust = (unsigned long)ptr - (unsigned long)handle->next;
 
-	if (len >= __size)
+	if (len >= adjust && (len - adjust) >= __size)
 	{
 		handle->next = ptr + __size;
-		handle->remaining = len - __size;
+		handle->remaining = len - adjust - __size;
 	} else {
 		ptr = NULL;
 	}
-- 
2.43.0


From 15fb1646d7f0eb86375ccfa9bb7ebafe131e7563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:58 +0000
Subject: [PATCH 22/79] fix: reading a string never looks past the end of the
 entry

---
 src/sphlfentry.h    | 8 ++++----
 src/sphlflogentry.h | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/sphlfentry.h b/src/sphlfentry.h
index 924cc92..e15e924 100644
--- a/src/sphlfentry.h
+++ b/src/sphlfentry.h
@@ -822,14 +822,14 @@ SPHLFEntryGetNextString (SPHLFEntryHandle_t *handle)
 {
 	char		*ptr	= handle->next;
 	unsigned short int	len	= handle->remaining;
-	int		vlen	= (strlen(ptr) + 1);
+	char		*nul	= (char*)memchr(ptr, 0, len);
 	char		*value	= 0;
 
-	if (len >= vlen)
+	if (nul)
 	{
 		value = ptr;
-		ptr += vlen;
-		len -= vlen;
+		ptr = nul + 1;
+		len -= (ptr - value);
 		handle->next = ptr;
 		handle->remaining = len;
 	}
diff --git a/src/sphlflogentry.h b/src/sphlflogentry.h
index dac38dc..f3dde90 100644
--- a/src/sphlflogentry.h
+++ b/src/sphlflogentry.h
@@ -754,14 +754,14 @@ SPHLFlogEntryGetNextString (SPHLFLoggerHandle_t *handle)
 {
 	char		*ptr	= handle->next;
 	unsigned short int	len	= handle->remaining;
-	int		vlen	= (strlen(ptr) + 1);
+	char		*nul	= (char*)memchr(ptr, 0, len);
 	char		*value	= 0;
 
-	if (len >= vlen)
+	if (nul)
 	{
 		value = ptr;
-		ptr += vlen;
-		len -= vlen;
+		ptr = nul + 1;
+		len -= (ptr - value);
 		handle->next = ptr;
 		handle->remaining = len;
 	}
-- 
2.43.0


From d53179dd9035995c748770078943a0068fef0a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:35 +0000
Subject: [PATCH 23/79] fix: writers waiting for a circular log to wrap always
 resume

A writer that found the log being wrapped waited until next_free had
dropped below its own failed reservation.  When others wrapped the log and
filled it again up to its end before the writer looked, it waited for ever.
It only has to wait while the overrun is still there.
---
 src/sphlflogger.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sphlflogger.cpp b/src/sphlflogger.cpp
index 7f29d92..1d685dd 100644
--- a/src/sphlflogger.cpp
+++ b/src/sphlflogger.cpp
@@ -290,7 +290,7 @@ SPHLFLoggerAllocTimeStamped (SPHLFLogger_t log,
 		  /* secondary threads should just retry until the
 		     buffer wraps.  */
 		  for (old = headerBlock->next_free;
-		       (old + alloc_round) >= log_entry;
+		       old > headerBlock->end_log_buf;
 		       old = headerBlock->next_free)
 		    sas_read_barrier ();
 
@@ -420,7 +420,7 @@ SPHLFLoggerAllocStrideTimeStamped (SPHLFLogger_t log,
 		  /* secondary threads should just retry until the
 		     buffer wraps.  */
 		  for (old = headerBlock->next_free;
-		       (old + alloc_round) >= log_entry;
+		       old > headerBlock->end_log_buf;
 		       old = headerBlock->next_free)
 		    sas_read_barrier ();
 
-- 
2.43.0


From 95b09bd57ae2a14dc575a9fbf9e0b776734afe2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:51 +0000
Subject: [PATCH 24/79] fix: loggers refuse entries that can never fit

A request larger than the whole buffer made a circular logger recurse for
ever, a huge request wrapped around and moved next_free backwards, and the
stride forms handed out overlapping empty entries when the logger has no
entry stride.
---
 src/sphlflogger.cpp | 49 +++++++++++++++++++++++++++++++++++----------
 1 file changed, 38 insertions(+), 11 deletions(-)

diff --git a/src/sphlflogger.cpp b/src/sphlflogger.cpp
index 1d685dd..0838104 100644
--- a/src/sphlflogger.cpp
+++ b/src/sphlflogger.cpp
@@ -155,19 +155,36 @@ SPHLFCircularLoggerCreate (block_size_t buf_size, unsigned short stride)
     return NULL;
 }
 
+/* Return the entry size rounded up as required by the logger, or 0 for
+   a request that the logger could not satisfy even if it was empty.  */
+static inline longPtr_t
+SPHLFLoggerEntrySize (SASLFLoggerHeader * headerBlock,
+		      block_size_t alloc_size, block_size_t header_size)
+{
+  longPtr_t capacity = headerBlock->end_log_buf - headerBlock->start_log_buf;
+  longPtr_t round = ~headerBlock->align_mask;
+  longPtr_t alloc_round;
+
+  if (alloc_size > capacity)
+    return 0;
+
+  alloc_round = (alloc_size + header_size + round) & ~round;
+  return (alloc_round <= capacity) ? alloc_round : 0;
+}
+
 void *
 SPHLFLoggerAllocRaw (SPHLFLogger_t log, block_size_t alloc_size)
 {
   SASLFLoggerHeader *headerBlock = (SASLFLoggerHeader *) log;
-  longPtr_t round;
   longPtr_t alloc_round = 0;
   longPtr_t log_entry = 0;
 
   if (SOMSASCheckBlockSigAndType ((SASBlockHeader *) headerBlock,
 				  SAS_RUNTIME_LOCKFREELOGGER))
     {
-      round = ~headerBlock->align_mask;
-      alloc_round = (alloc_size + round) & ~round;
+      alloc_round = SPHLFLoggerEntrySize (headerBlock, alloc_size, 0);
+      if (!alloc_round)
+	return NULL;
       log_entry = __sync_fetch_and_add (&headerBlock->next_free, alloc_round);
 
       if (log_entry + alloc_round > headerBlock->end_log_buf)
@@ -199,15 +216,16 @@ SPHLFLoggerAllocTimeStamped (SPHLFLogger_t log,
 {
   SASLFLoggerHeader *headerBlock = (SASLFLoggerHeader *) log;
   SPHLFLoggerHandle_t *handlespace = handleorg;
-  longPtr_t round;
   longPtr_t alloc_round;
   longPtr_t log_entry;
 
   if (SOMSASCheckBlockSigAndType ((SASBlockHeader *) headerBlock,
 				  SAS_RUNTIME_LOCKFREELOGGER))
     {
-      round = ~headerBlock->align_mask;
-      alloc_round = (alloc_size + sizeof (SPHLFLogHeader_t) + round) & ~round;
+      alloc_round = SPHLFLoggerEntrySize (headerBlock, alloc_size,
+					  sizeof (SPHLFLogHeader_t));
+      if (!alloc_round)
+	return NULL;
 #ifdef __powerpc__
       log_entry =
 	(longPtr_t) sas_fetch_and_add_ptr ((void **) &headerBlock->next_free,
@@ -333,7 +351,11 @@ SPHLFLoggerAllocStrideTimeStamped (SPHLFLogger_t log,
   if (SOMSASCheckBlockSigAndType ((SASBlockHeader *) headerBlock,
 				  SAS_RUNTIME_LOCKFREELOGGER))
     {				/* for Strided alloc increment is pre rounded */
-      alloc_round = headerBlock->default_entry_stride;
+      alloc_round = SPHLFLoggerEntrySize (headerBlock,
+					  headerBlock->default_entry_stride,
+					  0);
+      if (!alloc_round)
+	return NULL;
 #ifdef __powerpc__
       log_entry =
 	(longPtr_t) sas_fetch_and_add_ptr ((void **) &headerBlock->next_free,
@@ -457,15 +479,16 @@ SPHLFLoggerAllocTimeStampedNoLock (SPHLFLogger_t log,
 {
   SASLFLoggerHeader *headerBlock = (SASLFLoggerHeader *) log;
   SPHLFLoggerHandle_t *handlespace = handleorg;
-  longPtr_t round;
   longPtr_t alloc_round;
   longPtr_t log_entry;
 
   if (SOMSASCheckBlockSigAndType ((SASBlockHeader *) headerBlock,
 				  SAS_RUNTIME_LOCKFREELOGGER))
     {
-      round = ~headerBlock->align_mask;
-      alloc_round = (alloc_size + sizeof (SPHLFLogHeader_t) + round) & ~round;
+      alloc_round = SPHLFLoggerEntrySize (headerBlock, alloc_size,
+					  sizeof (SPHLFLogHeader_t));
+      if (!alloc_round)
+	return NULL;
       //      log_entry = __sync_fetch_and_add(&headerBlock->next_free, alloc_round);
       log_entry = headerBlock->next_free;
       headerBlock->next_free += alloc_round;
@@ -540,7 +563,11 @@ SPHLFLoggerAllocStrideTimeStampedNoLock (SPHLFLogger_t log,
   if (SOMSASCheckBlockSigAndType ((SASBlockHeader *) headerBlock,
 				  SAS_RUNTIME_LOCKFREELOGGER))
     {				/* for Strided alloc increment is pre rounded */
-      alloc_round = headerBlock->default_entry_stride;
+      alloc_round = SPHLFLoggerEntrySize (headerBlock,
+					  headerBlock->default_entry_stride,
+					  0);
+      if (!alloc_round)
+	return NULL;
       //      log_entry = __sync_fetch_and_add(&headerBlock->next_free, alloc_round);
       log_entry = headerBlock->next_free;
       headerBlock->next_free += alloc_round;
-- 
2.43.0


From 6ab78a5f1a68fbdba2d37828d1a1288970650450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:57 +0000
Subject: [PATCH 25/79] fix: log iteration of wrapped, exactly full and
 large-stride logs

The iterator of a wrapped circular log started behind the last entry when
the log was exactly full, or when the stride does not divide the buffer,
never ended when the oldest entry is in the last slot, and could not handle
strides above 4080 bytes.  The iterator of other logs looked at the entry
at next_free, where there is none.
---
 src/sphlflogger.cpp | 62 +++++++++++++++++++++++++++++++--------------
 1 file changed, 43 insertions(+), 19 deletions(-)

diff --git a/src/sphlflogger.cpp b/src/sphlflogger.cpp
index 0838104..67fae0f 100644
--- a/src/sphlflogger.cpp
+++ b/src/sphlflogger.cpp
@@ -665,6 +665,21 @@ SPHLFLoggerEntryIsTimestamped (SPHLFLoggerHandle_t * handlespace)
 	  && (entryPtr->entryID.detail.timestamped == 1));
 }
 
+/* The length field of an entry has only 8 bits, so the length of larger
+   entries is only known for loggers with a fixed entry stride.  */
+static inline longPtr_t
+SPHLFLoggerEntryLen (SASLFLoggerHeader * headerBlock,
+		     SPHLFLogHeader_t * entryPtr)
+{
+  longPtr_t len = entryPtr->entryID.detail.len;
+  longPtr_t units = headerBlock->default_entry_stride / DEFAULT_ALLOC_UNIT;
+
+  if ((units > 255) && ((units & 255) == len))
+    len = units;
+
+  return len * DEFAULT_ALLOC_UNIT;
+}
+
 //#define __SASDebugPrint__ 1
 SPHLFLoggerHandle_t *
 SPHLFLoggerIteratorNext (SPHLFLogIterator_t * iterator,
@@ -685,7 +700,10 @@ SPHLFLoggerIteratorNext (SPHLFLogIterator_t * iterator,
     {
       unsigned int log_options = iterator->options;
       longPtr_t lPtr = iterator->current;
-      longPtr_t eLen, prev;
+      longPtr_t eLen;
+      bool wrapped = (log_options & SPHLFLOGGER_CIRCULAR)
+	&& (log_options & SPHLFLOGGER_CIRCULAR_WRAPED);
+      bool more;
       SPHLFLogHeader_t *entryPtr;
 
       entryPtr = (SPHLFLogHeader_t *) lPtr;
@@ -695,9 +713,18 @@ SPHLFLoggerIteratorNext (SPHLFLogIterator_t * iterator,
 	lPtr, entryPtr, iterator->end_log);
 #endif
 
-      if ((lPtr < iterator->end_log) && (entryPtr->entryID.detail.valid))
+      /* A wrapped log ends where it started, at the oldest entry.
+         Otherwise there are no entries from free on.  */
+      if (wrapped)
+	more = (lPtr != iterator->free)
+	  || !(log_options & SPHLFLOGGER_CIRCULAR_NOTFIRST);
+      else
+	more = (lPtr < iterator->free);
+
+      if (more && (lPtr < iterator->end_log)
+	  && (entryPtr->entryID.detail.valid))
 	{
-	  eLen = (entryPtr->entryID.detail.len * DEFAULT_ALLOC_UNIT);
+	  eLen = SPHLFLoggerEntryLen (headerBlock, entryPtr);
 
 	  handleorg->entry = entryPtr;
 	  handleorg->total_size = eLen;
@@ -712,28 +739,19 @@ SPHLFLoggerIteratorNext (SPHLFLogIterator_t * iterator,
 	      handleorg->next = (char *) (lPtr + sizeof (sphLogEntry_t));
 	      handleorg->remaining = eLen - sizeof (sphLogEntry_t);
 	    }
-	  prev = lPtr;
 	  lPtr += eLen;
 
 #ifdef __SASDebugPrint__
 	  sas_printf ("  lPtr=%lx eLen=%ld valid=%d\n", lPtr, eLen,
 	    entryPtr->entryID.detail.valid);
 #endif
-	  if ((log_options & SPHLFLOGGER_CIRCULAR)
-	      && (log_options & SPHLFLOGGER_CIRCULAR_WRAPED))
+	  if (wrapped)
 	    {
-	      if (lPtr >= iterator->end_log)
-		{
-		  iterator->current = iterator->start_log;
-		  handle = handleorg;
-		}
-	      else if ((prev != iterator->free)
-		       || ((log_options & SPHLFLOGGER_CIRCULAR_NOTFIRST)
-			   != SPHLFLOGGER_CIRCULAR_NOTFIRST))
-		{
-		  iterator->current = lPtr;
-		  handle = handleorg;
-		}
+	      /* The tail end may be too small for another entry.  */
+	      if (lPtr + eLen > iterator->end_log)
+		lPtr = iterator->start_log;
+	      iterator->current = lPtr;
+	      handle = handleorg;
 	    }
 	  else
 	    {
@@ -781,7 +799,13 @@ SPHLFLoggerCreateIterator (SPHLFLogger_t log,
       if ((log_options & SPHLFLOGGER_CIRCULAR)
 	  && (log_options & SPHLFLOGGER_CIRCULAR_WRAPED))
 	{
-	  iter->current = headerBlock->next_free;
+	  /* The oldest entry is at next_free, unless what is left there is
+	     too small for an entry.  */
+	  if ((iter->free >= iter->end_log)
+	      || (iter->free + headerBlock->default_entry_stride
+		  > iter->end_log))
+	    iter->free = iter->start_log;
+	  iter->current = iter->free;
 	}
       else
 	{
-- 
2.43.0


From 8aeaf48858237e69dc6ab92a468991cdb29470c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:34 +0000
Subject: [PATCH 26/79] fix: a refused reservation ends the log for iterators

After a reset, the space behind the last entry still holds entries of the
earlier use.  A refused reservation moved next_free past them, and an
iterator then returned them.
---
 src/sphlflogger.cpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/sphlflogger.cpp b/src/sphlflogger.cpp
index 67fae0f..06536e1 100644
--- a/src/sphlflogger.cpp
+++ b/src/sphlflogger.cpp
@@ -172,6 +172,15 @@ SPHLFLoggerEntrySize (SASLFLoggerHeader * headerBlock,
   return (alloc_round <= capacity) ? alloc_round : 0;
 }
 
+/* A reservation failed: nothing will be stored from log_entry on.  Make sure
+   that an iterator does not find entries of an earlier use there.  */
+static inline void
+SPHLFLoggerEndEntries (SASLFLoggerHeader * headerBlock, longPtr_t log_entry)
+{
+  if (log_entry + sizeof (sphLogEntry_t) <= headerBlock->end_log_buf)
+    ((SPHLFLogHeader_t *) log_entry)->entryID.idUnit = 0;
+}
+
 void *
 SPHLFLoggerAllocRaw (SPHLFLogger_t log, block_size_t alloc_size)
 {
@@ -189,6 +198,8 @@ SPHLFLoggerAllocRaw (SPHLFLogger_t log, block_size_t alloc_size)
 
       if (log_entry + alloc_round > headerBlock->end_log_buf)
 	{
+	  if (!(headerBlock->options & SPHLFLOGGER_CIRCULAR))
+	    SPHLFLoggerEndEntries (headerBlock, log_entry);
 	  log_entry = 0;
 #ifdef __SASDebugPrint__
 	  sas_printf ("SPHLFLoggerAllocRaw(%p, %ld) alloc failed\n",
@@ -322,6 +333,8 @@ SPHLFLoggerAllocTimeStamped (SPHLFLogger_t log,
 		  while (!handlespace);
 		}
 	    }
+	  else
+	    SPHLFLoggerEndEntries (headerBlock, log_entry);
 	}
 #ifdef __SASDebugPrint__
     }
@@ -456,6 +469,8 @@ SPHLFLoggerAllocStrideTimeStamped (SPHLFLogger_t log,
 		  while (!handlespace);
 		}
 	    }
+	  else
+	    SPHLFLoggerEndEntries (headerBlock, log_entry);
 	}
 #ifdef __SASDebugPrint__
     }
@@ -537,6 +552,8 @@ SPHLFLoggerAllocTimeStampedNoLock (SPHLFLogger_t log,
 							       alloc_size,
 							       handleorg);
 	    }
+	  else
+	    SPHLFLoggerEndEntries (headerBlock, log_entry);
 	}
 #ifdef __SASDebugPrint__
     }
@@ -620,6 +637,8 @@ SPHLFLoggerAllocStrideTimeStampedNoLock (SPHLFLogger_t log,
 								     subcode,
 								     handleorg);
 	    }
+	  else
+	    SPHLFLoggerEndEntries (headerBlock, log_entry);
 	}
 #ifdef __SASDebugPrint__
     }
-- 
2.43.0


From ac6bc0425fc9f4c41023093563c118c0523a59a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:49 +0000
Subject: [PATCH 27/79] fix: a portal never counts a logger that is not in its
 list yet

Adding a logger raised the count before it stored the logger, so that other
threads used an empty slot, and a refused add could leave the count above
the capacity.
---
 src/sphlogportal.cpp | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/sphlogportal.cpp b/src/sphlogportal.cpp
index 1eec5cb..941049f 100644
--- a/src/sphlogportal.cpp
+++ b/src/sphlogportal.cpp
@@ -15,6 +15,7 @@
 #include <stdio.h>
 //#include "sasio.h"
 #include <stdlib.h>
+#include <string.h>
 #include "sasalloc.h"
 #include "freenode.h"
 #ifdef __SASDebugPrint__
@@ -94,6 +95,7 @@ SPHLogPortalInitInternal (void* buf_seg,  sas_type_t sasType,
     heapBlock->log_buff_list = (SPHLFLogger_t*)listStart;
     heapBlock->current_logger = 0;
     heapBlock->next_free = 0;
+    memset (listStart, 0, entries * sizeof (SPHLFLogger_t));
 
     remaining= DEFAULT_PAGE - sizeof(SASLogPortalHeader);
     heapBlock->headerFreeSpace = (freeNode *)&heapBlock[1];
@@ -185,11 +187,24 @@ SPHLogPortalAddLogger (SPHLogPortal_t portal, SPHLFLogger_t log)
 		if (SOMSASCheckBlockSigAndType (logBlock,
 				SAS_RUNTIME_LOCKFREELOGGER) )
 		{
-			index = __sync_fetch_and_add (&headerBlock->next_free, 1);
-			if (index < headerBlock->list_size)
+			/* Insert the Logger in the Portal list.  The slot is
+			 * filled before next_free moves past it, so that the slots
+			 * below next_free always hold a Logger. */
+			do
+			{
+				index = *(volatile longPtr_t *)&headerBlock->next_free;
+				if (index >= headerBlock->list_size)
+					break;
+				if (__sync_bool_compare_and_swap (
+						&headerBlock->log_buff_list[index], NULL, log))
+					rc = log;
+				/* Either this thread or another one filled the slot. */
+				__sync_bool_compare_and_swap (&headerBlock->next_free,
+						index, index + 1);
+			} while (!rc);
+
+			if (rc)
 			{
-				/* Insert the Logger in the Portal list */
-				headerBlock->log_buff_list[index] = log;
 				/* Link this Logger to the Portal as its Base Block
 				 * then link this Logger as the Next Block of the
 				 * previous Logger in the list.
@@ -200,11 +215,6 @@ SPHLogPortalAddLogger (SPHLogPortal_t portal, SPHLFLogger_t log)
 					logPrevBlock = (SASBlockHeader*)headerBlock->log_buff_list[index-1];
 					logPrevBlock->nextBlock = logBlock;
 				}
-
-				rc = log;
-			} else {
-				if (index > headerBlock->list_size)
-					index = __sync_fetch_and_add (&headerBlock->next_free, -1);
 			}
 	#ifdef __SASDebugPrint__
 		} else {
-- 
2.43.0


From 72b8fff17ab7b99b9391652a889ea56c08603b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:49 +0000
Subject: [PATCH 28/79] fix: a full portal reports its number of loggers

---
 src/sphlogportal.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sphlogportal.cpp b/src/sphlogportal.cpp
index 941049f..8a762d6 100644
--- a/src/sphlogportal.cpp
+++ b/src/sphlogportal.cpp
@@ -352,7 +352,7 @@ SPHLogPortalEntries (SPHLogPortal_t portal)
 			SAS_RUNTIME_LOGPORTAL) )
 	{
 		sas_read_barrier();
-		if ( headerBlock->next_free < headerBlock->list_size )
+		if ( headerBlock->next_free <= headerBlock->list_size )
 		{
 			rc = headerBlock->next_free;
 #ifdef __SASDebugPrint__
-- 
2.43.0


From d5e01e599169975fa5dbe67a83c78f6ed4b4e864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:49 +0000
Subject: [PATCH 29/79] fix: portal iteration skips loggers without entries and
 ends with the last

An empty portal was iterated through whatever its storage held, a logger
without completed entries ended the iteration, and the slot behind the last
logger was read.
---
 src/sphlogportal.cpp | 34 +++++++++++++++-------------------
 1 file changed, 15 insertions(+), 19 deletions(-)

diff --git a/src/sphlogportal.cpp b/src/sphlogportal.cpp
index 8a762d6..7876471 100644
--- a/src/sphlogportal.cpp
+++ b/src/sphlogportal.cpp
@@ -405,7 +405,8 @@ SPHLFPortalCreateIterator(SPHLogPortal_t portal,
     		SAS_RUNTIME_LOGPORTAL) )
     {
     	SPHLFLogIterator_t *l_iter = NULL;
-    	log = headerBlock->log_buff_list[0];
+    	log = (headerBlock->next_free > 0)
+    			? headerBlock->log_buff_list[0] : NULL;
 #ifdef __SASDebugPrint__
     	sas_printf("SPHLFPortalCreateIterator(%p, %p) log[0]= %p\n",
     			portal, Iterator_space, log);
@@ -439,7 +440,7 @@ SPHLFPortalIteratorNext (SPHLFPortalIterator_t *iterator,
 	SPHLFLoggerHandle_t *handle = NULL;
 	SPHLogPortal_t portal = iterator->portal;
 	SASLogPortalHeader	*headerBlock = (SASLogPortalHeader*)portal;
-    SPHLFLogger_t log, log0;
+    SPHLFLogger_t log;
 
     if (SOMSASCheckBlockSigAndType ((SASBlockHeader*)headerBlock,
     		SAS_RUNTIME_LOGPORTAL) )
@@ -452,26 +453,21 @@ SPHLFPortalIteratorNext (SPHLFPortalIterator_t *iterator,
     	if (log)
     	{   /* The iterator should point to a logger.  */
     		handle = SPHLFLoggerIteratorNext(&iterator->logIter, handlespace);
-    		if (!handle)
+    		while (!handle)
     		{   /* implies we at then end of the current logger. */
     			longPtr_t cur = iterator->current;
     			longPtr_t nxt = cur + 1;
-    			log0 = headerBlock->log_buff_list[cur];
-    			if (log0 && (nxt <= iterator->next_free)
-    			&& (nxt < iterator->capacity))
-    			{   /* nxt is within the allocated list.  */
-    				log = headerBlock->log_buff_list[nxt];
-    				if (log)
-    				{   /* and the list entry was filled in. */
-    			    	SPHLFLogIterator_t *l_iter;
-    		    		l_iter = SPHLFLoggerCreateIterator(log, &iterator->logIter);
-    		    		if (l_iter)
-    		    		{   /* and that pointer to a valid logger.  */
-    		    			iterator->current = nxt;
-    		        		handle = SPHLFLoggerIteratorNext(l_iter, handlespace);
-    		    		}
-    				}
-    			}
+    			SPHLFLogIterator_t *l_iter;
+
+    			if (nxt >= iterator->next_free)
+    				break; /* this was the last logger.  */
+    			log = headerBlock->log_buff_list[nxt];
+    			l_iter = SPHLFLoggerCreateIterator(log, &iterator->logIter);
+    			if (!l_iter)
+    				break;
+    			/* This logger may have no (completed) entries.  */
+    			iterator->current = nxt;
+    			handle = SPHLFLoggerIteratorNext(l_iter, handlespace);
     		}
     	}
 #ifdef __SASDebugPrint__
-- 
2.43.0


From 2dae02f51c40cea1d209b56953080d15f12370af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:10 +0000
Subject: [PATCH 30/79] fix: __arch_atomic_swap stores the new value, and is
 kept when its result is unused

The exchange register was never loaded with the replacement value, so an
indeterminate value was stored; and the asm was not volatile, so the
compiler dropped the store when the old value was not used.
---
 src/sasatom_x86_64.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sasatom_x86_64.h b/src/sasatom_x86_64.h
index b9669a6..50bbdd7 100644
--- a/src/sasatom_x86_64.h
+++ b/src/sasatom_x86_64.h
@@ -95,9 +95,9 @@ __arch_compare_and_swap (volatile long int *p, long int oldval, long int newval)
 static inline long int
 __arch_atomic_swap (long int *p, long int replace)
 {
-  long int temp;
+  long int temp = replace;
 
-  __asm__ (
+  __asm__ __volatile__ (
     " lock;"
     " xchg %0,(%1);"
    : "+r" (temp)
-- 
2.43.0


From 2daa0969ce83019a9928077c4832259ec53651bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:10 +0000
Subject: [PATCH 31/79] fix: atomic increment and decrement operate on the
 whole long

incl/decl lose the carry or borrow into the upper 32 bits.
---
 src/sasatom_x86_64.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sasatom_x86_64.h b/src/sasatom_x86_64.h
index 50bbdd7..1ecfafb 100644
--- a/src/sasatom_x86_64.h
+++ b/src/sasatom_x86_64.h
@@ -113,7 +113,7 @@ __arch_atomic_inc (long int *p)
 {
   __asm__ __volatile__ (
     "  lock;"
-    "  incl (%0);"
+    "  incq (%0);"
    :
    : "p" (p)
    : "memory"
@@ -125,7 +125,7 @@ __arch_atomic_dec (long int *p)
 {
   __asm__ (
     "  lock;"
-    "  decl (%0);"
+    "  decq (%0);"
    :
    : "p" (p)
    : "memory"
-- 
2.43.0


From f331e9c786ec77950b8daf7ca0576c114b59f064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:41 +0000
Subject: [PATCH 32/79] fix: tree operations refuse handles of compound heaps
 and of the other tree kind

The checks ignored the subtype, so compound heaps, string trees and indexes
were taken for each other; the expansion functions did not check at all.
---
 src/sasindex.cpp         | 92 +++++++++++++++++++++------------------
 src/sasindexpriv.h       |  2 +-
 src/sasstringbtree.cpp   | 94 ++++++++++++++++++++++------------------
 src/sasstringbtreepriv.h |  2 +-
 4 files changed, 103 insertions(+), 87 deletions(-)

diff --git a/src/sasindex.cpp b/src/sasindex.cpp
index 4894b74..46e4974 100644
--- a/src/sasindex.cpp
+++ b/src/sasindex.cpp
@@ -255,13 +255,21 @@ SASIndex_t
 SASIndexExpandCreate (SASIndex_t heap)
 {
     SASIndexHeader	*headerBlock = (SASIndexHeader*)heap;
-    block_size_t heap_size	= headerBlock->blockHeader.blockSize;
-    block_size_t page_size	= headerBlock->pageSize;
-    SASCompoundExpandList	*list = headerBlock->expandList;
-    SASIndexCommon	*commonPtr = headerBlock->common;
+    block_size_t heap_size, page_size;
+    SASCompoundExpandList	*list;
+    SASIndexCommon	*commonPtr;
     SASBlockHeader	*heapBlock = NULL;
     SASIndex_t newHeap = NULL;
     
+    if (!SOMSASCheckBlockSigAndTypeAndSubtype ((SASBlockHeader*)headerBlock,
+		                                SAS_RUNTIME_INDEX)
+	|| !SASIndexIsExpanding (headerBlock))
+	return NULL;
+
+    heap_size = headerBlock->blockHeader.blockSize;
+    page_size = headerBlock->pageSize;
+    list = headerBlock->expandList;
+    commonPtr = headerBlock->common;
     heapBlock = (SASBlockHeader*)SASBlockAlloc ((long)heap_size);
     if ( heapBlock )
     {
@@ -341,7 +349,7 @@ SASIndexAllocNoLock (SASIndex_t heap)
     SASIndexHeader	*headerBlock = (SASIndexHeader*)heap;
     SASIndexNode_t newHeap = NULL;
    
-	if (SOMSASCheckBlockSigAndType ((SASBlockHeader*)headerBlock, 
+	if (SOMSASCheckBlockSigAndTypeAndSubtype ((SASBlockHeader*)headerBlock, 
 	                                SAS_RUNTIME_INDEX))
     {
 		if (SASIndexIsExpanding(headerBlock))
@@ -389,7 +397,7 @@ SASIndexAlloc (SASIndex_t heap)
     SASBlockHeader	*headerBlock = (SASBlockHeader*)heap;
     SASIndexNode_t newHeap = NULL;
     
-    if (SOMSASCheckBlockSigAndType (headerBlock, 
+    if (SOMSASCheckBlockSigAndTypeAndSubtype (headerBlock, 
               SAS_RUNTIME_INDEX) )
     {
     	SASIndexHeader	*heapHeader = (SASIndexHeader*)heap;
@@ -461,7 +469,7 @@ SASIndexFreeNoLock (SASIndex_t heap,
     if (SOMSASCheckBlockSigAndType ((SASBlockHeader*)free_block, 
                                     SAS_RUNTIME_INDEXNODE))
     {
-	    if (SOMSASCheckBlockSigAndType ((SASBlockHeader*)headerBlock, 
+	    if (SOMSASCheckBlockSigAndTypeAndSubtype ((SASBlockHeader*)headerBlock, 
 	                                     SAS_RUNTIME_INDEX))
 	    {
 			if (SASIndexIsExpanding(headerBlock))
@@ -512,7 +520,7 @@ SASIndexFree (SASIndex_t heap,
 	                                SAS_RUNTIME_INDEXNODE) )
     {
     	SASLock(heap, SasUserLock__WRITE);
-	    if (SOMSASCheckBlockSigAndType ((SASBlockHeader*)headerBlock, 
+	    if (SOMSASCheckBlockSigAndTypeAndSubtype ((SASBlockHeader*)headerBlock, 
 	                                     SAS_RUNTIME_INDEX))
 	    {
 			if (SASIndexIsExpanding(headerBlock))
@@ -577,7 +585,7 @@ SASIndexNearAllocNoLock(void *nearObj)
 			else
 				compoundHeader = (SASIndexHeader*)nearHeader;
 				   
-		    if (SOMSASCheckBlockSigAndType ((SASBlockHeader*)compoundHeader, 
+		    if (SOMSASCheckBlockSigAndTypeAndSubtype ((SASBlockHeader*)compoundHeader, 
 			                                SAS_RUNTIME_INDEX) )
 		    {
 				if (SASIndexIsExpanding(compoundHeader))
@@ -628,7 +636,7 @@ SASIndexNearAlloc(void *nearObj)
 				
     		SASLock(compoundHeader, SasUserLock__WRITE);
 				   
-		    if (SOMSASCheckBlockSigAndType ((SASBlockHeader*)compoundHeader, 
+		    if (SOMSASCheckBlockSigAndTypeAndSubtype ((SASBlockHeader*)compoundHeader, 
 			                                SAS_RUNTIME_INDEX) )
 		    {
 				if (SASIndexIsExpanding(compoundHeader))
@@ -708,7 +716,7 @@ SASIndexSpillAllocExtended (SASIndex_t heap, lock_on_t lock_on)
     SASBlockHeader	*headerBlock = (SASBlockHeader*)heap;
     SASIndexNode_t newHeap = NULL;
     
-    if (SOMSASCheckBlockSigAndType (headerBlock, 
+    if (SOMSASCheckBlockSigAndTypeAndSubtype (headerBlock, 
               SAS_RUNTIME_INDEX) )
     {
     	SASIndexHeader	*heapHeader = (SASIndexHeader*)heap;
@@ -792,7 +800,7 @@ SASIndexSpillAlloc(void *nearObj, lock_on_t lock_on)
 				
                     if (lock_on) SASLock(compoundHeader, SasUserLock__WRITE);
 				   
-		    if (SOMSASCheckBlockSigAndType ((SASBlockHeader*)compoundHeader, 
+		    if (SOMSASCheckBlockSigAndTypeAndSubtype ((SASBlockHeader*)compoundHeader, 
 			                                SAS_RUNTIME_INDEX) )
 		    {
 				if (SASIndexIsExpanding(compoundHeader))
@@ -858,7 +866,7 @@ SASIndexNearDeallocNoLock(void *nearObj)
 		else
 			btreeHeader = (SASIndex_t)nearHeader;
 				   
-	    if (SOMSASCheckBlockSigAndType ((SASBlockHeader*)btreeHeader, 
+	    if (SOMSASCheckBlockSigAndTypeAndSubtype ((SASBlockHeader*)btreeHeader, 
 		                                SAS_RUNTIME_INDEX) )
 	    {
 			SASIndexFreeInternal ((SASIndexHeader*)btreeHeader, 
@@ -887,7 +895,7 @@ SASIndexNearDealloc(void *nearObj)
 		else
 			btreeHeader = (SASIndex_t)nearHeader;
 			
-	    if (SOMSASCheckBlockSigAndType ((SASBlockHeader*)btreeHeader, 
+	    if (SOMSASCheckBlockSigAndTypeAndSubtype ((SASBlockHeader*)btreeHeader, 
 		                                SAS_RUNTIME_INDEX))
 	    {
     		SASLock(btreeHeader, SasUserLock__WRITE);
@@ -913,7 +921,7 @@ SASIndexAllocSize (SASIndex_t heap)
     SASIndexHeader	*headerBlock = (SASIndexHeader*)heap;
     block_size_t	nodeSize = 0;
     
-    if (SOMSASCheckBlockSigAndType ((SASBlockHeader*)headerBlock, 
+    if (SOMSASCheckBlockSigAndTypeAndSubtype ((SASBlockHeader*)headerBlock, 
                                     SAS_RUNTIME_INDEX))
     {
 		nodeSize = headerBlock->pageSize;
@@ -927,7 +935,7 @@ SASIndexFreeSpaceNoLock (SASIndex_t heap)
     SASBlockHeader	*headerBlock = (SASBlockHeader*)heap;
     block_size_t	heapFree = 0;
     
-    if (SOMSASCheckBlockSigAndType (headerBlock, 
+    if (SOMSASCheckBlockSigAndTypeAndSubtype (headerBlock, 
 	                                SAS_RUNTIME_INDEX))
     {
     	SASIndexHeader	*heapBlock = (SASIndexHeader*)heap;
@@ -955,7 +963,7 @@ SASIndexFreeSpace (SASIndex_t heap)
     SASBlockHeader	*headerBlock = (SASBlockHeader*)heap;
     block_size_t	heapFree = 0;
     
-    if (SOMSASCheckBlockSigAndType (headerBlock, 
+    if (SOMSASCheckBlockSigAndTypeAndSubtype (headerBlock, 
 	                                SAS_RUNTIME_INDEX))
     {
     	SASLock(heap, SasUserLock__WRITE);
@@ -993,7 +1001,7 @@ SASIndexDestroyNoLock (SASIndex_t heap)
     SASIndexHeader	*headerBlock = (SASIndexHeader*)heap;
     block_size_t	heapSize;
     
-    if (SOMSASCheckBlockSigAndType ((SASBlockHeader*)headerBlock, 
+    if (SOMSASCheckBlockSigAndTypeAndSubtype ((SASBlockHeader*)headerBlock, 
                                     SAS_RUNTIME_INDEX))
     {
     	SASCompoundExpandList	*list = headerBlock->expandList;
@@ -1022,7 +1030,7 @@ SASIndexDestroy (SASIndex_t heap)
     SASIndexHeader	*headerBlock = (SASIndexHeader*)heap;
     block_size_t	heapSize;
     
-    if (SOMSASCheckBlockSigAndType ((SASBlockHeader*)headerBlock, 
+    if (SOMSASCheckBlockSigAndTypeAndSubtype ((SASBlockHeader*)headerBlock, 
                                     SAS_RUNTIME_INDEX))
     {
     	SASLock(heap, SasUserLock__WRITE);
@@ -1063,7 +1071,7 @@ SASIndexGetRootNode(SASIndex_t  heap)
     SASIndexHeader	*btree = (SASIndexHeader*)heap;
 	SASIndexNode_t	result	= NULL;
 	
-    if (SOMSASCheckBlockSigAndType ((SASBlockHeader*)heap, 
+    if (SOMSASCheckBlockSigAndTypeAndSubtype ((SASBlockHeader*)heap, 
                                     SAS_RUNTIME_INDEX))
     {
     	SASLock(heap, SasUserLock__READ);
@@ -1078,7 +1086,7 @@ SASIndexGetRootNode_nolock(SASIndex_t  heap)
     SASIndexHeader	*btree = (SASIndexHeader*)heap;
 	SASIndexNode_t	result	= NULL;
 
-    if (SOMSASCheckBlockSigAndType ((SASBlockHeader*)heap,
+    if (SOMSASCheckBlockSigAndTypeAndSubtype ((SASBlockHeader*)heap,
                                     SAS_RUNTIME_INDEX))
     {
     	result = btree->root;
@@ -1092,7 +1100,7 @@ SASIndexGetModCount(SASIndex_t  heap)
     SASIndexHeader	*btree = (SASIndexHeader*)heap;
 	long	result	= 0L;
 	
-    if (SOMSASCheckBlockSigAndType ((SASBlockHeader*)heap, 
+    if (SOMSASCheckBlockSigAndTypeAndSubtype ((SASBlockHeader*)heap, 
                                     SAS_RUNTIME_INDEX))
     {
     	SASLock(heap, SasUserLock__READ);
@@ -1108,7 +1116,7 @@ SASIndexGetModCount_nolock(SASIndex_t  heap)
     SASIndexHeader	*btree = (SASIndexHeader*)heap;
 	long	result	= 0L;
 
-    if (SOMSASCheckBlockSigAndType ((SASBlockHeader*)heap,
+    if (SOMSASCheckBlockSigAndTypeAndSubtype ((SASBlockHeader*)heap,
                                     SAS_RUNTIME_INDEX))
     {
     	result = btree->common->modCount;
@@ -1122,7 +1130,7 @@ SASIndexGetMaxKey(SASIndex_t  heap)
     SASIndexHeader	*btree = (SASIndexHeader*)heap;
 	SASIndexKey_t	*result	= NULL;
 	
-    if (SOMSASCheckBlockSigAndType ((SASBlockHeader*)heap, 
+    if (SOMSASCheckBlockSigAndTypeAndSubtype ((SASBlockHeader*)heap, 
                                     SAS_RUNTIME_INDEX))
     {
     	SASLock(heap, SasUserLock__READ);
@@ -1138,7 +1146,7 @@ SASIndexGetMaxKey_nolock(SASIndex_t  heap)
     SASIndexHeader	*btree = (SASIndexHeader*)heap;
 	SASIndexKey_t	*result	= NULL;
 
-    if (SOMSASCheckBlockSigAndType ((SASBlockHeader*)heap,
+    if (SOMSASCheckBlockSigAndTypeAndSubtype ((SASBlockHeader*)heap,
                                     SAS_RUNTIME_INDEX))
     {
     	result = btree->common->max_key;
@@ -1152,7 +1160,7 @@ SASIndexGetMinKey(SASIndex_t  heap)
     SASIndexHeader	*btree = (SASIndexHeader*)heap;
 	SASIndexKey_t	*result	= NULL;
 	
-    if (SOMSASCheckBlockSigAndType ((SASBlockHeader*)heap, 
+    if (SOMSASCheckBlockSigAndTypeAndSubtype ((SASBlockHeader*)heap, 
                                     SAS_RUNTIME_INDEX))
     {
     	SASLock(heap, SasUserLock__READ);
@@ -1168,7 +1176,7 @@ SASIndexGetMinKey_nolock(SASIndex_t  heap)
     SASIndexHeader	*btree = (SASIndexHeader*)heap;
 	SASIndexKey_t	*result	= NULL;
 
-    if (SOMSASCheckBlockSigAndType ((SASBlockHeader*)heap,
+    if (SOMSASCheckBlockSigAndTypeAndSubtype ((SASBlockHeader*)heap,
                                     SAS_RUNTIME_INDEX))
     {
     	result = btree->common->min_key;
@@ -1183,7 +1191,7 @@ SASIndexContainsKey (SASIndex_t  heap, SASIndexKey_t *key)
 	__IDXnodePosRef ref = {NULL, 0};
 	int found = false;
 	
-    if (SOMSASCheckBlockSigAndType ((SASBlockHeader*)heap, 
+    if (SOMSASCheckBlockSigAndTypeAndSubtype ((SASBlockHeader*)heap, 
                                     SAS_RUNTIME_INDEX))
     {
     	SASLock(heap, SasUserLock__READ);
@@ -1203,7 +1211,7 @@ SASIndexContainsKey_nolock (SASIndex_t  heap, const SASIndexKey_t *key)
 	__IDXnodePosRef ref = {NULL, 0};
 	int found = false;
 
-    if (SOMSASCheckBlockSigAndType ((SASBlockHeader*)heap,
+    if (SOMSASCheckBlockSigAndTypeAndSubtype ((SASBlockHeader*)heap,
                                     SAS_RUNTIME_INDEX))
     {
 		if (btree->root != NULL)
@@ -1222,7 +1230,7 @@ SASIndexGet (SASIndex_t  heap, const SASIndexKey_t *key)
 	__IDXnodePosRef ref = {NULL, 0};
 	int found;	
     
-    if (SOMSASCheckBlockSigAndType ((SASBlockHeader*)heap, 
+    if (SOMSASCheckBlockSigAndTypeAndSubtype ((SASBlockHeader*)heap, 
                                     SAS_RUNTIME_INDEX))
     {
     	SASLock(heap, SasUserLock__READ);
@@ -1247,7 +1255,7 @@ SASIndexGet_nolock (SASIndex_t  heap, const SASIndexKey_t *key)
 	__IDXnodePosRef ref = {NULL, 0};
 	int found;
 
-    if (SOMSASCheckBlockSigAndType ((SASBlockHeader*)heap,
+    if (SOMSASCheckBlockSigAndTypeAndSubtype ((SASBlockHeader*)heap,
                                     SAS_RUNTIME_INDEX))
     {
 		if (btree->root != NULL)
@@ -1268,7 +1276,7 @@ SASIndexIsEmpty(SASIndex_t  heap)
     SASIndexHeader	*btree = (SASIndexHeader*)heap;
     int	result = false;
     
-    if (SOMSASCheckBlockSigAndType ((SASBlockHeader*)heap, 
+    if (SOMSASCheckBlockSigAndTypeAndSubtype ((SASBlockHeader*)heap, 
                                     SAS_RUNTIME_INDEX))
     {
     	SASLock(heap, SasUserLock__READ);
@@ -1284,7 +1292,7 @@ SASIndexIsEmpty_nolock(SASIndex_t  heap)
     SASIndexHeader	*btree = (SASIndexHeader*)heap;
     int	result = false;
 
-    if (SOMSASCheckBlockSigAndType ((SASBlockHeader*)heap,
+    if (SOMSASCheckBlockSigAndTypeAndSubtype ((SASBlockHeader*)heap,
                                     SAS_RUNTIME_INDEX))
     {
     	result = (btree->common->count == 0);
@@ -1370,7 +1378,7 @@ SASIndexPut (SASIndex_t  heap, SASIndexKey_t *key, void *value)
     SASIndexHeader	*btree = (SASIndexHeader*)heap;
     int result = false;
     
-    if (SOMSASCheckBlockSigAndType ((SASBlockHeader*)heap, 
+    if (SOMSASCheckBlockSigAndTypeAndSubtype ((SASBlockHeader*)heap, 
                                     SAS_RUNTIME_INDEX))
     {
     	SASLock(heap, SasUserLock__WRITE);
@@ -1410,7 +1418,7 @@ SASIndexPut_nolock (SASIndex_t  heap, SASIndexKey_t *key, void *value)
     SASIndexHeader	*btree = (SASIndexHeader*)heap;
     int result = false;
 
-    if (SOMSASCheckBlockSigAndType ((SASBlockHeader*)heap,
+    if (SOMSASCheckBlockSigAndTypeAndSubtype ((SASBlockHeader*)heap,
                                     SAS_RUNTIME_INDEX))
     {
 
@@ -1449,7 +1457,7 @@ SASIndexReplace (SASIndex_t  heap, SASIndexKey_t *key, void *value)
 	__IDXnodePosRef ref = {NULL, 0};
     void	*result = NULL;
     
-    if (SOMSASCheckBlockSigAndType ((SASBlockHeader*)heap, 
+    if (SOMSASCheckBlockSigAndTypeAndSubtype ((SASBlockHeader*)heap, 
                                     SAS_RUNTIME_INDEX))
     {
     	SASLock(heap, SasUserLock__WRITE);
@@ -1477,7 +1485,7 @@ SASIndexReplace_nolock (SASIndex_t  heap, SASIndexKey_t *key, void *value)
 	__IDXnodePosRef ref = {NULL, 0};
     void	*result = NULL;
 
-    if (SOMSASCheckBlockSigAndType ((SASBlockHeader*)heap,
+    if (SOMSASCheckBlockSigAndTypeAndSubtype ((SASBlockHeader*)heap,
                                     SAS_RUNTIME_INDEX))
     {
 		btree->common->modCount++;
@@ -1505,7 +1513,7 @@ SASIndexRemove (SASIndex_t  heap, SASIndexKey_t *key)
     void	*result = NULL;
     SASIndexNodeHeader *node;
     
-    if (SOMSASCheckBlockSigAndType ((SASBlockHeader*)heap, 
+    if (SOMSASCheckBlockSigAndTypeAndSubtype ((SASBlockHeader*)heap, 
                                     SAS_RUNTIME_INDEX))
     {
     	SASLock(heap, SasUserLock__WRITE);
@@ -1574,7 +1582,7 @@ SASIndexRemove_nolock (SASIndex_t  heap, SASIndexKey_t *key)
     void	*result = NULL;
     SASIndexNodeHeader *node;
 
-    if (SOMSASCheckBlockSigAndType ((SASBlockHeader*)heap,
+    if (SOMSASCheckBlockSigAndTypeAndSubtype ((SASBlockHeader*)heap,
                                     SAS_RUNTIME_INDEX))
     {
 		btree->common->modCount++;
@@ -1638,7 +1646,7 @@ SASIndexPrint (SASIndex_t  heap)
 {
     SASIndexHeader	*btree = (SASIndexHeader*)heap;
     
-    if (SOMSASCheckBlockSigAndType ((SASBlockHeader*)heap, 
+    if (SOMSASCheckBlockSigAndTypeAndSubtype ((SASBlockHeader*)heap, 
                                     SAS_RUNTIME_INDEX) )
     {
     	SASLock(heap, SasUserLock__READ);
@@ -1657,7 +1665,7 @@ SASIndexPrintValues (SASIndex_t  heap)
 {
     SASIndexHeader	*btree = (SASIndexHeader*)heap;
     
-    if (SOMSASCheckBlockSigAndType ((SASBlockHeader*)heap, 
+    if (SOMSASCheckBlockSigAndTypeAndSubtype ((SASBlockHeader*)heap, 
                                     SAS_RUNTIME_INDEX) )
     {
     	SASLock(heap, SasUserLock__READ);
@@ -1977,7 +1985,7 @@ SASIndexPrintStats (SASIndex_t heap)
     long spill_far_count = 0;
     long spill_free_total = 0;
     
-    if (SOMSASCheckBlockSigAndType ((SASBlockHeader*)headerBlock, 
+    if (SOMSASCheckBlockSigAndTypeAndSubtype ((SASBlockHeader*)headerBlock, 
                                     SAS_RUNTIME_INDEX))
     {
     	SASLock(heap, SasUserLock__WRITE);
diff --git a/src/sasindexpriv.h b/src/sasindexpriv.h
index 6fbc759..5e21253 100644
--- a/src/sasindexpriv.h
+++ b/src/sasindexpriv.h
@@ -95,7 +95,7 @@ SASIndexGetSpillNear (void *nearObj)
       else
 	btreeHeader = (SASIndexHeader *) nearHeader;
 
-      if (SOMSASCheckBlockSigAndType ((SASBlockHeader *) btreeHeader,
+      if (SOMSASCheckBlockSigAndTypeAndSubtype ((SASBlockHeader *) btreeHeader,
 				      SAS_RUNTIME_INDEX))
 	{
 	  list = btreeHeader->spillList;
diff --git a/src/sasstringbtree.cpp b/src/sasstringbtree.cpp
index 96e8bc8..bc0a351 100644
--- a/src/sasstringbtree.cpp
+++ b/src/sasstringbtree.cpp
@@ -269,13 +269,21 @@ SASStringBTree_t
 SASStringBTreeExpandCreate (SASStringBTree_t heap)
 {
   SASStringBTreeHeader *headerBlock = (SASStringBTreeHeader *) heap;
-  block_size_t heap_size = headerBlock->blockHeader.blockSize;
-  block_size_t page_size = headerBlock->pageSize;
-  SASCompoundExpandList *list = headerBlock->expandList;
-  SASStringBTreeCommon *commonPtr = headerBlock->common;
+  block_size_t heap_size, page_size;
+  SASCompoundExpandList *list;
+  SASStringBTreeCommon *commonPtr;
   SASBlockHeader *heapBlock = NULL;
   SASStringBTree_t newHeap = NULL;
 
+  if (!SOMSASCheckBlockSigAndTypeAndSubtype ((SASBlockHeader *) headerBlock,
+					     SAS_RUNTIME_STRINGBTREE)
+      || !SASStringBTreeIsExpanding (headerBlock))
+    return NULL;
+
+  heap_size = headerBlock->blockHeader.blockSize;
+  page_size = headerBlock->pageSize;
+  list = headerBlock->expandList;
+  commonPtr = headerBlock->common;
   heapBlock = (SASBlockHeader *) SASBlockAlloc ((long) heap_size);
   if (heapBlock)
     {
@@ -356,7 +364,7 @@ SASStringBTreeAllocNoLock (SASStringBTree_t heap)
   SASStringBTreeHeader *headerBlock = (SASStringBTreeHeader *) heap;
   SASStringBTreeNode_t newHeap = NULL;
 
-  if (SOMSASCheckBlockSigAndType ((SASBlockHeader *) headerBlock,
+  if (SOMSASCheckBlockSigAndTypeAndSubtype ((SASBlockHeader *) headerBlock,
 				  SAS_RUNTIME_STRINGBTREE))
     {
       if (SASStringBTreeIsExpanding (headerBlock))
@@ -408,7 +416,7 @@ SASStringBTreeAlloc (SASStringBTree_t heap)
   SASBlockHeader *headerBlock = (SASBlockHeader *) heap;
   SASStringBTreeNode_t newHeap = NULL;
 
-  if (SOMSASCheckBlockSigAndType (headerBlock, SAS_RUNTIME_STRINGBTREE))
+  if (SOMSASCheckBlockSigAndTypeAndSubtype (headerBlock, SAS_RUNTIME_STRINGBTREE))
     {
       SASStringBTreeHeader *heapHeader = (SASStringBTreeHeader *) heap;
       SASLock (heap, SasUserLock__WRITE);
@@ -485,7 +493,7 @@ SASStringBTreeFreeNoLock (SASStringBTree_t heap,
   if (SOMSASCheckBlockSigAndType ((SASBlockHeader *) free_block,
 				  SAS_RUNTIME_STRINGBTREENODE))
     {
-      if (SOMSASCheckBlockSigAndType ((SASBlockHeader *) headerBlock,
+      if (SOMSASCheckBlockSigAndTypeAndSubtype ((SASBlockHeader *) headerBlock,
 				      SAS_RUNTIME_STRINGBTREE))
 	{
 	  if (SASStringBTreeIsExpanding (headerBlock))
@@ -544,7 +552,7 @@ SASStringBTreeFree (SASStringBTree_t heap, SASStringBTreeNode_t free_block)
 				  SAS_RUNTIME_STRINGBTREENODE))
     {
       SASLock (heap, SasUserLock__WRITE);
-      if (SOMSASCheckBlockSigAndType ((SASBlockHeader *) headerBlock,
+      if (SOMSASCheckBlockSigAndTypeAndSubtype ((SASBlockHeader *) headerBlock,
 				      SAS_RUNTIME_STRINGBTREE))
 	{
 	  if (SASStringBTreeIsExpanding (headerBlock))
@@ -618,7 +626,7 @@ SASStringBTreeNearAllocNoLock (void *nearObj)
 	  else
 	    compoundHeader = (SASStringBTreeHeader *) nearHeader;
 
-	  if (SOMSASCheckBlockSigAndType ((SASBlockHeader *) compoundHeader,
+	  if (SOMSASCheckBlockSigAndTypeAndSubtype ((SASBlockHeader *) compoundHeader,
 					  SAS_RUNTIME_STRINGBTREE))
 	    {
 	      if (SASStringBTreeIsExpanding (compoundHeader))
@@ -676,7 +684,7 @@ SASStringBTreeNearAlloc (void *nearObj)
 
 	  SASLock (compoundHeader, SasUserLock__WRITE);
 
-	  if (SOMSASCheckBlockSigAndType ((SASBlockHeader *) compoundHeader,
+	  if (SOMSASCheckBlockSigAndTypeAndSubtype ((SASBlockHeader *) compoundHeader,
 					  SAS_RUNTIME_STRINGBTREE))
 	    {
 	      if (SASStringBTreeIsExpanding (compoundHeader))
@@ -769,7 +777,7 @@ SASStringBTreeSpillAllocExtended (SASStringBTree_t heap, lock_on_t lock_on)
   SASBlockHeader *headerBlock = (SASBlockHeader *) heap;
   SASStringBTreeNode_t newHeap = NULL;
 
-  if (SOMSASCheckBlockSigAndType (headerBlock, SAS_RUNTIME_STRINGBTREE))
+  if (SOMSASCheckBlockSigAndTypeAndSubtype (headerBlock, SAS_RUNTIME_STRINGBTREE))
     {
       SASStringBTreeHeader *heapHeader = (SASStringBTreeHeader *) heap;
       if (lock_on) SASLock (heap, SasUserLock__WRITE);
@@ -859,7 +867,7 @@ SASStringBTreeSpillAlloc (void *nearObj, lock_on_t lock_on)
 
 	  if (lock_on) SASLock (compoundHeader, SasUserLock__WRITE);
 
-	  if (SOMSASCheckBlockSigAndType ((SASBlockHeader *) compoundHeader,
+	  if (SOMSASCheckBlockSigAndTypeAndSubtype ((SASBlockHeader *) compoundHeader,
 					  SAS_RUNTIME_STRINGBTREE))
 	    {
 	      if (SASStringBTreeIsExpanding (compoundHeader))
@@ -938,7 +946,7 @@ SASStringBTreeNearDeallocNoLock (void *nearObj)
       else
 	btreeHeader = (SASStringBTree_t) nearHeader;
 
-      if (SOMSASCheckBlockSigAndType ((SASBlockHeader *) btreeHeader,
+      if (SOMSASCheckBlockSigAndTypeAndSubtype ((SASBlockHeader *) btreeHeader,
 				      SAS_RUNTIME_STRINGBTREE))
 	{
 	  SASStringBTreeFreeInternal ((SASStringBTreeHeader *) btreeHeader,
@@ -969,7 +977,7 @@ SASStringBTreeNearDealloc (void *nearObj)
       else
 	btreeHeader = (SASStringBTree_t) nearHeader;
 
-      if (SOMSASCheckBlockSigAndType ((SASBlockHeader *) btreeHeader,
+      if (SOMSASCheckBlockSigAndTypeAndSubtype ((SASBlockHeader *) btreeHeader,
 				      SAS_RUNTIME_STRINGBTREE))
 	{
 	  SASLock (btreeHeader, SasUserLock__WRITE);
@@ -1001,7 +1009,7 @@ SASStringBTreeAllocSize (SASStringBTree_t heap)
   SASStringBTreeHeader *headerBlock = (SASStringBTreeHeader *) heap;
   block_size_t nodeSize = 0;
 
-  if (SOMSASCheckBlockSigAndType ((SASBlockHeader *) headerBlock,
+  if (SOMSASCheckBlockSigAndTypeAndSubtype ((SASBlockHeader *) headerBlock,
 				  SAS_RUNTIME_STRINGBTREE))
     {
       nodeSize = headerBlock->pageSize;
@@ -1015,7 +1023,7 @@ SASStringBTreeFreeSpaceNoLock (SASStringBTree_t heap)
   SASBlockHeader *headerBlock = (SASBlockHeader *) heap;
   block_size_t heapFree = 0;
 
-  if (SOMSASCheckBlockSigAndType (headerBlock, SAS_RUNTIME_STRINGBTREE))
+  if (SOMSASCheckBlockSigAndTypeAndSubtype (headerBlock, SAS_RUNTIME_STRINGBTREE))
     {
       SASStringBTreeHeader *heapBlock = (SASStringBTreeHeader *) heap;
       SASCompoundExpandList *list = heapBlock->expandList;
@@ -1045,7 +1053,7 @@ SASStringBTreeFreeSpace (SASStringBTree_t heap)
   SASBlockHeader *headerBlock = (SASBlockHeader *) heap;
   block_size_t heapFree = 0;
 
-  if (SOMSASCheckBlockSigAndType (headerBlock, SAS_RUNTIME_STRINGBTREE))
+  if (SOMSASCheckBlockSigAndTypeAndSubtype (headerBlock, SAS_RUNTIME_STRINGBTREE))
     {
       SASLock (heap, SasUserLock__WRITE);
       SASCompoundExpandList *list =
@@ -1086,7 +1094,7 @@ SASStringBTreeDestroyNoLock (SASStringBTree_t heap)
   SASStringBTreeHeader *headerBlock = (SASStringBTreeHeader *) heap;
   block_size_t heapSize;
 
-  if (SOMSASCheckBlockSigAndType ((SASBlockHeader *) headerBlock,
+  if (SOMSASCheckBlockSigAndTypeAndSubtype ((SASBlockHeader *) headerBlock,
 				  SAS_RUNTIME_STRINGBTREE))
     {
       SASCompoundExpandList *list = headerBlock->expandList;
@@ -1118,7 +1126,7 @@ SASStringBTreeDestroy (SASStringBTree_t heap)
   SASStringBTreeHeader *headerBlock = (SASStringBTreeHeader *) heap;
   block_size_t heapSize;
 
-  if (SOMSASCheckBlockSigAndType ((SASBlockHeader *) headerBlock,
+  if (SOMSASCheckBlockSigAndTypeAndSubtype ((SASBlockHeader *) headerBlock,
 				  SAS_RUNTIME_STRINGBTREE))
     {
       SASLock (heap, SasUserLock__WRITE);
@@ -1161,7 +1169,7 @@ SASStringBTreeGetRootNode (SASStringBTree_t heap)
   SASStringBTreeHeader *btree = (SASStringBTreeHeader *) heap;
   SASStringBTreeNode_t result = NULL;
 
-  if (SOMSASCheckBlockSigAndType
+  if (SOMSASCheckBlockSigAndTypeAndSubtype
       ((SASBlockHeader *) heap, SAS_RUNTIME_STRINGBTREE))
     {
       SASLock (heap, SasUserLock__READ);
@@ -1177,7 +1185,7 @@ SASStringBTreeGetRootNodeNoLock (SASStringBTree_t heap)
   SASStringBTreeHeader *btree = (SASStringBTreeHeader *) heap;
   SASStringBTreeNode_t result = NULL;
 
-  if (SOMSASCheckBlockSigAndType
+  if (SOMSASCheckBlockSigAndTypeAndSubtype
       ((SASBlockHeader *) heap, SAS_RUNTIME_STRINGBTREE))
     {
       result = btree->root;
@@ -1191,7 +1199,7 @@ SASStringBTreeGetModCount (SASStringBTree_t heap)
   SASStringBTreeHeader *btree = (SASStringBTreeHeader *) heap;
   long result = 0L;
 
-  if (SOMSASCheckBlockSigAndType ((SASBlockHeader *) heap,
+  if (SOMSASCheckBlockSigAndTypeAndSubtype ((SASBlockHeader *) heap,
 				  SAS_RUNTIME_STRINGBTREE))
     {
       SASLock (heap, SasUserLock__READ);
@@ -1207,7 +1215,7 @@ SASStringBTreeGetModCount_nolock (SASStringBTree_t heap)
   SASStringBTreeHeader *btree = (SASStringBTreeHeader *) heap;
   long result = 0L;
 
-  if (SOMSASCheckBlockSigAndType ((SASBlockHeader *) heap,
+  if (SOMSASCheckBlockSigAndTypeAndSubtype ((SASBlockHeader *) heap,
                                   SAS_RUNTIME_STRINGBTREE))
     {
       result = btree->common->modCount;
@@ -1221,7 +1229,7 @@ SASStringBTreeGetMaxKey (SASStringBTree_t heap)
   SASStringBTreeHeader *btree = (SASStringBTreeHeader *) heap;
   char *result = NULL;
 
-  if (SOMSASCheckBlockSigAndType ((SASBlockHeader *) heap,
+  if (SOMSASCheckBlockSigAndTypeAndSubtype ((SASBlockHeader *) heap,
 				  SAS_RUNTIME_STRINGBTREE))
     {
       SASLock (heap, SasUserLock__READ);
@@ -1237,7 +1245,7 @@ SASStringBTreeGetMaxKey_nolock (SASStringBTree_t heap)
   SASStringBTreeHeader *btree = (SASStringBTreeHeader *) heap;
   char *result = NULL;
 
-  if (SOMSASCheckBlockSigAndType ((SASBlockHeader *) heap,
+  if (SOMSASCheckBlockSigAndTypeAndSubtype ((SASBlockHeader *) heap,
                                   SAS_RUNTIME_STRINGBTREE))
     {
       result = btree->common->max_key;
@@ -1251,7 +1259,7 @@ SASStringBTreeGetMinKey (SASStringBTree_t heap)
   SASStringBTreeHeader *btree = (SASStringBTreeHeader *) heap;
   char *result = NULL;
 
-  if (SOMSASCheckBlockSigAndType ((SASBlockHeader *) heap,
+  if (SOMSASCheckBlockSigAndTypeAndSubtype ((SASBlockHeader *) heap,
 				  SAS_RUNTIME_STRINGBTREE))
     {
       SASLock (heap, SasUserLock__READ);
@@ -1267,7 +1275,7 @@ SASStringBTreeGetMinKey_nolock (SASStringBTree_t heap)
   SASStringBTreeHeader *btree = (SASStringBTreeHeader *) heap;
   char *result = NULL;
 
-  if (SOMSASCheckBlockSigAndType ((SASBlockHeader *) heap,
+  if (SOMSASCheckBlockSigAndTypeAndSubtype ((SASBlockHeader *) heap,
                                   SAS_RUNTIME_STRINGBTREE))
     {
       result = btree->common->min_key;
@@ -1282,7 +1290,7 @@ SASStringBTreeContainsKey (SASStringBTree_t heap, const char *key)
   SBTnodePosRef ref = { NULL, 0 };
   int found = false;
 
-  if (SOMSASCheckBlockSigAndType ((SASBlockHeader *) heap,
+  if (SOMSASCheckBlockSigAndTypeAndSubtype ((SASBlockHeader *) heap,
 				  SAS_RUNTIME_STRINGBTREE))
     {
       SASLock (heap, SasUserLock__READ);
@@ -1302,7 +1310,7 @@ SASStringBTreeContainsKey_nolock (SASStringBTree_t heap, const char *key)
   SBTnodePosRef ref = { NULL, 0 };
   int found = false;
 
-  if (SOMSASCheckBlockSigAndType ((SASBlockHeader *) heap,
+  if (SOMSASCheckBlockSigAndTypeAndSubtype ((SASBlockHeader *) heap,
                                   SAS_RUNTIME_STRINGBTREE))
     {
       if (btree->root != NULL)
@@ -1321,7 +1329,7 @@ SASStringBTreeGet (SASStringBTree_t heap, const char *key)
   SBTnodePosRef ref = { NULL, 0 };
   int found;
 
-  if (SOMSASCheckBlockSigAndType ((SASBlockHeader *) heap,
+  if (SOMSASCheckBlockSigAndTypeAndSubtype ((SASBlockHeader *) heap,
 				  SAS_RUNTIME_STRINGBTREE))
     {
       SASLock (heap, SasUserLock__READ);
@@ -1346,7 +1354,7 @@ SASStringBTreeGet_nolock (SASStringBTree_t heap, const char *key)
   SBTnodePosRef ref = { NULL, 0 };
   int found;
 
-  if (SOMSASCheckBlockSigAndType ((SASBlockHeader *) heap,
+  if (SOMSASCheckBlockSigAndTypeAndSubtype ((SASBlockHeader *) heap,
                                   SAS_RUNTIME_STRINGBTREE))
     {
       if (btree->root != NULL)
@@ -1367,7 +1375,7 @@ SASStringBTreeIsEmpty (SASStringBTree_t heap)
   SASStringBTreeHeader *btree = (SASStringBTreeHeader *) heap;
   int result = false;
 
-  if (SOMSASCheckBlockSigAndType ((SASBlockHeader *) heap,
+  if (SOMSASCheckBlockSigAndTypeAndSubtype ((SASBlockHeader *) heap,
 				  SAS_RUNTIME_STRINGBTREE))
     {
       SASLock (heap, SasUserLock__READ);
@@ -1383,7 +1391,7 @@ SASStringBTreeIsEmpty_nolock (SASStringBTree_t heap)
   SASStringBTreeHeader *btree = (SASStringBTreeHeader *) heap;
   int result = false;
 
-  if (SOMSASCheckBlockSigAndType ((SASBlockHeader *) heap,
+  if (SOMSASCheckBlockSigAndTypeAndSubtype ((SASBlockHeader *) heap,
                                   SAS_RUNTIME_STRINGBTREE))
     {
       result = (btree->common->count == 0);
@@ -1397,7 +1405,7 @@ SASStringBTreeGetCurCount (SASStringBTree_t heap)
   SASStringBTreeHeader *btree = (SASStringBTreeHeader *) heap;
   long result = 0;
 
-  if (SOMSASCheckBlockSigAndType ((SASBlockHeader *) heap,
+  if (SOMSASCheckBlockSigAndTypeAndSubtype ((SASBlockHeader *) heap,
 				  SAS_RUNTIME_STRINGBTREE))
     {
       SASLock (heap, SasUserLock__READ);
@@ -1490,7 +1498,7 @@ SASStringBTreePut (SASStringBTree_t heap, const char *key, void *value)
   SASStringBTreeHeader *btree = (SASStringBTreeHeader *) heap;
   int result = false;
 
-  if (SOMSASCheckBlockSigAndType ((SASBlockHeader *) heap,
+  if (SOMSASCheckBlockSigAndTypeAndSubtype ((SASBlockHeader *) heap,
 				  SAS_RUNTIME_STRINGBTREE))
     {
       SASLock (heap, SasUserLock__WRITE);
@@ -1532,7 +1540,7 @@ SASStringBTreePut_nolock (SASStringBTree_t heap, const char *key, void *value)
   SASStringBTreeHeader *btree = (SASStringBTreeHeader *) heap;
   int result = false;
 
-  if (SOMSASCheckBlockSigAndType ((SASBlockHeader *) heap,
+  if (SOMSASCheckBlockSigAndTypeAndSubtype ((SASBlockHeader *) heap,
                                   SAS_RUNTIME_STRINGBTREE))
     {
       if (btree->root != NULL)
@@ -1572,7 +1580,7 @@ SASStringBTreeReplace (SASStringBTree_t heap, const char *key, void *value)
   SBTnodePosRef ref = { NULL, 0 };
   void *result = NULL;
 
-  if (SOMSASCheckBlockSigAndType ((SASBlockHeader *) heap,
+  if (SOMSASCheckBlockSigAndTypeAndSubtype ((SASBlockHeader *) heap,
 				  SAS_RUNTIME_STRINGBTREE))
     {
       SASLock (heap, SasUserLock__WRITE);
@@ -1601,7 +1609,7 @@ SASStringBTreeReplace_nolock (SASStringBTree_t heap, const char *key, void *valu
   SBTnodePosRef ref = { NULL, 0 };
   void *result = NULL;
 
-  if (SOMSASCheckBlockSigAndType ((SASBlockHeader *) heap,
+  if (SOMSASCheckBlockSigAndTypeAndSubtype ((SASBlockHeader *) heap,
                                   SAS_RUNTIME_STRINGBTREE))
     {
       btree->common->modCount++;
@@ -1630,7 +1638,7 @@ SASStringBTreeRemove (SASStringBTree_t heap, const char *key)
   void *result = NULL;
   SASStringBTreeNodeHeader *node;
 
-  if (SOMSASCheckBlockSigAndType ((SASBlockHeader *) heap,
+  if (SOMSASCheckBlockSigAndTypeAndSubtype ((SASBlockHeader *) heap,
 				  SAS_RUNTIME_STRINGBTREE))
     {
       SASLock (heap, SasUserLock__WRITE);
@@ -1699,7 +1707,7 @@ SASStringBTreeRemove_nolock (SASStringBTree_t heap, const char *key)
   void *result = NULL;
   SASStringBTreeNodeHeader *node;
 
-  if (SOMSASCheckBlockSigAndType ((SASBlockHeader *) heap,
+  if (SOMSASCheckBlockSigAndTypeAndSubtype ((SASBlockHeader *) heap,
                                   SAS_RUNTIME_STRINGBTREE))
     {
       btree->common->modCount++;
@@ -1764,7 +1772,7 @@ SASStringBTreePrint (SASStringBTree_t heap)
 {
   SASStringBTreeHeader *btree = (SASStringBTreeHeader *) heap;
 
-  if (SOMSASCheckBlockSigAndType ((SASBlockHeader *) heap,
+  if (SOMSASCheckBlockSigAndTypeAndSubtype ((SASBlockHeader *) heap,
 				  SAS_RUNTIME_STRINGBTREE))
     {
       SASLock (heap, SasUserLock__READ);
@@ -1783,7 +1791,7 @@ SASStringBTreePrintValues (SASStringBTree_t heap)
 {
   SASStringBTreeHeader *btree = (SASStringBTreeHeader *) heap;
 
-  if (SOMSASCheckBlockSigAndType ((SASBlockHeader *) heap,
+  if (SOMSASCheckBlockSigAndTypeAndSubtype ((SASBlockHeader *) heap,
 				  SAS_RUNTIME_STRINGBTREE))
     {
       SASLock (heap, SasUserLock__READ);
@@ -2092,7 +2100,7 @@ SASStringBTreePrintStats (SASStringBTree_t heap)
   long spill_far_count = 0;
   long spill_free_total = 0;
 
-  if (SOMSASCheckBlockSigAndType ((SASBlockHeader *) headerBlock,
+  if (SOMSASCheckBlockSigAndTypeAndSubtype ((SASBlockHeader *) headerBlock,
 				  SAS_RUNTIME_STRINGBTREE))
     {
       SASLock (heap, SasUserLock__WRITE);
diff --git a/src/sasstringbtreepriv.h b/src/sasstringbtreepriv.h
index f1ef42d..b5c427b 100644
--- a/src/sasstringbtreepriv.h
+++ b/src/sasstringbtreepriv.h
@@ -88,7 +88,7 @@ SASStringBTreeGetSpillNear(void *nearObj)
 		else
 			btreeHeader = (SASStringBTreeHeader*)nearHeader;
 				   
-	    if (SOMSASCheckBlockSigAndType ((SASBlockHeader*)btreeHeader, 
+	    if (SOMSASCheckBlockSigAndTypeAndSubtype ((SASBlockHeader*)btreeHeader, 
 		                                SAS_RUNTIME_STRINGBTREE) )
 	    {
 			list = btreeHeader->spillList;
-- 
2.43.0


From 4663ebabea6d7c1a1a51e239cc5790ba84358aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:41 +0000
Subject: [PATCH 33/79] fix: SASCompoundHeapExpandCreate refuses anything but
 expanding compound heaps

---
 src/sascompoundheap.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/sascompoundheap.cpp b/src/sascompoundheap.cpp
index 429aac4..c074b14 100644
--- a/src/sascompoundheap.cpp
+++ b/src/sascompoundheap.cpp
@@ -221,12 +221,19 @@ SASCompoundHeap_t
 SASCompoundHeapExpandCreate (SASCompoundHeap_t heap)
 {
   SASCompoundHeapHeader *headerBlock = (SASCompoundHeapHeader *) heap;
-  block_size_t heap_size = headerBlock->blockHeader.blockSize;
-  block_size_t page_size = headerBlock->pageSize;
-  SASCompoundExpandList *list = headerBlock->expandList;
+  block_size_t heap_size, page_size;
+  SASCompoundExpandList *list;
   SASBlockHeader *heapBlock = NULL;
   SASCompoundHeap_t newHeap = NULL;
 
+  if (!SOMSASCheckBlockSigAndType ((SASBlockHeader *) headerBlock,
+				   SAS_RUNTIME_COMPOUNDHEAP)
+      || !SASCompoundHeapIsExpanding (headerBlock))
+    return NULL;
+
+  heap_size = headerBlock->blockHeader.blockSize;
+  page_size = headerBlock->pageSize;
+  list = headerBlock->expandList;
   heapBlock = (SASBlockHeader *) SASBlockAlloc ((long) heap_size);
   if (heapBlock)
     {
-- 
2.43.0


From c67ca02731bcafa6277e65bccd40c47e7e11ce46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:38 +0000
Subject: [PATCH 34/79] fix: logger entry allocation fails for anything but a
 logger

The allocate functions are documented to return NULL on failure, but
returned the caller's handle structure, not filled in, when the type
check failed.
---
 src/sphlflogger.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/sphlflogger.cpp b/src/sphlflogger.cpp
index 06536e1..5e76e1a 100644
--- a/src/sphlflogger.cpp
+++ b/src/sphlflogger.cpp
@@ -336,10 +336,11 @@ SPHLFLoggerAllocTimeStamped (SPHLFLogger_t log,
 	  else
 	    SPHLFLoggerEndEntries (headerBlock, log_entry);
 	}
-#ifdef __SASDebugPrint__
     }
   else
     {
+      handlespace = NULL;
+#ifdef __SASDebugPrint__
       sas_printf ("SPHLFLoggerAllocTimeStamped(%p, %ld) type check failed\n",
 		  log, alloc_size);
 #endif
@@ -472,10 +473,11 @@ SPHLFLoggerAllocStrideTimeStamped (SPHLFLogger_t log,
 	  else
 	    SPHLFLoggerEndEntries (headerBlock, log_entry);
 	}
-#ifdef __SASDebugPrint__
     }
   else
     {
+      handlespace = NULL;
+#ifdef __SASDebugPrint__
       sas_printf
 	("SPHLFLoggerAllocStrideTimeStamped(%p, %ld) type check failed\n",
 	 log, alloc_round);
@@ -555,10 +557,11 @@ SPHLFLoggerAllocTimeStampedNoLock (SPHLFLogger_t log,
 	  else
 	    SPHLFLoggerEndEntries (headerBlock, log_entry);
 	}
-#ifdef __SASDebugPrint__
     }
   else
     {
+      handlespace = NULL;
+#ifdef __SASDebugPrint__
       sas_printf
 	("SPHLFLoggerAllocTimeStampedNoLock(%p, %ld) type check failed\n",
 	 log, alloc_size);
@@ -640,10 +643,11 @@ SPHLFLoggerAllocStrideTimeStampedNoLock (SPHLFLogger_t log,
 	  else
 	    SPHLFLoggerEndEntries (headerBlock, log_entry);
 	}
-#ifdef __SASDebugPrint__
     }
   else
     {
+      handlespace = NULL;
+#ifdef __SASDebugPrint__
       sas_printf
 	("SPHLFLoggerAllocStrideTimeStampedNoLock(%p, %ld) type check failed\n",
 	 log, alloc_round);
-- 
2.43.0


From 09ba5b625d8f47d3496dbcaf3c97e73aa1c14096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:38 +0000
Subject: [PATCH 35/79] fix: queue entry allocation and get fail for anything
 but a queue

They are documented to return NULL on failure, but returned the caller's
handle structure, not filled in, when the type check failed.
---
 src/sphsinglepcqueue.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/sphsinglepcqueue.cpp b/src/sphsinglepcqueue.cpp
index 7783d4a..f625e60 100644
--- a/src/sphsinglepcqueue.cpp
+++ b/src/sphsinglepcqueue.cpp
@@ -971,10 +971,11 @@ SPHSinglePCQueueAllocStrideEntry (SPHSinglePCQueue_t queue,
 	     queue, alloc_round, headerBlock->options);
 #endif
 	}
-#ifdef __SASDebugPrint__
     }
   else
     {
+      handlespace = NULL;
+#ifdef __SASDebugPrint__
       sas_printf
 	("SPHSinglePCQueueAllocStrideEntry(%p, %ld) type check failed\n",
 	 queue, alloc_round);
@@ -1048,10 +1049,11 @@ SPHSinglePCQueueAllocStrideTimeStamped (SPHSinglePCQueue_t queue,
 	     queue, alloc_round, headerBlock->options);
 #endif
 	}
-#ifdef __SASDebugPrint__
     }
   else
     {
+      handlespace = NULL;
+#ifdef __SASDebugPrint__
       sas_printf
 	("SPHSinglePCQueueAllocStrideTimeStamped(%p, %ld) type check failed\n",
 	 queue, alloc_round);
@@ -1133,10 +1135,11 @@ SPHSinglePCQueueGetNextComplete (SPHSinglePCQueue_t queue,
 	{
 	  handlespace = NULL;
 	}
-#ifdef __SASDebugPrint__
     }
   else
     {
+      handlespace = NULL;
+#ifdef __SASDebugPrint__
       sas_printf
 	("SPHSinglePCQueueAllocStrideTimeStamped(%p, %ld) type check failed\n",
 	 queue, alloc_round);
-- 
2.43.0


From 89e59e27fe83acc97625d3284395a82cf77d152d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:38 +0000
Subject: [PATCH 36/79] fix: single and multi producer queues refuse each
 other's handles

Both kinds share the queue type and differ in the subtype, and their
headers differ, so the subtype has to be checked too.
---
 src/sascompoundheap.cpp  |  4 ++--
 src/sphmultipcqueue.cpp  | 28 +++++++++++++--------------
 src/sphsinglepcqueue.cpp | 42 ++++++++++++++++++++--------------------
 3 files changed, 37 insertions(+), 37 deletions(-)

diff --git a/src/sascompoundheap.cpp b/src/sascompoundheap.cpp
index c074b14..13353e4 100644
--- a/src/sascompoundheap.cpp
+++ b/src/sascompoundheap.cpp
@@ -1434,7 +1434,7 @@ SPHCompoundPCQFreeNoLock (SASCompoundHeap_t heap, SPHSinglePCQueue_t free_block)
 {
   SASCompoundHeapHeader *headerBlock = (SASCompoundHeapHeader *) heap;
 
-  if (SOMSASCheckBlockSigAndType ((SASBlockHeader *) free_block,
+  if (SOMSASCheckBlockSigAndTypeAndSubtype ((SASBlockHeader *) free_block,
 		  SAS_RUNTIME_PCQUEUE))
     {
       if (SOMSASCheckBlockSigAndType ((SASBlockHeader *) headerBlock,
@@ -1492,7 +1492,7 @@ SPHCompoundPCQFree (SASCompoundHeap_t heap, SPHSinglePCQueue_t free_block)
 {
   SASCompoundHeapHeader *headerBlock = (SASCompoundHeapHeader *) heap;
 
-  if (SOMSASCheckBlockSigAndType ((SASBlockHeader *) free_block,
+  if (SOMSASCheckBlockSigAndTypeAndSubtype ((SASBlockHeader *) free_block,
 		  SAS_RUNTIME_PCQUEUE))
     {
       SASLock (heap, SasUserLock__WRITE);
diff --git a/src/sphmultipcqueue.cpp b/src/sphmultipcqueue.cpp
index 1ae430b..d02412b 100644
--- a/src/sphmultipcqueue.cpp
+++ b/src/sphmultipcqueue.cpp
@@ -201,7 +201,7 @@ SPHMPMCQGetStride (SPHMPMCQ_t queue)
 	SPHMPMCQHeader *headerBlock = (SPHMPMCQHeader *) queue;
 	int rc = 0;
 
-	if (SOMSASCheckBlockSigAndType ((SASBlockHeader *) headerBlock,
+	if (SOMSASCheckBlockSigAndTypeAndSubtype ((SASBlockHeader *) headerBlock,
 	                                  SAS_RUNTIME_PCQUEUE_TM))
 		rc = headerBlock->default_entry_stride;
 	else {
@@ -216,7 +216,7 @@ SPHMPMCQGetEntries (SPHMPMCQ_t queue)
 {
 	SPHMPMCQHeader *headerBlock = (SPHMPMCQHeader *) queue;
 	debug_printf("%-6d: %s NEW\n",sphdeGetTID(),__FUNCTION__);
-	if (!SOMSASCheckBlockSigAndType ((SASBlockHeader *) headerBlock,
+	if (!SOMSASCheckBlockSigAndTypeAndSubtype ((SASBlockHeader *) headerBlock,
 					  SAS_RUNTIME_PCQUEUE_TM))
 		return -1;
 	if (headerBlock->default_entry_stride == NODEFAULT_ENTRY_STRIDE)
@@ -231,7 +231,7 @@ SPHMPMCQResetAsync (SPHMPMCQ_t queue)
 	SPHMPMCQHeader *headerBlock = (SPHMPMCQHeader *) queue;
 	int rc = 0;
 
-	if (SOMSASCheckBlockSigAndType ((SASBlockHeader *) headerBlock,SAS_RUNTIME_PCQUEUE_TM)) {
+	if (SOMSASCheckBlockSigAndTypeAndSubtype ((SASBlockHeader *) headerBlock,SAS_RUNTIME_PCQUEUE_TM)) {
 		sas_read_barrier ();
 		SPHMPMCQClearEntries (headerBlock);
 		headerBlock->qhead = headerBlock->startq;
@@ -251,7 +251,7 @@ SPHMPMCQIsEmpty (SPHMPMCQ_t queue)
 
 	debug_printf("%-6d: %s(%p)\n",sphdeGetTID(),__FUNCTION__,queue);
 
-	if (SOMSASCheckBlockSigAndType ((SASBlockHeader *) headerBlock,
+	if (SOMSASCheckBlockSigAndTypeAndSubtype ((SASBlockHeader *) headerBlock,
 					  SAS_RUNTIME_PCQUEUE_TM))
 	{
 		sas_read_barrier ();
@@ -273,7 +273,7 @@ SPHMPMCQIsFull (SPHMPMCQ_t queue)
 	SPHMPMCQHeader *headerBlock = (SPHMPMCQHeader *) queue;
 	int rc = 0;
 
-	if (SOMSASCheckBlockSigAndType ((SASBlockHeader *) headerBlock,SAS_RUNTIME_PCQUEUE_TM)) {
+	if (SOMSASCheckBlockSigAndTypeAndSubtype ((SASBlockHeader *) headerBlock,SAS_RUNTIME_PCQUEUE_TM)) {
 		sas_read_barrier ();
 		longPtr_t temp = headerBlock->qhead;
 		SPHLFEntryHeader_t *entryPtr = (SPHLFEntryHeader_t *)temp;
@@ -293,7 +293,7 @@ SPHMPMCQFreeSpace (SPHMPMCQ_t queue)
 	SPHMPMCQHeader *headerBlock = (SPHMPMCQHeader *) queue;
 	block_size_t rc = 0;
 
-	if (SOMSASCheckBlockSigAndType ((SASBlockHeader *) headerBlock, SAS_RUNTIME_PCQUEUE_TM)) {
+	if (SOMSASCheckBlockSigAndTypeAndSubtype ((SASBlockHeader *) headerBlock, SAS_RUNTIME_PCQUEUE_TM)) {
 		sas_read_barrier ();
 		unsigned short stride = headerBlock->default_entry_stride;
 		longPtr_t qlo = headerBlock->startq;
@@ -322,7 +322,7 @@ SPHMPMCQGetEntryTemplate (SPHMPMCQ_t queue)
 	sphLFEntry_t entrytemp;
 
 	entrytemp.idUnit = 0;
-	if (SOMSASCheckBlockSigAndType ((SASBlockHeader *) headerBlock, SAS_RUNTIME_PCQUEUE_TM)) {
+	if (SOMSASCheckBlockSigAndTypeAndSubtype ((SASBlockHeader *) headerBlock, SAS_RUNTIME_PCQUEUE_TM)) {
 		/* for Strided alloc increment is pre rounded */
 		alloc_round = headerBlock->default_entry_stride;
 		/* initialize common entry details.  */
@@ -360,7 +360,7 @@ SPHMPMCQAllocStrideDirectSync(SPHMPMCQ_t queue) {
 	SPHLFEntryHeader_t *entryPtr = 0;
 
 	debug_printf("%-6d: %s NEW\n",sphdeGetTID(),__FUNCTION__);
-	if (SOMSASCheckBlockSigAndType ((SASBlockHeader *) headerBlock,SAS_RUNTIME_PCQUEUE_TM)) {
+	if (SOMSASCheckBlockSigAndTypeAndSubtype ((SASBlockHeader *) headerBlock,SAS_RUNTIME_PCQUEUE_TM)) {
 		sphLFEntry_t entrytemp;
 		const sphLFEntry_t entryfree = {0};
 		const unsigned short stride = headerBlock->default_entry_stride;
@@ -398,7 +398,7 @@ SPHSPMCQAllocStrideDirect(SPHMPMCQ_t queue)
 	SPHLFEntryHeader_t *entryPtr = 0;
 	debug_printf("%-6d: %s(%p)\n",sphdeGetTID(),__FUNCTION__,queue);
 
-	if (SOMSASCheckBlockSigAndType ((SASBlockHeader *) headerBlock,SAS_RUNTIME_PCQUEUE_TM)) {
+	if (SOMSASCheckBlockSigAndTypeAndSubtype ((SASBlockHeader *) headerBlock,SAS_RUNTIME_PCQUEUE_TM)) {
 		sphLFEntry_t entrytemp;
 		const sphLFEntry_t entryfree = {0};
 		const unsigned short stride = headerBlock->default_entry_stride;
@@ -446,7 +446,7 @@ SPHMPMCQGetNextCompleteDirectSync (SPHMPMCQ_t queue)
 
 	debug_printf("%-6d: %s NEW\n",sphdeGetTID(),__FUNCTION__);
 
-	if (SOMSASCheckBlockSigAndType ((SASBlockHeader *) headerBlock,SAS_RUNTIME_PCQUEUE_TM)) {
+	if (SOMSASCheckBlockSigAndTypeAndSubtype ((SASBlockHeader *) headerBlock,SAS_RUNTIME_PCQUEUE_TM)) {
 		const unsigned short stride = headerBlock->default_entry_stride;
 		const longPtr_t qlo = headerBlock->startq;
 		const longPtr_t qhi = headerBlock->endq;
@@ -476,7 +476,7 @@ SPHMPSCQGetNextCompleteDirect(SPHMPMCQ_t queue)
 
 	debug_printf("%-6d: %s NEW\n",sphdeGetTID(),__FUNCTION__);
 
-	if (SOMSASCheckBlockSigAndType ((SASBlockHeader *) headerBlock,SAS_RUNTIME_PCQUEUE_TM)) {
+	if (SOMSASCheckBlockSigAndTypeAndSubtype ((SASBlockHeader *) headerBlock,SAS_RUNTIME_PCQUEUE_TM)) {
 		const unsigned short stride = headerBlock->default_entry_stride;
 		const longPtr_t qlo = headerBlock->startq;
 		const longPtr_t qhi = headerBlock->endq;
@@ -517,7 +517,7 @@ SPHMPMCQFreeEntryDirect (SPHMPMCQ_t queue,
 	SPHMPMCQHeader *headerBlock = (SPHMPMCQHeader *) queue;
 	int rc = 0;
 
-	if (SOMSASCheckBlockSigAndType ((SASBlockHeader *) headerBlock,
+	if (SOMSASCheckBlockSigAndTypeAndSubtype ((SASBlockHeader *) headerBlock,
 	                                  SAS_RUNTIME_PCQUEUE_TM))
 	{
 		SPHLFEntryHeader_t *entryPtr =
@@ -540,7 +540,7 @@ SPHMPMCQGetNextEntry (SPHMPMCQ_t queue)
 	SPHMPMCQHeader *headerBlock = (SPHMPMCQHeader *) queue;
 	SPHLFEntryHeader_t *entryPtr = 0;
 
-	if (SOMSASCheckBlockSigAndType ((SASBlockHeader *) headerBlock,SAS_RUNTIME_PCQUEUE_TM)) {
+	if (SOMSASCheckBlockSigAndTypeAndSubtype ((SASBlockHeader *) headerBlock,SAS_RUNTIME_PCQUEUE_TM)) {
 		sas_read_barrier ();
 		entryPtr = (SPHLFEntryHeader_t *)headerBlock->qtail;
 		if (!entryPtr->entryID.detail.allocated)
@@ -564,7 +564,7 @@ SPHMPMCQPrefetch (SPHMPMCQ_t queue)
 	SPHMPMCQHeader *headerBlock = (SPHMPMCQHeader *) queue;
 	int rc = 0;
 
-	if (SOMSASCheckBlockSigAndType ((SASBlockHeader *) headerBlock,
+	if (SOMSASCheckBlockSigAndTypeAndSubtype ((SASBlockHeader *) headerBlock,
 				  SAS_RUNTIME_PCQUEUE_TM)) {
 		block_size_t logsize = headerBlock->blockHeader.blockSize;
 		block_size_t pagesz = getpagesize ();
diff --git a/src/sphsinglepcqueue.cpp b/src/sphsinglepcqueue.cpp
index f625e60..234e9e9 100644
--- a/src/sphsinglepcqueue.cpp
+++ b/src/sphsinglepcqueue.cpp
@@ -221,7 +221,7 @@ SPHSinglePCQueueGetStride (SPHSinglePCQueue_t queue)
   SPHPCQueueHeader *headerBlock = (SPHPCQueueHeader *) queue;
   int rc = 0;
 
-  if (SOMSASCheckBlockSigAndType ((SASBlockHeader *) headerBlock,
+  if (SOMSASCheckBlockSigAndTypeAndSubtype ((SASBlockHeader *) headerBlock,
                                   SAS_RUNTIME_PCQUEUE))
     {
         rc = headerBlock->default_entry_stride;
@@ -243,7 +243,7 @@ SPHSinglePCQueueResetAsync (SPHSinglePCQueue_t queue)
   SPHPCQueueHeader *headerBlock = (SPHPCQueueHeader *) queue;
   int rc = 0;
 
-  if (SOMSASCheckBlockSigAndType ((SASBlockHeader *) headerBlock,
+  if (SOMSASCheckBlockSigAndTypeAndSubtype ((SASBlockHeader *) headerBlock,
 				  SAS_RUNTIME_PCQUEUE))
 	{
 	  sas_read_barrier ();
@@ -268,7 +268,7 @@ SPHSinglePCQueueEmpty (SPHSinglePCQueue_t queue)
   SPHPCQueueHeader *headerBlock = (SPHPCQueueHeader *) queue;
   int rc = 0;
 
-  if (SOMSASCheckBlockSigAndType ((SASBlockHeader *) headerBlock,
+  if (SOMSASCheckBlockSigAndTypeAndSubtype ((SASBlockHeader *) headerBlock,
 				  SAS_RUNTIME_PCQUEUE))
     {
       sas_read_barrier ();
@@ -305,7 +305,7 @@ SPHSinglePCQueueFull (SPHSinglePCQueue_t queue)
   longPtr_t head;
   int rc = 0;
 
-  if (SOMSASCheckBlockSigAndType ((SASBlockHeader *) headerBlock,
+  if (SOMSASCheckBlockSigAndTypeAndSubtype ((SASBlockHeader *) headerBlock,
 				  SAS_RUNTIME_PCQUEUE))
     {
       sas_read_barrier ();
@@ -339,7 +339,7 @@ SPHSinglePCQueueFreeSpace (SPHSinglePCQueue_t queue)
   longPtr_t head, temp;
   block_size_t rc = 0;
 
-  if (SOMSASCheckBlockSigAndType ((SASBlockHeader *) headerBlock,
+  if (SOMSASCheckBlockSigAndTypeAndSubtype ((SASBlockHeader *) headerBlock,
 				  SAS_RUNTIME_PCQUEUE))
     {
 #ifdef __SASDebugPrint__
@@ -405,7 +405,7 @@ SPHSinglePCQueueAllocRaw (SPHSinglePCQueue_t queue)
   longPtr_t head;
   longPtr_t queue_entry = 0;
 
-  if (SOMSASCheckBlockSigAndType ((SASBlockHeader *) headerBlock,
+  if (SOMSASCheckBlockSigAndTypeAndSubtype ((SASBlockHeader *) headerBlock,
 				  SAS_RUNTIME_PCQUEUE))
     {
       head = headerBlock->qhead + headerBlock->default_entry_stride;
@@ -442,7 +442,7 @@ SPHSinglePCQueueAllocStrideDirect (SPHSinglePCQueue_t queue)
   longPtr_t head;
   longPtr_t queue_entry = 0;
 
-  if (SOMSASCheckBlockSigAndType ((SASBlockHeader *) headerBlock,
+  if (SOMSASCheckBlockSigAndTypeAndSubtype ((SASBlockHeader *) headerBlock,
                                   SAS_RUNTIME_PCQUEUE))
     {                           /* for Strided alloc increment is pre rounded */
       SPHLFEntryHeader_t *entryPtr;
@@ -501,7 +501,7 @@ SPHSinglePCQueueAllocStrideDirectSpin (SPHSinglePCQueue_t queue)
   longPtr_t head;
   longPtr_t queue_entry = 0;
 
-  if (SOMSASCheckBlockSigAndType ((SASBlockHeader *) headerBlock,
+  if (SOMSASCheckBlockSigAndTypeAndSubtype ((SASBlockHeader *) headerBlock,
                                   SAS_RUNTIME_PCQUEUE))
     {                           /* for Strided alloc increment is pre rounded */
       SPHLFEntryHeader_t *entryPtr;
@@ -567,7 +567,7 @@ SPHSinglePCQueueAllocStrideDirectSpinPause (SPHSinglePCQueue_t queue)
   longPtr_t head;
   longPtr_t queue_entry = 0;
 
-  if (SOMSASCheckBlockSigAndType ((SASBlockHeader *) headerBlock,
+  if (SOMSASCheckBlockSigAndTypeAndSubtype ((SASBlockHeader *) headerBlock,
                                   SAS_RUNTIME_PCQUEUE))
     {                           /* for Strided alloc increment is pre rounded */
       SPHLFEntryHeader_t *entryPtr;
@@ -653,7 +653,7 @@ SPHSinglePCQueueGetNextCompleteDirectSpin (SPHSinglePCQueue_t queue)
   volatile SPHPCQueueHeader *headerBlock = (SPHPCQueueHeader *) queue;
   longPtr_t queue_entry = 0;
 
-  if (SOMSASCheckBlockSigAndType ((SASBlockHeader *) headerBlock,
+  if (SOMSASCheckBlockSigAndTypeAndSubtype ((SASBlockHeader *) headerBlock,
                                   SAS_RUNTIME_PCQUEUE))
     {                           /* for Strided alloc increment is pre rounded */
       volatile SPHLFEntryHeader_t *entryPtr;
@@ -701,7 +701,7 @@ SPHSinglePCQueueGetNextCompleteDirectSpinPause (SPHSinglePCQueue_t queue)
   volatile SPHPCQueueHeader *headerBlock = (SPHPCQueueHeader *) queue;
   longPtr_t queue_entry = 0;
 
-  if (SOMSASCheckBlockSigAndType ((SASBlockHeader *) headerBlock,
+  if (SOMSASCheckBlockSigAndTypeAndSubtype ((SASBlockHeader *) headerBlock,
                                   SAS_RUNTIME_PCQUEUE))
     {                           /* for Strided alloc increment is pre rounded */
       volatile SPHLFEntryHeader_t *entryPtr;
@@ -763,7 +763,7 @@ SPHSinglePCQueueGetNextCompleteDirect (SPHSinglePCQueue_t queue)
   SPHPCQueueHeader *headerBlock = (SPHPCQueueHeader *) queue;
   longPtr_t queue_entry = 0;
 
-  if (SOMSASCheckBlockSigAndType ((SASBlockHeader *) headerBlock,
+  if (SOMSASCheckBlockSigAndTypeAndSubtype ((SASBlockHeader *) headerBlock,
                                   SAS_RUNTIME_PCQUEUE))
     {                           /* for Strided alloc increment is pre rounded */
       SPHLFEntryHeader_t *entryPtr;
@@ -800,7 +800,7 @@ SPHSinglePCQueueGetNextEntryDirect (SPHSinglePCQueue_t queue)
   SPHPCQueueHeader *headerBlock = (SPHPCQueueHeader *) queue;
   longPtr_t queue_entry = 0;
 
-  if (SOMSASCheckBlockSigAndType ((SASBlockHeader *) headerBlock,
+  if (SOMSASCheckBlockSigAndTypeAndSubtype ((SASBlockHeader *) headerBlock,
                                   SAS_RUNTIME_PCQUEUE))
     {                           /* for Strided alloc increment is pre rounded */
       SPHLFEntryHeader_t *entryPtr;
@@ -840,7 +840,7 @@ SPHSinglePCQueueFreeNextEntryDirect (SPHSinglePCQueue_t queue,
   longPtr_t queue_entry, tail;
   int rc = 0;
 
-  if (SOMSASCheckBlockSigAndType ((SASBlockHeader *) headerBlock,
+  if (SOMSASCheckBlockSigAndTypeAndSubtype ((SASBlockHeader *) headerBlock,
                                   SAS_RUNTIME_PCQUEUE))
     {                           /* for Strided alloc increment is pre rounded */
       SPHLFEntryHeader_t *entryPtr;
@@ -886,7 +886,7 @@ SPHSinglePCQueueGetEntryTemplate (SPHSinglePCQueue_t queue)
   sphLFEntry_t entrytemp;
 
   entrytemp.idUnit = 0;
-  if (SOMSASCheckBlockSigAndType ((SASBlockHeader *) headerBlock,
+  if (SOMSASCheckBlockSigAndTypeAndSubtype ((SASBlockHeader *) headerBlock,
                                   SAS_RUNTIME_PCQUEUE))
     {  /* for Strided alloc increment is pre rounded */
       alloc_round = headerBlock->default_entry_stride;
@@ -922,7 +922,7 @@ SPHSinglePCQueueAllocStrideEntry (SPHSinglePCQueue_t queue,
   longPtr_t head;
   longPtr_t queue_entry;
 
-  if (SOMSASCheckBlockSigAndType ((SASBlockHeader *) headerBlock,
+  if (SOMSASCheckBlockSigAndTypeAndSubtype ((SASBlockHeader *) headerBlock,
 				  SAS_RUNTIME_PCQUEUE))
     {				/* for Strided alloc increment is pre rounded */
       SPHLFEntryHeader_t *entryPtr;
@@ -995,7 +995,7 @@ SPHSinglePCQueueAllocStrideTimeStamped (SPHSinglePCQueue_t queue,
   longPtr_t head;
   longPtr_t queue_entry;
 
-  if (SOMSASCheckBlockSigAndType ((SASBlockHeader *) headerBlock,
+  if (SOMSASCheckBlockSigAndTypeAndSubtype ((SASBlockHeader *) headerBlock,
 				  SAS_RUNTIME_PCQUEUE))
     {				/* for Strided alloc increment is pre rounded */
       SPHLFEntryHeader_t *entryPtr;
@@ -1100,7 +1100,7 @@ SPHSinglePCQueueGetNextComplete (SPHSinglePCQueue_t queue,
   longPtr_t alloc_round = 0;
   longPtr_t queue_entry;
 
-  if (SOMSASCheckBlockSigAndType ((SASBlockHeader *) headerBlock,
+  if (SOMSASCheckBlockSigAndTypeAndSubtype ((SASBlockHeader *) headerBlock,
 				  SAS_RUNTIME_PCQUEUE))
     {				/* for Strided alloc increment is pre rounded */
       SPHLFEntryHeader_t *entryPtr;
@@ -1156,7 +1156,7 @@ SPHSinglePCQueueFreeNextEntry (SPHSinglePCQueue_t queue)
   longPtr_t queue_entry, tail;
   int rc = 0;
 
-  if (SOMSASCheckBlockSigAndType ((SASBlockHeader *) headerBlock,
+  if (SOMSASCheckBlockSigAndTypeAndSubtype ((SASBlockHeader *) headerBlock,
 				  SAS_RUNTIME_PCQUEUE))
     {				/* for Strided alloc increment is pre rounded */
       SPHLFEntryHeader_t *entryPtr;
@@ -1203,7 +1203,7 @@ SPHSinglePCQueueSetCachePrefetch (SPHSinglePCQueue_t queue, int prefetch)
 		       | SPHSPCQUEUE_CACHE_PREFETCH1);
   int rc = 0;
 
-  if (SOMSASCheckBlockSigAndType ((SASBlockHeader *) headerBlock,
+  if (SOMSASCheckBlockSigAndTypeAndSubtype ((SASBlockHeader *) headerBlock,
 				  SAS_RUNTIME_PCQUEUE))
     {
       if (prefetch > 1)
@@ -1239,7 +1239,7 @@ SPHSinglePCQueuePrefetch (SPHSinglePCQueue_t queue)
   block_size_t logsize, pagesz, i;
   int rc = 0;
 
-  if (SOMSASCheckBlockSigAndType ((SASBlockHeader *) headerBlock,
+  if (SOMSASCheckBlockSigAndTypeAndSubtype ((SASBlockHeader *) headerBlock,
 				  SAS_RUNTIME_PCQUEUE))
     {
       logsize = headerBlock->blockHeader.blockSize;
-- 
2.43.0


From 7f5c60a86fd67aed32702268359b66e828caa589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:46 +0000
Subject: [PATCH 37/79] fix: SASSimpleHeapFreeNoLock checks the heap and the
 range before it writes to the block

It initialised the block as a free node first, overwriting memory of
whatever the caller passed even when the call was then refused.
---
 src/sassimpleheap.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/sassimpleheap.cpp b/src/sassimpleheap.cpp
index 568b25e..60be505 100644
--- a/src/sassimpleheap.cpp
+++ b/src/sassimpleheap.cpp
@@ -115,14 +115,13 @@ SASSimpleHeapFreeNoLock (SASSimpleHeap_t heap,
     freeNode		*free_node = (freeNode*)free_block;
     int rc;
 
-    freeNode_init(free_node, alloc_size);
-    
     if ( SOMSASCheckBlockSigAndType (headerBlock, SAS_SIMPLEHEAP_TYPE) )
     {
 		heapSize = headerBlock->blockSize - heap_offset;
 		if (( alloc_size < heapSize )
 		&& ( (unsigned long)free_block >= ((unsigned long)headerBlock + heap_offset) ) )
 		{
+		    freeNode_init(free_node, alloc_size);
 		    freeNode_deallocSpace(free_node, &headerBlock->blockFreeSpace, alloc_size);
 		    rc = 0;
 		} else {
-- 
2.43.0


From 30a47a02476dad56e2de1270a2c81056c05a3642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:46 +0000
Subject: [PATCH 38/79] fix: context operations refuse everything but contexts

A context is a simple heap of its own subtype, and its operations checked
only the type, so they took the names and addresses of a plain simple
heap or a tree node from whatever that holds.  SPHContextFreeNoLock wrote to
the block before any check.
---
 src/sphcontext.cpp | 39 +++++++++++++++++++--------------------
 1 file changed, 19 insertions(+), 20 deletions(-)

diff --git a/src/sphcontext.cpp b/src/sphcontext.cpp
index 2441dd5..539e876 100644
--- a/src/sphcontext.cpp
+++ b/src/sphcontext.cpp
@@ -123,7 +123,7 @@ SPHContextAllocNoLock (SPHContext_t heap,
     block_size_t	heapSize;
     freeNode		*mem = NULL;
 
-    if (SOMSASCheckBlockSigAndType (headerBlock,
+    if (SOMSASCheckBlockSigAndTypeAndSubtype (headerBlock,
               SAS_RUNTIME_CONTEXT) )
     {
 		heapSize = headerBlock->blockSize - heap_offset;
@@ -156,14 +156,13 @@ SPHContextFreeNoLock (SPHContext_t heap,
     freeNode		*free_node = (freeNode*)free_block;
     int rc;
 
-    freeNode_init(free_node, alloc_size);
-
-    if ( SOMSASCheckBlockSigAndType (headerBlock, SAS_SIMPLEHEAP_TYPE) )
+    if ( SOMSASCheckBlockSigAndTypeAndSubtype (headerBlock, SAS_RUNTIME_CONTEXT) )
     {
 		heapSize = headerBlock->blockSize - heap_offset;
 		if (( alloc_size < heapSize )
 		&& ( (unsigned long)free_block >= ((unsigned long)headerBlock + heap_offset) ) )
 		{
+		    freeNode_init(free_node, alloc_size);
 		    freeNode_deallocSpace(free_node, &headerBlock->blockFreeSpace, alloc_size);
 		    rc = 0;
 		} else {
@@ -189,7 +188,7 @@ SPHContextAddNameNoLock (SPHContext_t contxt, const char *key, void *value)
     SASBlockHeader	*headerBlock = (SASBlockHeader*)contxt;
     int			rc = 0;
     
-    if (SOMSASCheckBlockSigAndType (headerBlock, 
+    if (SOMSASCheckBlockSigAndTypeAndSubtype (headerBlock, 
               SAS_RUNTIME_CONTEXT) )
     {
     	char			*buff;
@@ -244,7 +243,7 @@ SPHContextAddName (SPHContext_t contxt, const char *key, void *value)
     SASBlockHeader	*headerBlock = (SASBlockHeader*)contxt;
     int				result = 0;
     
-    if (SOMSASCheckBlockSigAndType (headerBlock, 
+    if (SOMSASCheckBlockSigAndTypeAndSubtype (headerBlock, 
               SAS_RUNTIME_CONTEXT) )
     {
     	SASLock(contxt, SasUserLock__WRITE);
@@ -265,7 +264,7 @@ SPHContextFindByNameNoLock (SPHContext_t contxt, const char *key)
     SASBlockHeader	*headerBlock = (SASBlockHeader*)contxt;
     void			*result = NULL;
     
-    if (SOMSASCheckBlockSigAndType (headerBlock, 
+    if (SOMSASCheckBlockSigAndTypeAndSubtype (headerBlock, 
               SAS_RUNTIME_CONTEXT) )
     {
 		SPHContextHeader	*header = (SPHContextHeader*) headerBlock;
@@ -291,7 +290,7 @@ SPHContextFindByAddrNoLock (SPHContext_t contxt, const void *value)
     SASBlockHeader	*headerBlock = (SASBlockHeader*)contxt;
     void			*result = NULL;
     
-    if (SOMSASCheckBlockSigAndType (headerBlock, 
+    if (SOMSASCheckBlockSigAndTypeAndSubtype (headerBlock, 
               SAS_RUNTIME_CONTEXT) )
     {
 		SPHContextHeader	*header = (SPHContextHeader*) headerBlock;
@@ -319,7 +318,7 @@ SPHContextGetNameEnum (SPHContext_t contxt)
     SASBlockHeader	*headerBlock = (SASBlockHeader*)contxt;
     SASStringBTreeEnum_t	result = NULL;
     
-    if (SOMSASCheckBlockSigAndType (headerBlock, 
+    if (SOMSASCheckBlockSigAndTypeAndSubtype (headerBlock, 
               SAS_RUNTIME_CONTEXT) )
     {
 	SPHContextHeader	*header = (SPHContextHeader*) headerBlock;
@@ -342,7 +341,7 @@ SPHContextFindByName (SPHContext_t contxt, const char *key)
     SASBlockHeader	*headerBlock = (SASBlockHeader*)contxt;
     void			*result = NULL;
     
-    if (SOMSASCheckBlockSigAndType (headerBlock, 
+    if (SOMSASCheckBlockSigAndTypeAndSubtype (headerBlock, 
               SAS_RUNTIME_CONTEXT) )
     {
     	SASLock(contxt, SasUserLock__READ);
@@ -363,7 +362,7 @@ SPHContextFindByAddr (SPHContext_t contxt, const void *value)
     SASBlockHeader	*headerBlock = (SASBlockHeader*)contxt;
     void			*result = NULL;
     
-    if (SOMSASCheckBlockSigAndType (headerBlock, 
+    if (SOMSASCheckBlockSigAndTypeAndSubtype (headerBlock, 
               SAS_RUNTIME_CONTEXT) )
     {
     	SASLock(contxt, SasUserLock__READ);
@@ -386,7 +385,7 @@ SPHContextRemoveByNameNoLock (SPHContext_t contxt, const char *key)
     int				result = -1;
     int				rc = 0;
     
-    if (SOMSASCheckBlockSigAndType (headerBlock, 
+    if (SOMSASCheckBlockSigAndTypeAndSubtype (headerBlock, 
               SAS_RUNTIME_CONTEXT) )
     {
 		SPHContextHeader	*header = (SPHContextHeader*) headerBlock;
@@ -441,7 +440,7 @@ SPHContextRename (SPHContext_t contxt, const char *oldkey, const char *newkey, v
     void			*oldval;
     int				result = 0;
     
-    if (SOMSASCheckBlockSigAndType (headerBlock, 
+    if (SOMSASCheckBlockSigAndTypeAndSubtype (headerBlock, 
               SAS_RUNTIME_CONTEXT) )
     {
     	SASLock(contxt, SasUserLock__WRITE);
@@ -469,7 +468,7 @@ SPHContextRemoveByAddrNoLock (SPHContext_t contxt, const void *value)
     int				result = 0;
     int				rc;
     
-    if (SOMSASCheckBlockSigAndType (headerBlock, 
+    if (SOMSASCheckBlockSigAndTypeAndSubtype (headerBlock, 
               SAS_RUNTIME_CONTEXT) )
     {
 		SPHContextHeader	*header = (SPHContextHeader*) headerBlock;
@@ -529,7 +528,7 @@ SPHContextRemoveByName (SPHContext_t contxt, const char *key)
     SASBlockHeader	*headerBlock = (SASBlockHeader*)contxt;
     int				result = -1;
     
-    if (SOMSASCheckBlockSigAndType (headerBlock, 
+    if (SOMSASCheckBlockSigAndTypeAndSubtype (headerBlock, 
               SAS_RUNTIME_CONTEXT) )
     {
     	SASLock(contxt, SasUserLock__WRITE);
@@ -550,7 +549,7 @@ SPHContextRemoveByAddr (SPHContext_t contxt, const void *value)
     SASBlockHeader	*headerBlock = (SASBlockHeader*)contxt;
     int				result = -1;
     
-    if (SOMSASCheckBlockSigAndType (headerBlock, 
+    if (SOMSASCheckBlockSigAndTypeAndSubtype (headerBlock, 
               SAS_RUNTIME_CONTEXT) )
     {
     	SASLock(contxt, SasUserLock__WRITE);
@@ -571,7 +570,7 @@ SPHContextAlloc (SPHContext_t heap, block_size_t alloc_size)
     SASBlockHeader	*headerBlock = (SASBlockHeader*)heap;
     void		*mem = NULL;
     
-    if (SOMSASCheckBlockSigAndType (headerBlock, 
+    if (SOMSASCheckBlockSigAndTypeAndSubtype (headerBlock, 
               SAS_RUNTIME_CONTEXT) )
     {
     	SASLock(heap, SasUserLock__WRITE);
@@ -594,7 +593,7 @@ SPHContextFree (SPHContext_t heap,
     SASBlockHeader	*headerBlock = (SASBlockHeader*)heap;
     int rc;
     
-    if ( SOMSASCheckBlockSigAndType (headerBlock, SAS_SIMPLEHEAP_TYPE) )
+    if ( SOMSASCheckBlockSigAndTypeAndSubtype (headerBlock, SAS_RUNTIME_CONTEXT) )
     {
     	SASLock(heap, SasUserLock__WRITE);
     	rc = SPHContextFreeNoLock(heap, free_block, alloc_size);
@@ -625,7 +624,7 @@ SPHContextFreeSpaceNoLock (SPHContext_t heap)
     SASBlockHeader	*headerBlock = (SASBlockHeader*)heap;
     block_size_t	heapFree = 0;
     
-    if ( SOMSASCheckBlockSigAndType (headerBlock, SAS_SIMPLEHEAP_TYPE) )
+    if ( SOMSASCheckBlockSigAndTypeAndSubtype (headerBlock, SAS_RUNTIME_CONTEXT) )
     {
     	if (headerBlock->blockFreeSpace != NULL)
     		heapFree = freeNode_freeSpaceTotal(headerBlock->blockFreeSpace);
@@ -644,7 +643,7 @@ SPHContextFreeSpace (SPHContext_t heap)
     SASBlockHeader	*headerBlock = (SASBlockHeader*)heap;
     block_size_t	heapFree = 0;
     
-    if ( SOMSASCheckBlockSigAndType (headerBlock, SAS_SIMPLEHEAP_TYPE) )
+    if ( SOMSASCheckBlockSigAndTypeAndSubtype (headerBlock, SAS_RUNTIME_CONTEXT) )
     {
     	SASLock(heap, SasUserLock__READ);
     	heapFree = SPHContextFreeSpaceNoLock(heap);
-- 
2.43.0


From d0c4bcf38c6c77766d48a1c3753b88fbb6370b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:30 +0000
Subject: [PATCH 39/79] fix: near dealloc of a compound heap or tree refuses
 the heap's own header

Given an address in the header, the near block found is the compound heap
itself, which was then put on its own free list.
---
 src/sascompoundheap.cpp | 6 ++++--
 src/sasindex.cpp        | 6 ++++--
 src/sasstringbtree.cpp  | 6 ++++--
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/sascompoundheap.cpp b/src/sascompoundheap.cpp
index 13353e4..75c5a0f 100644
--- a/src/sascompoundheap.cpp
+++ b/src/sascompoundheap.cpp
@@ -797,7 +797,8 @@ SASCompoundHeapNearDeallocNoLock (void *nearObj)
 	compoundHeader = (SASCompoundHeapHeader *) nearHeader;
 
       if (SOMSASCheckBlockSigAndType ((SASBlockHeader *) compoundHeader,
-				      SAS_RUNTIME_COMPOUNDHEAP))
+				      SAS_RUNTIME_COMPOUNDHEAP)
+	  && !SOMSASCheckBlockSigAndType (nearHeader, SAS_RUNTIME_COMPOUNDHEAP))
 	{
 	  SASCompoundHeapFreeInternal (compoundHeader, nearHeader);
 #ifdef __SASDebugPrint__
@@ -827,7 +828,8 @@ SASCompoundHeapNearDealloc (void *nearObj)
 	compoundHeader = (SASCompoundHeapHeader *) nearHeader;
 
       if (SOMSASCheckBlockSigAndType ((SASBlockHeader *) compoundHeader,
-				      SAS_RUNTIME_COMPOUNDHEAP))
+				      SAS_RUNTIME_COMPOUNDHEAP)
+	  && !SOMSASCheckBlockSigAndType (nearHeader, SAS_RUNTIME_COMPOUNDHEAP))
 	{
 	  SASLock (compoundHeader, SasUserLock__WRITE);
 	  SASCompoundHeapFreeInternal (compoundHeader, nearHeader);
diff --git a/src/sasindex.cpp b/src/sasindex.cpp
index 46e4974..a4443c7 100644
--- a/src/sasindex.cpp
+++ b/src/sasindex.cpp
@@ -867,7 +867,8 @@ SASIndexNearDeallocNoLock(void *nearObj)
 			btreeHeader = (SASIndex_t)nearHeader;
 				   
 	    if (SOMSASCheckBlockSigAndTypeAndSubtype ((SASBlockHeader*)btreeHeader, 
-		                                SAS_RUNTIME_INDEX) )
+		                                SAS_RUNTIME_INDEX)
+	    && !SOMSASCheckBlockSigAndType (nearHeader, SAS_RUNTIME_COMPOUNDHEAP))
 	    {
 			SASIndexFreeInternal ((SASIndexHeader*)btreeHeader, 
 			                            nearHeader);
@@ -896,7 +897,8 @@ SASIndexNearDealloc(void *nearObj)
 			btreeHeader = (SASIndex_t)nearHeader;
 			
 	    if (SOMSASCheckBlockSigAndTypeAndSubtype ((SASBlockHeader*)btreeHeader, 
-		                                SAS_RUNTIME_INDEX))
+		                                SAS_RUNTIME_INDEX)
+	    && !SOMSASCheckBlockSigAndType (nearHeader, SAS_RUNTIME_COMPOUNDHEAP))
 	    {
     		SASLock(btreeHeader, SasUserLock__WRITE);
 			SASIndexFreeInternal ((SASIndexHeader*)btreeHeader,
diff --git a/src/sasstringbtree.cpp b/src/sasstringbtree.cpp
index bc0a351..59b1325 100644
--- a/src/sasstringbtree.cpp
+++ b/src/sasstringbtree.cpp
@@ -947,7 +947,8 @@ SASStringBTreeNearDeallocNoLock (void *nearObj)
 	btreeHeader = (SASStringBTree_t) nearHeader;
 
       if (SOMSASCheckBlockSigAndTypeAndSubtype ((SASBlockHeader *) btreeHeader,
-				      SAS_RUNTIME_STRINGBTREE))
+				      SAS_RUNTIME_STRINGBTREE)
+	  && !SOMSASCheckBlockSigAndType (nearHeader, SAS_RUNTIME_COMPOUNDHEAP))
 	{
 	  SASStringBTreeFreeInternal ((SASStringBTreeHeader *) btreeHeader,
 				      nearHeader);
@@ -978,7 +979,8 @@ SASStringBTreeNearDealloc (void *nearObj)
 	btreeHeader = (SASStringBTree_t) nearHeader;
 
       if (SOMSASCheckBlockSigAndTypeAndSubtype ((SASBlockHeader *) btreeHeader,
-				      SAS_RUNTIME_STRINGBTREE))
+				      SAS_RUNTIME_STRINGBTREE)
+	  && !SOMSASCheckBlockSigAndType (nearHeader, SAS_RUNTIME_COMPOUNDHEAP))
 	{
 	  SASLock (btreeHeader, SasUserLock__WRITE);
 	  SASStringBTreeFreeInternal ((SASStringBTreeHeader *) btreeHeader,
-- 
2.43.0


From bba218fea16609564292dea2330693b9334535bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:44 +0000
Subject: [PATCH 40/79] fix: SASFindHeader finds blocks of every size, and the
 one the address is in

It skipped the alignments 2K, 8K, 32K, 128K, 512K, 2M, 8M, 32M and 128M
and masked 256K blocks with the mask of 256 bytes, so objects of these
sizes were not found.  A block that ends before the address was taken even
if another one encloses the address.  Headers below the region's start
are not looked at.
---
 src/sasalloc.cpp | 98 +++++++++---------------------------------------
 1 file changed, 18 insertions(+), 80 deletions(-)

diff --git a/src/sasalloc.cpp b/src/sasalloc.cpp
index d4e9bdb..63f7667 100644
--- a/src/sasalloc.cpp
+++ b/src/sasalloc.cpp
@@ -460,91 +460,29 @@ SASBlockHeader *SASFindHeader (const void *nearObj)
          ((temp >= __SAS_TEMP_ADDRESS) && (temp < (__SAS_TEMP_FREE)))) {
 #endif
 #endif
-	temp = temp & block__mask512;
-	block = (SASBlockHeader *)temp;
-
-#ifdef __SASDebugPrint__
-   sas_printf("SASFindHeader mask=%lx -> %p \n",block__mask512, block);
-#endif
-	if ( !SOMSASCheckBlockSig(block) )
+	uintptr_t	low = (temp >= getfastMemLow()) && (temp < getfastMemHigh())
+				? getfastMemLow() : __SAS_TEMP_ADDRESS;
+	uintptr_t	align;
+
+	/* Blocks are aligned to their size, which can be any power of 2.
+	   Find the innermost block that extends to this address or, if
+	   there is none, the nearest block.  */
+	for (align = block__Size512; align <= SegmentSize; align <<= 1)
 	{
-	    temp = temp & block__mask1k;
-	    block = (SASBlockHeader *)temp;
+	    SASBlockHeader	*header = (SASBlockHeader *)(temp & ~(align - 1));
 
-	    if ( !SOMSASCheckBlockSig(block) )
+	    if ((uintptr_t)header < low)
+		break;
+	    if ( SOMSASCheckBlockSig(header) )
 	    {
-		temp = temp & block__mask4k;
-		block = (SASBlockHeader *)temp;
-
-		if ( !SOMSASCheckBlockSig(block) )
+		if (block == NULL)
+		    block = header;
+		if ((temp - (uintptr_t)header) < (uintptr_t)header->blockSize)
 		{
-#ifdef block__mask16k
-		  temp = temp & block__mask16k;
-		  block = (SASBlockHeader *)temp;
-
-		  if ( !SOMSASCheckBlockSig(block) )
-		  {
-#endif
-		    temp = temp & block__mask64k;
-		    block = (SASBlockHeader *)temp;
-
-		    if ( !SOMSASCheckBlockSig(block) )
-		    {
-#ifdef block__mask256k
-		      temp = temp & block__mask256;
-		      block = (SASBlockHeader *)temp;
-
-		      if ( !SOMSASCheckBlockSig(block) )
-		      {
-#endif
-			temp = temp & block__mask1m;
-			block = (SASBlockHeader *)temp;
-
-			if ( !SOMSASCheckBlockSig(block) )
-			{
-			    temp = temp & block__mask4m;
-			    block = (SASBlockHeader *)temp;
-
-			    if ( !SOMSASCheckBlockSig(block) )
-			    {
-				temp = temp & block__mask16m;
-				block = (SASBlockHeader *)temp;
-
-				if ( !SOMSASCheckBlockSig(block) )
-				{
-#ifdef block__mask64m
-				  temp = temp & block__mask64m;
-				  block = (SASBlockHeader *)temp;
-
-				  if ( !SOMSASCheckBlockSig(block) )
-				  {
-#ifdef block__mask256m
-				    temp = temp & block__mask256m;
-				    block = (SASBlockHeader *)temp;
-
-				    if ( !SOMSASCheckBlockSig(block) )
-				    {
-				      block = NULL;
-				    }
-#else
-				    block = NULL;
-#endif
-				  }
-#else
-				    block = NULL;
-#endif
-				}
-			    }
-			}
-#ifdef block__mask256k
-		      }
-#endif
-		    }
-#ifdef block__mask16k
-		  }
-#endif
+		    block = header;
+		    break;
 		}
-	   }
+	    }
 	}
 #ifdef __SASDebugPrint__
 	    sas_printf("SASFindHeader low=%lx, high=%lx, tmp_low=%lx, tmp_hign=%lx\n",
-- 
2.43.0


From df5406a7d326687d9031a32a585f2001eebaa5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:27 +0000
Subject: [PATCH 41/79] fix: freeing into an expansion block unlocks the block
 it locked

SASCompoundHeapFree, SPHCompoundPCQFree and SASStringBTreeFree locked each
expansion block they looked at and unlocked the base heap instead, so the
locks on the blocks were never released.
---
 src/sascompoundheap.cpp | 8 ++++----
 src/sasindex.cpp        | 4 ++--
 src/sasstringbtree.cpp  | 4 ++--
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/sascompoundheap.cpp b/src/sascompoundheap.cpp
index 75c5a0f..af55820 100644
--- a/src/sascompoundheap.cpp
+++ b/src/sascompoundheap.cpp
@@ -614,11 +614,11 @@ SASCompoundHeapFree (SASCompoundHeap_t heap, SASSimpleHeap_t free_block)
 		    {
 		      SASCompoundHeapFreeInternal (expandBlock, free_block);
 		      if (i > 0)
-			SASUnlock (heap);
+			SASUnlock (expandBlock);
 		      break;
 		    }
 		  if (i > 0)
-		    SASUnlock (heap);
+		    SASUnlock (expandBlock);
 		}
 	    }
 	  else
@@ -1514,11 +1514,11 @@ SPHCompoundPCQFree (SASCompoundHeap_t heap, SPHSinglePCQueue_t free_block)
 		    {
 			  SPHCompoundPCQFreeInternal (expandBlock, free_block);
 		      if (i > 0)
-			SASUnlock (heap);
+			SASUnlock (expandBlock);
 		      break;
 		    }
 		  if (i > 0)
-		    SASUnlock (heap);
+		    SASUnlock (expandBlock);
 		}
 	    }
 	  else
diff --git a/src/sasindex.cpp b/src/sasindex.cpp
index a4443c7..0f9be6b 100644
--- a/src/sasindex.cpp
+++ b/src/sasindex.cpp
@@ -536,11 +536,11 @@ SASIndexFree (SASIndex_t heap,
 					{
 						SASIndexFreeInternal (expandBlock, free_block);					
 						if ( i > 0 )
-							SASUnlock(heap);
+							SASUnlock(expandBlock);
 			    		break;
 			    	}
 					if ( i > 0 )
-			    		SASUnlock(heap);
+			    		SASUnlock(expandBlock);
 				}
 			} else {
 				if (SASIndexContains(headerBlock, free_block))
diff --git a/src/sasstringbtree.cpp b/src/sasstringbtree.cpp
index 59b1325..974fbb8 100644
--- a/src/sasstringbtree.cpp
+++ b/src/sasstringbtree.cpp
@@ -568,11 +568,11 @@ SASStringBTreeFree (SASStringBTree_t heap, SASStringBTreeNode_t free_block)
 		    {
 		      SASStringBTreeFreeInternal (expandBlock, free_block);
 		      if (i > 0)
-			SASUnlock (heap);
+			SASUnlock (expandBlock);
 		      break;
 		    }
 		  if (i > 0)
-		    SASUnlock (heap);
+		    SASUnlock (expandBlock);
 		}
 	    }
 	  else
-- 
2.43.0


From 23dca83cf2326c445b0a0753428ba4499e5a346e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:37 +0000
Subject: [PATCH 42/79] fix: a free list refuses requests for no space and for
 more than there can be

An allocation of 0 bytes, or of a size that wraps around when it is
rounded, returned the first free node without taking it off the list.
---
 src/freenode.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/freenode.c b/src/freenode.c
index 3a433ff..c76b334 100644
--- a/src/freenode.c
+++ b/src/freenode.c
@@ -117,6 +117,8 @@ void freeNode_deallocSpace (FreeNode *freeNode, FreeNode **head, node_size_t siz
    node_size_t nSize;
 
    nSize = (node_size_t)((size + nodeRound ) / nodeAlign ) * nodeAlign ;
+   if (nSize == 0 || nSize < size)
+      return; // no space at all, or more than there can be
 
    if (h != NULL) {
       if ((unsigned long)freeNode < (unsigned long)temp) {
@@ -172,6 +174,8 @@ FreeNode* freeNode_allocSpace(FreeNode *freeNode, FreeNode **head, node_size_t s
    FreeNode *h = *head;
    node_size_t nSize;
    nSize = (node_size_t)((size+nodeRound)/nodeAlign)*nodeAlign;
+   if (nSize == 0 || nSize < size)
+      return NULL; // no space at all, or more than there can be
 
    if (h != NULL) { 
       // free list is not empty
-- 
2.43.0


From 85bc17cff50aaefb565d5c1cee5c08984487ad26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:49 +0000
Subject: [PATCH 43/79] fix: a simple heap can allocate and free its whole
 space, and no more

A request for exactly the whole space of an empty heap was refused, and
so was freeing it.  A free of a range that reaches past the end of the
heap was accepted.
---
 src/sassimpleheap.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/sassimpleheap.cpp b/src/sassimpleheap.cpp
index 60be505..d79ac72 100644
--- a/src/sassimpleheap.cpp
+++ b/src/sassimpleheap.cpp
@@ -65,7 +65,7 @@ SASSimpleHeapAllocNoLock (SASSimpleHeap_t heap,
               SAS_RUNTIME_SIMPLEHEAP) )
     {
 		heapSize = headerBlock->blockSize - heap_offset;
-		if ( alloc_size < heapSize )
+		if ( alloc_size <= heapSize )
 		{
 		    mem = freeNode_allocSpace(headerBlock->blockFreeSpace,
 		                    &headerBlock->blockFreeSpace, alloc_size);
@@ -112,14 +112,17 @@ SASSimpleHeapFreeNoLock (SASSimpleHeap_t heap,
 {
     SASBlockHeader	*headerBlock = (SASBlockHeader*)heap;
     block_size_t	heapSize;
+    block_size_t	heapOffset;
     freeNode		*free_node = (freeNode*)free_block;
     int rc;
 
     if ( SOMSASCheckBlockSigAndType (headerBlock, SAS_SIMPLEHEAP_TYPE) )
     {
 		heapSize = headerBlock->blockSize - heap_offset;
-		if (( alloc_size < heapSize )
-		&& ( (unsigned long)free_block >= ((unsigned long)headerBlock + heap_offset) ) )
+		heapOffset = (unsigned long)free_block - ((unsigned long)headerBlock + heap_offset);
+		if (( (unsigned long)free_block >= ((unsigned long)headerBlock + heap_offset) )
+		&& ( heapOffset <= heapSize )
+		&& ( alloc_size <= heapSize - heapOffset ) )
 		{
 		    freeNode_init(free_node, alloc_size);
 		    freeNode_deallocSpace(free_node, &headerBlock->blockFreeSpace, alloc_size);
@@ -205,7 +208,7 @@ SASSimpleHeapNearAllocNoLock(void *nearObj, block_size_t alloc_size)
 	if ( SOMSASCheckBlockSigAndType (headerBlock, SAS_SIMPLEHEAP_TYPE) )
 	{
 	    heapSize = headerBlock->blockSize - heap_offset;
-	    if ( alloc_size < heapSize )
+	    if ( alloc_size <= heapSize )
 	    {
 		mem = freeNode_allocSpace(headerBlock->blockFreeSpace,
 		          &headerBlock->blockFreeSpace, alloc_size);
-- 
2.43.0


From 3b6948f060df955ad972276aedd1f2d18aee9e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:25 +0000
Subject: [PATCH 44/79] fix: near functions of a simple heap check and lock the
 heap they find

SASSimpleHeapNearAlloc and SASSimpleHeapNearDealloc took no lock and
accepted any block and any range.  The NoLock variants were defined with
another signature than the one declared, so they could not be linked to.
---
 src/sassimpleheap.cpp | 92 +++++++++++--------------------------------
 1 file changed, 22 insertions(+), 70 deletions(-)

diff --git a/src/sassimpleheap.cpp b/src/sassimpleheap.cpp
index d79ac72..4f18d69 100644
--- a/src/sassimpleheap.cpp
+++ b/src/sassimpleheap.cpp
@@ -195,91 +195,43 @@ SASSimpleHeapNearFind(void *nearObj)
 }
 
 void*
-SASSimpleHeapNearAllocNoLock(void *nearObj, block_size_t alloc_size)
+SASSimpleHeapNearAllocNoLock(void *nearObj, long allocSize)
 {
-    SASBlockHeader	*headerBlock;
-    block_size_t	heapSize;
-    freeNode		*mem = NULL;
+    SASSimpleHeap_t	heap = SASSimpleHeapNearFind (nearObj);
+    void		*mem = NULL;
+
+    if (heap)
+	mem = SASSimpleHeapAllocNoLock (heap, (block_size_t)allocSize);
 
-	
-    headerBlock = (SASBlockHeader*)SASFindHeader (nearObj);
-    if (headerBlock)
-    {
-	if ( SOMSASCheckBlockSigAndType (headerBlock, SAS_SIMPLEHEAP_TYPE) )
-	{
-	    heapSize = headerBlock->blockSize - heap_offset;
-	    if ( alloc_size <= heapSize )
-	    {
-		mem = freeNode_allocSpace(headerBlock->blockFreeSpace,
-		          &headerBlock->blockFreeSpace, alloc_size);
-#ifdef __SASDebugPrint__
-	    } else {
-		sas_printf("SASSimpleHeapNearAllocNoLock(%p, %ld) range check failed\n", 
-	    	                 nearObj, alloc_size);
-#endif
-	    }
-#ifdef __SASDebugPrint__
-	} else {
-	    sas_printf("SASSimpleHeapNearAllocNoLock(%p, %ld) doesn't match type/subtype\n",
-        				nearObj, alloc_size);
-#endif
-	}
-#ifdef __SASDebugPrint__
-    } else {
-        sas_printf("SASSimpleHeapNearAllocNoLock(%p, %ld) header not found\n",
-    				nearObj, alloc_size);
-#endif
-    }
     return mem;
 }
 
 void* SASSimpleHeapNearAlloc(void *nearObj, long allocSize)
 {
-    return SASNearAlloc (nearObj, allocSize);
+    SASSimpleHeap_t	heap = SASSimpleHeapNearFind (nearObj);
+    void		*mem = NULL;
+
+    if (heap)
+	mem = SASSimpleHeapAlloc (heap, (block_size_t)allocSize);
+
+    return mem;
 }
 
 void
-SASSimpleHeapNearDeallocNoLock(void *nearObj, block_size_t alloc_size)
+SASSimpleHeapNearDeallocNoLock(void *memAddr, long allocSize)
 {
-    SASBlockHeader	*headerBlock;
-    block_size_t	heapSize;
-    freeNode		*free_node = (freeNode*)nearObj;
+    SASSimpleHeap_t	heap = SASSimpleHeapNearFind (memAddr);
 
-	
-    headerBlock = (SASBlockHeader*)SASFindHeader (nearObj);
-    if (headerBlock)
-    {
-	if ( SOMSASCheckBlockSigAndType (headerBlock, SAS_SIMPLEHEAP_TYPE) )
-	{
-	    freeNode_init(free_node, alloc_size);
-	    heapSize = headerBlock->blockSize - heap_offset;
-	    if (( alloc_size < heapSize )
-	    && ((unsigned long)nearObj >= ((unsigned long)headerBlock + heap_offset)))
-	    {
-		freeNode_deallocSpace(free_node, &headerBlock->blockFreeSpace, alloc_size);
-#ifdef __SASDebugPrint__
-	    } else {
-		sas_printf("SASSimpleHeapNearDeallocNoLock(%p, %ld) range check failed\n", 
-	    	            nearObj, alloc_size);
-#endif
-	    }
-#ifdef __SASDebugPrint__
-	} else {
-	    sas_printf("SASSimpleHeapNearDeallocNoLock(%p, %ld) doesn't match type/subtype\n",
-        		nearObj, alloc_size);
-#endif
-	}
-#ifdef __SASDebugPrint__
-    } else {
-        sas_printf("SASSimpleHeapNearDeallocNoLock(%p, %ld) header not found\n",
-    		    nearObj, alloc_size);
-#endif
-    }    
+    if (heap)
+	SASSimpleHeapFreeNoLock (heap, memAddr, (block_size_t)allocSize);
 }
 
 void SASSimpleHeapNearDealloc(void *memAddr, long allocSize)
-{							
-    SASNearDealloc (memAddr, allocSize);
+{
+    SASSimpleHeap_t	heap = SASSimpleHeapNearFind (memAddr);
+
+    if (heap)
+	SASSimpleHeapFree (heap, memAddr, (block_size_t)allocSize);
 }
 
 block_size_t
-- 
2.43.0


From 7c2b8db158acf72151de3bfd28dbe40bdb1569f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:25 +0000
Subject: [PATCH 45/79] fix: a simple stack refuses sizes that wrap around the
 end of memory

---
 src/sassimplestack.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sassimplestack.cpp b/src/sassimplestack.cpp
index 0ac1235..03af8b6 100644
--- a/src/sassimplestack.cpp
+++ b/src/sassimplestack.cpp
@@ -111,7 +111,8 @@ SASSimpleStackAllocNoLock (SASSimpleStack_t heap, block_size_t alloc_size)
       round = ~headerBlock->align_mask;
       stacknext = (headerBlock->next_stack + alloc_size + round)
 	& headerBlock->align_mask;
-      if (stacknext <= headerBlock->end_stack)
+      if ((alloc_size <= headerBlock->end_stack - headerBlock->next_stack)
+	  && (stacknext <= headerBlock->end_stack))
 	{
 	  stack_alloc = headerBlock->next_stack;
 	  headerBlock->next_stack = stacknext;
-- 
2.43.0


From 6cb78ed913ef9b8c02f4a69bfbf9043da870d411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:25 +0000
Subject: [PATCH 46/79] fix: dealloc of a simple stack releases, and keeps the
 top aligned

An address above the top was accepted and raised the top, and the NoLock
variant did not check the alignment.
---
 src/sassimplestack.cpp | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/sassimplestack.cpp b/src/sassimplestack.cpp
index 03af8b6..9b05b07 100644
--- a/src/sassimplestack.cpp
+++ b/src/sassimplestack.cpp
@@ -259,10 +259,23 @@ SASSimpleStackDeallocNoLock (SASSimpleStack_t heap, void *stack_pointer)
 				  SAS_RUNTIME_SIMPLESTACK))
     {
       if ((new_sp >= headerBlock->start_stack)
-	  && (new_sp <= headerBlock->end_stack))
+	  && (new_sp <= headerBlock->next_stack))
 	{
-	  headerBlock->next_stack = new_sp;
-	  rc = 0;
+	  new_sp &= headerBlock->align_mask;
+	  if (new_sp == (node_size_t) stack_pointer)
+	    {
+	      headerBlock->next_stack = new_sp;
+	      rc = 0;
+	    }
+	  else
+	    {
+	      rc = -3;
+#ifdef __SASDebugPrint__
+	      sas_printf
+		("SASSimpleStackDeallocNoLock(%p, %p) alignment check failed\n",
+		 heap, stack_pointer);
+#endif
+	    }
 	}
       else
 	{
@@ -296,7 +309,7 @@ SASSimpleStackDealloc (SASSimpleStack_t heap, void *stack_pointer)
     {
       SASLock (headerBlock, SasUserLock__WRITE);
       if ((new_sp >= headerBlock->start_stack)
-	  && (new_sp <= headerBlock->end_stack))
+	  && (new_sp <= headerBlock->next_stack))
 	{
 	  new_sp &= headerBlock->align_mask;
 	  if (new_sp == (node_size_t) stack_pointer)
-- 
2.43.0


From 79a53a19de794fc4e1e4d675c603d0a133dc019d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:25 +0000
Subject: [PATCH 47/79] fix: a simple space refuses a size that does not fit

Creating a space of nearly the largest number of bytes returned a small
block or did not return, and initialising one in a block that is too
small succeeded.
---
 src/sassimplespace.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/sassimplespace.cpp b/src/sassimplespace.cpp
index 0036a6c..8cc2864 100644
--- a/src/sassimplespace.cpp
+++ b/src/sassimplespace.cpp
@@ -55,8 +55,11 @@ SASSimpleSpaceInitInternal (void* heap_seg,  sas_type_t sasType,
     char		*allocEnd = NULL;
     node_size_t		remaining;
     
-    if ( heapBlock )
-	initSOMSASBlock((SASBlockHeader*)heapBlock, sasType, 
+    if ( heapBlock == NULL || block_size < DEFAULT_PAGE
+	 || space_size > block_size - DEFAULT_PAGE )
+	return NULL;
+
+    initSOMSASBlock((SASBlockHeader*)heapBlock, sasType, 
 		                block_size, NULL);
     
     spaceStart = (char*) heapBlock + DEFAULT_PAGE;
@@ -95,6 +98,9 @@ SASSimpleSpaceCreate (block_size_t space_size)
     block_size_t	min_size = (space_size + DEFAULT_PAGE);
     block_size_t	p2_size = (DEFAULT_PAGE + DEFAULT_PAGE);
 
+    if (min_size < space_size || min_size > SegmentSize)
+	return NULL;
+
     while (min_size > p2_size)
 	p2_size = p2_size + p2_size;
     
-- 
2.43.0


From 72b75aa5339ace555215506f44e8ea54d79f94f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:25 +0000
Subject: [PATCH 48/79] fix: SASSimpleSpaceFromAddr accepts any address of the
 space

Only the first address of the space worked, although any address within
its range is documented to.
---
 src/sassimplespace.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/sassimplespace.cpp b/src/sassimplespace.cpp
index 8cc2864..598531b 100644
--- a/src/sassimplespace.cpp
+++ b/src/sassimplespace.cpp
@@ -138,10 +138,22 @@ SASSimpleSpaceFromAddr (void *space)
 {
     SASBlockHeader	*headerBlock = (SASBlockHeader*)((char*)space
 					- DEFAULT_PAGE);
+    SASSimpleSpaceHeader	*heapBlock = (SASSimpleSpaceHeader*)headerBlock;
     SASSimpleSpace_t	result = NULL;
+
+    if ( !SOMSASCheckBlockSigAndType (headerBlock, SAS_SIMPLESPACE_TYPE)
+	|| ((node_size_t)space != heapBlock->start_space) )
+    {
+	/* Not the start of a space, but it may be inside one.  */
+	headerBlock = SASFindHeader (space);
+	heapBlock = (SASSimpleSpaceHeader*)headerBlock;
+    }
     
-    if ( SOMSASCheckBlockSigAndType ((SASBlockHeader*)headerBlock, 
-                                     SAS_SIMPLESPACE_TYPE) )
+    if ( headerBlock
+	&& SOMSASCheckBlockSigAndType (headerBlock, SAS_SIMPLESPACE_TYPE)
+	&& ((node_size_t)space >= heapBlock->start_space)
+	&& ((node_size_t)space == heapBlock->start_space
+	    || (node_size_t)space < heapBlock->end_space) )
     {
 	result = (SASSimpleSpace_t)headerBlock;
 #ifdef __SASDebugPrint__
-- 
2.43.0


From 7d5fd5ab0c54bde4585000be2b3f1f724d23661f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:47 +0000
Subject: [PATCH 49/79] fix: a new compound heap starts without an expand list

The fields were left as they were in the block, which is not cleared when
it was part of a larger one before, so a fixed heap could take leftover
data for its expand list.
---
 src/sascompoundheap.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sascompoundheap.cpp b/src/sascompoundheap.cpp
index af55820..1095fb1 100644
--- a/src/sascompoundheap.cpp
+++ b/src/sascompoundheap.cpp
@@ -186,6 +186,8 @@ SASCompoundHeapInit (void *heap_seg,
   heapBlock->blockHeader.baseBlock = (SASBlockHeader *) heapBlock;
   heapBlock->blockHeader.nextBlock = (SASBlockHeader *) heapBlock;
   heapBlock->loadFactor = 100;
+  heapBlock->expandSpace = NULL;
+  heapBlock->expandList = NULL;
 
   if (expanding)
     {
-- 
2.43.0


From 5c33edd11069c76bf5d69297a348e1e02e9ae122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:47 +0000
Subject: [PATCH 50/79] fix: near allocation of a queue returns a queue when
 the block is full

It fell back to allocating a simple heap.
---
 src/sascompoundheap.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sascompoundheap.cpp b/src/sascompoundheap.cpp
index 1095fb1..dbde3c2 100644
--- a/src/sascompoundheap.cpp
+++ b/src/sascompoundheap.cpp
@@ -1597,7 +1597,7 @@ SPHCompoundPCQNearAllocNoLock (void *nearObj)
 		newHeap = SPHCompoundPCQAllocInternal (compoundHeader);
 	      else
 		newHeap =
-		  SASCompoundHeapAllocNoLock ((SASCompoundHeap_t) baseHeader);
+		  SPHCompoundPCQAllocNoLock ((SASCompoundHeap_t) baseHeader);
 #ifdef __SASDebugPrint__
 	    }
 	  else
@@ -1661,7 +1661,7 @@ SPHCompoundPCQNearAlloc (void *nearObj)
 	      else
 		{
 		  newHeap =
-		    SASCompoundHeapAlloc ((SASCompoundHeap_t) baseHeader);
+		    SPHCompoundPCQAlloc ((SASCompoundHeap_t) baseHeader);
 		}
 #ifdef __SASDebugPrint__
 	    }
-- 
2.43.0


From 8bcdac4d508131e0a66b8bb9b9d4192e499cbf62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:21 +0000
Subject: [PATCH 51/79] fix: a compound heap that has no room for a page is not
 created

Its list of free pages was written past the end of the block, and every
allocation leaked a further block.
---
 src/sascompoundheap.cpp | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/sascompoundheap.cpp b/src/sascompoundheap.cpp
index dbde3c2..6fe29d0 100644
--- a/src/sascompoundheap.cpp
+++ b/src/sascompoundheap.cpp
@@ -171,12 +171,12 @@ SASCompoundHeapInit (void *heap_seg,
   if ( alloc_page < page_size)
 	  alloc_page = page_size;
 
-  if (heapBlock)
-    {
-      heapStart = (char *) heapBlock + alloc_page;
-      initSOMSASBlock ((SASBlockHeader *) heapBlock,
-		       SAS_RUNTIME_COMPOUNDHEAP, heap_size, heapStart);
-    }
+  if (heapBlock == NULL || heap_size <= alloc_page)
+    return NULL;
+
+  heapStart = (char *) heapBlock + alloc_page;
+  initSOMSASBlock ((SASBlockHeader *) heapBlock,
+		   SAS_RUNTIME_COMPOUNDHEAP, heap_size, heapStart);
 
   heapBlock->pageSize = page_size;
 
@@ -324,7 +324,10 @@ SASCompoundFixedHeapCreate (block_size_t heap_size)
 
       newHeap = SASCompoundHeapInit (heapBlock,
 				     heap_size, default_page, false);
-      headerBlock->loadFactor = 100;
+      if (newHeap)
+	headerBlock->loadFactor = 100;
+      else
+	SASBlockDealloc (heapBlock, heap_size);
     }
   return newHeap;
 }
@@ -339,6 +342,8 @@ SASCompoundHeapCreatePageSize (block_size_t heap_size, block_size_t page_size)
   if (heapBlock)
     {
       newHeap = SASCompoundHeapInit (heapBlock, heap_size, page_size, true);
+      if (newHeap == NULL)
+	SASBlockDealloc (heapBlock, heap_size);
     }
   return newHeap;
 }
-- 
2.43.0


From 4bbcc5aa6075580e179c2d479a9aef5288cd9df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:34 +0000
Subject: [PATCH 52/79] fix: block allocation keeps offsets past 4 GiB when it
 splits a block

---
 src/sassim.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sassim.cpp b/src/sassim.cpp
index dd802c4..33d0fbd 100644
--- a/src/sassim.cpp
+++ b/src/sassim.cpp
@@ -413,10 +413,10 @@ p2Alloc (uLongTreeNode ** root, unsigned long size)
   uLongTreeNode *n;
   uLongTreeNode **nn;
   unsigned long k, l, m;
-  unsigned long keys;
+  unsigned long keys, ui;
   unsigned long result = 0;
   unsigned int j;
-  unsigned int ui, uj;
+  unsigned int uj;
 
 #ifdef __SASDebugPrint__
   sas_printf ("p2Alloc (%p, %lu)\n", root, size);
-- 
2.43.0


From 0e4200108311f478d75c58e3c2dc614e0325436b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:34 +0000
Subject: [PATCH 53/79] fix: a segment that could not be created leaves no file
 and no gap in the region

---
 src/sassim.cpp  | 3 +++
 src/sasstname.c | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/sassim.cpp b/src/sassim.cpp
index 33d0fbd..7d0d7ed 100644
--- a/src/sassim.cpp
+++ b/src/sassim.cpp
@@ -949,6 +949,8 @@ SASCreateSegByAddr (void *segAddr, unsigned long size)
     {
       rc = SASAttachSegByName (segAddr, size,
 			       segIndex, name, createOnlyFlags);
+      if (rc)
+	SASSegStoreRemoveByName (name);
     }
 
   return rc;
@@ -1157,6 +1159,7 @@ SASBlockAllocNoLock (unsigned long blockSize)
 		}
 	      else
 		{
+		  p2Dealloc (nn, SegmentSize, segAddr);
 		  sas_printf ("SASBlockAlloc attach failed %lx\n", blockSize);
 		}
 	    }
diff --git a/src/sasstname.c b/src/sasstname.c
index b168b7c..55ffa7e 100644
--- a/src/sasstname.c
+++ b/src/sasstname.c
@@ -104,6 +104,7 @@ SASSegStoreCreateByName (char *name)
 	      sas_printf ("SASSegStoreCreateByName close failed; %s\n",
 			  strerror (errno));
 	      sas_printf (" Store Name %s\n", name);
+	      remove (name);
 	    }
 	}
       else
@@ -111,6 +112,8 @@ SASSegStoreCreateByName (char *name)
 	  sas_printf ("SASSegStoreCreateByName truncate failed with %s\n",
 		      strerror (errno));
 	  sas_printf (" Store Name %s\n", name);
+	  close (fd);
+	  remove (name);
 	}
     }
   else
-- 
2.43.0


From 4653e17f05193bb685774b5b28b7735097ab127d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:34 +0000
Subject: [PATCH 54/79] fix: SASBlockAlloc refuses sizes that are not a power
 of 2

---
 src/sassim.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/sassim.cpp b/src/sassim.cpp
index 7d0d7ed..a705b0d 100644
--- a/src/sassim.cpp
+++ b/src/sassim.cpp
@@ -1186,7 +1186,11 @@ SASBlockAlloc (unsigned long blockSize)
 #ifdef __SASDebugPrint__
   sas_printf ("SASBlockAlloc (%lx)\n", blockSize);
 #endif
-  if (blockSize <= SegmentSize)
+  if ((blockSize > block__Size4K) && (blockSize & (blockSize - 1)))
+    {
+      sas_printf ("SASBlockAlloc blocksize is not a power of 2\n");
+    }
+  else if (blockSize <= SegmentSize)
     {
       SASSeize ();
       temp = SASBlockAllocNoLock (blockSize);
-- 
2.43.0


From da403c095dc0177aba5a8f249e206aa9621677d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:38 +0000
Subject: [PATCH 55/79] fix: listings of the region read it inside the lock

---
 src/sassim.cpp | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/sassim.cpp b/src/sassim.cpp
index a705b0d..22f1b68 100644
--- a/src/sassim.cpp
+++ b/src/sassim.cpp
@@ -1496,10 +1496,11 @@ SASListFreeRegion (void **blockAddr, unsigned long *blockSize, int *count)
   int cnt = 0;
   SASAnchorBlock_t *anchor = (SASAnchorBlock_t *) memLow;
   uLongTreeNode *n;
-  uLongTreeNode *u = anchor->anchors.region;
+  uLongTreeNode *u;
   unsigned long keys = 0;
 
   SASSeize ();
+  u = anchor->anchors.region;
   do
     {
       n = u->searchNextNode (u, keys);
@@ -1523,10 +1524,11 @@ SASListAllocatedRegion (void **blockAddr,
   int cnt = 0;
   SASAnchorBlock_t *anchor = (SASAnchorBlock_t *) memLow;
   uLongTreeNode *n;
-  uLongTreeNode *u = anchor->anchors.allocated;
+  uLongTreeNode *u;
   unsigned long keys = 0;
 
   SASSeize ();
+  u = anchor->anchors.allocated;
   do
     {
       n = u->searchNextNode (u, keys);
@@ -1548,10 +1550,11 @@ int
 SASMaxDepthAllocatedRegion (void)
 {
   SASAnchorBlock_t *anchor = (SASAnchorBlock_t *) memLow;
-  uLongTreeNode *u = anchor->anchors.allocated;
+  uLongTreeNode *u;
   int maxd = 0;
 
   SASSeize ();
+  u = anchor->anchors.allocated;
   if (u != NULL)
     {
       maxd = u->maxNodeDepth ();
@@ -1565,10 +1568,11 @@ int
 SASMaxDepthUseMem (void)
 {
   SASAnchorBlock_t *anchor = (SASAnchorBlock_t *) memLow;
-  uLongTreeNode *u = anchor->anchors.used;
+  uLongTreeNode *u;
   int maxd = 0;
 
   SASSeize ();
+  u = anchor->anchors.used;
   if (u != NULL)
     {
       maxd = u->maxNodeDepth ();
@@ -1584,10 +1588,11 @@ SASListInUseMem (void **blockAddr, unsigned long *blockSize, int *count)
   int cnt = 0;
   SASAnchorBlock_t *anchor = (SASAnchorBlock_t *) memLow;
   uLongTreeNode *n;
-  uLongTreeNode *u = anchor->anchors.used;
+  uLongTreeNode *u;
   unsigned long keys = 0;
 
   SASSeize ();
+  u = anchor->anchors.used;
   do
     {
       n = u->searchNextNode (u, keys);
@@ -1610,10 +1615,11 @@ SASListUncommittedMem (void **blockAddr, unsigned long *blockSize, int *count)
   int cnt = 0;
   SASAnchorBlock_t *anchor = (SASAnchorBlock_t *) memLow;
   uLongTreeNode *n;
-  uLongTreeNode *u = anchor->anchors.uncommitted;
+  uLongTreeNode *u;
   unsigned long keys = 0;
 
   SASSeize ();
+  u = anchor->anchors.uncommitted;
   do
     {
       n = u->searchNextNode (u, keys);
@@ -1636,10 +1642,11 @@ SASListFreeMem (void **blockAddr, unsigned long *blockSize, int *count)
   int cnt = 0;
   SASAnchorBlock_t *anchor = (SASAnchorBlock_t *) memLow;
   uLongTreeNode *n;
-  uLongTreeNode *u = anchor->anchors.free;
+  uLongTreeNode *u;
   unsigned long keys = 0;
 
   SASSeize ();
+  u = anchor->anchors.free;
   do
     {
       n = u->searchNextNode (u, keys);
-- 
2.43.0


From 83ecd4567f235bf34e1a4ef428357344cdd83c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:38 +0000
Subject: [PATCH 56/79] fix: near allocation does not break up the pages of a
 compound heap

---
 src/sasalloc.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sasalloc.cpp b/src/sasalloc.cpp
index 63f7667..916f864 100644
--- a/src/sasalloc.cpp
+++ b/src/sasalloc.cpp
@@ -534,7 +534,9 @@ void* SASNearAlloc (void *nearObj, long allocSize)
 #endif
     if (block)
     {
-	temp = freeNode_allocSpace(block->blockFreeSpace, &block->blockFreeSpace,
+	/* The free space of a compound heap is for whole pages only.  */
+	if (!SOMSASCheckBlockSigAndType (block, SAS_RUNTIME_COMPOUNDHEAP))
+	    temp = freeNode_allocSpace(block->blockFreeSpace, &block->blockFreeSpace,
 						allocSize);
     }
     else
-- 
2.43.0


From 4aeda7fb0209502e4779aa1a1310bb113fe95c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:02 +0000
Subject: [PATCH 57/79] fix: freeing a block removes the headers of the blocks
 inside it

---
 src/sassim.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/sassim.cpp b/src/sassim.cpp
index 22f1b68..6595d6b 100644
--- a/src/sassim.cpp
+++ b/src/sassim.cpp
@@ -1209,6 +1209,17 @@ SASBlockDealloc (void *blockAddr, unsigned long blockSize)
   SASAnchorBlock_t *anchor = (SASAnchorBlock_t *) memLow;
   uLongTreeNode **nn = &(anchor->anchors.free);
   uLongTreeNode **uu = &(anchor->anchors.used);
+  unsigned long offset;
+
+  /* The block may still contain the headers of smaller blocks. Remove them
+     so that they are not found again when this memory is reused.  */
+  for (offset = block__Size4K; offset < blockSize; offset += block__Size4K)
+    {
+      SASBlockHeader *header =
+	(SASBlockHeader *) ((char *) blockAddr + offset);
+      if (SOMSASCheckBlockSig (header))
+	memset (header, 0, sizeof (SASBlockHeader));
+    }
 
   SASSeize ();
   uu = &(anchor->anchors.used);
-- 
2.43.0


From 75f826353930c4e1cf4ddeaf8681828e948f3a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:02 +0000
Subject: [PATCH 58/79] fix: typed blocks are zeroed to their end, of a valid
 size, and may be refused

---
 src/sasalloc.cpp | 39 +++++++++++++++++++++++++--------------
 1 file changed, 25 insertions(+), 14 deletions(-)

diff --git a/src/sasalloc.cpp b/src/sasalloc.cpp
index 916f864..25368e4 100644
--- a/src/sasalloc.cpp
+++ b/src/sasalloc.cpp
@@ -247,14 +247,18 @@ void* SASSOMAlloc (long blockSize, long /*allocSize*/)
 		    {
 			    blockSize = block__align16m;
 		    }
-#ifdef block__align256k
 		    else {
-		      if (blockSize <= block__align256k)
+		      if (blockSize <= block__align64m)
 		      {
-			blockSize = block__align256k;
+			blockSize = block__align64m;
+		      }
+		      else {
+			if (blockSize <= block__align256m)
+			{
+			  blockSize = block__align256m;
+			}
 		      }
 		    }
-#endif
 		}
 	    }
 #ifdef block__align256k
@@ -317,13 +321,16 @@ void* SASSOMAlloc (long blockSize, long /*allocSize*/)
 
 #ifndef __SAS__
 //#ifndef __SASSIM__
-    long	*first	= (long *)temp;
-    long	*last	= &first[(blockSize / sizeof(long)) - 1];
-    // initialize block to zeros
-    for ( ; first != last; )
+    if (temp != NULL)
     {
-	*first++ = 0L;
-    };
+	long	*first	= (long *)temp;
+	long	*last	= &first[blockSize / sizeof(long)];
+	// initialize block to zeros
+	for ( ; first != last; )
+	{
+	    *first++ = 0L;
+	};
+    }
 //#endif
 #endif
 
@@ -381,14 +388,18 @@ void  SASSOMDestroy(void *blockAddr, long blockSize)
 		    {
 			blockSize = block__align16m;
 		    }
-#ifdef block__align256k
 		    else {
-		      if (blockSize <= block__align256k)
+		      if (blockSize <= block__align64m)
 		      {
-			blockSize = block__align256k;
+			blockSize = block__align64m;
+		      }
+		      else {
+			if (blockSize <= block__align256m)
+			{
+			  blockSize = block__align256m;
+			}
 		      }
 		    }
-#endif
 		}
 	    }
 #ifdef block__align256k
-- 
2.43.0


From b227dbc6739b4ba06e8edbe72897638d60e774fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:08 +0000
Subject: [PATCH 59/79] fix: a string tree refuses keys that do not fit its
 header page

---
 src/sasstringbtree.cpp | 63 +++++++++++++++++++++++++++++++-----------
 1 file changed, 47 insertions(+), 16 deletions(-)

diff --git a/src/sasstringbtree.cpp b/src/sasstringbtree.cpp
index 974fbb8..38ecce8 100644
--- a/src/sasstringbtree.cpp
+++ b/src/sasstringbtree.cpp
@@ -1442,6 +1442,27 @@ SASStringBTreeHeaderAlloc (SASStringBTree_t heap, block_size_t size)
   return result;
 }
 
+/* The space a key takes in the header page.  */
+static inline block_size_t
+SASStringBTreeHeaderKeySize (const char *key)
+{
+  block_size_t key_len = (key != NULL) ? strlen (key) + 1 : 0;
+  return (key_len + sizeof (freeNode) - 1) & ~(sizeof (freeNode) - 1);
+}
+
+/* The header page holds copies of the least and the greatest key. A third
+   of its space always fits, wherever the copy of the other key is.  */
+static inline int
+SASStringBTreeKeyFits (SASStringBTreeHeader * btree, const char *key)
+{
+  block_size_t space = SASStringBTreeHeaderKeySize (btree->common->min_key)
+    + SASStringBTreeHeaderKeySize (btree->common->max_key);
+
+  if (btree->headerFreeSpace != NULL)
+    space += freeNode_freeSpaceTotal (btree->headerFreeSpace);
+  return SASStringBTreeHeaderKeySize (key) <= (space / 3);
+}
+
 static inline void
 SASStringBTreeUpdateMax (SASStringBTree_t heap, const char *key)
 {
@@ -1450,6 +1471,13 @@ SASStringBTreeUpdateMax (SASStringBTree_t heap, const char *key)
   char *tempkey;
   int key_len;
 
+  /* release the old key first: its space may be needed for the new one.  */
+  if (oldkey != NULL)
+    {
+      key_len = strlen (oldkey) + 1;
+      SASStringBTreeHeaderDealloc (heap, oldkey, key_len);
+    }
+
   if (key != NULL)
     {
       key_len = strlen (key) + 1;
@@ -1460,12 +1488,6 @@ SASStringBTreeUpdateMax (SASStringBTree_t heap, const char *key)
     {
       btree->common->max_key = NULL;
     }
-
-  if (oldkey != NULL)
-    {
-      key_len = strlen (oldkey) + 1;
-      SASStringBTreeHeaderDealloc (heap, oldkey, key_len);
-    }
 }
 
 static inline void
@@ -1476,6 +1498,13 @@ SASStringBTreeUpdateMin (SASStringBTree_t heap, const char *key)
   char *tempkey;
   int key_len;
 
+  /* release the old key first: its space may be needed for the new one.  */
+  if (oldkey != NULL)
+    {
+      key_len = strlen (oldkey) + 1;
+      SASStringBTreeHeaderDealloc (heap, oldkey, key_len);
+    }
+
   if (key != NULL)
     {
       key_len = strlen (key) + 1;
@@ -1486,12 +1515,6 @@ SASStringBTreeUpdateMin (SASStringBTree_t heap, const char *key)
     {
       btree->common->min_key = NULL;
     }
-
-  if (oldkey != NULL)
-    {
-      key_len = strlen (oldkey) + 1;
-      SASStringBTreeHeaderDealloc (heap, oldkey, key_len);
-    }
 }
 
 int
@@ -1505,7 +1528,11 @@ SASStringBTreePut (SASStringBTree_t heap, const char *key, void *value)
     {
       SASLock (heap, SasUserLock__WRITE);
 
-      if (btree->root != NULL)
+      if (!SASStringBTreeKeyFits (btree, key))
+	{
+	  /* a key of this length cannot be stored */
+	}
+      else if (btree->root != NULL)
 	{
 	  SASStringBTreeNode_t node;
 	  node = SASStringBTreeNodeInsert (btree->root, key, value, LOCK_OFF);
@@ -1533,7 +1560,7 @@ SASStringBTreePut (SASStringBTree_t heap, const char *key, void *value)
 	};
       SASUnlock (heap);
     }
-  return result;		/* False indicates duplicate key */
+  return result;		/* False indicates duplicate or overlong key */
 }
 
 int
@@ -1545,7 +1572,11 @@ SASStringBTreePut_nolock (SASStringBTree_t heap, const char *key, void *value)
   if (SOMSASCheckBlockSigAndTypeAndSubtype ((SASBlockHeader *) heap,
                                   SAS_RUNTIME_STRINGBTREE))
     {
-      if (btree->root != NULL)
+      if (!SASStringBTreeKeyFits (btree, key))
+        {
+          /* a key of this length cannot be stored */
+        }
+      else if (btree->root != NULL)
         {
           SASStringBTreeNode_t node;
           node = SASStringBTreeNodeInsert (btree->root, key, value, LOCK_OFF);
@@ -1572,7 +1603,7 @@ SASStringBTreePut_nolock (SASStringBTree_t heap, const char *key, void *value)
           result = true;
         };
     }
-  return result;                /* False indicates duplicate key */
+  return result;                /* False indicates duplicate or overlong key */
 }
 
 void *
-- 
2.43.0


From 7a3864a182dc785eee4d4caba663531eb4cea3e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:08 +0000
Subject: [PATCH 60/79] fix: a context refuses a name for no address

---
 src/sphcontext.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sphcontext.cpp b/src/sphcontext.cpp
index 539e876..5fc371c 100644
--- a/src/sphcontext.cpp
+++ b/src/sphcontext.cpp
@@ -191,10 +191,12 @@ SPHContextAddNameNoLock (SPHContext_t contxt, const char *key, void *value)
     if (SOMSASCheckBlockSigAndTypeAndSubtype (headerBlock, 
               SAS_RUNTIME_CONTEXT) )
     {
-    	char			*buff;
+    	char			*buff = NULL;
     	block_size_t	alloc_size = strlen(key) + 1;
     	
-    	buff = (char*) SPHContextAllocNoLock(contxt, alloc_size);
+    	/* NULL is what a lookup gives for a name that is not there */
+    	if (value != NULL)
+    	    buff = (char*) SPHContextAllocNoLock(contxt, alloc_size);
     	if (buff)
     	{
 			SPHContextHeader	*header = (SPHContextHeader*) headerBlock;
-- 
2.43.0


From 397b8243af3bc7996a34f0fbf77063768bbc620f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:08 +0000
Subject: [PATCH 61/79] fix: removing a context name frees its storage whole,
 and last

---
 src/sphcontext.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/sphcontext.cpp b/src/sphcontext.cpp
index 5fc371c..d61990a 100644
--- a/src/sphcontext.cpp
+++ b/src/sphcontext.cpp
@@ -403,7 +403,10 @@ SPHContextRemoveByNameNoLock (SPHContext_t contxt, const char *key)
 			if (strbuff)
 			{
 				int		strsize = strlen(strbuff) + 1;
-				
+
+				/* the key may be the stored name, so free that last */
+				SASIndexRemove (header->objID, &keyID);
+				SASStringBTreeRemove (header->name, strbuff);
 				rc = SPHContextFreeNoLock (contxt, strbuff, strsize);
 				if (rc)
 				{
@@ -414,8 +417,6 @@ SPHContextRemoveByNameNoLock (SPHContext_t contxt, const char *key)
 #endif
 				} else {
 					result = 0;
-					SASIndexRemove (header->objID, &keyID);
-					SASStringBTreeRemove (header->name, key);
 				}
 			}
 		} else {
@@ -482,7 +483,7 @@ SPHContextRemoveByAddrNoLock (SPHContext_t contxt, const void *value)
 		if (strbuff)
 		{
 			void	*val2;			
-			int		strsize = strlen(strbuff);
+			int		strsize = strlen(strbuff) + 1;
 	
 			val2 = (char*)SASStringBTreeGet(header->name, strbuff);
 			if (value == val2)
-- 
2.43.0


From 793d139555b59d6a6e7b5a10de2ae15fe381f774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:27 +0000
Subject: [PATCH 62/79] fix: a rename that fails leaves the old name in place

---
 src/sphcontext.cpp | 34 ++++++++++++++++++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/src/sphcontext.cpp b/src/sphcontext.cpp
index d61990a..d4bc8b4 100644
--- a/src/sphcontext.cpp
+++ b/src/sphcontext.cpp
@@ -436,6 +436,37 @@ SPHContextRemoveByNameNoLock (SPHContext_t contxt, const char *key)
     return result;
 }
 
+/* The new name is in place before the old one goes, so that a rename that
+   fails leaves the old one.  */
+static int
+SPHContextRenameNoLock (SPHContext_t contxt, const char *oldkey, const char *newkey, void *value)
+{
+    SPHContextHeader	*header = (SPHContextHeader*) contxt;
+    SASIndexKey_t		keyID;
+    char				*oldbuff, *newbuff;
+    block_size_t		newsize = strlen(newkey) + 1;
+
+    SASIndexKeyInitRef (&keyID, value);
+    oldbuff = (char*)SASIndexGet (header->objID, &keyID);
+    if (oldbuff == NULL || strcmp(oldbuff, oldkey) != 0)
+		return 0;
+    if (strcmp(oldbuff, newkey) == 0)
+		return 1;
+    newbuff = (char*)SPHContextAllocNoLock(contxt, newsize);
+    if (newbuff == NULL)
+		return 0;
+    strcpy(newbuff, newkey);
+    if (!SASStringBTreePut(header->name, newbuff, value))
+    {
+		SPHContextFreeNoLock(contxt, newbuff, newsize);
+		return 0;
+    }
+    SASIndexReplace (header->objID, &keyID, newbuff);
+    SASStringBTreeRemove (header->name, oldbuff);
+    SPHContextFreeNoLock(contxt, oldbuff, strlen(oldbuff) + 1);
+    return 1;
+}
+
 int
 SPHContextRename (SPHContext_t contxt, const char *oldkey, const char *newkey, void *value)
 {
@@ -450,8 +481,7 @@ SPHContextRename (SPHContext_t contxt, const char *oldkey, const char *newkey, v
     	oldval = SPHContextFindByNameNoLock(contxt, oldkey);
     	if (oldval && (oldval == value))
     	{
-		    SPHContextRemoveByNameNoLock(contxt,oldkey);
-    	    result = SPHContextAddNameNoLock(contxt, newkey, value);
+    	    result = SPHContextRenameNoLock(contxt, oldkey, newkey, value);
     	}
 		SASUnlock(contxt);
 #ifdef __SASDebugPrint__
-- 
2.43.0


From 28ac1f413f2502a92474300b414288150b5bba38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:35 +0000
Subject: [PATCH 63/79] fix: a context or project that the region has no room
 for is not created

---
 src/sphcontext.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/sphcontext.cpp b/src/sphcontext.cpp
index d4bc8b4..48b7f53 100644
--- a/src/sphcontext.cpp
+++ b/src/sphcontext.cpp
@@ -63,6 +63,8 @@ typedef struct SPHContextHeader {
 
 static SPHContext_t currentContext = NULL;
 
+int SPHContextDestroyNoLock (SPHContext_t heap);
+
 SPHContext_t 
 SPHContextInit (void* heap_seg,  sas_type_t sasType,
 		block_size_t heap_size)
@@ -109,6 +111,11 @@ SPHContextCreate (block_size_t heap_size)
 			else
 	    			sas_printf("SPHContextAlloc() Index create failed\n");
 #endif
+			if (header->name == NULL || header->objID == NULL)
+			{	/* of no use without them */
+				SPHContextDestroyNoLock (result);
+				result = NULL;
+			}
 		}
 		return result;
     } else 
@@ -761,12 +768,14 @@ SPHSetupProjectContext(const char *project_name)
 		setSASFinder(rootcntx);
 	}
 
-	result = SPHContextFindByName(rootcntx, project_name);
+	if (rootcntx)
+		result = SPHContextFindByName(rootcntx, project_name);
 	if (result)
 	{
 		currentContext = result;
 	} else {
-		result = SPHContextCreate(1024 * 1024);
+		if (rootcntx)
+			result = SPHContextCreate(1024 * 1024);
 		if (result)
 		{
 			rc = SPHContextAddName(rootcntx, project_name, result);
@@ -808,10 +817,11 @@ SPHSetupAltProjectContext(const char *project_name)
 		setSASFinder(rootcntx);
 	}
 
-	result = SPHContextFindByName(rootcntx, project_name);
+	if (rootcntx)
+		result = SPHContextFindByName(rootcntx, project_name);
 	if (result)
 	{
-	} else {
+	} else if (rootcntx) {
 		result = SPHContextCreate(1024 * 1024);
 		if (result)
 		{
-- 
2.43.0


From 3c434dfe8e0a936d0309d77602f74ed3bc8128c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:38 +0000
Subject: [PATCH 64/79] fix: near allocation from a full expansion block locks
 the base block first

---
 src/sascompoundheap.cpp | 12 ++++++++++--
 src/sasindex.cpp        |  7 ++++++-
 src/sasstringbtree.cpp  |  6 +++++-
 3 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/sascompoundheap.cpp b/src/sascompoundheap.cpp
index 6fe29d0..cf98f44 100644
--- a/src/sascompoundheap.cpp
+++ b/src/sascompoundheap.cpp
@@ -765,6 +765,9 @@ SASCompoundHeapNearAlloc (void *nearObj)
 		}
 	      else
 		{
+		  /* the base block is locked before its expansion blocks */
+		  SASUnlock (compoundHeader);
+		  compoundHeader = NULL;
 		  newHeap =
 		    SASCompoundHeapAlloc ((SASCompoundHeap_t) baseHeader);
 		}
@@ -777,7 +780,8 @@ SASCompoundHeapNearAlloc (void *nearObj)
 		 nearObj, compoundHeader);
 #endif
 	    }
-	  SASUnlock (compoundHeader);
+	  if (compoundHeader != NULL)
+	    SASUnlock (compoundHeader);
 	}
 #ifdef __SASDebugPrint__
     }
@@ -1665,6 +1669,9 @@ SPHCompoundPCQNearAlloc (void *nearObj)
 		}
 	      else
 		{
+		  /* the base block is locked before its expansion blocks */
+		  SASUnlock (compoundHeader);
+		  compoundHeader = NULL;
 		  newHeap =
 		    SPHCompoundPCQAlloc ((SASCompoundHeap_t) baseHeader);
 		}
@@ -1677,7 +1684,8 @@ SPHCompoundPCQNearAlloc (void *nearObj)
 		 nearObj, compoundHeader);
 #endif
 	    }
-	  SASUnlock (compoundHeader);
+	  if (compoundHeader != NULL)
+	    SASUnlock (compoundHeader);
 	}
 #ifdef __SASDebugPrint__
     }
diff --git a/src/sasindex.cpp b/src/sasindex.cpp
index 0f9be6b..5486312 100644
--- a/src/sasindex.cpp
+++ b/src/sasindex.cpp
@@ -659,6 +659,10 @@ SASIndexNearAlloc(void *nearObj)
 				{
 					newHeap = SASIndexAllocInternal (compoundHeader);
 				} else {
+					/* the base block is locked before its
+					 * expansion blocks */
+					SASUnlock(compoundHeader);
+					compoundHeader = NULL;
 					newHeap = SASIndexAlloc ((SASIndex_t)baseHeader);
 				}
 #ifdef __SASDebugPrint__
@@ -667,7 +671,8 @@ SASIndexNearAlloc(void *nearObj)
 				                 nearObj, compoundHeader);
 #endif
 		    }
-		    SASUnlock(compoundHeader);
+		    if (compoundHeader != NULL)
+		    	SASUnlock(compoundHeader);
 		}
 #ifdef __SASDebugPrint__
     } else {
diff --git a/src/sasstringbtree.cpp b/src/sasstringbtree.cpp
index 38ecce8..01ca9ea 100644
--- a/src/sasstringbtree.cpp
+++ b/src/sasstringbtree.cpp
@@ -712,6 +712,9 @@ SASStringBTreeNearAlloc (void *nearObj)
 		}
 	      else
 		{
+		  /* the base block is locked before its expansion blocks */
+		  SASUnlock (compoundHeader);
+		  compoundHeader = NULL;
 		  newHeap =
 		    SASStringBTreeAlloc ((SASStringBTree_t) baseHeader);
 		}
@@ -724,7 +727,8 @@ SASStringBTreeNearAlloc (void *nearObj)
 		 nearObj, compoundHeader);
 #endif
 	    }
-	  SASUnlock (compoundHeader);
+	  if (compoundHeader != NULL)
+	    SASUnlock (compoundHeader);
 	}
 #ifdef __SASDebugPrint__
     }
-- 
2.43.0


From 33cbd4ba002615df9dbf929f983f4d30ba3ba04d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:50 +0000
Subject: [PATCH 65/79] fix: a region is created by one process at a time and
 attached only when complete

---
 src/saslock.cpp | 12 +++++---
 src/saslock.h   |  3 +-
 src/sassim.cpp  | 76 +++++++++++++++++++++++++++++++++++++++++++++++--
 3 files changed, 83 insertions(+), 8 deletions(-)

diff --git a/src/saslock.cpp b/src/saslock.cpp
index d1aa026..0434a46 100644
--- a/src/saslock.cpp
+++ b/src/saslock.cpp
@@ -43,7 +43,7 @@ SASLockReset (void)
     SasLockOwner = 1;
 }
 
-void
+int
 SASLockInit (void)
 {
     char *lock_addr = (char *)__SAS_TEMP_ADDRESS;
@@ -51,7 +51,10 @@ SASLockInit (void)
                                           lock_addr, __SAS_SHMAP_MAX);
     if ( SasLockMemID != -1 )
     {
-    	if (errno != EEXIST)
+	/* A segment without a lock table is new, or its creator ended
+	   before the table was complete.  */
+	ml = (SasMasterLock*) getSASBlockSpecial (lock_addr);
+	if (!ml)
 	{
 	    SASBlockHeader *shm_locks = (SASBlockHeader*)SASSimpleHeapInit( lock_addr, 
 	    						SAS_RUNTIME_LOCKTABLE, 
@@ -60,10 +63,11 @@ SASLockInit (void)
 	    ml = new (shm_locks) SasMasterLock(kMasterLockSize);
 	    setSASBlockSpecial (lock_addr, ml);
 	    SasLockOwner = 1;
-	} else {
-	    ml = (SasMasterLock*) getSASBlockSpecial (lock_addr); 
 	}
+	return 0;
     }
+    ml = 0;
+    return 1;
 }
 
 void
diff --git a/src/saslock.h b/src/saslock.h
index ca1a890..0fe4af5 100644
--- a/src/saslock.h
+++ b/src/saslock.h
@@ -83,8 +83,9 @@ SASLockReset (void);
 *	This shm segment will hold the shared lock tables that hold active
 *	symbolic locks.
 *
+*	@return 0 or, if the lock tables are not available, a nonzero value.
 */
-extern __C__ void
+extern __C__ int
 SASLockInit (void);
 
 
diff --git a/src/sassim.cpp b/src/sassim.cpp
index 6595d6b..0e71ec5 100644
--- a/src/sassim.cpp
+++ b/src/sassim.cpp
@@ -14,6 +14,7 @@
 // test for storage allocation
 #include <sys/types.h>
 #include <sys/stat.h>
+#include <sys/file.h>
 #include <fcntl.h>
 #include <sys/ipc.h>
 /*
@@ -55,6 +56,9 @@
 #define	createFlags (IPC_CREAT | 0666 )
 #define	attachFlags ( 0666 )
 
+/* The anchor segment exists, but who created it did not complete the region. */
+#define REGION_INCOMPLETE 4
+
 typedef struct
 {
   SASBlockHeader header;
@@ -725,7 +729,8 @@ initRegion ()
   initSOMSASBlock (anchorBlock, SAS_RUNTIME_ANCHOR, block__Size1M, blockHeap);
   anchorBlock->special = anchorBlock + 1;
   anchor = (SASAnchor_t *) anchorBlock->special;
-  anchor->regionSize = RegionSize;
+  /* The region is incomplete until its size is known (see below).  */
+  anchor->regionSize = 0;
   anchor->finder = NULL;
   anchor->uncommitted = NULL;
   anchor->free = NULL;
@@ -783,6 +788,8 @@ initRegion ()
   p2AddUsed (nn, SegmentSize, anchorBlock);
 
   initSASSem (anchor);
+  /* Only now the region is complete and other processes may attach it.  */
+  anchor->regionSize = RegionSize;
 }
 
 #if __GNUC__ && __GNUC_PREREQ(12,0)
@@ -1247,6 +1254,8 @@ int
 SASAttachAnchorSeg (void *regionBase, size_t regionSize, size_t segmentSize)
 {
   char storeName[STORE_NAME_SIZE];
+  struct stat stat_buf;
+  SASAnchorBlock_t *anchor = (SASAnchorBlock_t *) regionBase;
   int rc = 0;
 #ifdef __SASDebugPrint__
   sas_printf ("SASAttachAnchorSeg(%p, %zu, %zu)\n",
@@ -1258,8 +1267,17 @@ SASAttachAnchorSeg (void *regionBase, size_t regionSize, size_t segmentSize)
 #ifdef __SASDebugPrint__
       sas_printf ("SASAttachAnchorSeg Anchor file <%s>\n", storeName);
 #endif
+      if (!stat (storeName, &stat_buf)
+	  && (size_t) stat_buf.st_size < segmentSize)
+	return REGION_INCOMPLETE;
       rc = SASAttachSegByName ((char *) regionBase, segmentSize,
 			       0, storeName, attachFlags);
+      if (!rc && !anchor->anchors.regionSize)
+	{
+	  munmap (regionBase, segmentSize);
+	  mem_IDs[0] = 0;
+	  return REGION_INCOMPLETE;
+	}
       if (!rc)
 	{
 	  memLow = (unsigned long) regionBase;
@@ -1396,12 +1414,42 @@ SASDisableSigSegv ()
 #endif
 }
 
+/* Only one process at a time creates or attaches the region of a store.  */
+static int
+lockStore (void)
+{
+  int rc;
+  int fd = open (*sasStorePath ? sasStorePath : "/", O_RDONLY | O_CLOEXEC);
+
+  if (fd != -1)
+    {
+      do
+	rc = flock (fd, LOCK_EX);
+      while (rc == -1 && errno == EINTR);
+      if (rc == -1)
+	{
+	  sas_printf ("lockStore flock failed; %s\n", strerror (errno));
+	  close (fd);
+	  fd = -1;
+	}
+    }
+  return fd;
+}
+
+static void
+unlockStore (int fd)
+{
+  if (fd != -1)
+    close (fd);
+}
+
 int
 SASJoinRegionByName (const char *store_name)
 {
   int segs = (int) (RegionSize / SegmentSize);
   size_t memIDsize = (RegionSize / SegmentSize) * sizeof (*mem_IDs);
   int rc = 1;
+  int lockfd;
   int i;
 
   if (store_name != NULL)
@@ -1431,10 +1479,14 @@ SASJoinRegionByName (const char *store_name)
       for (i = 0; i < segs; i++)
 	mem_IDs[i] = 0;
     }
+  lockfd = lockStore ();
   rc = SASAttachAnchorSeg ((char *) __SAS_BASE_ADDRESS,
 			   RegionSize, SegmentSize);
   if (rc)
     {
+      // A process ended before it completed the region. Start again.
+      if ((rc == REGION_INCOMPLETE) && (lockfd != -1))
+	SASSegStoreRemove (0);
       // The Anchor segment does not exist in the named store.
       // So create a new region in this store.
 #ifdef __SASDebugPrint__
@@ -1469,8 +1521,26 @@ SASJoinRegionByName (const char *store_name)
 	    (MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED), -1, 0);
     }
 
-  SASLockInit ();
-  SASEnableSigSegv ();
+  if (!rc)
+    {
+      rc = SASLockInit ();
+      if (rc)
+	{
+	  SASDetachAllocatedSegs ();
+	  SASDetachSegByAddr ((void *) getMemLow (), SegmentSize);
+	  munmap ((char *) getMemHigh (), 4096);
+	}
+    }
+  unlockStore (lockfd);
+  if (!rc)
+    SASEnableSigSegv ();
+  else
+    {
+      free (mem_IDs);
+      mem_IDs = NULL;
+      free (sasStorePath);
+      sasStorePath = NULL;
+    }
 
   return rc;
 }
-- 
2.43.0


From a5b8e863fb2068dffaf484e04dca13b0fb64c087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:50 +0000
Subject: [PATCH 66/79] fix: resetting the region leaves its semaphore with one
 unit

---
 src/sassim.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sassim.cpp b/src/sassim.cpp
index 0e71ec5..01a3868 100644
--- a/src/sassim.cpp
+++ b/src/sassim.cpp
@@ -1784,9 +1784,9 @@ SASReset ()
 {
   SASSeize ();
   SASRemoveAllocatedSegs ();
+  /* This also leaves the new semaphore released.  */
   initRegion ();
   SASLockReset ();
-  SASRelease ();
 }
 
 void
-- 
2.43.0


From a7ae73b69ffa115de8d7988b3e61cbf106e6bfd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:50 +0000
Subject: [PATCH 67/79] fix: removing the region releases what joining it set
 up

---
 src/sassim.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/sassim.cpp b/src/sassim.cpp
index 01a3868..dbf28c0 100644
--- a/src/sassim.cpp
+++ b/src/sassim.cpp
@@ -1797,12 +1797,18 @@ SASRemove ()
   sas_printf ("SASRemove()\n");
 #endif
   SASRemoveAllocatedSegs ();
+  destroySASSem (&anchor->anchors);
   if (SASRemoveSegByAddr (anchor, SegmentSize))
     sas_printf ("SASRemove: SASRemoveSegByAddr failed\n");
   SASLockReset ();
   SASLockRemove ();
-  destroySASSem (&anchor->anchors);
+  SASDisableSigSegv ();
+  munmap ((char *) getMemHigh (), 4096);
+
   free (mem_IDs);
+  mem_IDs = NULL;
+  free (sasStorePath);
+  sasStorePath = NULL;
 }
 
 static __thread struct sigaction oldThreadSigSegV;
-- 
2.43.0


From 669cf052a9d3c43937bf4a3df60ffc09c236b1d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:00 +0000
Subject: [PATCH 68/79] fix: a forked process and the main thread have their
 own identity

---
 src/sphthread.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/sphthread.c b/src/sphthread.c
index e7a7aa5..4bbedf2 100644
--- a/src/sphthread.c
+++ b/src/sphthread.c
@@ -18,6 +18,7 @@
 #include <errno.h>
 #include <string.h>
 #include <syscall.h>
+#include <pthread.h>
 #include "sphthread.h"
 
 __thread pid_t threadID = 0;
@@ -96,11 +97,22 @@ sphdeGetCmdLine (void)
 }
 
 #ifdef SPH_PROCINIT_CTOR
+/* A child process does not have the identity of its parent.  */
+static void
+sph_child_procinfo (void)
+{
+  procID = getpid ();
+  threadID = 0;
+  sphdeGetTID ();
+}
+
 void
 __attribute__((constructor))
 sph_init_procinfo (void)
 {
 	procID = getpid ();
     sphdeGetCmdLine_internal (procID);
+    sphdeGetTID ();
+    pthread_atfork (NULL, NULL, sph_child_procinfo);
 }
 #endif /* SPH_PROCINIT_CTOR */
-- 
2.43.0


From 430220c8a1fcbd11cf61b38b482cd4930fdb1887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:45 +0000
Subject: [PATCH 69/79] fix: a reset region does not contain the headers of old
 blocks

---
 src/sassim.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sassim.cpp b/src/sassim.cpp
index dbf28c0..e68817d 100644
--- a/src/sassim.cpp
+++ b/src/sassim.cpp
@@ -1784,6 +1784,10 @@ SASReset ()
 {
   SASSeize ();
   SASRemoveAllocatedSegs ();
+  /* The anchor segment still contains the blocks' old headers.  */
+  if (madvise ((char *) memLow + block__Size1M,
+	       SegmentSize - block__Size1M, MADV_REMOVE))
+    memset ((char *) memLow + block__Size1M, 0, SegmentSize - block__Size1M);
   /* This also leaves the new semaphore released.  */
   initRegion ();
   SASLockReset ();
-- 
2.43.0


From 222bdae612ab0d5055955ae613673535f8fd11cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:43 +0000
Subject: [PATCH 70/79] fix: joining by an empty or overlong store name is
 refused

---
 src/sassim.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/sassim.cpp b/src/sassim.cpp
index e68817d..a8913c5 100644
--- a/src/sassim.cpp
+++ b/src/sassim.cpp
@@ -1456,6 +1456,11 @@ SASJoinRegionByName (const char *store_name)
     {
       int pathlen, malloclen;
       pathlen = strlen (store_name);
+      /* The names of the segment files have to fit as well.  */
+      if (pathlen == 0
+	  || (pathlen - (store_name[pathlen - 1] == '/')
+	      + sizeof ("/SAS00000.DAT")) > STORE_NAME_SIZE)
+	return (3);
       malloclen = (pathlen + 2 + 8) & ~(7);
       sasStorePath = (char *) malloc (malloclen);
       sasStorePath = strcpy (sasStorePath, store_name);
-- 
2.43.0


From c34be0541bf13370aa5c5f5865f5e0ce5fcf1dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:34 +0000
Subject: [PATCH 71/79] fix: a process that leaves or resets the region has no
 current project

---
 src/sassim.cpp     | 4 ++++
 src/sphcontext.cpp | 3 ++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/sassim.cpp b/src/sassim.cpp
index a8913c5..44274c1 100644
--- a/src/sassim.cpp
+++ b/src/sassim.cpp
@@ -70,6 +70,7 @@ typedef struct
   uLongTreeNode *root;
 } roottype;
 
+extern void *currentContext __attribute__ ((visibility ("hidden")));
 unsigned long memLow __attribute__ ((visibility ("hidden")));
 unsigned long memHigh __attribute__ ((visibility ("hidden")));
 
@@ -1796,6 +1797,7 @@ SASReset ()
   /* This also leaves the new semaphore released.  */
   initRegion ();
   SASLockReset ();
+  currentContext = NULL;
 }
 
 void
@@ -1814,6 +1816,7 @@ SASRemove ()
   SASDisableSigSegv ();
   munmap ((char *) getMemHigh (), 4096);
 
+  currentContext = NULL;
   free (mem_IDs);
   mem_IDs = NULL;
   free (sasStorePath);
@@ -1923,6 +1926,7 @@ SASCleanUp ()
   SASDisableSigSegv ();
   munmap ((char *) getMemHigh (), 4096);
 
+  currentContext = NULL;
   free (mem_IDs);
   mem_IDs = NULL;
   free (sasStorePath);
diff --git a/src/sphcontext.cpp b/src/sphcontext.cpp
index 48b7f53..01de94d 100644
--- a/src/sphcontext.cpp
+++ b/src/sphcontext.cpp
@@ -61,7 +61,8 @@ typedef struct SPHContextHeader {
 #define DEFAULT_BLOCK (1024*1024)
 #endif
 
-static SPHContext_t currentContext = NULL;
+/* Also cleared when the process leaves or resets the region.  */
+SPHContext_t currentContext __attribute__ ((visibility ("hidden"))) = NULL;
 
 int SPHContextDestroyNoLock (SPHContext_t heap);
 
-- 
2.43.0


From a3947352271d7815bd3e1369746bef7a2bf51469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:40 +0000
Subject: [PATCH 72/79] fix: write back the extended expand list of a compound
 heap

SASCompoundHeapWriteAll and SASCompoundHeapPurgeAll wrote back every heap block
but not the block that holds the list of them once it has outgrown the built-in
one, so a heap of more than 254 blocks could not be found from the written pages.
---
 src/sascompoundheap.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/sascompoundheap.cpp b/src/sascompoundheap.cpp
index cf98f44..14155e1 100644
--- a/src/sascompoundheap.cpp
+++ b/src/sascompoundheap.cpp
@@ -1010,6 +1010,11 @@ SASCompoundHeapWriteAll (SASCompoundHeap_t heap, int asyncBool)
 			     subHeap->blockHeader.blockSize, asyncBool);
 	    }
 	}
+      /* an extended expand list has a block of its own */
+      if (c_heap->expandSpace != NULL)
+	sasMsyncWrite (c_heap->expandSpace,
+		       ((SASBlockHeader *) c_heap->expandSpace)->blockSize,
+		       asyncBool);
       sasMsyncWrite (headerBlock, c_heap->blockHeader.blockSize, asyncBool);
       SASUnlock (heap);
 #ifdef __SASDebugPrint__
@@ -1048,6 +1053,11 @@ SASCompoundHeapPurgeAll (SASCompoundHeap_t heap, int asyncBool)
 			     subHeap->blockHeader.blockSize, asyncBool);
 	    }
 	}
+      /* an extended expand list has a block of its own */
+      if (c_heap->expandSpace != NULL)
+	sasMsyncPurge (c_heap->expandSpace,
+		       ((SASBlockHeader *) c_heap->expandSpace)->blockSize,
+		       asyncBool);
       sasMsyncPurge (headerBlock, c_heap->blockHeader.blockSize, asyncBool);
       SASUnlock (heap);
 #ifdef __SASDebugPrint__
-- 
2.43.0


From 3de1df7ac98c37b3bd791df2eee6c2b6cab284bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:34 +0000
Subject: [PATCH 73/79] fix: SOMSASSetBlockSubType replaced the whole type by 0
 or 1

It combined the type and the new subtype with a logical instead of a bitwise or.
---
 src/sasalloc.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sasalloc.h b/src/sasalloc.h
index 973e62c..ac0e3c5 100644
--- a/src/sasalloc.h
+++ b/src/sasalloc.h
@@ -158,7 +158,7 @@ SOMSASSetBlockSubType (SASBlockHeader* header,
                                                            sas_type_t sasType)
 {
     header->blockType = (header->blockType &  ~SAS_SUB_TYPE_MASK)
-                 || (sasType & SAS_SUB_TYPE_MASK);
+                 | (sasType & SAS_SUB_TYPE_MASK);
 }
 
 static inline sas_type_t
-- 
2.43.0


From d2ea68f38b80ec8887d917b211302bf35f372c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:42:41 +0000
Subject: [PATCH 74/79] fix: resetting the region lost the lock table's space
 and parted the processes' locks

---
 src/saslock.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/saslock.cpp b/src/saslock.cpp
index 0434a46..bd77e5c 100644
--- a/src/saslock.cpp
+++ b/src/saslock.cpp
@@ -36,7 +36,10 @@ SASLockReset (void)
     }
     
     void *lock_addr = (void *)__SAS_TEMP_ADDRESS;
-    SASBlockHeader *shm_locks = (SASBlockHeader*)lock_addr;
+    /* The table is built anew at its old place, which other processes know.  */
+    SASBlockHeader *shm_locks = (SASBlockHeader*)SASSimpleHeapInit( lock_addr, 
+    						SAS_RUNTIME_LOCKTABLE, 
+						__SAS_SHMAP_MAX	/* SegmentSize */ );
 
     ml = new (shm_locks) SasMasterLock(kMasterLockSize);
     setSASBlockSpecial (lock_addr, ml);
-- 
2.43.0


From 06be7f4aeadb5a041d796828605ae4c037fb6591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:52 +0000
Subject: [PATCH 75/79] fix: sasutil stat and detail printed the region tree's
 depth for the memory in use

---
 src/sasutil.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sasutil.c b/src/sasutil.c
index 9d50bc6..b81a3aa 100644
--- a/src/sasutil.c
+++ b/src/sasutil.c
@@ -291,7 +291,7 @@ sasutil_stat_cmd(int argc, char *argv[])
     tUsed = tUsed + sizeList[i];
   };
   cUsed = count;
-  mUsed = SASMaxDepthAllocatedRegion();
+  mUsed = SASMaxDepthUseMem();
 
   SASListFreeMem (addrList, sizeList, &count);
   tFree = 0L;
@@ -363,7 +363,7 @@ sasutil_detail_cmd(int argc, char *argv[])
     tUsed = tUsed + sizeList[i];
     printf ("%03d: %p - %ldKB\n", i, addrList[i], (sizeList[i]/1024));
   }
-  maxd = SASMaxDepthAllocatedRegion();
+  maxd = SASMaxDepthUseMem();
 
   printf ("Total in use:      %ldKB\n", (tUsed/1024));
   printf (" Max Tree Depth:    %d over %d entries\n\n", maxd, count);
-- 
2.43.0


From 09c5094f66fdcd05f85a5c71cb4822b4bdcc0e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:52 +0000
Subject: [PATCH 76/79] fix: sasutil overran its stack when a store had more
 than 8192 blocks

---
 src/sasutil.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sasutil.c b/src/sasutil.c
index b81a3aa..c029b60 100644
--- a/src/sasutil.c
+++ b/src/sasutil.c
@@ -130,7 +130,8 @@
  */
 
 #define ARRAY_SIZE(x)  (sizeof(x)/sizeof(x[0]))
-#define MAX_ADDR_LIST  8192
+/* A list entry takes at least 32 bytes of the 1 MiB anchor block.  */
+#define MAX_ADDR_LIST  32768
 #define MAX_LINE_LEN   512
 
 #ifdef __WORDSIZE_64
-- 
2.43.0


From 1c486a16a116dd98d62bb958bba17c8b2e311835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:52 +0000
Subject: [PATCH 77/79] fix: sasutil dump crashed on an argument without an
 address or a size

---
 src/sasutil.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sasutil.c b/src/sasutil.c
index c029b60..27a023a 100644
--- a/src/sasutil.c
+++ b/src/sasutil.c
@@ -467,14 +467,14 @@ sasutil_dump_cmd(int argc, char *argv[])
     unsigned long value;
 
     memoryAddrStr = strtok(argv[i], ":");
-    if (sasutil_get_uint(memoryAddrStr, &value, 16)) {
-      fprintf(stderr, "  Error: invalid argument: %s\n", memoryAddrStr);
+    if (!memoryAddrStr || sasutil_get_uint(memoryAddrStr, &value, 16)) {
+      fprintf(stderr, "  Error: invalid argument: %s\n", argv[i]);
       exit(EXIT_FAILURE);
     }
     memoryAddr = (void*)value;
 
     memoryLenStr = strtok(NULL, ":");
-    if (sasutil_get_uint(memoryLenStr, &memoryLen, 10)) {
+    if (!memoryLenStr || sasutil_get_uint(memoryLenStr, &memoryLen, 10)) {
       fprintf(stderr, "  Error: invalid argument: %s\n", memoryAddrStr);
       exit(EXIT_FAILURE);
     }
-- 
2.43.0


From 824a40a734f72319caadd12b47a118b3700dab70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:52 +0000
Subject: [PATCH 78/79] fix: sasutil list dumped the anchor and left out the
 smallest block in use

---
 src/sasutil.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/sasutil.c b/src/sasutil.c
index 27a023a..4476955 100644
--- a/src/sasutil.c
+++ b/src/sasutil.c
@@ -20,6 +20,7 @@
 
 #include "sasconf.h"
 #include "sassim.h"
+#include "sasalloc.h"
 
 
 /*!
@@ -521,13 +522,19 @@ sasutil_list_cmd(int argc, char *argv[])
     tUsed = tUsed + sizeList[i];
 
     printf ("%03d: %p - %ldKB\n", i, addrList[i], (sizeList[i]/1024));
-    if (i != 0) {
-      int *tmpptr = (int*)addrList[i];
+    /* The anchor block, which may be merged with blocks that follow it,
+       is not dumped.  */
+    char *start = (char*)addrList[i];
+    if (start == (char*)getMemLow())
+      start += block__Size1M;
+    if (start < (char*)addrList[i] + sizeList[i]) {
+      int *tmpptr = (int*)start;
       if (*tmpptr == sasTag.sasInt) {
-	printf(" %s\n", (char*)addrList[i]);
+	printf(" %s\n", start);
       } else {
-	unsigned long *temp = (unsigned long *)addrList[i];
-	unsigned long count = sizeList[i]/ sizeof(unsigned long);
+	unsigned long *temp = (unsigned long *)start;
+	unsigned long count = ((char*)addrList[i] + sizeList[i] - start)
+	  / sizeof(unsigned long);
 	unsigned long i;
 
 	printf("starting scan @ %p, %ld\n",temp, count);
-- 
2.43.0


From 12a42b3f35743050ac2a3cd7f23cf4c60d7dbc62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:03 +0000
Subject: [PATCH 79/79] fix: sasutil map without a PID shows the current
 process

---
 src/sasutil.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/sasutil.c b/src/sasutil.c
index 4476955..3acbbb9 100644
--- a/src/sasutil.c
+++ b/src/sasutil.c
@@ -610,13 +610,21 @@ sasutil_map_cmd(int argc, char *argv[])
   FILE *arq;
   char path[MAXPATHLEN];
   char line[MAX_LINE_LEN];
+  char self[16];
+  char *selfv[] = { self };
   int i;
 
+  if (argc == 0) {
+    snprintf(self, sizeof(self), "%d", (int)getpid());
+    argc = 1;
+    argv = selfv;
+  }
+
   for (i=0; i<argc; ++i) {
     pid_t pid;
     unsigned long uintpid;
     if (sasutil_get_uint(argv[i], &uintpid, 10)) {
-      fprintf(stderr, "  Error: invalid argument: %s\n", optarg);
+      fprintf(stderr, "  Error: invalid argument: %s\n", argv[i]);
       exit(EXIT_FAILURE);
     }
     pid = uintpid;
@@ -632,6 +640,7 @@ sasutil_map_cmd(int argc, char *argv[])
     while (fgets(line, MAX_LINE_LEN, arq)) {
       printf("%s", line);
     }
+    fclose(arq);
   }
 }
 
-- 
2.43.0

