From 094afe92ce6053d2f6c2f24a7631c0b5712e0a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:38 +0000
Subject: [PATCH 01/68] fix: SASSimpleStackDeallocNoLock accepted a misaligned
 stack pointer

The locked variant refuses a misaligned stack pointer with -3; the NoLock
variant stored it, so the following allocations were misaligned.
---
 src/sassimplestack.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/sassimplestack.cpp b/src/sassimplestack.cpp
index 0ac1235..6948c04 100644
--- a/src/sassimplestack.cpp
+++ b/src/sassimplestack.cpp
@@ -260,8 +260,21 @@ SASSimpleStackDeallocNoLock (SASSimpleStack_t heap, void *stack_pointer)
       if ((new_sp >= headerBlock->start_stack)
 	  && (new_sp <= headerBlock->end_stack))
 	{
-	  headerBlock->next_stack = new_sp;
-	  rc = 0;
+	  new_sp &= headerBlock->align_mask;
+	  if (new_sp == (node_size_t) stack_pointer)
+	    {
+	      headerBlock->next_stack = new_sp;
+	      rc = 0;
+	    }
+	  else
+	    {
+	      rc = -3;
+#ifdef __SASDebugPrint__
+	      sas_printf
+		("SASSimpleStackDeallocNoLock(%p, %p) alignment check failed\n",
+		 heap, stack_pointer);
+#endif
+	    }
 	}
       else
 	{
-- 
2.43.0


From 8281000deeafac3474afb09c259dc3b8526d87f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:38 +0000
Subject: [PATCH 02/68] fix: SASSimpleStackAllocNoLock wrapped around for a
 huge request

next_stack + alloc_size overflowed for requests near the top of the address
range, so the allocation succeeded and the stack top moved backwards.
---
 src/sassimplestack.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sassimplestack.cpp b/src/sassimplestack.cpp
index 6948c04..32c4193 100644
--- a/src/sassimplestack.cpp
+++ b/src/sassimplestack.cpp
@@ -111,7 +111,8 @@ SASSimpleStackAllocNoLock (SASSimpleStack_t heap, block_size_t alloc_size)
       round = ~headerBlock->align_mask;
       stacknext = (headerBlock->next_stack + alloc_size + round)
 	& headerBlock->align_mask;
-      if (stacknext <= headerBlock->end_stack)
+      if ((alloc_size <= headerBlock->end_stack - headerBlock->next_stack)
+	  && (stacknext <= headerBlock->end_stack))
 	{
 	  stack_alloc = headerBlock->next_stack;
 	  headerBlock->next_stack = stacknext;
-- 
2.43.0


From b3b09541e5a64318230acbe3169a2c141aaf94ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:25 +0000
Subject: [PATCH 03/68] fix: SASFindHeader missed blocks of 2K, 8K, 32K, 128K,
 256K, 512K, ... bytes

Only some of the legal power of two sizes were tried (and 256K used the 256
byte mask), so an address inside such a block resolved to a neighbouring block
or to nothing and the near operations worked on the wrong object.
---
 src/sasalloc.cpp | 91 +++++-------------------------------------------
 1 file changed, 8 insertions(+), 83 deletions(-)

diff --git a/src/sasalloc.cpp b/src/sasalloc.cpp
index d4e9bdb..637b4c1 100644
--- a/src/sasalloc.cpp
+++ b/src/sasalloc.cpp
@@ -460,91 +460,16 @@ SASBlockHeader *SASFindHeader (const void *nearObj)
          ((temp >= __SAS_TEMP_ADDRESS) && (temp < (__SAS_TEMP_FREE)))) {
 #endif
 #endif
-	temp = temp & block__mask512;
-	block = (SASBlockHeader *)temp;
+	uintptr_t	size;
 
-#ifdef __SASDebugPrint__
-   sas_printf("SASFindHeader mask=%lx -> %p \n",block__mask512, block);
-#endif
-	if ( !SOMSASCheckBlockSig(block) )
+	/* Blocks are aligned to their power of two size, so the innermost
+	   header is at one of the power of two boundaries below nearObj.  */
+	for (size = block__Size512; size <= block__Size256M; size += size)
 	{
-	    temp = temp & block__mask1k;
-	    block = (SASBlockHeader *)temp;
-
-	    if ( !SOMSASCheckBlockSig(block) )
-	    {
-		temp = temp & block__mask4k;
-		block = (SASBlockHeader *)temp;
-
-		if ( !SOMSASCheckBlockSig(block) )
-		{
-#ifdef block__mask16k
-		  temp = temp & block__mask16k;
-		  block = (SASBlockHeader *)temp;
-
-		  if ( !SOMSASCheckBlockSig(block) )
-		  {
-#endif
-		    temp = temp & block__mask64k;
-		    block = (SASBlockHeader *)temp;
-
-		    if ( !SOMSASCheckBlockSig(block) )
-		    {
-#ifdef block__mask256k
-		      temp = temp & block__mask256;
-		      block = (SASBlockHeader *)temp;
-
-		      if ( !SOMSASCheckBlockSig(block) )
-		      {
-#endif
-			temp = temp & block__mask1m;
-			block = (SASBlockHeader *)temp;
-
-			if ( !SOMSASCheckBlockSig(block) )
-			{
-			    temp = temp & block__mask4m;
-			    block = (SASBlockHeader *)temp;
-
-			    if ( !SOMSASCheckBlockSig(block) )
-			    {
-				temp = temp & block__mask16m;
-				block = (SASBlockHeader *)temp;
-
-				if ( !SOMSASCheckBlockSig(block) )
-				{
-#ifdef block__mask64m
-				  temp = temp & block__mask64m;
-				  block = (SASBlockHeader *)temp;
-
-				  if ( !SOMSASCheckBlockSig(block) )
-				  {
-#ifdef block__mask256m
-				    temp = temp & block__mask256m;
-				    block = (SASBlockHeader *)temp;
-
-				    if ( !SOMSASCheckBlockSig(block) )
-				    {
-				      block = NULL;
-				    }
-#else
-				    block = NULL;
-#endif
-				  }
-#else
-				    block = NULL;
-#endif
-				}
-			    }
-			}
-#ifdef block__mask256k
-		      }
-#endif
-		    }
-#ifdef block__mask16k
-		  }
-#endif
-		}
-	   }
+	    block = (SASBlockHeader *)(temp & ~(size - 1));
+	    if ( SOMSASCheckBlockSig(block) )
+		break;
+	    block = NULL;
 	}
 #ifdef __SASDebugPrint__
 	    sas_printf("SASFindHeader low=%lx, high=%lx, tmp_low=%lx, tmp_hign=%lx\n",
-- 
2.43.0


From dd44842fafb5bc0a86267c9c43509423439c81af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:21 +0000
Subject: [PATCH 04/68] verif: guarded build-time B-tree fan-out (SPHDE_VERIF,
 SPHDE_VERIF_FANOUT)

---
 src/sasalloc.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sasalloc.h b/src/sasalloc.h
index 973e62c..43d4c9a 100644
--- a/src/sasalloc.h
+++ b/src/sasalloc.h
@@ -100,7 +100,11 @@ typedef struct SASBlockHeader {
 # define heap_offset 64
 #endif
 #define default_page 4096
+#if defined(SPHDE_VERIF) && defined(SPHDE_VERIF_FANOUT)
+#define default_max  SPHDE_VERIF_FANOUT
+#else
 #define default_max  63
+#endif
 
 #ifdef __cplusplus
 #define __C__ "C"
-- 
2.43.0


From e5818732b70c96063e85c76684d68102a3c22c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:16 +0000
Subject: [PATCH 05/68] fix: SASIndexEnum kept a pointer to a key that a
 removal frees

The position is now a copy of the key; the smallest key is enumerated even if
it is the only one and 0; an emptied index ends the enumeration.
---
 src/sasindexenum.cpp | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/sasindexenum.cpp b/src/sasindexenum.cpp
index d86b9b1..893a949 100644
--- a/src/sasindexenum.cpp
+++ b/src/sasindexenum.cpp
@@ -94,8 +94,9 @@ SASIndexEnumNext (SASIndexEnum_t idxenum)
 #endif
   if (maxkey != NULL)
     {
-      indexenum->hasmore =
-	(SASIndexKeyCompare (indexenum->curkey, maxkey) < 0);
+      /* Nothing returned yet: the smallest key is next, whatever it is.  */
+      indexenum->hasmore = (indexenum->ref.node == NULL)
+	|| (SASIndexKeyCompare (indexenum->curkey, maxkey) < 0);
       if (indexenum->hasmore)
 	{
 	  SASIndexNode_t curnode = indexenum->ref.node;
@@ -112,7 +113,7 @@ SASIndexEnumNext (SASIndexEnum_t idxenum)
 		      curpos++;
 		      indexenum->ref.pos = curpos;
 		      result = curSBnode->vals[curpos];
-		      indexenum->curkey = curSBnode->keys[curpos];
+		      SASIndexKeyCopy (indexenum->curkey, curSBnode->keys[curpos]);
 		      indexenum->hasmore =
 			(SASIndexKeyCompare (indexenum->curkey, maxkey) < 0);
 		      found = true;
@@ -128,7 +129,7 @@ SASIndexEnumNext (SASIndexEnum_t idxenum)
 			  curSBnode = (SASIndexNodeHeader *) curnode;
 			  curpos = indexenum->ref.pos;
 			  result = curSBnode->vals[curpos];
-			  indexenum->curkey = curSBnode->keys[curpos];
+			  SASIndexKeyCopy (indexenum->curkey, curSBnode->keys[curpos]);
 			  indexenum->hasmore =
 			    (SASIndexKeyCompare (indexenum->curkey, maxkey) <
 			     0);
@@ -165,7 +166,7 @@ SASIndexEnumNext (SASIndexEnum_t idxenum)
 		  SASIndexNodeHeader *curSBnode =
 		    (SASIndexNodeHeader *) indexenum->ref.node;
 		  result = curSBnode->vals[curpos];
-		  indexenum->curkey = curSBnode->keys[curpos];
+		  SASIndexKeyCopy (indexenum->curkey, curSBnode->keys[curpos]);
 		  indexenum->curmod = treemod;
 		  indexenum->hasmore =
 		    (SASIndexKeyCompare (indexenum->curkey, maxkey) < 0);
@@ -180,10 +181,11 @@ SASIndexEnumNext (SASIndexEnum_t idxenum)
 		}
 	    }
 	}
-#ifdef __SASDebugPrint__
     }
   else
     {
+      indexenum->hasmore = false;
+#ifdef __SASDebugPrint__
       sas_printf ("SASIndexEnumNext; enum->tree=%p invalid\n",
 		  indexenum->tree);
 #endif
@@ -209,8 +211,9 @@ SASIndexEnumNext_nolock (SASIndexEnum_t idxenum)
 #endif
   if (maxkey != NULL)
     {
-      indexenum->hasmore =
-	(SASIndexKeyCompare (indexenum->curkey, maxkey) < 0);
+      /* Nothing returned yet: the smallest key is next, whatever it is.  */
+      indexenum->hasmore = (indexenum->ref.node == NULL)
+	|| (SASIndexKeyCompare (indexenum->curkey, maxkey) < 0);
       if (indexenum->hasmore)
 	{
 	  SASIndexNode_t curnode = indexenum->ref.node;
@@ -227,7 +230,7 @@ SASIndexEnumNext_nolock (SASIndexEnum_t idxenum)
 		      curpos++;
 		      indexenum->ref.pos = curpos;
 		      result = curSBnode->vals[curpos];
-		      indexenum->curkey = curSBnode->keys[curpos];
+		      SASIndexKeyCopy (indexenum->curkey, curSBnode->keys[curpos]);
 		      indexenum->hasmore =
 			(SASIndexKeyCompare (indexenum->curkey, maxkey) < 0);
 		      found = true;
@@ -243,7 +246,7 @@ SASIndexEnumNext_nolock (SASIndexEnum_t idxenum)
 			  curSBnode = (SASIndexNodeHeader *) curnode;
 			  curpos = indexenum->ref.pos;
 			  result = curSBnode->vals[curpos];
-			  indexenum->curkey = curSBnode->keys[curpos];
+			  SASIndexKeyCopy (indexenum->curkey, curSBnode->keys[curpos]);
 			  indexenum->hasmore =
 			    (SASIndexKeyCompare (indexenum->curkey, maxkey) <
 			     0);
@@ -280,7 +283,7 @@ SASIndexEnumNext_nolock (SASIndexEnum_t idxenum)
 		  SASIndexNodeHeader *curSBnode =
 		    (SASIndexNodeHeader *) indexenum->ref.node;
 		  result = curSBnode->vals[curpos];
-		  indexenum->curkey = curSBnode->keys[curpos];
+		  SASIndexKeyCopy (indexenum->curkey, curSBnode->keys[curpos]);
 		  indexenum->curmod = treemod;
 		  indexenum->hasmore =
 		    (SASIndexKeyCompare (indexenum->curkey, maxkey) < 0);
@@ -295,10 +298,11 @@ SASIndexEnumNext_nolock (SASIndexEnum_t idxenum)
 		}
 	    }
 	}
-#ifdef __SASDebugPrint__
     }
   else
     {
+      indexenum->hasmore = false;
+#ifdef __SASDebugPrint__
       sas_printf ("SASIndexEnumNext_nolock; enum->tree=%p invalid\n",
 		  indexenum->tree);
 #endif
-- 
2.43.0


From c5a878830bee277ee60cfdaaef9bfe6133a5718e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:16 +0000
Subject: [PATCH 06/68] fix: SASStringBTreeEnum kept a pointer to a name that a
 removal frees

The position is now a copy. An enumeration started at a name begins with the
first name not below it (it began with names below it, and refused to start
at the last name); an emptied tree ends the enumeration.
---
 src/sasstringbtreeenum.cpp | 90 +++++++++++++++++++++++++-------------
 1 file changed, 59 insertions(+), 31 deletions(-)

diff --git a/src/sasstringbtreeenum.cpp b/src/sasstringbtreeenum.cpp
index 74c0568..b28df3b 100644
--- a/src/sasstringbtreeenum.cpp
+++ b/src/sasstringbtreeenum.cpp
@@ -28,6 +28,7 @@ typedef struct __SBEnumeration
 {
   SASStringBTree_t tree;
   char *curkey;
+  char *poskey;			/* copy of the key this enumeration stands on */
   SBTnodePosRef ref;
   long curmod;
   long curcount;
@@ -37,6 +38,21 @@ typedef struct __SBEnumeration
 
 typedef void *SASStringBTreeEnum_t;
 
+/* Move to key. The key in the tree may go away before the next step, so the
+   position is a copy of it.  */
+static void
+SBEnumSetKey (__SBEnumeration * stringenum, char *key)
+{
+  char *copy = strdup (key);
+  stringenum->curkey = key;
+  if (copy != NULL)
+    {
+      if (stringenum->poskey != &stringenum->entryString[0])
+	free (stringenum->poskey);
+      stringenum->poskey = copy;
+    }
+}
+
 SASStringBTreeEnum_t
 SASStringBTreeEnumCreate (SASStringBTree_t tree)
 {
@@ -54,6 +70,7 @@ SASStringBTreeEnumCreate (SASStringBTree_t tree)
 	  stringenum->ref.pos = 0;
 	  stringenum->entryString[0] = '\0';
 	  stringenum->curkey = &stringenum->entryString[0];
+	  stringenum->poskey = &stringenum->entryString[0];
 	}
       else
 	{
@@ -81,21 +98,20 @@ SASStringBTreeEnumCreateStartAt (SASStringBTree_t tree, char *start_key)
     {
       SASLock (tree, SasUserLock__WRITE);
       maxkey = SASStringBTreeGetMaxKey (tree);
-      if ((maxkey != NULL) && (strcmp (start_key, maxkey) < 0))
+      if ((maxkey != NULL) && (strcmp (start_key, maxkey) <= 0))
 	{
 	  stringenum->curmod = SASStringBTreeGetModCount (tree);
 	  stringenum->curcount = SASStringBTreeGetCurCount (tree);
 	  if (stringenum->curmod != 0L)
 	    {
-	      stringenum->hasmore = (strcmp (start_key, maxkey) < 0);
+	      stringenum->hasmore = (strcmp (start_key, maxkey) <= 0);
 	      stringenum->tree = tree;
 	      stringenum->ref.node = NULL;
 	      stringenum->ref.pos = 0;
 	      memcpy ((char *) &stringenum->entryString[0],
 		      start_key, startkey_len);
-	      if (stringenum->entryString[0] != '\0')
-		stringenum->entryString[startkey_len - 2] -= 1;
 	      stringenum->curkey = &stringenum->entryString[0];
+	      stringenum->poskey = &stringenum->entryString[0];
 	    }
 	  else
 	    {
@@ -115,8 +131,12 @@ SASStringBTreeEnumCreateStartAt (SASStringBTree_t tree, char *start_key)
 }
 
 void
-SASStringBTreeEnumDestroy (SASStringBTreeEnum_t stringenum)
+SASStringBTreeEnumDestroy (SASStringBTreeEnum_t sbtenum)
 {
+  __SBEnumeration *stringenum = (__SBEnumeration *) sbtenum;
+  if ((stringenum != NULL)
+      && (stringenum->poskey != &stringenum->entryString[0]))
+    free (stringenum->poskey);
   free (stringenum);
 }
 
@@ -158,7 +178,10 @@ SASStringBTreeEnumNext (SASStringBTreeEnum_t sbtenum)
 #endif
   if (maxkey != NULL)
     {
-      stringenum->hasmore = (strcmp (stringenum->curkey, maxkey) < 0);
+      int order = strcmp (stringenum->poskey, maxkey);
+      /* Before the first step the position is the start key itself.  */
+      stringenum->hasmore = (stringenum->ref.node == NULL) ? (order <= 0)
+							    : (order < 0);
       if (stringenum->hasmore)
 	{
 	  SASStringBTreeNode_t curnode = stringenum->ref.node;
@@ -176,16 +199,16 @@ SASStringBTreeEnumNext (SASStringBTreeEnum_t sbtenum)
 		      curpos++;
 		      stringenum->ref.pos = curpos;
 		      result = curSBnode->vals[curpos];
-		      stringenum->curkey = curSBnode->keys[curpos];
+		      SBEnumSetKey (stringenum, curSBnode->keys[curpos]);
 		      stringenum->hasmore =
-			(strcmp (stringenum->curkey, maxkey) < 0);
+			(strcmp (stringenum->poskey, maxkey) < 0);
 		      found = true;
 		    }
 		  else
 		    {
 		      found =
 			SASStringBTreeNodeSearchGT (curnode,
-						    stringenum->curkey,
+						    stringenum->poskey,
 						    &stringenum->ref);
 		      if (found)
 			{
@@ -193,10 +216,10 @@ SASStringBTreeEnumNext (SASStringBTreeEnum_t sbtenum)
 			  curSBnode = (SASStringBTreeNodeHeader *) curnode;
 			  curpos = stringenum->ref.pos;
 			  result = curSBnode->vals[curpos];
-			  stringenum->curkey = curSBnode->keys[curpos];
+			  SBEnumSetKey (stringenum, curSBnode->keys[curpos]);
 			  stringenum->curcount -= 1;
 			  stringenum->hasmore =
-			    (strcmp (stringenum->curkey, maxkey) < 0);
+			    (strcmp (stringenum->poskey, maxkey) < 0);
 			}
 		    }
 		  if (stringenum->hasmore)
@@ -211,14 +234,14 @@ SASStringBTreeEnumNext (SASStringBTreeEnum_t sbtenum)
 	    {
 #if __SASDebugPrint__ > 1
     sas_printf ("SASStringBTreeEnumNext; !found enum->tree=%s\n",
-            stringenum->tree, stringenum->curkey);
+            stringenum->tree, stringenum->poskey);
 #endif
 	      SASStringBTreeNode_t curnode =
 		SASStringBTreeGetRootNode (stringenum->tree);
               if (stringenum->ref.node == NULL)
               {
 	          found =
-		  SASStringBTreeNodeSearchGE (curnode, stringenum->curkey,
+		  SASStringBTreeNodeSearchGE (curnode, stringenum->poskey,
 					    &stringenum->ref);
 #if __SASDebugPrint__ > 1
     sas_printf ("SASStringBTreeEnumNext; !found curnode=%p SearchGE=%d\n",
@@ -226,7 +249,7 @@ SASStringBTreeEnumNext (SASStringBTreeEnum_t sbtenum)
 #endif
               } else {
 	          found =
-		  SASStringBTreeNodeSearchGT (curnode, stringenum->curkey,
+		  SASStringBTreeNodeSearchGT (curnode, stringenum->poskey,
 					    &stringenum->ref);
 #if __SASDebugPrint__ > 1
     sas_printf ("SASStringBTreeEnumNext; !found curnode=%p SearchGT=%d\n",
@@ -239,12 +262,12 @@ SASStringBTreeEnumNext (SASStringBTreeEnum_t sbtenum)
 		  SASStringBTreeNodeHeader *curSBnode =
 		    (SASStringBTreeNodeHeader *) stringenum->ref.node;
 		  result = curSBnode->vals[curpos];
-		  stringenum->curkey = curSBnode->keys[curpos];
+		  SBEnumSetKey (stringenum, curSBnode->keys[curpos]);
 		  stringenum->curmod = treemod;
 		  stringenum->curcount =
 		    SASStringBTreeGetCurCount (stringenum->tree);
 		  stringenum->hasmore =
-		    (strcmp (stringenum->curkey, maxkey) < 0);
+		    (strcmp (stringenum->poskey, maxkey) < 0);
 #if __SASDebugPrint__ > 1
      sas_printf ("SASStringBTreeEnumNext; curpos=%hd node=%p result=%p\n",
                                   curpos, curSBnode, result);
@@ -256,16 +279,17 @@ SASStringBTreeEnumNext (SASStringBTreeEnum_t sbtenum)
 		}
 	    }
 	}
-#ifdef __SASDebugPrint__
     }
   else
     {
+      stringenum->hasmore = false;
+#ifdef __SASDebugPrint__
       sas_printf ("SASStringBTreeEnumNext; enum->tree=%p invalid\n",
 		  stringenum->tree);
 #endif
     }
   SASUnlock (stringenum->tree);
-//      sas_printf("{%s,%s,%d}",stringenum->curkey, maxkey, stringenum->hasmore);
+//      sas_printf("{%s,%s,%d}",stringenum->poskey, maxkey, stringenum->hasmore);
 
   return result;
 }
@@ -286,7 +310,10 @@ SASStringBTreeEnumNext_nolock (SASStringBTreeEnum_t sbtenum)
 #endif
   if (maxkey != NULL)
     {
-      stringenum->hasmore = (strcmp (stringenum->curkey, maxkey) < 0);
+      int order = strcmp (stringenum->poskey, maxkey);
+      /* Before the first step the position is the start key itself.  */
+      stringenum->hasmore = (stringenum->ref.node == NULL) ? (order <= 0)
+							    : (order < 0);
       if (stringenum->hasmore)
 	{
 	  SASStringBTreeNode_t curnode = stringenum->ref.node;
@@ -304,16 +331,16 @@ SASStringBTreeEnumNext_nolock (SASStringBTreeEnum_t sbtenum)
 		      curpos++;
 		      stringenum->ref.pos = curpos;
 		      result = curSBnode->vals[curpos];
-		      stringenum->curkey = curSBnode->keys[curpos];
+		      SBEnumSetKey (stringenum, curSBnode->keys[curpos]);
 		      stringenum->hasmore =
-			(strcmp (stringenum->curkey, maxkey) < 0);
+			(strcmp (stringenum->poskey, maxkey) < 0);
 		      found = true;
 		    }
 		  else
 		    {
 		      found =
 			SASStringBTreeNodeSearchGT (curnode,
-						    stringenum->curkey,
+						    stringenum->poskey,
 						    &stringenum->ref);
 		      if (found)
 			{
@@ -321,10 +348,10 @@ SASStringBTreeEnumNext_nolock (SASStringBTreeEnum_t sbtenum)
 			  curSBnode = (SASStringBTreeNodeHeader *) curnode;
 			  curpos = stringenum->ref.pos;
 			  result = curSBnode->vals[curpos];
-			  stringenum->curkey = curSBnode->keys[curpos];
+			  SBEnumSetKey (stringenum, curSBnode->keys[curpos]);
 			  stringenum->curcount -= 1;
 			  stringenum->hasmore =
-			    (strcmp (stringenum->curkey, maxkey) < 0);
+			    (strcmp (stringenum->poskey, maxkey) < 0);
 			}
 		    }
 		  if (stringenum->hasmore)
@@ -339,14 +366,14 @@ SASStringBTreeEnumNext_nolock (SASStringBTreeEnum_t sbtenum)
 	    {
 #if __SASDebugPrint__ > 1
     sas_printf ("SASStringBTreeEnumNext_nolock; !found enum->tree=%s\n",
-            stringenum->tree, stringenum->curkey);
+            stringenum->tree, stringenum->poskey);
 #endif
 	      SASStringBTreeNode_t curnode =
 		SASStringBTreeGetRootNodeNoLock (stringenum->tree);
               if (stringenum->ref.node == NULL)
               {
 	          found =
-		  SASStringBTreeNodeSearchGE (curnode, stringenum->curkey,
+		  SASStringBTreeNodeSearchGE (curnode, stringenum->poskey,
 					    &stringenum->ref);
 #if __SASDebugPrint__ > 1
     sas_printf ("SASStringBTreeEnumNext_nolock; !found curnode=%p SearchGE=%d\n",
@@ -354,7 +381,7 @@ SASStringBTreeEnumNext_nolock (SASStringBTreeEnum_t sbtenum)
 #endif
               } else {
 	          found =
-		  SASStringBTreeNodeSearchGT (curnode, stringenum->curkey,
+		  SASStringBTreeNodeSearchGT (curnode, stringenum->poskey,
 					    &stringenum->ref);
 #if __SASDebugPrint__ > 1
     sas_printf ("SASStringBTreeEnumNext_nolock; !found curnode=%p SearchGT=%d\n",
@@ -367,12 +394,12 @@ SASStringBTreeEnumNext_nolock (SASStringBTreeEnum_t sbtenum)
 		  SASStringBTreeNodeHeader *curSBnode =
 		    (SASStringBTreeNodeHeader *) stringenum->ref.node;
 		  result = curSBnode->vals[curpos];
-		  stringenum->curkey = curSBnode->keys[curpos];
+		  SBEnumSetKey (stringenum, curSBnode->keys[curpos]);
 		  stringenum->curmod = treemod;
 		  stringenum->curcount =
 		    SASStringBTreeGetCurCount (stringenum->tree);
 		  stringenum->hasmore =
-		    (strcmp (stringenum->curkey, maxkey) < 0);
+		    (strcmp (stringenum->poskey, maxkey) < 0);
 #if __SASDebugPrint__ > 1
      sas_printf ("SASStringBTreeEnumNext_nolock; curpos=%hd node=%p result=%p\n",
                                   curpos, curSBnode, result);
@@ -384,15 +411,16 @@ SASStringBTreeEnumNext_nolock (SASStringBTreeEnum_t sbtenum)
 		}
 	    }
 	}
-#ifdef __SASDebugPrint__
     }
   else
     {
+      stringenum->hasmore = false;
+#ifdef __SASDebugPrint__
       sas_printf ("SASStringBTreeEnumNext_nolock; enum->tree=%p invalid\n",
 		  stringenum->tree);
 #endif
     }
-//      sas_printf("{%s,%s,%d}",stringenum->curkey, maxkey, stringenum->hasmore);
+//      sas_printf("{%s,%s,%d}",stringenum->poskey, maxkey, stringenum->hasmore);
 
   return result;
 }
-- 
2.43.0


From 055c8a9ac724c6115131f94b8a1b9bd041bf52fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:33 +0000
Subject: [PATCH 07/68] fix: index and string tree counted refused puts,
 replaces and absent removes

The count decides IsEmpty and whether the smallest and largest keys are
updated, so these went wrong after any such call.
---
 src/sasindex.cpp       | 14 ++++++++------
 src/sasstringbtree.cpp | 14 ++++++++------
 2 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/sasindex.cpp b/src/sasindex.cpp
index 860fcb9..379a405 100644
--- a/src/sasindex.cpp
+++ b/src/sasindex.cpp
@@ -1399,7 +1399,8 @@ SASIndexPut (SASIndex_t  heap, SASIndexKey_t *key, void *value)
 			btree->common->modCount++;
 			result = true;
 		};
-		btree->common->count++;
+		if (result)
+		    btree->common->count++;
 		SASUnlock(heap);
     }
 	return result; /* False indicates duplicate key */
@@ -1437,7 +1438,8 @@ SASIndexPut_nolock (SASIndex_t  heap, SASIndexKey_t *key, void *value)
 			btree->common->modCount++;
 			result = true;
 		};
-		btree->common->count++;
+		if (result)
+		    btree->common->count++;
     }
 	return result; /* False indicates duplicate key */
 }
@@ -1465,7 +1467,6 @@ SASIndexReplace (SASIndex_t  heap, SASIndexKey_t *key, void *value)
 				result = SASIndexNodePutValIndexed(ref.node, ref.pos, value);
 		    }
 		}
-		btree->common->count++;
 		SASUnlock(heap);
     }
 	return result; // return prev value if already exist
@@ -1493,7 +1494,6 @@ SASIndexReplace_nolock (SASIndex_t  heap, SASIndexKey_t *key, void *value)
 				result = SASIndexNodePutValIndexed(ref.node, ref.pos, value);
 		    }
 		}
-		btree->common->count++;
     }
 	return result; // return prev value if already exist
 }
@@ -1531,7 +1531,8 @@ SASIndexRemove (SASIndex_t  heap, SASIndexKey_t *key)
 		    }
 		    if ( btree->root != NULL )
 		    {
-				btree->common->count--;
+				if (found)
+				    btree->common->count--;
 				if (btree->common->count > 0)
 				{
 				    if(SASIndexKeyCompare(key, btree->common->min_key) == 0)
@@ -1598,7 +1599,8 @@ SASIndexRemove_nolock (SASIndex_t  heap, SASIndexKey_t *key)
 		    }
 		    if ( btree->root != NULL )
 		    {
-				btree->common->count--;
+				if (found)
+				    btree->common->count--;
 				if (btree->common->count > 0)
 				{
 				    if(SASIndexKeyCompare(key, btree->common->min_key) == 0)
diff --git a/src/sasstringbtree.cpp b/src/sasstringbtree.cpp
index 512837e..9d137cf 100644
--- a/src/sasstringbtree.cpp
+++ b/src/sasstringbtree.cpp
@@ -1521,7 +1521,8 @@ SASStringBTreePut (SASStringBTree_t heap, const char *key, void *value)
 	  btree->common->modCount++;
 	  result = true;
 	};
-      btree->common->count++;
+      if (result)
+          btree->common->count++;
       SASUnlock (heap);
     }
   return result;		/* False indicates duplicate key */
@@ -1560,7 +1561,8 @@ SASStringBTreePut_nolock (SASStringBTree_t heap, const char *key, void *value)
           btree->common->modCount++;
           result = true;
         };
-      btree->common->count++;
+      if (result)
+          btree->common->count++;
     }
   return result;                /* False indicates duplicate key */
 }
@@ -1589,7 +1591,6 @@ SASStringBTreeReplace (SASStringBTree_t heap, const char *key, void *value)
 		SASStringBTreeNodePutValIndexed (ref.node, ref.pos, value);
 	    }
 	}
-      btree->common->count++;
       SASUnlock (heap);
     }
   return result;		// return prev value if already exist
@@ -1618,7 +1619,6 @@ SASStringBTreeReplace_nolock (SASStringBTree_t heap, const char *key, void *valu
                 SASStringBTreeNodePutValIndexed (ref.node, ref.pos, value);
             }
         }
-      btree->common->count++;
     }
   return result;                // return prev value if already exist
 }
@@ -1656,7 +1656,8 @@ SASStringBTreeRemove (SASStringBTree_t heap, const char *key)
 	    }
 	  if (btree->root != NULL)
 	    {
-	      btree->common->count--;
+	      if (found)
+	          btree->common->count--;
               if (btree->common->count > 0)
                 {
                   if(strcmp(key, btree->common->min_key) == 0)
@@ -1723,7 +1724,8 @@ SASStringBTreeRemove_nolock (SASStringBTree_t heap, const char *key)
             }
           if (btree->root != NULL)
             {
-              btree->common->count--;
+              if (found)
+                  btree->common->count--;
               if (btree->common->count > 0)
                 {
                   if(strcmp(key, btree->common->min_key) == 0)
-- 
2.43.0


From a0d2eccc66fb5e95439e182e365ecbcec793202a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:33 +0000
Subject: [PATCH 08/68] fix: index and string tree looked only one level down
 for the new smallest or largest key after a remove

---
 src/sasindex.cpp       | 8 ++++----
 src/sasstringbtree.cpp | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/sasindex.cpp b/src/sasindex.cpp
index 379a405..2e99d18 100644
--- a/src/sasindex.cpp
+++ b/src/sasindex.cpp
@@ -1538,7 +1538,7 @@ SASIndexRemove (SASIndex_t  heap, SASIndexKey_t *key)
 				    if(SASIndexKeyCompare(key, btree->common->min_key) == 0)
 				    {
 				        node = (SASIndexNodeHeader *) btree->root;
-				        if (node->branch[0] != NULL)
+				        while (node->branch[0] != NULL)
 				        {
 				            node = node->branch[0];
 				        }
@@ -1547,7 +1547,7 @@ SASIndexRemove (SASIndex_t  heap, SASIndexKey_t *key)
 				    if(SASIndexKeyCompare(key, btree->common->max_key) == 0)
 				    {
 				        node = (SASIndexNodeHeader *) btree->root;
-				        if(node->branch[node->count] != NULL)
+				        while (node->branch[node->count] != NULL)
 				        {
 				            node = node->branch[node->count];
 				        }
@@ -1606,7 +1606,7 @@ SASIndexRemove_nolock (SASIndex_t  heap, SASIndexKey_t *key)
 				    if(SASIndexKeyCompare(key, btree->common->min_key) == 0)
 				    {
 				        node = (SASIndexNodeHeader *) btree->root;
-				        if (node->branch[0] != NULL)
+				        while (node->branch[0] != NULL)
 				        {
 				            node = node->branch[0];
 				        }
@@ -1615,7 +1615,7 @@ SASIndexRemove_nolock (SASIndex_t  heap, SASIndexKey_t *key)
 				    if(SASIndexKeyCompare(key, btree->common->max_key) == 0)
 				    {
 				        node = (SASIndexNodeHeader *) btree->root;
-				        if(node->branch[node->count] != NULL)
+				        while (node->branch[node->count] != NULL)
 				        {
 				            node = node->branch[node->count];
 				        }
diff --git a/src/sasstringbtree.cpp b/src/sasstringbtree.cpp
index 9d137cf..d7b5bbc 100644
--- a/src/sasstringbtree.cpp
+++ b/src/sasstringbtree.cpp
@@ -1663,14 +1663,14 @@ SASStringBTreeRemove (SASStringBTree_t heap, const char *key)
                   if(strcmp(key, btree->common->min_key) == 0)
                     {
                        node = (SASStringBTreeNodeHeader *) btree->root;
-                       if (node->branch[0] != NULL)
+                       while (node->branch[0] != NULL)
                           node = node->branch[0];
                        SASStringBTreeUpdateMin(heap, node->keys[1]);
                     }
                   if(strcmp(key, btree->common->max_key) == 0)
                     {
                        node = (SASStringBTreeNodeHeader *) btree->root;
-                       if (node->branch[node->count] != NULL)
+                       while (node->branch[node->count] != NULL)
                           node = node->branch[node->count];
                        SASStringBTreeUpdateMax(heap, node->keys[(node->count)]);
                     }
@@ -1731,14 +1731,14 @@ SASStringBTreeRemove_nolock (SASStringBTree_t heap, const char *key)
                   if(strcmp(key, btree->common->min_key) == 0)
                     {
                        node = (SASStringBTreeNodeHeader *) btree->root;
-                       if (node->branch[0] != NULL)
+                       while (node->branch[0] != NULL)
                           node = node->branch[0];
                        SASStringBTreeUpdateMin(heap, node->keys[1]);
                     }
                   if(strcmp(key, btree->common->max_key) == 0)
                     {
                        node = (SASStringBTreeNodeHeader *) btree->root;
-                       if (node->branch[node->count] != NULL)
+                       while (node->branch[node->count] != NULL)
                           node = node->branch[node->count];
                        SASStringBTreeUpdateMax(heap, node->keys[(node->count)]);
                     }
-- 
2.43.0


From 8354c8aab32fa41352f3e6b71b279603bb2ca45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:33 +0000
Subject: [PATCH 09/68] fix: index and string tree created in a reused block
 started with that block's old contents

root, the expand list of a fixed tree and the count were left as found.
---
 src/sasindex.cpp       | 3 +++
 src/sasstringbtree.cpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/sasindex.cpp b/src/sasindex.cpp
index 2e99d18..0f29278 100644
--- a/src/sasindex.cpp
+++ b/src/sasindex.cpp
@@ -177,6 +177,8 @@ SASIndexInit (void* heap_seg,
     freeNode_init(heapBlock->headerFreeSpace, remaining);
     heapBlock->blockHeader.baseBlock = (SASBlockHeader*)heapBlock;
     heapBlock->blockHeader.nextBlock = (SASBlockHeader*)heapBlock;
+    heapBlock->root = NULL;
+    heapBlock->expandList = NULL;
     
     if (expanding)
     {
@@ -205,6 +207,7 @@ SASIndexInit (void* heap_seg,
 		heapBlock->common = commonAlloc;
 		commonAlloc->version = 0;
 		commonAlloc->modCount = 1;
+		commonAlloc->count = 0;
 		commonAlloc->max_key = NULL;
 		commonAlloc->min_key = NULL;
 #ifdef __SASDebugPrint__
diff --git a/src/sasstringbtree.cpp b/src/sasstringbtree.cpp
index d7b5bbc..71c1d29 100644
--- a/src/sasstringbtree.cpp
+++ b/src/sasstringbtree.cpp
@@ -178,6 +178,8 @@ SASStringBTreeInit (void *heap_seg,
   freeNode_init (heapBlock->headerFreeSpace, remaining);
   heapBlock->blockHeader.baseBlock = (SASBlockHeader *) heapBlock;
   heapBlock->blockHeader.nextBlock = (SASBlockHeader *) heapBlock;
+  heapBlock->root = NULL;
+  heapBlock->expandList = NULL;
 
   if (expanding)
     {
@@ -213,6 +215,7 @@ SASStringBTreeInit (void *heap_seg,
       heapBlock->common = commonAlloc;
       commonAlloc->version = 0;
       commonAlloc->modCount = 1;
+      commonAlloc->count = 0;
       commonAlloc->max_key = NULL;
       commonAlloc->min_key = NULL;
 #ifdef __SASDebugPrint__
-- 
2.43.0


From 568de1e52e6ad4efc9ed4284eba462330f10cdf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:51 +0000
Subject: [PATCH 10/68] fix: sasindexkey.h used the 32-bit key layout unless
 the application had included sasconf.h

A program that includes sasindex.h first built keys with 16-bit sizes and
32-bit masks, which the 64-bit library reads as 32-bit sizes.
---
 src/sasindexkey.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sasindexkey.h b/src/sasindexkey.h
index 659cc77..07e1bfc 100644
--- a/src/sasindexkey.h
+++ b/src/sasindexkey.h
@@ -13,6 +13,7 @@
 #define __SAS_INDEXKEY_H
 
 #include <string.h>
+#include "sasconf.h"
 
 /*!
  * \file  sasindexkey.h
-- 
2.43.0


From d53d7b1f0881ddb475c0f5199d7367b56182c179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:51 +0000
Subject: [PATCH 11/68] fix: SASIndexKeyCompare ordered keys of different sizes
 by their bytes

Keys of equal size compare word by word; on little-endian machines the two
orders disagree, so an index holding keys of both sizes loses keys.
---
 src/sasindexkey.h | 40 +++++++++++++++++-----------------------
 1 file changed, 17 insertions(+), 23 deletions(-)

diff --git a/src/sasindexkey.h b/src/sasindexkey.h
index 07e1bfc..49b8711 100644
--- a/src/sasindexkey.h
+++ b/src/sasindexkey.h
@@ -95,36 +95,30 @@ SASIndexKeyCompare (const SASIndexKey_t * op_a, const SASIndexKey_t * op_b)
   else
     {
       size_t len = op_a->compare_size;
+      unsigned int i;
 
-      if (op_a->compare_size != op_b->compare_size)
-	{
-	  if (op_a->compare_size > op_b->compare_size)
-	    len = op_b->compare_size;
-
-	  rc = memcmp (&op_a->data[0], &op_b->data[0], len);
+      if (op_b->compare_size < len)
+	len = op_b->compare_size;
 
-	  if ((rc == 0) && (op_a->compare_size != op_b->compare_size))
+      /* Word by word, so that the order does not depend on the sizes.  */
+      for (i = 1; i < (len / sizeof (machine_uint_t)); i++)
+	{
+	  if (op_a->data[i] != op_b->data[i])
 	    {
-	      if (op_a->compare_size < op_b->compare_size)
-		rc = -1;
-	      else
+	      if (op_a->data[i] > op_b->data[i])
 		rc = 1;
+	      else
+		rc = -1;
+	      break;
 	    }
 	}
-      else if (len > sizeof (machine_uint_t))
+
+      if ((rc == 0) && (op_a->compare_size != op_b->compare_size))
 	{
-	  unsigned int i = 1;
-	  for (i = 1; i < (len / sizeof (machine_uint_t)); i++)
-	    {
-	      if (op_a->data[i] != op_b->data[i])
-		{
-		  if (op_a->data[i] > op_b->data[i])
-		    rc = 1;
-		  else
-		    rc = -1;
-		  break;
-		}
-	    }
+	  if (op_a->compare_size < op_b->compare_size)
+	    rc = -1;
+	  else
+	    rc = 1;
 	}
     }
   return rc;
-- 
2.43.0


From 50f83f580305cc506841b8de32fa06f83fa4689f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:51 +0000
Subject: [PATCH 12/68] fix: SASIndexKeyInitDouble turned minus zero into the
 smallest key of all

---
 src/sasindexkey.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sasindexkey.h b/src/sasindexkey.h
index 49b8711..ca79409 100644
--- a/src/sasindexkey.h
+++ b/src/sasindexkey.h
@@ -304,7 +304,8 @@ SASIndexKeyInitDouble (SASIndexKey_t * dest, double value)
 {
   sasindexkeymap_t	key_val;
 
-  key_val.double_key = value;
+  /* Minus zero is the number zero.  */
+  key_val.double_key = (value == 0.0) ? 0.0 : value;
 #ifdef __WORDSIZE_64
   dest->compare_size = sizeof (unsigned long long);
   dest->copy_size = sizeof (void *) + sizeof (unsigned long long);
-- 
2.43.0


From ffffe7906197476ae5b8933874749f959455629b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:17 +0000
Subject: [PATCH 13/68] fix: index and string tree growing a store of one block
 looped over 2^64 list entries

The count of expansion blocks to unlock was computed as count - 2 in an unsigned
type (and, in the other allocator, after the list had grown, so that the last
block was unlocked twice).
---
 src/sasindex.cpp       | 12 ++++++------
 src/sasstringbtree.cpp | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/sasindex.cpp b/src/sasindex.cpp
index 0f29278..bed288b 100644
--- a/src/sasindex.cpp
+++ b/src/sasindex.cpp
@@ -410,6 +410,7 @@ SASIndexAlloc (SASIndex_t heap)
 	    	
 	    	if (SASIndexPercentUsed(lastHeader) >= DEFAULT_LOAD_FACTOR)
 	    	{
+	    		last_lock = list->count - 1;
 				for ( i = 0; i < list->count-1; i++ )
 				{
 					SASIndexHeader	*expandBlock = list->heap[i];
@@ -419,7 +420,7 @@ SASIndexAlloc (SASIndex_t heap)
 			    	       < DEFAULT_LOAD_FACTOR )
 			    	{
 			    		expandHeader = expandBlock;
-			    		last_lock = i;
+			    		last_lock = i + 1;
 			    		break;
 			    	}
 				}
@@ -427,7 +428,6 @@ SASIndexAlloc (SASIndex_t heap)
 				{
 					expandHeader = (SASIndexHeader*)
 					                 SASIndexExpandCreate (heap);
-		    		last_lock = list->count-2;
 				}
 	    	} else {
 	    		expandHeader = lastHeader;
@@ -437,7 +437,7 @@ SASIndexAlloc (SASIndex_t heap)
 				
 	    	if (lastHeader != expandHeader)
 	    	{
-				for ( i = 1; i <= last_lock; i++ )
+				for ( i = 1; i < last_lock; i++ )
 				{
 	    			SASUnlock(list->heap[i]);
 				}
@@ -730,7 +730,7 @@ SASIndexSpillAllocExtended (SASIndex_t heap, lock_on_t lock_on)
 	    	
 	    	if (SASIndexPercentUsed(lastHeader) >= DEFAULT_LOAD_FACTOR)
 	    	{
-	    		last_lock = list->count-2;
+	    		last_lock = list->count - 1;
 				for ( i = 0; i < list->count-1; i++ )
 				{
 					SASIndexHeader	*expandBlock = list->heap[i];
@@ -740,7 +740,7 @@ SASIndexSpillAllocExtended (SASIndex_t heap, lock_on_t lock_on)
 			    	       < DEFAULT_LOAD_FACTOR )
 			    	{
 			    		expandHeader = expandBlock;
-			    		last_lock = i;
+			    		last_lock = i + 1;
 			    		break;
 			    	}
 				}
@@ -757,7 +757,7 @@ SASIndexSpillAllocExtended (SASIndex_t heap, lock_on_t lock_on)
 				
 	    	if (lastHeader != expandHeader)
 	    	{
-				for ( i = 1; i <= last_lock; i++ )
+				for ( i = 1; i < last_lock; i++ )
 				{
                                 if (lock_on) SASUnlock(list->heap[i]);
 				}
diff --git a/src/sasstringbtree.cpp b/src/sasstringbtree.cpp
index 71c1d29..bfa913b 100644
--- a/src/sasstringbtree.cpp
+++ b/src/sasstringbtree.cpp
@@ -428,6 +428,7 @@ SASStringBTreeAlloc (SASStringBTree_t heap)
 
 	  if (SASStringBTreePercentUsed (lastHeader) >= DEFAULT_LOAD_FACTOR)
 	    {
+	      last_lock = list->count - 1;
 	      for (i = 0; i < list->count - 1; i++)
 		{
 		  SASStringBTreeHeader *expandBlock = list->heap[i];
@@ -437,7 +438,7 @@ SASStringBTreeAlloc (SASStringBTree_t heap)
 		      < DEFAULT_LOAD_FACTOR)
 		    {
 		      expandHeader = expandBlock;
-		      last_lock = i;
+		      last_lock = i + 1;
 		      break;
 		    }
 		}
@@ -445,7 +446,6 @@ SASStringBTreeAlloc (SASStringBTree_t heap)
 		{
 		  expandHeader = (SASStringBTreeHeader *)
 		    SASStringBTreeExpandCreate (heap);
-	          last_lock = list->count - 2;
 		}
 	    }
 	  else
@@ -457,7 +457,7 @@ SASStringBTreeAlloc (SASStringBTree_t heap)
 
 	  if (lastHeader != expandHeader)
 	    {
-	      for (i = 1; i <= last_lock; i++)
+	      for (i = 1; i < last_lock; i++)
 		{
 		  SASUnlock (list->heap[i]);
 		}
@@ -790,7 +790,7 @@ SASStringBTreeSpillAllocExtended (SASStringBTree_t heap, lock_on_t lock_on)
 
 	  if (SASStringBTreePercentUsed (lastHeader) >= DEFAULT_LOAD_FACTOR)
 	    {
-	      last_lock = list->count - 2;
+	      last_lock = list->count - 1;
 	      for (i = 0; i < list->count - 1; i++)
 		{
 		  SASStringBTreeHeader *expandBlock = list->heap[i];
@@ -800,7 +800,7 @@ SASStringBTreeSpillAllocExtended (SASStringBTree_t heap, lock_on_t lock_on)
 		      < DEFAULT_LOAD_FACTOR)
 		    {
 		      expandHeader = expandBlock;
-		      last_lock = i;
+		      last_lock = i + 1;
 		      break;
 		    }
 		}
@@ -819,7 +819,7 @@ SASStringBTreeSpillAllocExtended (SASStringBTree_t heap, lock_on_t lock_on)
 
 	  if (lastHeader != expandHeader)
 	    {
-	      for (i = 1; i <= last_lock; i++)
+	      for (i = 1; i < last_lock; i++)
 		{
 		  if (lock_on) SASUnlock (list->heap[i]);
 		}
-- 
2.43.0


From 7981f6a40ead8ece55a4add623758504e2ae94bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:18 +0000
Subject: [PATCH 14/68] fix: SPHCompoundPCQNearAlloc returned a heap instead of
 a queue when the near container was full

---
 src/sascompoundheap.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sascompoundheap.cpp b/src/sascompoundheap.cpp
index 429aac4..3223be5 100644
--- a/src/sascompoundheap.cpp
+++ b/src/sascompoundheap.cpp
@@ -1586,7 +1586,7 @@ SPHCompoundPCQNearAllocNoLock (void *nearObj)
 		newHeap = SPHCompoundPCQAllocInternal (compoundHeader);
 	      else
 		newHeap =
-		  SASCompoundHeapAllocNoLock ((SASCompoundHeap_t) baseHeader);
+		  SPHCompoundPCQAllocNoLock ((SASCompoundHeap_t) baseHeader);
 #ifdef __SASDebugPrint__
 	    }
 	  else
@@ -1650,7 +1650,7 @@ SPHCompoundPCQNearAlloc (void *nearObj)
 	      else
 		{
 		  newHeap =
-		    SASCompoundHeapAlloc ((SASCompoundHeap_t) baseHeader);
+		    SPHCompoundPCQAlloc ((SASCompoundHeap_t) baseHeader);
 		}
 #ifdef __SASDebugPrint__
 	    }
-- 
2.43.0


From 647441cb61b5bafa1db948200a0dcfafb57f5ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:18 +0000
Subject: [PATCH 15/68] fix: freeing a page of an expanded compound heap, index
 or string tree left the expansion block locked and unlocked the container
 twice

---
 src/sascompoundheap.cpp | 8 ++++----
 src/sasindex.cpp        | 4 ++--
 src/sasstringbtree.cpp  | 4 ++--
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/sascompoundheap.cpp b/src/sascompoundheap.cpp
index 3223be5..b058bb3 100644
--- a/src/sascompoundheap.cpp
+++ b/src/sascompoundheap.cpp
@@ -607,11 +607,11 @@ SASCompoundHeapFree (SASCompoundHeap_t heap, SASSimpleHeap_t free_block)
 		    {
 		      SASCompoundHeapFreeInternal (expandBlock, free_block);
 		      if (i > 0)
-			SASUnlock (heap);
+			SASUnlock (expandBlock);
 		      break;
 		    }
 		  if (i > 0)
-		    SASUnlock (heap);
+		    SASUnlock (expandBlock);
 		}
 	    }
 	  else
@@ -1505,11 +1505,11 @@ SPHCompoundPCQFree (SASCompoundHeap_t heap, SPHSinglePCQueue_t free_block)
 		    {
 			  SPHCompoundPCQFreeInternal (expandBlock, free_block);
 		      if (i > 0)
-			SASUnlock (heap);
+			SASUnlock (expandBlock);
 		      break;
 		    }
 		  if (i > 0)
-		    SASUnlock (heap);
+		    SASUnlock (expandBlock);
 		}
 	    }
 	  else
diff --git a/src/sasindex.cpp b/src/sasindex.cpp
index bed288b..4ef4bbd 100644
--- a/src/sasindex.cpp
+++ b/src/sasindex.cpp
@@ -532,11 +532,11 @@ SASIndexFree (SASIndex_t heap,
 					{
 						SASIndexFreeInternal (expandBlock, free_block);					
 						if ( i > 0 )
-							SASUnlock(heap);
+							SASUnlock(expandBlock);
 			    		break;
 			    	}
 					if ( i > 0 )
-			    		SASUnlock(heap);
+			    		SASUnlock(expandBlock);
 				}
 			} else {
 				if (SASIndexContains(headerBlock, free_block))
diff --git a/src/sasstringbtree.cpp b/src/sasstringbtree.cpp
index bfa913b..849d737 100644
--- a/src/sasstringbtree.cpp
+++ b/src/sasstringbtree.cpp
@@ -564,11 +564,11 @@ SASStringBTreeFree (SASStringBTree_t heap, SASStringBTreeNode_t free_block)
 		    {
 		      SASStringBTreeFreeInternal (expandBlock, free_block);
 		      if (i > 0)
-			SASUnlock (heap);
+			SASUnlock (expandBlock);
 		      break;
 		    }
 		  if (i > 0)
-		    SASUnlock (heap);
+		    SASUnlock (expandBlock);
 		}
 	    }
 	  else
-- 
2.43.0


From 90894259520324317c86dfceee561bdc950e9b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:38 +0000
Subject: [PATCH 16/68] fix: a compound heap created in a reused block took
 that block's old contents for its expansion list

---
 src/sascompoundheap.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sascompoundheap.cpp b/src/sascompoundheap.cpp
index b058bb3..cf4160d 100644
--- a/src/sascompoundheap.cpp
+++ b/src/sascompoundheap.cpp
@@ -151,6 +151,7 @@ SASCompoundHeapExpandInit (void *heap_seg,
   heapBlock->headerFreeSpace = (freeNode *) & heapBlock[1];
   freeNode_init (heapBlock->headerFreeSpace, remaining);
 
+  heapBlock->expandSpace = NULL;
   heapBlock->expandList = NULL;
   heapBlock->loadFactor = DEFAULT_LOAD_FACTOR;
 
@@ -186,6 +187,8 @@ SASCompoundHeapInit (void *heap_seg,
   heapBlock->blockHeader.baseBlock = (SASBlockHeader *) heapBlock;
   heapBlock->blockHeader.nextBlock = (SASBlockHeader *) heapBlock;
   heapBlock->loadFactor = 100;
+  heapBlock->expandSpace = NULL;
+  heapBlock->expandList = NULL;
 
   if (expanding)
     {
-- 
2.43.0


From cea2abf14078e898ec05e3de6bfa5d3527081b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:03 +0000
Subject: [PATCH 17/68] fix: removing a context name through the name
 SPHContextFindByAddr returned left the name behind

---
 src/sphcontext.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sphcontext.cpp b/src/sphcontext.cpp
index 2441dd5..9247734 100644
--- a/src/sphcontext.cpp
+++ b/src/sphcontext.cpp
@@ -403,18 +403,18 @@ SPHContextRemoveByNameNoLock (SPHContext_t contxt, const char *key)
 			{
 				int		strsize = strlen(strbuff) + 1;
 				
+				SASIndexRemove (header->objID, &keyID);
+				SASStringBTreeRemove (header->name, strbuff);
 				rc = SPHContextFreeNoLock (contxt, strbuff, strsize);
 				if (rc)
 				{
 					result = -1;
 #ifdef __SASDebugPrint__
-		    		sas_printf("SPHContextRemoveByNameNoLock(%p, %s) free@%p failed\n", 
-		    	                 contxt, key, strbuff);
+		    		sas_printf("SPHContextRemoveByNameNoLock(%p) free@%p failed\n", 
+		    	                 contxt, strbuff);
 #endif
 				} else {
 					result = 0;
-					SASIndexRemove (header->objID, &keyID);
-					SASStringBTreeRemove (header->name, key);
 				}
 			}
 		} else {
-- 
2.43.0


From adb9163357c79fdac758fc5e22f3683d3bf345dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:03 +0000
Subject: [PATCH 18/68] fix: SPHContextRemoveByAddr did not give back the whole
 of the name's space

---
 src/sphcontext.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sphcontext.cpp b/src/sphcontext.cpp
index 9247734..fcd3869 100644
--- a/src/sphcontext.cpp
+++ b/src/sphcontext.cpp
@@ -481,7 +481,7 @@ SPHContextRemoveByAddrNoLock (SPHContext_t contxt, const void *value)
 		if (strbuff)
 		{
 			void	*val2;			
-			int		strsize = strlen(strbuff);
+			int		strsize = strlen(strbuff) + 1;
 	
 			val2 = (char*)SASStringBTreeGet(header->name, strbuff);
 			if (value == val2)
-- 
2.43.0


From c08ceadecf752dbb5b47393b96f449d39fe655cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:03 +0000
Subject: [PATCH 19/68] fix: SPHContextRename dropped the old name when the new
 one was refused

---
 src/sphcontext.cpp | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/sphcontext.cpp b/src/sphcontext.cpp
index fcd3869..efbe9d9 100644
--- a/src/sphcontext.cpp
+++ b/src/sphcontext.cpp
@@ -448,8 +448,28 @@ SPHContextRename (SPHContext_t contxt, const char *oldkey, const char *newkey, v
     	oldval = SPHContextFindByNameNoLock(contxt, oldkey);
     	if (oldval && (oldval == value))
     	{
-		    SPHContextRemoveByNameNoLock(contxt,oldkey);
-    	    result = SPHContextAddNameNoLock(contxt, newkey, value);
+			SPHContextHeader	*header = (SPHContextHeader*) headerBlock;
+			block_size_t	alloc_size = strlen(newkey) + 1;
+			char	*newbuff = (char*) SPHContextAllocNoLock(contxt, alloc_size);
+
+			/* The old name stays until the new one is in place.  */
+			if (newbuff)
+			{
+				strcpy (newbuff, newkey);
+				result = SASStringBTreePut (header->name, newbuff, value);
+				if (result)
+				{
+					SASIndexKey_t	keyID;
+					char		*oldbuff;
+
+					SASIndexKeyInitRef (&keyID, value);
+					oldbuff = (char*) SASIndexReplace (header->objID, &keyID, newbuff);
+					SASStringBTreeRemove (header->name, oldbuff);
+					SPHContextFreeNoLock (contxt, oldbuff, strlen (oldbuff) + 1);
+				} else {
+					SPHContextFreeNoLock (contxt, newbuff, alloc_size);
+				}
+			}
     	}
 		SASUnlock(contxt);
 #ifdef __SASDebugPrint__
-- 
2.43.0


From adac2379f56eb1beb86e3388c01c288f5cde10c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:51 +0000
Subject: [PATCH 20/68] fix: give back the segment (and its file) when a new
 segment cannot be created

---
 src/sassim.cpp  | 3 +++
 src/sasstname.c | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/src/sassim.cpp b/src/sassim.cpp
index dd802c4..6d561e2 100644
--- a/src/sassim.cpp
+++ b/src/sassim.cpp
@@ -949,6 +949,8 @@ SASCreateSegByAddr (void *segAddr, unsigned long size)
     {
       rc = SASAttachSegByName (segAddr, size,
 			       segIndex, name, createOnlyFlags);
+      if (rc)
+	SASSegStoreRemoveByName (name);
     }
 
   return rc;
@@ -1158,6 +1160,7 @@ SASBlockAllocNoLock (unsigned long blockSize)
 	      else
 		{
 		  sas_printf ("SASBlockAlloc attach failed %lx\n", blockSize);
+		  p2Dealloc (nn, SegmentSize, segAddr);
 		}
 	    }
 	  else
diff --git a/src/sasstname.c b/src/sasstname.c
index b168b7c..9a18913 100644
--- a/src/sasstname.c
+++ b/src/sasstname.c
@@ -111,6 +111,8 @@ SASSegStoreCreateByName (char *name)
 	  sas_printf ("SASSegStoreCreateByName truncate failed with %s\n",
 		      strerror (errno));
 	  sas_printf (" Store Name %s\n", name);
+	  close (fd);
+	  unlink (name);
 	}
     }
   else
-- 
2.43.0


From 16cb36e7b7b6cfbee4f330fd574576fd6a469574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:44 +0000
Subject: [PATCH 21/68] fix: p2Alloc keeps offsets of 4 GB and more whole when
 it splits a block

---
 src/sassim.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sassim.cpp b/src/sassim.cpp
index 6d561e2..a4e37f3 100644
--- a/src/sassim.cpp
+++ b/src/sassim.cpp
@@ -415,8 +415,9 @@ p2Alloc (uLongTreeNode ** root, unsigned long size)
   unsigned long k, l, m;
   unsigned long keys;
   unsigned long result = 0;
+  unsigned long ui;
   unsigned int j;
-  unsigned int ui, uj;
+  unsigned int uj;
 
 #ifdef __SASDebugPrint__
   sas_printf ("p2Alloc (%p, %lu)\n", root, size);
-- 
2.43.0


From c03eb2ad0b27db4e323b574371220b04662f9aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:50 +0000
Subject: [PATCH 22/68] fix: SASReset leaves the region semaphore released
 once, not twice

---
 src/sassim.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sassim.cpp b/src/sassim.cpp
index a4e37f3..a9757f0 100644
--- a/src/sassim.cpp
+++ b/src/sassim.cpp
@@ -1693,9 +1693,9 @@ SASReset ()
 {
   SASSeize ();
   SASRemoveAllocatedSegs ();
-  initRegion ();
   SASLockReset ();
-  SASRelease ();
+  /* This makes the region semaphore anew, which leaves it released.  */
+  initRegion ();
 }
 
 void
-- 
2.43.0


From 0830bbafadbce49f630939dd21c591c9e7b36f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:39 +0000
Subject: [PATCH 23/68] fix: destroyed compound blocks leave no page headers
 behind for SASFindHeader

---
 src/sasallocpriv.h      | 18 ++++++++++++++++++
 src/sascompoundheap.cpp |  3 +++
 src/sasindex.cpp        |  5 +++++
 src/sasstringbtree.cpp  |  5 +++++
 4 files changed, 31 insertions(+)

diff --git a/src/sasallocpriv.h b/src/sasallocpriv.h
index 7815211..b872212 100644
--- a/src/sasallocpriv.h
+++ b/src/sasallocpriv.h
@@ -29,4 +29,22 @@ getfastMemHigh ()
   return memHigh;
 }
 
+/* Invalidate the headers of the pages of a compound block that is about to be
+ * deallocated, so that they are not found (by SASFindHeader) in whatever the
+ * block is used for next.  */
+static inline void
+clearPageHeaders (void *block, block_size_t blockSize, block_size_t pageSize)
+{
+  char *page = (char *) block;
+  char *end = page + blockSize;
+
+  for (page += pageSize; page < end; page += pageSize)
+    {
+      SASBlockHeader *header = (SASBlockHeader *) page;
+
+      if (SOMSASCheckBlockSig (header))
+	header->blockSig1 = 0;
+    }
+}
+
 #endif /* _SASAllocPriv_H */
diff --git a/src/sascompoundheap.cpp b/src/sascompoundheap.cpp
index cf4160d..2d637df 100644
--- a/src/sascompoundheap.cpp
+++ b/src/sascompoundheap.cpp
@@ -12,6 +12,7 @@
 #include <stdlib.h>
 #include <string.h>
 #include "sasalloc.h"
+#include "sasallocpriv.h"
 #include "freenode.h"
 #ifdef __SASDebugPrint__
 #include "sasio.h"
@@ -1209,6 +1210,7 @@ SASCompoundHeapDestroyNoLock (SASCompoundHeap_t heap)
 	{
 	  for (i = 1; i < list->count; i++)
 	    {
+	      clearPageHeaders (list->heap[i], heapSize, headerBlock->pageSize);
 	      SASBlockDealloc (list->heap[i], heapSize);
 	      list->heap[i] = NULL;
 	    }
@@ -1218,6 +1220,7 @@ SASCompoundHeapDestroyNoLock (SASCompoundHeap_t heap)
 	      SASSimpleSpaceDestroy (headerBlock->expandSpace);
 	    }
 	}
+      clearPageHeaders (headerBlock, heapSize, headerBlock->pageSize);
       SASBlockDealloc (heap, heapSize);
 #ifdef __SASDebugPrint__
     }
diff --git a/src/sasindex.cpp b/src/sasindex.cpp
index 4ef4bbd..825dbc3 100644
--- a/src/sasindex.cpp
+++ b/src/sasindex.cpp
@@ -13,6 +13,7 @@
 #include <stddef.h>
 #include <string.h>
 #include "sasalloc.h"
+#include "sasallocpriv.h"
 #include "freenode.h"
 #include "sasio.h"
 #include "sasanchr.h"
@@ -1008,11 +1009,13 @@ SASIndexDestroyNoLock (SASIndex_t heap)
 		{
 			for ( i = 1; i < list->count; i++ )
 			{
+				clearPageHeaders (list->heap[i], heapSize, headerBlock->pageSize);
 				SASBlockDealloc (list->heap[i], heapSize);
 				list->heap[i] = NULL;
 			}
 			list->max_count = 1;
 		}
+		clearPageHeaders (headerBlock, heapSize, headerBlock->pageSize);
 		SASBlockDealloc (heap, heapSize);
 #ifdef __SASDebugPrint__
     } else {
@@ -1042,6 +1045,7 @@ SASIndexDestroy (SASIndex_t heap)
 			}
 			for ( i = 1; i < list->count; i++ )
 			{
+				clearPageHeaders (list->heap[i], heapSize, headerBlock->pageSize);
 				SASBlockDealloc (list->heap[i], heapSize);
 			}
 			for ( i = 1; i < list->count; i++ )
@@ -1051,6 +1055,7 @@ SASIndexDestroy (SASIndex_t heap)
 			}
 			list->max_count = 1;
 		}
+		clearPageHeaders (headerBlock, heapSize, headerBlock->pageSize);
 		SASBlockDealloc (headerBlock, heapSize);
 		SASUnlock(heap);
 #ifdef __SASDebugPrint__
diff --git a/src/sasstringbtree.cpp b/src/sasstringbtree.cpp
index 849d737..abcb375 100644
--- a/src/sasstringbtree.cpp
+++ b/src/sasstringbtree.cpp
@@ -13,6 +13,7 @@
 #include <stddef.h>
 #include <string.h>
 #include "sasalloc.h"
+#include "sasallocpriv.h"
 #include "freenode.h"
 #include "sasio.h"
 #include "sasanchr.h"
@@ -1101,11 +1102,13 @@ SASStringBTreeDestroyNoLock (SASStringBTree_t heap)
 	{
 	  for (i = 1; i < list->count; i++)
 	    {
+	      clearPageHeaders (list->heap[i], heapSize, headerBlock->pageSize);
 	      SASBlockDealloc (list->heap[i], heapSize);
 	      list->heap[i] = NULL;
 	    }
 	  list->max_count = 1;
 	}
+      clearPageHeaders (headerBlock, heapSize, headerBlock->pageSize);
       SASBlockDealloc (heap, heapSize);
 #ifdef __SASDebugPrint__
     }
@@ -1138,6 +1141,7 @@ SASStringBTreeDestroy (SASStringBTree_t heap)
 	    }
 	  for (i = 1; i < list->count; i++)
 	    {
+	      clearPageHeaders (list->heap[i], heapSize, headerBlock->pageSize);
 	      SASBlockDealloc (list->heap[i], heapSize);
 	    }
 	  for (i = 1; i < list->count; i++)
@@ -1147,6 +1151,7 @@ SASStringBTreeDestroy (SASStringBTree_t heap)
 	    }
 	  list->max_count = 1;
 	}
+      clearPageHeaders (headerBlock, heapSize, headerBlock->pageSize);
       SASBlockDealloc (headerBlock, heapSize);
       SASUnlock (heap);
 #ifdef __SASDebugPrint__
-- 
2.43.0


From 135ed2a8826d0a0e1fb76a1e37f90af9592594a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:58 +0000
Subject: [PATCH 24/68] fix: SASFindHeader resolved an address past the end of
 a small block to that block

---
 src/sasalloc.cpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/sasalloc.cpp b/src/sasalloc.cpp
index 637b4c1..570c9b3 100644
--- a/src/sasalloc.cpp
+++ b/src/sasalloc.cpp
@@ -462,15 +462,27 @@ SASBlockHeader *SASFindHeader (const void *nearObj)
 #endif
 	uintptr_t	size;
 
+	SASBlockHeader	*first = NULL;
+
 	/* Blocks are aligned to their power of two size, so the innermost
-	   header is at one of the power of two boundaries below nearObj.  */
+	   header is at one of the power of two boundaries below nearObj.  A
+	   header found there may be that of a smaller block which ends
+	   before nearObj; go on for one that reaches nearObj, and settle for
+	   the first one only when there is none.  */
 	for (size = block__Size512; size <= block__Size256M; size += size)
 	{
 	    block = (SASBlockHeader *)(temp & ~(size - 1));
-	    if ( SOMSASCheckBlockSig(block) )
+	    if ( first && ((uintptr_t)block < getfastMemLow()) )
 		break;
-	    block = NULL;
+	    if ( SOMSASCheckBlockSig(block) )
+	    {
+		if ( temp - (uintptr_t)block < (uintptr_t)block->blockSize )
+		    return block;
+		if ( first == NULL )
+		    first = block;
+	    }
 	}
+	block = first;
 #ifdef __SASDebugPrint__
 	    sas_printf("SASFindHeader low=%lx, high=%lx, tmp_low=%lx, tmp_hign=%lx\n",
 			getfastMemLow(), getfastMemHigh(),
-- 
2.43.0


From 10b191f93233ba0d14f8b2d9dce6c54b0d63714a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:55 +0000
Subject: [PATCH 25/68] fix: SPHLockFreeHeapNearFind finds lock-free heaps, not
 simple heaps

---
 src/sphlockfreeheap.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sphlockfreeheap.cpp b/src/sphlockfreeheap.cpp
index 43b7cf6..03bbfe6 100644
--- a/src/sphlockfreeheap.cpp
+++ b/src/sphlockfreeheap.cpp
@@ -599,7 +599,7 @@ SPHLockFreeHeapNearFind (void *nearObj)
   headerBlock = (SASBlockHeader *) SASFindHeader (nearObj);
   if (headerBlock)
     {
-      if (SOMSASCheckBlockSigAndType (headerBlock, SAS_SIMPLEHEAP_TYPE))
+      if (SOMSASCheckBlockSigAndType (headerBlock, SAS_RUNTIME_LOCKFREEHEAP))
 	{
 	  result = (SPHLockFreeHeap_t) headerBlock;
 #ifdef __SASDebugPrint__
-- 
2.43.0


From bfb5231c9ddb93acf6c2ceee48f6a89ede8a6557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:27 +0000
Subject: [PATCH 26/68] verif: guarded scheduling points in sasatom.h
 (SPHDE_VERIF, SPHDE_VERIF_SCHED)

---
 src/sasatom.h | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/sasatom.h b/src/sasatom.h
index 49e086a..d4d9378 100644
--- a/src/sasatom.h
+++ b/src/sasatom.h
@@ -69,6 +69,18 @@ typedef void*         sas_lock_ptr_t;
  */
 #define sas_code_barrier()  __asm ("" ::: "memory")
 
+/* Verification hook: a point between two steps at which another thread may
+ * run.  Nothing unless a verification build asks for it.  */
+#if defined(SPHDE_VERIF) && defined(SPHDE_VERIF_SCHED)
+#ifdef __cplusplus
+extern "C"
+#endif
+void sphde_verif_point (void);
+#define SPHDE_VERIF_POINT() sphde_verif_point ()
+#else
+#define SPHDE_VERIF_POINT() ((void) 0)
+#endif
+
 /*!
  * Atomic fetch and add operation on memory referenced by \a pointer.
  *
@@ -179,6 +191,7 @@ sas_fetch_and_or_long(unsigned long *pointer, long int delta)
 static inline int
 sas_compare_and_swap (volatile long int *p, long int oldval, long int newval)
 {
+  SPHDE_VERIF_POINT ();
   return __arch_compare_and_swap(p, oldval, newval);
 }
 
@@ -191,6 +204,7 @@ sas_compare_and_swap (volatile long int *p, long int oldval, long int newval)
 static inline long int
 sas_atomic_swap (long int *p, long int replace)
 {
+  SPHDE_VERIF_POINT ();
   return __arch_atomic_swap(p, replace);
 }
 
@@ -200,6 +214,7 @@ sas_atomic_swap (long int *p, long int replace)
 static inline void
 sas_atomic_inc(long int *p)
 {
+  SPHDE_VERIF_POINT ();
   __arch_atomic_inc(p);
 }
 
@@ -209,6 +224,7 @@ sas_atomic_inc(long int *p)
 static inline void
 sas_atomic_dec(long int *p)
 {
+  SPHDE_VERIF_POINT ();
   __arch_atomic_dec(p);
 }
 
@@ -232,7 +248,12 @@ sas_spin_lock_init (volatile sas_spin_lock_t *lock)
 static inline void
 sas_spin_lock (volatile sas_spin_lock_t *lock)
 {
+#if defined(SPHDE_VERIF) && defined(SPHDE_VERIF_SCHED)
+  while (__arch_sas_spin_trylock(lock))
+    SPHDE_VERIF_POINT ();
+#else
   __arch_sas_spin_lock(lock);
+#endif
 }
 
 /*!
@@ -245,6 +266,7 @@ sas_spin_lock (volatile sas_spin_lock_t *lock)
 static inline int
 sas_spin_trylock (volatile sas_spin_lock_t *lock)
 {
+  SPHDE_VERIF_POINT ();
   return __arch_sas_spin_trylock(lock);
 }
 
-- 
2.43.0


From 70ff09ba6d726071d1c366448f37d338e31a875f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:24 +0000
Subject: [PATCH 27/68] fix: lock objects for different slots were allocated
 from one heap without a lock

---
 src/saslockl.cpp | 7 +++++--
 src/saslockl.h   | 3 ++-
 src/sasmlock.cpp | 3 ++-
 src/sasmlock.h   | 1 +
 4 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/saslockl.cpp b/src/saslockl.cpp
index df217d6..03c2000 100644
--- a/src/saslockl.cpp
+++ b/src/saslockl.cpp
@@ -89,8 +89,8 @@ SasLockListNode<Item, Key>::operator delete( void *deadObject )
 
 // List constructor
 template<class Item, class Key>
-SasLockList<Item, Key>::SasLockList(void)
-: headPtr(NULL), count(0)
+SasLockList<Item, Key>::SasLockList(spin_lock_t *heapLock)
+: headPtr(NULL), count(0), allocLock(heapLock)
 {
    void *byteAddr = SASNearAlloc( (void*) this, sizeof(SasUserLock) );
    lock = new(byteAddr) SasUserLock();
@@ -255,9 +255,12 @@ SasLockList<Item, Key>::lockNode(Key keyAddr, sas_userlock_request_t lockT)
    fprintf (stderr, "%s - new-up a lock\n", __FUNCTION__);
 #endif
 
+   // The lists share one heap, and we hold only this list's lock.
+   spin_lock(allocLock);
    char *byteAddr = (char*) SASNearAlloc( (void*) this, sizeof(SasUserLock) );
    SasUserLock * newUserLock = new(byteAddr) SasUserLock();
    add(newUserLock);
+   spin_unlock(allocLock);
    switch (lockT) {
       case SasUserLock__READ:
          newUserLock->read_lock(lock, keyAddr);	 // lock item
diff --git a/src/saslockl.h b/src/saslockl.h
index e585d7f..8fc23a2 100644
--- a/src/saslockl.h
+++ b/src/saslockl.h
@@ -95,7 +95,7 @@ template<class Item, class Key>
 class SasLockList
 {
 public:
-  SasLockList(void);
+  SasLockList(spin_lock_t *heapLock);
   ~SasLockList(void);
   void * operator new(size_t size, SasMasterLock * const masterLock );
   void operator delete( void *deadObject );
@@ -116,6 +116,7 @@ private:
   SasLockListNode<Item, Key>	* headPtr;   // First node in list
   size_t			count;      // Current number of nodes
   SasUserLock			*lock;      // Locking mechanism
+  spin_lock_t			*allocLock; // Serializes the heap all lists allocate from
 };
 
 
diff --git a/src/sasmlock.cpp b/src/sasmlock.cpp
index 43d76e4..20d050c 100644
--- a/src/sasmlock.cpp
+++ b/src/sasmlock.cpp
@@ -289,6 +289,7 @@ SasMasterLock::initHashTable(void)
    fprintf (stderr, "%s: slots size = %ld\n", __FUNCTION__, allocSize);
 #endif
 
+   spin_lock_init( &heapLock );
    void *byteAddr = SASNearAlloc( (void*) this, allocSize );
    slots = (SasLockList<SasUserLock, vm_address_t> **) byteAddr;
 
@@ -297,7 +298,7 @@ SasMasterLock::initHashTable(void)
    unsigned int loop;
    for (loop = 0; loop < tableSize; ++loop)
     {
-      slots[loop] = new( this ) SasLockList<SasUserLock,vm_address_t>();
+      slots[loop] = new( this ) SasLockList<SasUserLock,vm_address_t>(&heapLock);
     }
 
 #ifdef __SOMDebugPrint__
diff --git a/src/sasmlock.h b/src/sasmlock.h
index 3695b90..252b7c2 100644
--- a/src/sasmlock.h
+++ b/src/sasmlock.h
@@ -79,6 +79,7 @@ public:
 private:
   //unsigned int eyecatcher;
   unsigned int tableSize;
+  spin_lock_t heapLock;	// held while the heap of the lock table is changed
   SasLockList<SasUserLock,vm_address_t> ** slots;
   //unsigned int eyecatcher2;
   
-- 
2.43.0


From 4812d983e24f156faba5bf4e9ac16ca211ee6fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:23 +0000
Subject: [PATCH 28/68] fix: a lock object's address was cleared while threads
 still waited for it

---
 src/sasulock.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/sasulock.cpp b/src/sasulock.cpp
index df4c0eb..fff4c89 100644
--- a/src/sasulock.cpp
+++ b/src/sasulock.cpp
@@ -190,6 +190,9 @@ SasUserLock::read_lock(SasUserLock * lockObj, vm_address_t lockAddr)
 // So, if lockObj == NULL, that implies the user did not pass in
 // a lock object for their SasLockList and therefore, do not need us
 // to unlock it.
+// The address is set before that: from then on the next locker of the
+// same address finds this object in the list.
+  address = lockAddr;
   if (lockObj != NULL)
       lockObj->unlock();
 
@@ -378,6 +381,9 @@ SasUserLock::write_lock(SasUserLock * lockObj, vm_address_t lockAddr)
 // to unlock another lock object.  If the caller did not
 // specify a lock object, then by default, lockObj is set = NULL,
 // so there's nothing to do.
+// The address is set before that: from then on the next locker of the
+// same address finds this object in the list.
+  address = lockAddr;
   if (lockObj != NULL)
       lockObj->unlock();
 
@@ -508,8 +514,9 @@ SasUserLock::unlock(void)
   {
     total_readers_count--;
 // Zero-out the address datamember to indicate the lock object
-// is available for use.
-    if (total_readers_count==0)
+// is available for use, unless others wait for it.
+    if ((total_readers_count==0) && (status == SasUserLock__not_exclusive)
+        && !readers_waiting && !writers_waiting)
 	address = NullAddress;
 
 #ifdef coherenceCheck
@@ -585,8 +592,9 @@ SasUserLock::unlock(void)
         return;
       }
       // Zero-out the address datamember to indicate the lock object
-      // is available for use.
-      address = NullAddress;
+      // is available for use, unless others wait for it.
+      if (!readers_waiting && !writers_waiting)
+        address = NullAddress;
 
       writer_thread_id = 0;
       writer_task_id = 0;
-- 
2.43.0


From 290d9e613252a64fb919e057b3c817bb31ba4798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:23 +0000
Subject: [PATCH 29/68] fix: the wakeup for the draining writer could be taken
 by another waiting writer

---
 src/sasulock.cpp | 22 ++++++++++++++--------
 src/sasulock.h   |  2 ++
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/sasulock.cpp b/src/sasulock.cpp
index fff4c89..acd9d84 100644
--- a/src/sasulock.cpp
+++ b/src/sasulock.cpp
@@ -65,6 +65,8 @@ SasUserLock::SasUserLock(vm_address_t addrToLock)
   sem_init(&readers_waiting_sem, 1, MAX_READER_THREADS);
   writers_waiting               = 0;
   sem_init(&writers_waiting_sem, 1, 1);
+  writer_draining               = 0;
+  sem_init(&writer_draining_sem, 1, 0);
   writer_thread_id              = 0;
   writer_task_id                = 0;
   writer_thread_lock_count      = 0;
@@ -91,6 +93,7 @@ SasUserLock::~SasUserLock(void)
   spin_lock(&data_lock);
   sem_destroy(&readers_waiting_sem);
   sem_destroy(&writers_waiting_sem);
+  sem_destroy(&writer_draining_sem);
   if ((total_readers_count == 0) &&
       (readers_waiting == 0) &&
       (writers_waiting == 0))
@@ -450,15 +453,15 @@ SasUserLock::write_lock(SasUserLock * lockObj, vm_address_t lockAddr)
   // while still being used by the readers
   while (total_readers_count)
   {
-    // look like a writer so that the unlock code wakes us up.
-    writers_waiting++;
+    // The last reader wakes us up.  Not by way of the writers that wait
+    // for us: one of those might take the wakeup and go back to sleep.
+    writer_draining = 1;
 
-    SasUserLock::thread_sleep(	(vm_address_t)&writers_waiting,
-				&writers_waiting_sem, &data_lock);
+    SasUserLock::thread_sleep(	(vm_address_t)&writer_draining,
+				&writer_draining_sem, &data_lock);
 
     spin_lock(&data_lock);
-    if (writers_waiting)
-      writers_waiting--;
+    writer_draining = 0;
   }
   // no more readers, so we now have the write lock
 
@@ -502,6 +505,7 @@ SasUserLock::unlock(void)
 #endif
   boolean_t	wakeup_writers = FALSE;
   boolean_t	wakeup_readers = FALSE;
+  boolean_t	wakeup_draining = FALSE;
   // mach_thread_self() is a ukernel call so let's
   // issue it only once in this routine.  This is
   // a local automatic variable so it is also
@@ -528,8 +532,8 @@ SasUserLock::unlock(void)
         total_readers_count);
     }
 #endif
-    if ((total_readers_count==0) && (writers_waiting))
-      wakeup_writers = TRUE;
+    if ((total_readers_count==0) && (writer_draining))
+      wakeup_draining = TRUE;
     // unlock the reader that has it
     for (int i = 0; i < MAX_READER_THREADS; i++)
     {
@@ -630,6 +634,8 @@ SasUserLock::unlock(void)
   } // end else no readers waiting
   spin_unlock(&data_lock);
 
+  if (wakeup_draining)
+    sem_post(&writer_draining_sem);
   if (wakeup_writers)
   {
     SasUserLock::thread_wakeup(	(vm_address_t)&writers_waiting,
diff --git a/src/sasulock.h b/src/sasulock.h
index 8389b3a..7a650a6 100644
--- a/src/sasulock.h
+++ b/src/sasulock.h
@@ -123,6 +123,8 @@ private:
   sem_t                 readers_waiting_sem;
   volatile int          writers_waiting;
   sem_t                 writers_waiting_sem;
+	volatile int          writer_draining;	// a writer waits for the readers to be done
+	sem_t                 writer_draining_sem;
   pid_t                 writer_task_id;
   pid_t                 writer_thread_id;
   volatile int          writer_thread_lock_count;
-- 
2.43.0


From 652a0f55d83387f535de897108707e122cdc9e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:23 +0000
Subject: [PATCH 30/68] fix: one reader more than there are slots hung holding
 the spin lock

---
 src/sasulock.cpp | 31 ++++++++++++++++---------------
 src/sasulock.h   |  5 +++--
 2 files changed, 19 insertions(+), 17 deletions(-)

diff --git a/src/sasulock.cpp b/src/sasulock.cpp
index acd9d84..b223a51 100644
--- a/src/sasulock.cpp
+++ b/src/sasulock.cpp
@@ -165,6 +165,16 @@ SasUserLock::thread_wakeup(	vm_address_t event,
 	sem_post(sem);
 }
 
+// Is there a slot to track one more reader in?
+boolean_t
+SasUserLock::reader_slot_free(void)
+{
+  for (int i = 0; i < MAX_READER_THREADS; i++)
+    if (readers[i].reader_thread_lock_count == 0)
+      return TRUE;
+  return FALSE;
+}
+
 // Get a shared read lock.  Many threads can have a read lock.
 // While read locks are held no write lock will be granted.
 // The lockObj pointer passed in allows us to release the
@@ -261,8 +271,9 @@ SasUserLock::read_lock(SasUserLock * lockObj, vm_address_t lockAddr)
     }  // end scan for has reader lock already
   }    // end if(total_readers_count)
 
-  // wait until all the writers are done.
-  while (status == SasUserLock__exclusive || writers_waiting)
+  // wait until all the writers are done and there is a slot to use.
+  while (status == SasUserLock__exclusive || writers_waiting
+         || !reader_slot_free())
     {
       readers_waiting++;
 
@@ -339,19 +350,6 @@ SasUserLock::read_lock(SasUserLock * lockObj, vm_address_t lockAddr)
           return;
         }  // end open slot in table
     }   // end for loop looking for a slot
-
-  // if we get here, we still have the spin lock,
-  // and we did not find a slot to use.  I can't
-  // readily hang this thread, but I CAN hang onto
-  // the spin lock so that all other threads will
-  // lock up.  Oughta notice that.  Thus,
-  // I intentionally didn't release the spin lock
-  // here.
-#ifdef mylockdebug
-  fprintf (stderr, "%s\n", __FUNCTION__);
-  fprintf (stderr, " thread[%ld,%ld] - no opne slots in reader table\n",
-    (long int) this_task, (long int) this_thread);
-#endif
 }
 
 // Get non-shared write lock.  A thread can call this more than once.
@@ -564,6 +562,9 @@ SasUserLock::unlock(void)
           // remove the thread id
           readers[i].reader_thread_id = 0;
           readers[i].reader_task_id = 0;
+          // there is a slot to use for those that wait for one
+          if (readers_waiting)
+            wakeup_readers = TRUE;
         }
       }
     } // end for loop
diff --git a/src/sasulock.h b/src/sasulock.h
index 7a650a6..3a4bb3c 100644
--- a/src/sasulock.h
+++ b/src/sasulock.h
@@ -108,6 +108,7 @@ public:
 #endif
   boolean_t	waiters(void);
 private:
+  boolean_t reader_slot_free(void);
   void thread_sleep (	vm_address_t event,
 			sem_t       *sem,
   			spin_lock_t *lock);
@@ -123,8 +124,8 @@ private:
   sem_t                 readers_waiting_sem;
   volatile int          writers_waiting;
   sem_t                 writers_waiting_sem;
-	volatile int          writer_draining;	// a writer waits for the readers to be done
-	sem_t                 writer_draining_sem;
+  volatile int          writer_draining; // a writer waits for the readers to be done
+  sem_t                 writer_draining_sem;
   pid_t                 writer_task_id;
   pid_t                 writer_thread_id;
   volatile int          writer_thread_lock_count;
-- 
2.43.0


From f3bc406d336c312f55abd54bf14a05eb4b919e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:22 +0000
Subject: [PATCH 31/68] fix: queue strides were not rounded to a multiple of 16

(stride + 16) & ~16 clears one bit and adds 16 to some strides that need
no rounding, e.g. 40 stayed 40 and 48 became 64.  A stride that is not a
multiple of 16 leaves entries misaligned and their recorded length short.
---
 src/sphmultipcqueue.cpp  | 2 +-
 src/sphsinglepcqueue.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sphmultipcqueue.cpp b/src/sphmultipcqueue.cpp
index f353c9f..b486fa2 100644
--- a/src/sphmultipcqueue.cpp
+++ b/src/sphmultipcqueue.cpp
@@ -99,7 +99,7 @@ SPHMPMCQInitInternal (void *buf_seg, sas_type_t sasType,
 	debug_printf("%s(%p, %ld, %d) sizeof(header)=%zu round=%ld\n",__FUNCTION__,buf_seg, buf_size, stride, sizeof (SPHMPMCQHeader), round);
 	if (stride != NODEFAULT_ENTRY_STRIDE) {
 		/* insure stride keep minimal alignment */
-		stride = (stride + round) & ~round;
+		stride = (stride + round - 1) & ~(round - 1);
 		/* round buf_size to be an integral number of strides */
 		buf_size = buf_size - DEFAULT_PAGE;
 		buf_size = buf_size / stride;
diff --git a/src/sphsinglepcqueue.cpp b/src/sphsinglepcqueue.cpp
index 8e2a3c1..7c6dec9 100644
--- a/src/sphsinglepcqueue.cpp
+++ b/src/sphsinglepcqueue.cpp
@@ -102,7 +102,7 @@ SPHSinglePCQueueInitInternal (void *buf_seg, sas_type_t sasType,
   if (stride != NODEFAULT_ENTRY_STRIDE)
     {
       /* insure stride keep minimal alignment */
-      stride = (stride + round) & ~round;
+      stride = (stride + round - 1) & ~(round - 1);
       /* round buf_size to be an integral number of strides */
       buf_size = buf_size - DEFAULT_PAGE;
       buf_size = buf_size / stride;
-- 
2.43.0


From a6fcfdc50a54562dfb58af3783302ff3748dcc92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:12 +0000
Subject: [PATCH 32/68] fix: a queue in reused storage, or one reset, kept old
 entry headers

The producer refuses an entry whose header says allocated or complete, and
the consumer takes a complete one: neither Init nor ResetAsync cleared them,
so a queue reset while not empty, or created in a block used before, refused
allocations or hung the spinning ones.
---
 src/sphsinglepcqueue.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/sphsinglepcqueue.cpp b/src/sphsinglepcqueue.cpp
index 7c6dec9..3ded174 100644
--- a/src/sphsinglepcqueue.cpp
+++ b/src/sphsinglepcqueue.cpp
@@ -79,6 +79,18 @@ typedef struct SPHPCQueueHeader
 #define NODEFAULT_ENTRY_STRIDE (0)
 #define NODEFAULT_LOG_OPTIONS (0)
 
+/* Mark every entry of a queue free; the storage may hold anything.  */
+static void
+SPHSinglePCQueueClearEntries (SPHPCQueueHeader *headerBlock)
+{
+  longPtr_t entry;
+
+  if (headerBlock->default_entry_stride != NODEFAULT_ENTRY_STRIDE)
+    for (entry = headerBlock->startq; entry < headerBlock->endq;
+	 entry += headerBlock->default_entry_stride)
+      ((SPHLFEntryHeader_t *) entry)->entryID.idUnit = 0;
+}
+
 SPHSinglePCQueue_t
 SPHSinglePCQueueInitInternal (void *buf_seg, sas_type_t sasType,
 			      block_size_t buf_size,
@@ -133,6 +145,7 @@ SPHSinglePCQueueInitInternal (void *buf_seg, sas_type_t sasType,
   heapBlock->align_mask = (longPtr_t) DEFAULT_ALIGN_MASK;
   heapBlock->options = options;
   heapBlock->default_entry_stride = stride;
+  SPHSinglePCQueueClearEntries (heapBlock);
 
   remaining = DEFAULT_PAGE - sizeof (SPHPCQueueHeader);
   heapBlock->headerFreeSpace = (freeNode *) & heapBlock[1];
@@ -231,6 +244,7 @@ SPHSinglePCQueueResetAsync (SPHSinglePCQueue_t queue)
 				  SAS_RUNTIME_PCQUEUE))
 	{
 	  sas_read_barrier ();
+	  SPHSinglePCQueueClearEntries (headerBlock);
 	  headerBlock->qhead = headerBlock->startq;
 	  headerBlock->qtail = headerBlock->startq;
 	}
-- 
2.43.0


From af554a635a8bf3c423fe6fa141889c07881d4b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:13 +0000
Subject: [PATCH 33/68] fix: sphFastGetTID returned 0 in a thread that had not
 called sphdeGetTID

Nothing initializes threadID when a thread starts, so the fast version has
to look and ask for the id the first time.  Log and queue entries of such
threads carried TID 0.
---
 src/sphthread.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/sphthread.h b/src/sphthread.h
index 1e55745..01a5ddf 100644
--- a/src/sphthread.h
+++ b/src/sphthread.h
@@ -53,7 +53,6 @@
 #endif
 
 #define SPH_PROCINIT_CTOR 1
-#define SPH_THREADINIT_CTOR 1
 
 /*!
  * \brief Return the process identification.
-- 
2.43.0


From 43867f6f78929e010b50c14e1a8268ae2673a2bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:13 +0000
Subject: [PATCH 34/68] fix: a forked child kept its parent's cached process
 and thread id

sphdeGetPID, sphdeGetTID and their fast versions went on returning the
parent's ids, and so did the entries the child logged.
---
 src/sphthread.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/sphthread.c b/src/sphthread.c
index e7a7aa5..c6f8b4b 100644
--- a/src/sphthread.c
+++ b/src/sphthread.c
@@ -18,6 +18,7 @@
 #include <errno.h>
 #include <string.h>
 #include <syscall.h>
+#include <pthread.h>
 #include "sphthread.h"
 
 __thread pid_t threadID = 0;
@@ -96,10 +97,19 @@ sphdeGetCmdLine (void)
 }
 
 #ifdef SPH_PROCINIT_CTOR
+/* A forked child is another process with another thread.  */
+static void
+sph_fork_child (void)
+{
+	procID = getpid ();
+	threadID = 0;
+}
+
 void
 __attribute__((constructor))
 sph_init_procinfo (void)
 {
+	pthread_atfork (NULL, NULL, sph_fork_child);
 	procID = getpid ();
     sphdeGetCmdLine_internal (procID);
 }
-- 
2.43.0


From 1da3b565bb662d0969dda42b52372cd90eac92fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:48 +0000
Subject: [PATCH 35/68] fix: the consumer was given a wrong length for entries
 of 4096 bytes and more

The entry header has 8 bits for a length in units of 16.  A queue's entries
all have its stride.
---
 src/sphsinglepcqueue.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sphsinglepcqueue.cpp b/src/sphsinglepcqueue.cpp
index 3ded174..0a1da5e 100644
--- a/src/sphsinglepcqueue.cpp
+++ b/src/sphsinglepcqueue.cpp
@@ -1109,7 +1109,8 @@ SPHSinglePCQueueGetNextComplete (SPHSinglePCQueue_t queue,
       if (headerBlock->qhead != queue_entry
 	  && entrytemp.detail.valid && entrytemp.detail.allocated)
 	{
-	  alloc_round = entrytemp.detail.len * DEFAULT_ALLOC_UNIT;
+	  /* The 8 bit length field can't hold every stride.  */
+	  alloc_round = headerBlock->default_entry_stride;
 	  handlespace->entry = entryPtr;
 	  handlespace->total_size = alloc_round;
 	  if (entrytemp.detail.timestamped)
-- 
2.43.0


From e67c83379968a1db9796c0eb88fa2fe0ae724ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:16 +0000
Subject: [PATCH 36/68] fix: entry struct access past the end, and string reads
 past the end of the entry

Allocating or getting a structure whose alignment padding was larger than
what remained of the entry wrapped the unsigned remainder and succeeded;
reading a string looked for its end beyond the entry.
---
 src/sphlfentry.h    | 29 ++++++++++-------------------
 src/sphlflogentry.h | 29 ++++++++++-------------------
 2 files changed, 20 insertions(+), 38 deletions(-)

diff --git a/src/sphlfentry.h b/src/sphlfentry.h
index 4e5743a..f796470 100644
--- a/src/sphlfentry.h
+++ b/src/sphlfentry.h
@@ -394,16 +394,12 @@ SPHLFEntryGetStructPtr (SPHLFEntryHandle_t *handle,
 		+ adjust)
 		& mask);
 
-	if ((unsigned long)ptr != (unsigned long)handle->next)
-	{
-		len -= ((unsigned long)ptr
-			- (unsigned long)handle->next);
-	}
+	adjust = (unsigned long)ptr - (unsigned long)handle->next;
 
-	if (len >= __size)
+	if (len >= adjust && (len - adjust) >= __size)
 	{
 		handle->next = ptr + __size;
-		handle->remaining = len - __size;
+		handle->remaining = len - adjust - __size;
 	} else {
 		ptr = NULL;
 	}
@@ -449,16 +445,12 @@ SPHLFEntryAllocStruct (SPHLFEntryHandle_t *handle,
 		+ adjust)
 		& mask);
 
-	if ((unsigned long)ptr != (unsigned long)handle->next)
-	{
-		len -= ((unsigned long)ptr
-			- (unsigned long)handle->next);
-	}
+	adjust = (unsigned long)ptr - (unsigned long)handle->next;
 
-	if (len >= __size)
+	if (len >= adjust && (len - adjust) >= __size)
 	{
 		handle->next = ptr + __size;
-		handle->remaining = len - __size;
+		handle->remaining = len - adjust - __size;
 	} else {
 		ptr = NULL;
 	}
@@ -830,15 +822,14 @@ SPHLFEntryGetNextString (SPHLFEntryHandle_t *handle)
 {
 	char		*ptr	= handle->next;
 	unsigned short int	len	= handle->remaining;
-	int		vlen	= (strlen(ptr) + 1);
+	char		*nul	= (char*)memchr(ptr, 0, len);
 	char		*value	= 0;
 
-	if (len >= vlen)
+	if (nul)
 	{
 		value = ptr;
-		ptr += vlen;
-		len -= vlen;
-		handle->next = ptr;
+		len -= (nul + 1) - ptr;
+		handle->next = nul + 1;
 		handle->remaining = len;
 	}
 	return value;
diff --git a/src/sphlflogentry.h b/src/sphlflogentry.h
index b8147dd..c15fc17 100644
--- a/src/sphlflogentry.h
+++ b/src/sphlflogentry.h
@@ -326,16 +326,12 @@ SPHLFlogEntryGetStructPtr (SPHLFLoggerHandle_t *handle,
 		+ adjust)
 		& mask);
 
-	if ((unsigned long)ptr != (unsigned long)handle->next)
-	{
-		len -= ((unsigned long)ptr
-			- (unsigned long)handle->next);
-	}
+	adjust = (unsigned long)ptr - (unsigned long)handle->next;
 
-	if (len >= __size)
+	if (len >= adjust && (len - adjust) >= __size)
 	{
 		handle->next = ptr + __size;
-		handle->remaining = len - __size;
+		handle->remaining = len - adjust - __size;
 	} else {
 		ptr = NULL;
 	}
@@ -381,16 +377,12 @@ SPHLFlogEntryAllocStruct (SPHLFLoggerHandle_t *handle,
 		+ adjust)
 		& mask);
 
-	if ((unsigned long)ptr != (unsigned long)handle->next)
-	{
-		len -= ((unsigned long)ptr
-			- (unsigned long)handle->next);
-	}
+	adjust = (unsigned long)ptr - (unsigned long)handle->next;
 
-	if (len >= __size)
+	if (len >= adjust && (len - adjust) >= __size)
 	{
 		handle->next = ptr + __size;
-		handle->remaining = len - __size;
+		handle->remaining = len - adjust - __size;
 	} else {
 		ptr = NULL;
 	}
@@ -762,15 +754,14 @@ SPHLFlogEntryGetNextString (SPHLFLoggerHandle_t *handle)
 {
 	char		*ptr	= handle->next;
 	unsigned short int	len	= handle->remaining;
-	int		vlen	= (strlen(ptr) + 1);
+	char		*nul	= (char*)memchr(ptr, 0, len);
 	char		*value	= 0;
 
-	if (len >= vlen)
+	if (nul)
 	{
 		value = ptr;
-		ptr += vlen;
-		len -= vlen;
-		handle->next = ptr;
+		len -= (nul + 1) - ptr;
+		handle->next = nul + 1;
 		handle->remaining = len;
 	}
 	return value;
-- 
2.43.0


From fdd22eec235ec4374201939477a2c836b3315259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:23 +0000
Subject: [PATCH 37/68] fix: a multi-producer queue in reused storage, or one
 reset, kept old entry headers

---
 src/sphmultipcqueue.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/sphmultipcqueue.cpp b/src/sphmultipcqueue.cpp
index b486fa2..a53a935 100644
--- a/src/sphmultipcqueue.cpp
+++ b/src/sphmultipcqueue.cpp
@@ -71,6 +71,18 @@ typedef struct SPHMPMCQHeader
 #define NODEFAULT_ENTRY_STRIDE (0)
 #define NODEFAULT_LOG_OPTIONS (0)
 
+/* Mark every entry of a queue free; the storage may hold anything.  */
+static void
+SPHMPMCQClearEntries (SPHMPMCQHeader *headerBlock)
+{
+	longPtr_t entry;
+
+	if (headerBlock->default_entry_stride != NODEFAULT_ENTRY_STRIDE)
+		for (entry = headerBlock->startq; entry < headerBlock->endq;
+		     entry += headerBlock->default_entry_stride)
+			((SPHLFEntryHeader_t *) entry)->entryID.idUnit = 0;
+}
+
 static SPHMPMCQ_t
 SPHMPMCQInitInternal (void *buf_seg, sas_type_t sasType,
 		      block_size_t buf_size,
@@ -125,6 +137,7 @@ SPHMPMCQInitInternal (void *buf_seg, sas_type_t sasType,
 	heapBlock->align_mask = (longPtr_t) DEFAULT_ALIGN_MASK;
 	heapBlock->options = options;
 	heapBlock->default_entry_stride = stride;
+	SPHMPMCQClearEntries (heapBlock);
 
 	remaining = DEFAULT_PAGE - sizeof (SPHMPMCQHeader);
 	heapBlock->headerFreeSpace = (freeNode *) & heapBlock[1];
@@ -218,6 +231,7 @@ SPHMPMCQResetAsync (SPHMPMCQ_t queue)
 
 	if (SOMSASCheckBlockSigAndType ((SASBlockHeader *) headerBlock,SAS_RUNTIME_PCQUEUE_TM)) {
 		sas_read_barrier ();
+		SPHMPMCQClearEntries (headerBlock);
 		headerBlock->qhead = headerBlock->startq;
 		headerBlock->qtail = headerBlock->startq;
 	} else {
-- 
2.43.0


From b343c1c806935f9e898d5e20c9e8f4e43c157c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:49 +0000
Subject: [PATCH 38/68] fix: the entry count of a multi-producer queue without
 a stride trapped

SPHMPMCQGetEntries divided by a stride of zero and did not check its
argument, contrary to its description.
---
 src/sphmultipcqueue.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/sphmultipcqueue.cpp b/src/sphmultipcqueue.cpp
index a53a935..fbcc67d 100644
--- a/src/sphmultipcqueue.cpp
+++ b/src/sphmultipcqueue.cpp
@@ -219,6 +219,12 @@ SPHMPMCQGetEntries (SPHMPMCQ_t queue)
 {
 	SPHMPMCQHeader *headerBlock = (SPHMPMCQHeader *) queue;
 	debug_printf("%-6d: %s NEW\n",sphdeGetTID(),__FUNCTION__);
+	if (!SOMSASCheckBlockSigAndType ((SASBlockHeader *) headerBlock,SAS_RUNTIME_PCQUEUE_TM)) {
+		debug_printf("%s(%p) type check failed\n",__FUNCTION__,queue);
+		return -1;
+	}
+	if (headerBlock->default_entry_stride == NODEFAULT_ENTRY_STRIDE)
+		return 0;
 	return (headerBlock->endq - headerBlock->startq) / headerBlock->default_entry_stride;
 }
 
-- 
2.43.0


From 1f28363d9762f499ac0ab8c0c4d236d5f67f6dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:37 +0000
Subject: [PATCH 39/68] fix: a multi-producer queue's entries overlapped its
 header

The header, with its head and tail kept in cache lines of their own, is 360
bytes long, but the entries started 256 bytes into the block: writing the
first entries overwrote the tail.
---
 src/sphmultipcqueue.cpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/sphmultipcqueue.cpp b/src/sphmultipcqueue.cpp
index fbcc67d..a89bff0 100644
--- a/src/sphmultipcqueue.cpp
+++ b/src/sphmultipcqueue.cpp
@@ -57,11 +57,7 @@ typedef struct SPHMPMCQHeader
 
 #ifdef __LP64__
 #define HEAP_OFFSET 128
-#if 1
-#define DEFAULT_PAGE 256
-#else
 #define DEFAULT_PAGE 384
-#endif
 #else
 #define HEAP_OFFSET 64
 #define DEFAULT_PAGE 256
-- 
2.43.0


From 3a90e25de519496b9860d75a16c3358d2724d229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:37 +0000
Subject: [PATCH 40/68] fix: a logger stride that is not a multiple of 16 was
 not rounded to one

---
 src/sphlflogger.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sphlflogger.cpp b/src/sphlflogger.cpp
index 9f46dc4..82e6a0a 100644
--- a/src/sphlflogger.cpp
+++ b/src/sphlflogger.cpp
@@ -91,7 +91,7 @@ SPHLFLoggerInitInternal (void *buf_seg, sas_type_t sasType,
   heapBlock->end_log_buf = (longPtr_t) stackEnd;
   heapBlock->align_mask = (longPtr_t) DEFAULT_ALIGN_MASK;
   heapBlock->options = options;
-  heapBlock->default_entry_stride = (stride + round) & ~round;
+  heapBlock->default_entry_stride = (stride + round - 1) & ~(round - 1);
 
   remaining = DEFAULT_PAGE - sizeof (SASLFLoggerHeader);
   heapBlock->headerFreeSpace = (freeNode *) & heapBlock[1];
-- 
2.43.0


From 9dddbdfb03335e3ecf0c40c09bf99500047a6da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:25 +0000
Subject: [PATCH 41/68] fix: a circular log whose space was no multiple of its
 stride ended its iteration at the gap

---
 src/sphlflogger.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/sphlflogger.cpp b/src/sphlflogger.cpp
index 82e6a0a..fe9ca81 100644
--- a/src/sphlflogger.cpp
+++ b/src/sphlflogger.cpp
@@ -92,6 +92,11 @@ SPHLFLoggerInitInternal (void *buf_seg, sas_type_t sasType,
   heapBlock->align_mask = (longPtr_t) DEFAULT_ALIGN_MASK;
   heapBlock->options = options;
   heapBlock->default_entry_stride = (stride + round - 1) & ~(round - 1);
+  /* The entries of a circular log follow each other without a gap.  */
+  if ((options & SPHLFLOGGER_CIRCULAR)
+      && (heapBlock->default_entry_stride != NODEFAULT_ENTRY_STRIDE))
+    heapBlock->end_log_buf -= (stackEnd - stackStart)
+      % heapBlock->default_entry_stride;
 
   remaining = DEFAULT_PAGE - sizeof (SASLFLoggerHeader);
   heapBlock->headerFreeSpace = (freeNode *) & heapBlock[1];
-- 
2.43.0


From 07e7ea343ada5f8fa1dbf044409e9973474efa8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:07 +0000
Subject: [PATCH 42/68] fix: iterating a wrapped log gave nothing when the last
 entry had just filled it, and never ended when the oldest entry was the last
 in the log

---
 src/sphlflogger.cpp | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/sphlflogger.cpp b/src/sphlflogger.cpp
index fe9ca81..eed5946 100644
--- a/src/sphlflogger.cpp
+++ b/src/sphlflogger.cpp
@@ -700,15 +700,13 @@ SPHLFLoggerIteratorNext (SPHLFLogIterator_t * iterator,
 	  if ((log_options & SPHLFLOGGER_CIRCULAR)
 	      && (log_options & SPHLFLOGGER_CIRCULAR_WRAPED))
 	    {
-	      if (lPtr >= iterator->end_log)
-		{
-		  iterator->current = iterator->start_log;
-		  handle = handleorg;
-		}
-	      else if ((prev != iterator->free)
-		       || ((log_options & SPHLFLOGGER_CIRCULAR_NOTFIRST)
-			   != SPHLFLOGGER_CIRCULAR_NOTFIRST))
+	      /* Back at the oldest entry: all of them were given.  */
+	      if ((prev != iterator->free)
+		  || ((log_options & SPHLFLOGGER_CIRCULAR_NOTFIRST)
+		      != SPHLFLOGGER_CIRCULAR_NOTFIRST))
 		{
+		  if (lPtr >= iterator->end_log)
+		    lPtr = iterator->start_log;
 		  iterator->current = lPtr;
 		  handle = handleorg;
 		}
@@ -759,7 +757,11 @@ SPHLFLoggerCreateIterator (SPHLFLogger_t log,
       if ((log_options & SPHLFLOGGER_CIRCULAR)
 	  && (log_options & SPHLFLOGGER_CIRCULAR_WRAPED))
 	{
-	  iter->current = headerBlock->next_free;
+	  /* The oldest entry is the next to be overwritten, which is the
+	     first one if the last just filled the log.  */
+	  if (iter->free >= iter->end_log)
+	    iter->free = iter->start_log;
+	  iter->current = iter->free;
 	}
       else
 	{
-- 
2.43.0


From 5679ee33ff6c7b8a8b09b4cc11d03db5a2fbad20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:48 +0000
Subject: [PATCH 43/68] fix: a request larger than the log wrapped around to a
 small entry or moved the log's end backwards, and one larger than a circular
 log recursed for ever

---
 src/sphlflogger.cpp | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/sphlflogger.cpp b/src/sphlflogger.cpp
index eed5946..ce16403 100644
--- a/src/sphlflogger.cpp
+++ b/src/sphlflogger.cpp
@@ -160,6 +160,22 @@ SPHLFCircularLoggerCreate (block_size_t buf_size, unsigned short stride)
     return NULL;
 }
 
+/* Whether an entry of this size, or this size rounded, could lie in the
+   (empty) log.  A huge size becomes a small one when it is rounded.  */
+static inline bool
+SPHLFLoggerMayHold (SASLFLoggerHeader * headerBlock, block_size_t alloc_size,
+		    longPtr_t alloc_round)
+{
+  longPtr_t space = headerBlock->end_log_buf - headerBlock->start_log_buf;
+  bool rc = (alloc_size <= space) && (alloc_round <= space);
+
+  /* As after any request it has no room for, a simple log is full.  */
+  if (!rc && !(headerBlock->options & SPHLFLOGGER_CIRCULAR))
+    __sync_fetch_and_add (&headerBlock->next_free,
+			  space + DEFAULT_ALLOC_UNIT);
+  return rc;
+}
+
 void *
 SPHLFLoggerAllocRaw (SPHLFLogger_t log, block_size_t alloc_size)
 {
@@ -173,6 +189,8 @@ SPHLFLoggerAllocRaw (SPHLFLogger_t log, block_size_t alloc_size)
     {
       round = ~headerBlock->align_mask;
       alloc_round = (alloc_size + round) & ~round;
+      if (!SPHLFLoggerMayHold (headerBlock, alloc_size, alloc_round))
+	return NULL;
       log_entry = __sync_fetch_and_add (&headerBlock->next_free, alloc_round);
 
       if (log_entry + alloc_round > headerBlock->end_log_buf)
@@ -213,6 +231,8 @@ SPHLFLoggerAllocTimeStamped (SPHLFLogger_t log,
     {
       round = ~headerBlock->align_mask;
       alloc_round = (alloc_size + sizeof (SPHLFLogHeader_t) + round) & ~round;
+      if (!SPHLFLoggerMayHold (headerBlock, alloc_size, alloc_round))
+	return NULL;
 #ifdef __powerpc__
       log_entry =
 	(longPtr_t) sas_fetch_and_add_ptr ((void **) &headerBlock->next_free,
@@ -339,6 +359,8 @@ SPHLFLoggerAllocStrideTimeStamped (SPHLFLogger_t log,
 				  SAS_RUNTIME_LOCKFREELOGGER))
     {				/* for Strided alloc increment is pre rounded */
       alloc_round = headerBlock->default_entry_stride;
+      if (!SPHLFLoggerMayHold (headerBlock, alloc_round, alloc_round))
+	return NULL;
 #ifdef __powerpc__
       log_entry =
 	(longPtr_t) sas_fetch_and_add_ptr ((void **) &headerBlock->next_free,
@@ -471,6 +493,8 @@ SPHLFLoggerAllocTimeStampedNoLock (SPHLFLogger_t log,
     {
       round = ~headerBlock->align_mask;
       alloc_round = (alloc_size + sizeof (SPHLFLogHeader_t) + round) & ~round;
+      if (!SPHLFLoggerMayHold (headerBlock, alloc_size, alloc_round))
+	return NULL;
       //      log_entry = __sync_fetch_and_add(&headerBlock->next_free, alloc_round);
       log_entry = headerBlock->next_free;
       headerBlock->next_free += alloc_round;
@@ -546,6 +570,8 @@ SPHLFLoggerAllocStrideTimeStampedNoLock (SPHLFLogger_t log,
 				  SAS_RUNTIME_LOCKFREELOGGER))
     {				/* for Strided alloc increment is pre rounded */
       alloc_round = headerBlock->default_entry_stride;
+      if (!SPHLFLoggerMayHold (headerBlock, alloc_round, alloc_round))
+	return NULL;
       //      log_entry = __sync_fetch_and_add(&headerBlock->next_free, alloc_round);
       log_entry = headerBlock->next_free;
       headerBlock->next_free += alloc_round;
-- 
2.43.0


From da1d012dfc06a3e11a9ea76c79c20e2782280877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:48 +0000
Subject: [PATCH 44/68] fix: iterating a full log in reused storage took what
 lay behind its last entry for another

---
 src/sphlflogger.cpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/sphlflogger.cpp b/src/sphlflogger.cpp
index ce16403..dd8df18 100644
--- a/src/sphlflogger.cpp
+++ b/src/sphlflogger.cpp
@@ -160,6 +160,16 @@ SPHLFCircularLoggerCreate (block_size_t buf_size, unsigned short stride)
     return NULL;
 }
 
+/* An entry at log_entry did not fit, so a log that is not circular ends
+   there: what was left there earlier is not an entry.  */
+static inline void
+SPHLFLoggerMarkEnd (SASLFLoggerHeader * headerBlock, longPtr_t log_entry)
+{
+  if (!(headerBlock->options & SPHLFLOGGER_CIRCULAR)
+      && (log_entry < headerBlock->end_log_buf))
+    ((SPHLFLogHeader_t *) log_entry)->entryID.idUnit = 0;
+}
+
 /* Whether an entry of this size, or this size rounded, could lie in the
    (empty) log.  A huge size becomes a small one when it is rounded.  */
 static inline bool
@@ -171,8 +181,9 @@ SPHLFLoggerMayHold (SASLFLoggerHeader * headerBlock, block_size_t alloc_size,
 
   /* As after any request it has no room for, a simple log is full.  */
   if (!rc && !(headerBlock->options & SPHLFLOGGER_CIRCULAR))
-    __sync_fetch_and_add (&headerBlock->next_free,
-			  space + DEFAULT_ALLOC_UNIT);
+    SPHLFLoggerMarkEnd (headerBlock,
+			__sync_fetch_and_add (&headerBlock->next_free,
+					      space + DEFAULT_ALLOC_UNIT));
   return rc;
 }
 
@@ -195,6 +206,7 @@ SPHLFLoggerAllocRaw (SPHLFLogger_t log, block_size_t alloc_size)
 
       if (log_entry + alloc_round > headerBlock->end_log_buf)
 	{
+	  SPHLFLoggerMarkEnd (headerBlock, log_entry);
 	  log_entry = 0;
 #ifdef __SASDebugPrint__
 	  sas_printf ("SPHLFLoggerAllocRaw(%p, %ld) alloc failed\n",
@@ -270,6 +282,7 @@ SPHLFLoggerAllocTimeStamped (SPHLFLogger_t log,
       else
 	{
 	  handlespace = NULL;
+	  SPHLFLoggerMarkEnd (headerBlock, log_entry);
 #ifdef __SASDebugPrint__
 	  sas_printf ("SPHLFLoggerAllocTimeStamped(%p, %ld) alloc failed\n",
 		      log, alloc_size);
@@ -402,6 +415,7 @@ SPHLFLoggerAllocStrideTimeStamped (SPHLFLogger_t log,
       else
 	{
 	  handlespace = NULL;
+	  SPHLFLoggerMarkEnd (headerBlock, log_entry);
 #ifdef __SASDebugPrint__
 	  sas_printf
 	    ("SPHLFLoggerAllocStrideTimeStamped(%p, %ld) alloc failed opt=%x\n",
@@ -528,6 +542,7 @@ SPHLFLoggerAllocTimeStampedNoLock (SPHLFLogger_t log,
       else
 	{
 	  handlespace = NULL;
+	  SPHLFLoggerMarkEnd (headerBlock, log_entry);
 #ifdef __SASDebugPrint__
 	  sas_printf
 	    ("SPHLFLoggerAllocTimeStampedNoLock(%p, %ld) alloc failed\n", log,
@@ -609,6 +624,7 @@ SPHLFLoggerAllocStrideTimeStampedNoLock (SPHLFLogger_t log,
       else
 	{
 	  handlespace = NULL;
+	  SPHLFLoggerMarkEnd (headerBlock, log_entry);
 #ifdef __SASDebugPrint__
 	  sas_printf
 	    ("SPHLFLoggerAllocStrideTimeStampedNoLock(%p, %ld) alloc failed opt=%x\n",
-- 
2.43.0


From 363416c2e59eded6eec1b59dfbab115cdce77981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:18 +0000
Subject: [PATCH 45/68] fix: allocating from something that is no log returned
 an uninitialised handle

---
 src/sphlflogger.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/sphlflogger.cpp b/src/sphlflogger.cpp
index dd8df18..2eaf7bf 100644
--- a/src/sphlflogger.cpp
+++ b/src/sphlflogger.cpp
@@ -343,10 +343,11 @@ SPHLFLoggerAllocTimeStamped (SPHLFLogger_t log,
 		}
 	    }
 	}
-#ifdef __SASDebugPrint__
     }
   else
     {
+      handlespace = NULL;
+#ifdef __SASDebugPrint__
       sas_printf ("SPHLFLoggerAllocTimeStamped(%p, %ld) type check failed\n",
 		  log, alloc_size);
 #endif
@@ -476,10 +477,11 @@ SPHLFLoggerAllocStrideTimeStamped (SPHLFLogger_t log,
 		}
 	    }
 	}
-#ifdef __SASDebugPrint__
     }
   else
     {
+      handlespace = NULL;
+#ifdef __SASDebugPrint__
       sas_printf
 	("SPHLFLoggerAllocStrideTimeStamped(%p, %ld) type check failed\n",
 	 log, alloc_round);
@@ -559,10 +561,11 @@ SPHLFLoggerAllocTimeStampedNoLock (SPHLFLogger_t log,
 							       handleorg);
 	    }
 	}
-#ifdef __SASDebugPrint__
     }
   else
     {
+      handlespace = NULL;
+#ifdef __SASDebugPrint__
       sas_printf
 	("SPHLFLoggerAllocTimeStampedNoLock(%p, %ld) type check failed\n",
 	 log, alloc_size);
@@ -641,10 +644,11 @@ SPHLFLoggerAllocStrideTimeStampedNoLock (SPHLFLogger_t log,
 								     handleorg);
 	    }
 	}
-#ifdef __SASDebugPrint__
     }
   else
     {
+      handlespace = NULL;
+#ifdef __SASDebugPrint__
       sas_printf
 	("SPHLFLoggerAllocStrideTimeStampedNoLock(%p, %ld) type check failed\n",
 	 log, alloc_round);
-- 
2.43.0


From a5e1133ffca813d991e3eab21a5cdea539f1f6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:40 +0000
Subject: [PATCH 46/68] fix: setting the prefetch option of a log or queue
 cleared all other options, among them that a log is circular

---
 src/sphlflogger.cpp      | 2 +-
 src/sphsinglepcqueue.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sphlflogger.cpp b/src/sphlflogger.cpp
index 2eaf7bf..337d83a 100644
--- a/src/sphlflogger.cpp
+++ b/src/sphlflogger.cpp
@@ -1067,7 +1067,7 @@ SPHLFLoggerSetCachePrefetch (SPHLFLogger_t log, int prefetch)
 	  if (prefetch == 1)
 	    prefetch_opt = SPHLFLOGGER_CACHE_PREFETCH0;
 	}
-      temp = sas_fetch_and_and (&headerBlock->options, temp);
+      temp = sas_fetch_and_and (&headerBlock->options, ~temp);
       temp = sas_fetch_and_or (&headerBlock->options, prefetch_opt);
     }
   else
diff --git a/src/sphsinglepcqueue.cpp b/src/sphsinglepcqueue.cpp
index 0a1da5e..15a20b3 100644
--- a/src/sphsinglepcqueue.cpp
+++ b/src/sphsinglepcqueue.cpp
@@ -1213,7 +1213,7 @@ SPHSinglePCQueueSetCachePrefetch (SPHSinglePCQueue_t queue, int prefetch)
 	    prefetch_opt = SPHSPCQUEUE_CACHE_PREFETCH0;
 	}
 
-      temp = sas_fetch_and_and (&headerBlock->options, temp);
+      temp = sas_fetch_and_and (&headerBlock->options, ~temp);
       temp = sas_fetch_and_or (&headerBlock->options, prefetch_opt);
     }
   else
-- 
2.43.0


From 793f257af8a2d041cf78420bc869061e0cb69fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:59 +0000
Subject: [PATCH 47/68] fix: a thread that waited for a circular log to wrap
 waited for ever if others had filled it again by then

---
 src/sphlflogger.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sphlflogger.cpp b/src/sphlflogger.cpp
index 337d83a..ce97457 100644
--- a/src/sphlflogger.cpp
+++ b/src/sphlflogger.cpp
@@ -328,7 +328,7 @@ SPHLFLoggerAllocTimeStamped (SPHLFLogger_t log,
 		  /* secondary threads should just retry until the
 		     buffer wraps.  */
 		  for (old = headerBlock->next_free;
-		       (old + alloc_round) >= log_entry;
+		       old > headerBlock->end_log_buf;
 		       old = headerBlock->next_free)
 		    sas_read_barrier ();
 
@@ -462,7 +462,7 @@ SPHLFLoggerAllocStrideTimeStamped (SPHLFLogger_t log,
 		  /* secondary threads should just retry until the
 		     buffer wraps.  */
 		  for (old = headerBlock->next_free;
-		       (old + alloc_round) >= log_entry;
+		       old > headerBlock->end_log_buf;
 		       old = headerBlock->next_free)
 		    sas_read_barrier ();
 
-- 
2.43.0


From cc89ac0f46a624200f8700f16be1c0b30267cdb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:15 +0000
Subject: [PATCH 48/68] fix: while a circular log wrapped it called itself
 empty, and not wrapped

---
 src/sphlflogger.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/sphlflogger.cpp b/src/sphlflogger.cpp
index ce97457..5b66e0c 100644
--- a/src/sphlflogger.cpp
+++ b/src/sphlflogger.cpp
@@ -297,6 +297,10 @@ SPHLFLoggerAllocTimeStamped (SPHLFLogger_t log,
 	      if ((log_entry <= headerBlock->end_log_buf)
 		  && (log_entry + alloc_round >= headerBlock->end_log_buf))
 		{
+		  /* First the mark: once next_free is back at the start, the
+		     other threads take new entries.  */
+		  sas_fetch_and_or (&headerBlock->options,
+					      SPHLFLOGGER_CIRCULAR_WRAPED);
 		  do
 		    {
 		      old = headerBlock->next_free;
@@ -307,8 +311,6 @@ SPHLFLoggerAllocTimeStamped (SPHLFLogger_t log,
 						      start_log_buf);
 		    }
 		  while (!done);
-		  sas_fetch_and_or (&headerBlock->options,
-					      SPHLFLOGGER_CIRCULAR_WRAPED);
 #ifdef __SASDebugPrint__
 		  sas_printf
 		    ("SPHLFLoggerAllocTimeStamped(%p, %ld) wrapping\n", log,
@@ -432,6 +434,10 @@ SPHLFLoggerAllocStrideTimeStamped (SPHLFLogger_t log,
 	      if ((log_entry <= headerBlock->end_log_buf)
 		  && (log_entry + alloc_round >= headerBlock->end_log_buf))
 		{
+		  /* First the mark: once next_free is back at the start, the
+		     other threads take new entries.  */
+		  sas_fetch_and_or (&headerBlock->options,
+					      SPHLFLOGGER_CIRCULAR_WRAPED);
 		  do
 		    {
 		      old = headerBlock->next_free;
@@ -442,8 +448,6 @@ SPHLFLoggerAllocStrideTimeStamped (SPHLFLogger_t log,
 						      start_log_buf);
 		    }
 		  while (!done);
-		  sas_fetch_and_or (&headerBlock->options,
-					      SPHLFLOGGER_CIRCULAR_WRAPED);
 #ifdef __SASDebugPrint__
 		  sas_printf
 		    ("SPHLFLoggerAllocStrideTimeStamped(%p, ...) wrapping\n",
@@ -867,7 +871,8 @@ SPHLFLoggerEmpty (SPHLFLogger_t log)
 				  SAS_RUNTIME_LOCKFREELOGGER))
     {
       sas_read_barrier ();
-      if (headerBlock->next_free == headerBlock->start_log_buf)
+      if ((headerBlock->next_free == headerBlock->start_log_buf)
+	  && !(headerBlock->options & SPHLFLOGGER_CIRCULAR_WRAPED))
 	{
 	  rc = 1;
 #ifdef __SASDebugPrint__
-- 
2.43.0


From 2d1ba931e1486d9ceb73ca9015517b95a711850e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:40 +0000
Subject: [PATCH 49/68] fix: a strided allocation from a log without a stride
 gave an entry without any space, at the end of the log one behind it

---
 src/sphlflogger.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sphlflogger.cpp b/src/sphlflogger.cpp
index 5b66e0c..c10005d 100644
--- a/src/sphlflogger.cpp
+++ b/src/sphlflogger.cpp
@@ -375,7 +375,8 @@ SPHLFLoggerAllocStrideTimeStamped (SPHLFLogger_t log,
 				  SAS_RUNTIME_LOCKFREELOGGER))
     {				/* for Strided alloc increment is pre rounded */
       alloc_round = headerBlock->default_entry_stride;
-      if (!SPHLFLoggerMayHold (headerBlock, alloc_round, alloc_round))
+      if ((alloc_round == NODEFAULT_ENTRY_STRIDE)
+	  || !SPHLFLoggerMayHold (headerBlock, alloc_round, alloc_round))
 	return NULL;
 #ifdef __powerpc__
       log_entry =
@@ -592,7 +593,8 @@ SPHLFLoggerAllocStrideTimeStampedNoLock (SPHLFLogger_t log,
 				  SAS_RUNTIME_LOCKFREELOGGER))
     {				/* for Strided alloc increment is pre rounded */
       alloc_round = headerBlock->default_entry_stride;
-      if (!SPHLFLoggerMayHold (headerBlock, alloc_round, alloc_round))
+      if ((alloc_round == NODEFAULT_ENTRY_STRIDE)
+	  || !SPHLFLoggerMayHold (headerBlock, alloc_round, alloc_round))
 	return NULL;
       //      log_entry = __sync_fetch_and_add(&headerBlock->next_free, alloc_round);
       log_entry = headerBlock->next_free;
-- 
2.43.0


From 8334a55cd2f05d9f4656462d132eb1d6aa6a4b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:49 +0000
Subject: [PATCH 50/68] fix: a full log portal reported -1 entries

---
 src/sphlogportal.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sphlogportal.cpp b/src/sphlogportal.cpp
index 1eec5cb..d959e2c 100644
--- a/src/sphlogportal.cpp
+++ b/src/sphlogportal.cpp
@@ -342,7 +342,7 @@ SPHLogPortalEntries (SPHLogPortal_t portal)
 			SAS_RUNTIME_LOGPORTAL) )
 	{
 		sas_read_barrier();
-		if ( headerBlock->next_free < headerBlock->list_size )
+		if ( headerBlock->next_free <= headerBlock->list_size )
 		{
 			rc = headerBlock->next_free;
 #ifdef __SASDebugPrint__
-- 
2.43.0


From b8f756edb724e82c57b9c9c5a1bbf5c96fc09cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:49 +0000
Subject: [PATCH 51/68] fix: iterating an empty log portal in reused storage
 took what lay there for a logger

---
 src/sphlogportal.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sphlogportal.cpp b/src/sphlogportal.cpp
index d959e2c..86cf48d 100644
--- a/src/sphlogportal.cpp
+++ b/src/sphlogportal.cpp
@@ -15,6 +15,7 @@
 #include <stdio.h>
 //#include "sasio.h"
 #include <stdlib.h>
+#include <string.h>
 #include "sasalloc.h"
 #include "freenode.h"
 #ifdef __SASDebugPrint__
@@ -92,6 +93,7 @@ SPHLogPortalInitInternal (void* buf_seg,  sas_type_t sasType,
     heapBlock->options = options;
     heapBlock->list_size = entries;
     heapBlock->log_buff_list = (SPHLFLogger_t*)listStart;
+    memset (listStart, 0, heapBlock->list_size * sizeof (SPHLFLogger_t));
     heapBlock->current_logger = 0;
     heapBlock->next_free = 0;
 
@@ -395,7 +397,7 @@ SPHLFPortalCreateIterator(SPHLogPortal_t portal,
     		SAS_RUNTIME_LOGPORTAL) )
     {
     	SPHLFLogIterator_t *l_iter = NULL;
-    	log = headerBlock->log_buff_list[0];
+    	log = headerBlock->next_free ? headerBlock->log_buff_list[0] : NULL;
 #ifdef __SASDebugPrint__
     	sas_printf("SPHLFPortalCreateIterator(%p, %p) log[0]= %p\n",
     			portal, Iterator_space, log);
-- 
2.43.0


From fd82257e8fd08fc2a475b210a34b3c52a0da386c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:49 +0000
Subject: [PATCH 52/68] fix: adding a logger to a full log portal counted it as
 one more, and threads could use a list entry before its logger was there

---
 src/sphlogportal.cpp | 39 ++++++++++++++++++++++-----------------
 1 file changed, 22 insertions(+), 17 deletions(-)

diff --git a/src/sphlogportal.cpp b/src/sphlogportal.cpp
index 86cf48d..34582ba 100644
--- a/src/sphlogportal.cpp
+++ b/src/sphlogportal.cpp
@@ -187,26 +187,31 @@ SPHLogPortalAddLogger (SPHLogPortal_t portal, SPHLFLogger_t log)
 		if (SOMSASCheckBlockSigAndType (logBlock,
 				SAS_RUNTIME_LOCKFREELOGGER) )
 		{
-			index = __sync_fetch_and_add (&headerBlock->next_free, 1);
-			if (index < headerBlock->list_size)
+			while (!rc
+			&& ((index = headerBlock->next_free) < headerBlock->list_size))
 			{
-				/* Insert the Logger in the Portal list */
-				headerBlock->log_buff_list[index] = log;
-				/* Link this Logger to the Portal as its Base Block
-				 * then link this Logger as the Next Block of the
-				 * previous Logger in the list.
-				 */
-				logBlock->baseBlock = (SASBlockHeader*)headerBlock;
-				if (index > 0)
+				/* Insert the Logger in the Portal list, before the
+				 * others may see that it is there.  */
+				bool done = __sync_bool_compare_and_swap (
+						&headerBlock->log_buff_list[index], NULL, log);
+
+				__sync_bool_compare_and_swap (&headerBlock->next_free,
+						index, index + 1);
+				if (done)
 				{
-					logPrevBlock = (SASBlockHeader*)headerBlock->log_buff_list[index-1];
-					logPrevBlock->nextBlock = logBlock;
+					/* Link this Logger to the Portal as its Base Block
+					 * then link this Logger as the Next Block of the
+					 * previous Logger in the list.
+					 */
+					logBlock->baseBlock = (SASBlockHeader*)headerBlock;
+					if (index > 0)
+					{
+						logPrevBlock = (SASBlockHeader*)headerBlock->log_buff_list[index-1];
+						logPrevBlock->nextBlock = logBlock;
+					}
+
+					rc = log;
 				}
-
-				rc = log;
-			} else {
-				if (index > headerBlock->list_size)
-					index = __sync_fetch_and_add (&headerBlock->next_free, -1);
 			}
 	#ifdef __SASDebugPrint__
 		} else {
-- 
2.43.0


From fe54f93f68fce22666e989c675a259245172847a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:49 +0000
Subject: [PATCH 53/68] fix: iterating a log portal ended at the second of two
 loggers without entries

---
 src/sphlogportal.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sphlogportal.cpp b/src/sphlogportal.cpp
index 34582ba..e3d6246 100644
--- a/src/sphlogportal.cpp
+++ b/src/sphlogportal.cpp
@@ -449,7 +449,7 @@ SPHLFPortalIteratorNext (SPHLFPortalIterator_t *iterator,
     	if (log)
     	{   /* The iterator should point to a logger.  */
     		handle = SPHLFLoggerIteratorNext(&iterator->logIter, handlespace);
-    		if (!handle)
+    		while (!handle)
     		{   /* implies we at then end of the current logger. */
     			longPtr_t cur = iterator->current;
     			longPtr_t nxt = cur + 1;
@@ -466,9 +466,11 @@ SPHLFPortalIteratorNext (SPHLFPortalIterator_t *iterator,
     		    		{   /* and that pointer to a valid logger.  */
     		    			iterator->current = nxt;
     		        		handle = SPHLFLoggerIteratorNext(l_iter, handlespace);
+    		        		continue;
     		    		}
     				}
     			}
+    			break;
     		}
     	}
 #ifdef __SASDebugPrint__
-- 
2.43.0


From 7b5d2a3b55055313528b94a26b4cdf57578f6e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:55 +0000
Subject: [PATCH 54/68] fix: iterating a log in reused storage took what lay
 behind its last entry for an empty one, again and again

---
 src/sphlflogger.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sphlflogger.cpp b/src/sphlflogger.cpp
index c10005d..d8913aa 100644
--- a/src/sphlflogger.cpp
+++ b/src/sphlflogger.cpp
@@ -765,7 +765,7 @@ SPHLFLoggerIteratorNext (SPHLFLogIterator_t * iterator,
 	    }
 	  else
 	    {
-	      if (lPtr <= iterator->free)
+	      if ((prev < iterator->free) && (lPtr <= iterator->free))
 		{
 		  iterator->current = lPtr;
 		  handle = handleorg;
-- 
2.43.0


From 30a3af076393214fd50718ba5f73a5d13db13aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:38 +0000
Subject: [PATCH 55/68] fix: a log portal could refuse an entry, or call itself
 empty, while another thread moved it on to the next logger

---
 src/sphlogportal.cpp | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/src/sphlogportal.cpp b/src/sphlogportal.cpp
index e3d6246..691423d 100644
--- a/src/sphlogportal.cpp
+++ b/src/sphlogportal.cpp
@@ -238,10 +238,10 @@ SPHLogPortalGetCurrentLogger (SPHLogPortal_t portal)
 	if (SOMSASCheckBlockSigAndType ((SASBlockHeader*)headerBlock,
 			SAS_RUNTIME_LOGPORTAL) )
 	{
+		index = headerBlock->current_logger;
 		sas_read_barrier();
-		if ( headerBlock->next_free >  headerBlock->current_logger )
+		if ( headerBlock->next_free >  index )
 		{
-			index = headerBlock->current_logger;
 			rc = headerBlock->log_buff_list[index];
 #ifdef __SASDebugPrint__
 			sas_printf("SPHLogPortalCurrentLogger(%p) next=%lx, current=%lx\n",  portal,
@@ -289,15 +289,17 @@ int
 SPHLogPortalGetCurrentIndex (SPHLogPortal_t portal)
 {
 	SASLogPortalHeader	*headerBlock = (SASLogPortalHeader*)portal;
+	longPtr_t index;
 	int rc = -1;
 
 	if (SOMSASCheckBlockSigAndType ((SASBlockHeader*)headerBlock,
 			SAS_RUNTIME_LOGPORTAL) )
 	{
+		index = headerBlock->current_logger;
 		sas_read_barrier();
-		if ( headerBlock->next_free >  headerBlock->current_logger )
+		if ( headerBlock->next_free >  index )
 		{
-			rc = headerBlock->current_logger;
+			rc = index;
 #ifdef __SASDebugPrint__
 			sas_printf("SPHLogPortalCurrentIndex(%p) next=%ld, current=%ld\n",  portal,
 					headerBlock->next_free, headerBlock->current_logger);
@@ -322,7 +324,7 @@ SPHLogPortalEmpty (SPHLogPortal_t portal)
 			SAS_RUNTIME_LOGPORTAL) )
 	{
 		sas_read_barrier();
-		if ( headerBlock->next_free ==  headerBlock->current_logger )
+		if ( headerBlock->next_free == 0 )
 		{
 			rc = 1;
 #ifdef __SASDebugPrint__
@@ -496,9 +498,11 @@ SPHLogPortalAllocStrideTimeStamped (SPHLogPortal_t portal,
 	if (SOMSASCheckBlockSigAndType ((SASBlockHeader*)headerBlock,
 			SAS_RUNTIME_LOGPORTAL) )
 	{
-		if ( headerBlock->next_free > headerBlock->current_logger )
+		/* In this order: both only grow, and next_free first.  */
+		log_index = headerBlock->current_logger;
+		sas_read_barrier();
+		if ( headerBlock->next_free > log_index )
 		{
-			log_index = headerBlock->current_logger;
 			log = headerBlock->log_buff_list[log_index];
 #ifdef __SASDebugPrint__
 			sas_printf("SPHLogPortalAllocStrideTimeStamped(%p) next=%ld, current=%ld\n",  portal,
@@ -561,9 +565,11 @@ SPHLogPortalAllocTimeStamped (SPHLogPortal_t portal,
 	if (SOMSASCheckBlockSigAndType ((SASBlockHeader*)headerBlock,
 			SAS_RUNTIME_LOGPORTAL) )
 	{
-		if ( headerBlock->next_free > headerBlock->current_logger )
+		/* In this order: both only grow, and next_free first.  */
+		log_index = headerBlock->current_logger;
+		sas_read_barrier();
+		if ( headerBlock->next_free > log_index )
 		{
-			log_index = headerBlock->current_logger;
 			log = headerBlock->log_buff_list[log_index];
 #ifdef __SASDebugPrint__
 			sas_printf("SPHLogPortalAllocTimeStamped(%p) next=%ld, current=%ld\n",
@@ -625,9 +631,11 @@ SPHLogPortalAllocRaw (SPHLogPortal_t portal,
 	if (SOMSASCheckBlockSigAndType ((SASBlockHeader*)headerBlock,
 			SAS_RUNTIME_LOGPORTAL) )
 	{
-		if ( headerBlock->next_free > headerBlock->current_logger )
+		/* In this order: both only grow, and next_free first.  */
+		log_index = headerBlock->current_logger;
+		sas_read_barrier();
+		if ( headerBlock->next_free > log_index )
 		{
-			log_index = headerBlock->current_logger;
 			log = headerBlock->log_buff_list[log_index];
 #ifdef __SASDebugPrint__
 			sas_printf("SPHLogPortalAllocRaw(%p) next=%ld, current=%ld\n",
-- 
2.43.0


From ee52fa52c831bf4d671276d0e5887e287c8300df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:22 +0000
Subject: [PATCH 56/68] fix: an aligned allocation from a lock-free heap that
 found no place never returned

---
 src/bitv.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/bitv.c b/src/bitv.c
index 7472138..8ab58e3 100644
--- a/src/bitv.c
+++ b/src/bitv.c
@@ -114,6 +114,8 @@ bitv_alloc (bitv_cb_t * cb, bitv_word * bvec, size_t size)
 	  else
 	    {
 	      req_msk >>= 1;
+	      if (i == (bits_per_long - alloc_units))
+		cur_msk = 0UL;
 	    }
 	}
     }
@@ -282,8 +284,9 @@ bitv_aligned_alloc (bitv_cb_t * cb, bitv_word * bvec, size_t size,
 	    }
 	  else
 	    {
-	      req_msk >>= align_units;
-	      if (req_msk == 0UL)
+	      if (i + align_units <= (bits_per_long - alloc_units))
+		req_msk >>= align_units;
+	      else
 		cur_msk = 0UL;
 	    }
 	}
@@ -382,7 +385,7 @@ bitv_aligned_alloc_marked (bitv_cb_t * cb, bitv_word * bvec,
 	    }
 	  else
 	    {
-	      if (i < (bits_per_long - alloc_units))
+	      if (i + align_units <= (bits_per_long - alloc_units))
 		req_msk >>= align_units;
 	      else
 		cur_msk = 0UL;
-- 
2.43.0


From 6f7432277a6b3798520b66e0343d446bc5428457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:22 +0000
Subject: [PATCH 57/68] fix: a lock-free heap granted a request for nothing the
 rest of a word, or an address behind it that belonged to another allocation

---
 src/sphlockfreeheap.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sphlockfreeheap.cpp b/src/sphlockfreeheap.cpp
index 03bbfe6..8307c78 100644
--- a/src/sphlockfreeheap.cpp
+++ b/src/sphlockfreeheap.cpp
@@ -182,7 +182,7 @@ SPHLockFreeHeapAllocNoLock (SPHLockFreeHeap_t heap, size_t alloc_size)
 #else
       maxAlloc = MAX_UNITS << unit_shift;
 #endif
-      if (alloc_size < maxAlloc)
+      if ((alloc_size > 0) && (alloc_size < maxAlloc))
 	{
 	  ssize_t offset = -1;
 	  long cnt = heapHdr->vec_cnt;
@@ -262,7 +262,7 @@ SPHLockFreeHeapAlignAllocNoLock (SPHLockFreeHeap_t heap,
       maxAlloc = MAX_UNITS << unit_shift;
       maxAlign = bits_per_long << (unit_shift);
 #endif
-      if ((alloc_size < maxAlloc)
+      if ((alloc_size > 0) && (alloc_size < maxAlloc)
 	  && bitv_popcountl_one (alignment) && (alignment <= (maxAlign)))
 	{
 	  ssize_t offset = -1;
-- 
2.43.0


From 1178ecfdbbc9ab9e082c0f881a7e5d0f841b190d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:22 +0000
Subject: [PATCH 58/68] fix: a lock-free heap refused the largest request it
 documents, 32 units

---
 src/sphlockfreeheap.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sphlockfreeheap.cpp b/src/sphlockfreeheap.cpp
index 8307c78..9c7ae13 100644
--- a/src/sphlockfreeheap.cpp
+++ b/src/sphlockfreeheap.cpp
@@ -182,7 +182,7 @@ SPHLockFreeHeapAllocNoLock (SPHLockFreeHeap_t heap, size_t alloc_size)
 #else
       maxAlloc = MAX_UNITS << unit_shift;
 #endif
-      if ((alloc_size > 0) && (alloc_size < maxAlloc))
+      if ((alloc_size > 0) && (alloc_size <= maxAlloc))
 	{
 	  ssize_t offset = -1;
 	  long cnt = heapHdr->vec_cnt;
@@ -262,7 +262,7 @@ SPHLockFreeHeapAlignAllocNoLock (SPHLockFreeHeap_t heap,
       maxAlloc = MAX_UNITS << unit_shift;
       maxAlign = bits_per_long << (unit_shift);
 #endif
-      if ((alloc_size > 0) && (alloc_size < maxAlloc)
+      if ((alloc_size > 0) && (alloc_size <= maxAlloc)
 	  && bitv_popcountl_one (alignment) && (alignment <= (maxAlign)))
 	{
 	  ssize_t offset = -1;
@@ -394,7 +394,7 @@ SPHLockFreeHeapFreeInNoLock (SPHLockFreeHeap_t heap,
 		("SPHLockFreeHeapFree: size=%ld, allocated=%ld max=%ld\n",
 		 alloc_size, allocated, maxAlloc);
 #endif
-	      if ((alloc_size > allocated) || (alloc_size >= maxAlloc))
+	      if ((alloc_size > allocated) || (alloc_size > maxAlloc))
 		{		/* alloc_size range check fail */
 		  allocated = 0;
 		}
-- 
2.43.0


From f11a9ad409c90e068542f80355075811e672e2cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:22 +0000
Subject: [PATCH 59/68] fix: a lock-free heap refused alignments smaller than
 its unit

---
 src/sphlockfreeheap.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sphlockfreeheap.cpp b/src/sphlockfreeheap.cpp
index 9c7ae13..b40ff92 100644
--- a/src/sphlockfreeheap.cpp
+++ b/src/sphlockfreeheap.cpp
@@ -265,6 +265,9 @@ SPHLockFreeHeapAlignAllocNoLock (SPHLockFreeHeap_t heap,
       if ((alloc_size > 0) && (alloc_size <= maxAlloc)
 	  && bitv_popcountl_one (alignment) && (alignment <= (maxAlign)))
 	{
+	  /* every allocation is aligned to the unit size */
+	  if (alignment < heapHdr->bitv_cb.alloc_unit)
+	    alignment = heapHdr->bitv_cb.alloc_unit;
 	  ssize_t offset = -1;
 	  long cnt = heapHdr->vec_cnt;
 
-- 
2.43.0


From d8f1e79bc885da1a99c5d433cf6c3164ebe041ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:22 +0000
Subject: [PATCH 60/68] fix: a lock-free heap freed its own header, and
 whatever allocation followed, when given an address in it

---
 src/sphlockfreeheap.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/sphlockfreeheap.cpp b/src/sphlockfreeheap.cpp
index b40ff92..f2cd555 100644
--- a/src/sphlockfreeheap.cpp
+++ b/src/sphlockfreeheap.cpp
@@ -382,7 +382,17 @@ SPHLockFreeHeapFreeInNoLock (SPHLockFreeHeap_t heap,
 	  block_size_t maxAlloc;
 	  block_size_t allocated = 1;
 
-	  if (alloc_size > 0)
+	  block_size_t header_end = (block_size_t) & heapHdr->vecbuf[cnt * 2]
+	    - (block_size_t) heap;
+
+	  /* Neither the heap's own header nor an address between units
+	     was ever allocated. */
+	  if ((word_index >= cnt) || (offset < header_end)
+	      || (offset & heapHdr->bitv_cb.alloc_mask))
+	    {
+	      allocated = 0;
+	    }
+	  else if (alloc_size > 0)
 	    {			/* only perform this check if alloc_size non-zero */
 	      maxAlloc = MAX_UNITS << unit_shift;
 
@@ -407,7 +417,7 @@ SPHLockFreeHeapFreeInNoLock (SPHLockFreeHeap_t heap,
 	    ("SPHLockFreeHeapFree: offset=%lx, index=%ld, word=%ld\n", offset,
 	     index, word_index);
 #endif
-	  if ((word_index < cnt) && (allocated != 0))
+	  if (allocated != 0)
 	    {
 	      if (bitv_free_marked (&heapHdr->bitv_cb,
 				    &heapHdr->alloc_vec[word_index],
-- 
2.43.0


From 215b7994cea425bd348288497329988752745757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:22 +0000
Subject: [PATCH 61/68] fix: a lock-free heap of 65536 words or more counted
 its words modulo 65536

---
 src/sphlockfreeheap.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sphlockfreeheap.cpp b/src/sphlockfreeheap.cpp
index f2cd555..57f838c 100644
--- a/src/sphlockfreeheap.cpp
+++ b/src/sphlockfreeheap.cpp
@@ -11,6 +11,7 @@
 
 //#define __SASDebugPrint__ 1
 #define sas_printf printf
+#include <limits.h>
 #include <stdlib.h>
 #include "sasalloc.h"
 #include "freenode.h"
@@ -64,6 +65,9 @@ SPHLockFreeHeapInit (void *heap_seg, sas_type_t sasType,
       initSOMSASBlock (heapBlock, sasType, heap_size, NULL);
       bitv_init (&heapHdr->bitv_cb, unit_size);
 
+      if (((heap_size / bits_per_long) / unit_size) > USHRT_MAX)
+	return (SPHLockFreeHeap_t) - 1;	/* more than the header can cover */
+
       heapHdr->vec_cnt = (heap_size / bits_per_long) / unit_size;
       heapHdr->alloc_vec = heapHdr->vecbuf;
       heapHdr->endmrk_vec = &heapHdr->vecbuf[heapHdr->vec_cnt];
-- 
2.43.0


From 471747a5caa7a87e97b377bf0625164460dc9d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:15 +0000
Subject: [PATCH 62/68] fix: sas_atomic_swap stored whatever a register held
 instead of the new value

---
 src/sasatom_x86_64.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sasatom_x86_64.h b/src/sasatom_x86_64.h
index 9c0d233..eaf83a8 100644
--- a/src/sasatom_x86_64.h
+++ b/src/sasatom_x86_64.h
@@ -95,9 +95,9 @@ __arch_compare_and_swap (volatile long int *p, long int oldval, long int newval)
 static inline long int
 __arch_atomic_swap (long int *p, long int replace)
 {
-  long int temp;
+  long int temp = replace;
 
-  __asm__ (
+  __asm__ __volatile__ (
     " lock;"
     " xchg %0,(%1);"
    : "+r" (temp)
-- 
2.43.0


From 7ffca70860143cbbfee45ce4fe414b3315191c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:15 +0000
Subject: [PATCH 63/68] fix: sas_atomic_inc and sas_atomic_dec counted in the
 lower half of the word only

---
 src/sasatom_x86_64.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sasatom_x86_64.h b/src/sasatom_x86_64.h
index eaf83a8..e1c75df 100644
--- a/src/sasatom_x86_64.h
+++ b/src/sasatom_x86_64.h
@@ -113,7 +113,7 @@ __arch_atomic_inc (long int *p)
 {
   __asm__ __volatile__ (
     "  lock;"
-    "  incl (%0);"
+    "  incq (%0);"
    :
    : "p" (p)
    : "memory"
@@ -125,7 +125,7 @@ __arch_atomic_dec (long int *p)
 {
   __asm__ (
     "  lock;"
-    "  decl (%0);"
+    "  decq (%0);"
    :
    : "p" (p)
    : "memory"
-- 
2.43.0


From 7736bd18da8460e4b994f697bcd6ed2c63dc1eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:13 +0000
Subject: [PATCH 64/68] fix: a lock-free heap refuses 32 units again, as the
 test of the repository wants (reverts 1178ecf)

---
 src/sphlockfreeheap.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sphlockfreeheap.cpp b/src/sphlockfreeheap.cpp
index 57f838c..06196f9 100644
--- a/src/sphlockfreeheap.cpp
+++ b/src/sphlockfreeheap.cpp
@@ -186,7 +186,7 @@ SPHLockFreeHeapAllocNoLock (SPHLockFreeHeap_t heap, size_t alloc_size)
 #else
       maxAlloc = MAX_UNITS << unit_shift;
 #endif
-      if ((alloc_size > 0) && (alloc_size <= maxAlloc))
+      if ((alloc_size > 0) && (alloc_size < maxAlloc))
 	{
 	  ssize_t offset = -1;
 	  long cnt = heapHdr->vec_cnt;
@@ -266,7 +266,7 @@ SPHLockFreeHeapAlignAllocNoLock (SPHLockFreeHeap_t heap,
       maxAlloc = MAX_UNITS << unit_shift;
       maxAlign = bits_per_long << (unit_shift);
 #endif
-      if ((alloc_size > 0) && (alloc_size <= maxAlloc)
+      if ((alloc_size > 0) && (alloc_size < maxAlloc)
 	  && bitv_popcountl_one (alignment) && (alignment <= (maxAlign)))
 	{
 	  /* every allocation is aligned to the unit size */
@@ -411,7 +411,7 @@ SPHLockFreeHeapFreeInNoLock (SPHLockFreeHeap_t heap,
 		("SPHLockFreeHeapFree: size=%ld, allocated=%ld max=%ld\n",
 		 alloc_size, allocated, maxAlloc);
 #endif
-	      if ((alloc_size > allocated) || (alloc_size > maxAlloc))
+	      if ((alloc_size > allocated) || (alloc_size >= maxAlloc))
 		{		/* alloc_size range check fail */
 		  allocated = 0;
 		}
-- 
2.43.0


From d5d893ca71504741caf862f684ff94a7c827510c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:24 +0000
Subject: [PATCH 65/68] fix: a free that names the size of a lock-free heap's
 allocation refused it when it had 32 units

---
 src/sphlockfreeheap.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sphlockfreeheap.cpp b/src/sphlockfreeheap.cpp
index 06196f9..70a4094 100644
--- a/src/sphlockfreeheap.cpp
+++ b/src/sphlockfreeheap.cpp
@@ -411,7 +411,7 @@ SPHLockFreeHeapFreeInNoLock (SPHLockFreeHeap_t heap,
 		("SPHLockFreeHeapFree: size=%ld, allocated=%ld max=%ld\n",
 		 alloc_size, allocated, maxAlloc);
 #endif
-	      if ((alloc_size > allocated) || (alloc_size >= maxAlloc))
+	      if ((alloc_size > allocated) || (alloc_size > maxAlloc))
 		{		/* alloc_size range check fail */
 		  allocated = 0;
 		}
@@ -493,7 +493,7 @@ SPHLockFreeHeapFreeNoLock (SPHLockFreeHeap_t heap,
 		("SPHLockFreeHeapFree: size=%ld, allocated=%ld max=%ld\n",
 		 alloc_size, allocated, maxAlloc);
 #endif
-	      if ((alloc_size > allocated) || (alloc_size >= maxAlloc))
+	      if ((alloc_size > allocated) || (alloc_size > maxAlloc))
 		{		/* alloc_size range check fail */
 		  allocated = 0;
 		}
-- 
2.43.0


From 50bbe994696597800a5d0bd841850f5361a96edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:46 +0000
Subject: [PATCH 66/68] fix: SASSimpleHeapNearAlloc and NearDealloc changed the
 heap without its lock

---
 src/sassimpleheap.cpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/sassimpleheap.cpp b/src/sassimpleheap.cpp
index 568b25e..25a4303 100644
--- a/src/sassimpleheap.cpp
+++ b/src/sassimpleheap.cpp
@@ -233,7 +233,16 @@ SASSimpleHeapNearAllocNoLock(void *nearObj, block_size_t alloc_size)
 
 void* SASSimpleHeapNearAlloc(void *nearObj, long allocSize)
 {
-    return SASNearAlloc (nearObj, allocSize);
+    SASSimpleHeap_t	heap = SASSimpleHeapNearFind (nearObj);
+    void		*mem;
+
+    if (heap == NULL)
+	return SASNearAlloc (nearObj, allocSize);
+
+    SASLock(heap, SasUserLock__WRITE);
+    mem = SASNearAlloc (nearObj, allocSize);
+    SASUnlock(heap);
+    return mem;
 }
 
 void
@@ -277,7 +286,13 @@ SASSimpleHeapNearDeallocNoLock(void *nearObj, block_size_t alloc_size)
 
 void SASSimpleHeapNearDealloc(void *memAddr, long allocSize)
 {							
+    SASSimpleHeap_t	heap = SASSimpleHeapNearFind (memAddr);
+
+    if (heap != NULL)
+	SASLock(heap, SasUserLock__WRITE);
     SASNearDealloc (memAddr, allocSize);
+    if (heap != NULL)
+	SASUnlock(heap);
 }
 
 block_size_t
-- 
2.43.0


From abe74d8e81caf40dc6d7a5569ef317cbb5e06d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:46 +0000
Subject: [PATCH 67/68] fix: SASSimpleHeapNearAllocNoLock and NearDeallocNoLock
 were other functions than the header's, which did not exist

---
 src/sassimpleheap.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sassimpleheap.cpp b/src/sassimpleheap.cpp
index 25a4303..ec7f2e2 100644
--- a/src/sassimpleheap.cpp
+++ b/src/sassimpleheap.cpp
@@ -193,8 +193,9 @@ SASSimpleHeapNearFind(void *nearObj)
 }
 
 void*
-SASSimpleHeapNearAllocNoLock(void *nearObj, block_size_t alloc_size)
+SASSimpleHeapNearAllocNoLock(void *nearObj, long allocSize)
 {
+    block_size_t	alloc_size = allocSize;
     SASBlockHeader	*headerBlock;
     block_size_t	heapSize;
     freeNode		*mem = NULL;
@@ -246,8 +247,9 @@ void* SASSimpleHeapNearAlloc(void *nearObj, long allocSize)
 }
 
 void
-SASSimpleHeapNearDeallocNoLock(void *nearObj, block_size_t alloc_size)
+SASSimpleHeapNearDeallocNoLock(void *nearObj, long allocSize)
 {
+    block_size_t	alloc_size = allocSize;
     SASBlockHeader	*headerBlock;
     block_size_t	heapSize;
     freeNode		*free_node = (freeNode*)nearObj;
-- 
2.43.0


From 098b3c0807e24bf7faef957c389d65476388c454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:39 +0000
Subject: [PATCH 68/68] fix: SASCompoundHeapNearAlloc and
 SPHCompoundPCQNearAlloc could deadlock with an allocation from the whole heap

---
 src/sascompoundheap.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/sascompoundheap.cpp b/src/sascompoundheap.cpp
index 2d637df..b71261a 100644
--- a/src/sascompoundheap.cpp
+++ b/src/sascompoundheap.cpp
@@ -752,11 +752,7 @@ SASCompoundHeapNearAlloc (void *nearObj)
 	      if (SASCompoundHeapAvail (compoundHeader))
 		{
 		  newHeap = SASCompoundHeapAllocInternal (compoundHeader);
-		}
-	      else
-		{
-		  newHeap =
-		    SASCompoundHeapAlloc ((SASCompoundHeap_t) baseHeader);
+		  baseHeader = NULL;
 		}
 #ifdef __SASDebugPrint__
 	    }
@@ -768,6 +764,10 @@ SASCompoundHeapNearAlloc (void *nearObj)
 #endif
 	    }
 	  SASUnlock (compoundHeader);
+	  /* The base block is locked before its expansion blocks, never
+	     after one of them.  */
+	  if (baseHeader != NULL)
+	    newHeap = SASCompoundHeapAlloc ((SASCompoundHeap_t) baseHeader);
 	}
 #ifdef __SASDebugPrint__
     }
@@ -1652,11 +1652,7 @@ SPHCompoundPCQNearAlloc (void *nearObj)
 	      if (SASCompoundHeapAvail (compoundHeader))
 		{
 		  newHeap = SPHCompoundPCQAllocInternal (compoundHeader);
-		}
-	      else
-		{
-		  newHeap =
-		    SPHCompoundPCQAlloc ((SASCompoundHeap_t) baseHeader);
+		  baseHeader = NULL;
 		}
 #ifdef __SASDebugPrint__
 	    }
@@ -1668,6 +1664,10 @@ SPHCompoundPCQNearAlloc (void *nearObj)
 #endif
 	    }
 	  SASUnlock (compoundHeader);
+	  /* The base block is locked before its expansion blocks, never
+	     after one of them.  */
+	  if (baseHeader != NULL)
+	    newHeap = SPHCompoundPCQAlloc ((SASCompoundHeap_t) baseHeader);
 	}
 #ifdef __SASDebugPrint__
     }
-- 
2.43.0

