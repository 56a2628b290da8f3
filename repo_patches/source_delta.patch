From 059bb2df2c0e52cd5bd88d5e45eb24fc102072b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:16 +0000
Subject: [PATCH 1/7] fix: do not hand out a block that exceeds the allocator
 segment

The segment header was not subtracted from the available size, so the last
block of a segment could extend up to 8 bytes over the memory allocated.
---
 tommyds/tommyalloc.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tommyds/tommyalloc.c b/tommyds/tommyalloc.c
index 0da604c..bae7348 100644
--- a/tommyds/tommyalloc.c
+++ b/tommyds/tommyalloc.c
@@ -103,6 +103,7 @@ void* tommy_allocator_alloc(tommy_allocator* alloc)
 		segment->next = alloc->used_segment;
 		alloc->used_segment = segment;
 		data += sizeof(tommy_allocator_entry);
+		size -= sizeof(tommy_allocator_entry);
 
 		/* align if not aligned */
 		off = (tommy_uintptr_t)data;
-- 
2.43.0


From 46efd8cc830ba65620486f1989d5a2806c1e8268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:16 +0000
Subject: [PATCH 2/7] fix: do not read over the end of the string in
 tommy_strhash_u32()

Up to 3 bytes after the terminator were read, possibly in an unmapped page.
The hash values are unchanged.
---
 tommyds/tommyhash.c | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/tommyds/tommyhash.c b/tommyds/tommyhash.c
index 71c4ef3..8f1de88 100644
--- a/tommyds/tommyhash.c
+++ b/tommyds/tommyhash.c
@@ -165,6 +165,28 @@ tommy_uint64_t tommy_hash_u64(tommy_uint64_t init_val, const void* void_key, tom
 	return c + ((tommy_uint64_t)b << 32);
 }
 
+/**
+ * Read up to 4 bytes of a string in little-endian order, stopping at the terminator.
+ * Bytes after the terminator are not accessed, and they are set to 0.
+ */
+tommy_inline tommy_uint32_t tommy_str_uint32_read(const unsigned char* key)
+{
+	tommy_uint32_t v = key[0];
+
+	if (!key[0])
+		return v;
+
+	v |= (tommy_uint32_t)key[1] << 8;
+	if (!key[1])
+		return v;
+
+	v |= (tommy_uint32_t)key[2] << 16;
+	if (!key[2])
+		return v;
+
+	return v | (tommy_uint32_t)key[3] << 24;
+}
+
 tommy_uint32_t tommy_strhash_u32(tommy_uint64_t init_val, const void* void_key)
 {
 	const unsigned char* key = tommy_cast(const unsigned char*, void_key);
@@ -175,7 +197,7 @@ tommy_uint32_t tommy_strhash_u32(tommy_uint64_t init_val, const void* void_key)
 	/* this is different than original lookup3 and the result won't match */
 
 	while (1) {
-		tommy_uint32_t v = tommy_le_uint32_read(key);
+		tommy_uint32_t v = tommy_str_uint32_read(key);
 
 		if (tommy_haszero_u32(v)) {
 			if (v & m[0]) {
@@ -192,7 +214,7 @@ tommy_uint32_t tommy_strhash_u32(tommy_uint64_t init_val, const void* void_key)
 
 		a += v;
 
-		v = tommy_le_uint32_read(key + 4);
+		v = tommy_str_uint32_read(key + 4);
 
 		if (tommy_haszero_u32(v)) {
 			if (v & m[0]) {
@@ -209,7 +231,7 @@ tommy_uint32_t tommy_strhash_u32(tommy_uint64_t init_val, const void* void_key)
 
 		b += v;
 
-		v = tommy_le_uint32_read(key + 8);
+		v = tommy_str_uint32_read(key + 8);
 
 		if (tommy_haszero_u32(v)) {
 			if (v & m[0]) {
-- 
2.43.0


From cb513a7e91608a35fa4f5b92adab51bf993df2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:16 +0000
Subject: [PATCH 3/7] fix: keep the hashlin reallocation incremental when a
 shrink is reverted

A hashtable growing again in the middle of a shrink was waiting to have the
full table 50% full, and then was splitting all the missing buckets in a
single insert.
---
 tommyds/tommyhashlin.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tommyds/tommyhashlin.c b/tommyds/tommyhashlin.c
index fe138f7..d4b5831 100644
--- a/tommyds/tommyhashlin.c
+++ b/tommyds/tommyhashlin.c
@@ -89,8 +89,11 @@ void tommy_hashlin_done(tommy_hashlin* hashlin)
 tommy_inline void hashlin_grow_step(tommy_hashlin* hashlin)
 {
 	/* grow if more than 50% full */
+	/* if we are shrinking, the buckets in use are only low_max + split, */
+	/* and waiting more would require to split most of them at one time */
 	if (hashlin->state != TOMMY_HASHLIN_STATE_GROW
-		&& hashlin->count > hashlin->bucket_max / 2
+		&& (hashlin->count > hashlin->bucket_max / 2
+			|| (hashlin->state == TOMMY_HASHLIN_STATE_SHRINK && 2 * hashlin->count > hashlin->low_max + hashlin->split))
 	) {
 		/* if we are stable, setup a new grow state */
 		/* otherwise continue with the already setup shrink one */
-- 
2.43.0


From f19a05019707d6706872b12032d998a821b922d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:16 +0000
Subject: [PATCH 4/7] fix: keep the arrays consistent if an allocation fails
 while growing

The size was set before allocating. With a malloc() implementation that throws
or does a longjmp() on failure, the array was left with elements without memory,
and a later grow to the same size was not allocating them.
---
 tommyds/tommyarray.c      |  4 +++-
 tommyds/tommyarrayblk.c   | 15 ++++++++++-----
 tommyds/tommyarrayblkof.c | 15 ++++++++++-----
 tommyds/tommyarrayof.c    |  4 +++-
 4 files changed, 26 insertions(+), 12 deletions(-)

diff --git a/tommyds/tommyarray.c b/tommyds/tommyarray.c
index d77db04..b1ed44f 100644
--- a/tommyds/tommyarray.c
+++ b/tommyds/tommyarray.c
@@ -59,7 +59,6 @@ void tommy_array_grow(tommy_array* array, tommy_size_t count)
 {
 	if (array->count >= count)
 		return;
-	array->count = count;
 
 	while (count > array->bucket_max) {
 		void** segment;
@@ -74,6 +73,9 @@ void tommy_array_grow(tommy_array* array, tommy_size_t count)
 		++array->bucket_bit;
 		array->bucket_max = (tommy_size_t)1 << array->bucket_bit;
 	}
+
+	/* set the size only now that all the elements have memory */
+	array->count = count;
 }
 
 tommy_size_t tommy_array_memory_usage(tommy_array* array)
diff --git a/tommyds/tommyarrayblk.c b/tommyds/tommyarrayblk.c
index 8f30234..8c7befc 100644
--- a/tommyds/tommyarrayblk.c
+++ b/tommyds/tommyarrayblk.c
@@ -54,10 +54,9 @@ void tommy_arrayblk_grow(tommy_arrayblk* array, tommy_size_t count)
 
 	if (array->count >= count)
 		return;
-	array->count = count;
 
 	block_max = (count + TOMMY_ARRAYBLK_SIZE - 1) / TOMMY_ARRAYBLK_SIZE;
-	block_mac = tommy_array_size(&array->block);
+	block_mac = (array->count + TOMMY_ARRAYBLK_SIZE - 1) / TOMMY_ARRAYBLK_SIZE;
 
 	if (block_mac < block_max) {
 		/* grow the block array */
@@ -65,14 +64,20 @@ void tommy_arrayblk_grow(tommy_arrayblk* array, tommy_size_t count)
 
 		/* allocate new blocks */
 		while (block_mac < block_max) {
-			void** ptr = tommy_cast(void**, tommy_calloc(TOMMY_ARRAYBLK_SIZE, sizeof(void*)));
+			/* it may be already allocated if a previous grow was interrupted */
+			if (!tommy_array_get(&array->block, block_mac)) {
+				void** ptr = tommy_cast(void**, tommy_calloc(TOMMY_ARRAYBLK_SIZE, sizeof(void*)));
 
-			/* set the new block */
-			tommy_array_set(&array->block, block_mac, ptr);
+				/* set the new block */
+				tommy_array_set(&array->block, block_mac, ptr);
+			}
 
 			++block_mac;
 		}
 	}
+
+	/* set the size only now that all the elements have memory */
+	array->count = count;
 }
 
 tommy_size_t tommy_arrayblk_memory_usage(tommy_arrayblk* array)
diff --git a/tommyds/tommyarrayblkof.c b/tommyds/tommyarrayblkof.c
index 11187be..20a2290 100644
--- a/tommyds/tommyarrayblkof.c
+++ b/tommyds/tommyarrayblkof.c
@@ -55,10 +55,9 @@ void tommy_arrayblkof_grow(tommy_arrayblkof* array, tommy_size_t count)
 
 	if (array->count >= count)
 		return;
-	array->count = count;
 
 	block_max = (count + TOMMY_ARRAYBLKOF_SIZE - 1) / TOMMY_ARRAYBLKOF_SIZE;
-	block_mac = tommy_array_size(&array->block);
+	block_mac = (array->count + TOMMY_ARRAYBLKOF_SIZE - 1) / TOMMY_ARRAYBLKOF_SIZE;
 
 	if (block_mac < block_max) {
 		/* grow the block array */
@@ -66,14 +65,20 @@ void tommy_arrayblkof_grow(tommy_arrayblkof* array, tommy_size_t count)
 
 		/* allocate new blocks */
 		while (block_mac < block_max) {
-			void** ptr = tommy_cast(void**, tommy_calloc(TOMMY_ARRAYBLKOF_SIZE, array->element_size));
+			/* it may be already allocated if a previous grow was interrupted */
+			if (!tommy_array_get(&array->block, block_mac)) {
+				void** ptr = tommy_cast(void**, tommy_calloc(TOMMY_ARRAYBLKOF_SIZE, array->element_size));
 
-			/* set the new block */
-			tommy_array_set(&array->block, block_mac, ptr);
+				/* set the new block */
+				tommy_array_set(&array->block, block_mac, ptr);
+			}
 
 			++block_mac;
 		}
 	}
+
+	/* set the size only now that all the elements have memory */
+	array->count = count;
 }
 
 tommy_size_t tommy_arrayblkof_memory_usage(tommy_arrayblkof* array)
diff --git a/tommyds/tommyarrayof.c b/tommyds/tommyarrayof.c
index e07e763..3cbb440 100644
--- a/tommyds/tommyarrayof.c
+++ b/tommyds/tommyarrayof.c
@@ -60,7 +60,6 @@ void tommy_arrayof_grow(tommy_arrayof* array, tommy_size_t count)
 {
 	if (array->count >= count)
 		return;
-	array->count = count;
 
 	while (count > array->bucket_max) {
 		unsigned char* segment;
@@ -75,6 +74,9 @@ void tommy_arrayof_grow(tommy_arrayof* array, tommy_size_t count)
 		++array->bucket_bit;
 		array->bucket_max = (tommy_size_t)1 << array->bucket_bit;
 	}
+
+	/* set the size only now that all the elements have memory */
+	array->count = count;
 }
 
 tommy_size_t tommy_arrayof_memory_usage(tommy_arrayof* array)
-- 
2.43.0


From ecb25aea64b958d29c73e6c31335301103afa0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:16 +0000
Subject: [PATCH 5/7] fix: do not lose an element of the trie if an allocation
 fails

When an insert was expanding more than one level, and the allocation of a level
after the first was failing with a throw or a longjmp(), the element already
present was lost.
---
 tommyds/tommytrie.c | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/tommyds/tommytrie.c b/tommyds/tommytrie.c
index 8b3464b..c456e78 100644
--- a/tommyds/tommytrie.c
+++ b/tommyds/tommytrie.c
@@ -123,8 +123,6 @@ recurse:
 expand:
 	/* convert to a tree */
 	tree = tommy_cast(tommy_trie_tree*, tommy_allocator_alloc(trie->alloc));
-	++trie->node_count;
-	*let_ptr = tommy_cast(tommy_trie_node*, trie_set_tree(tree));
 
 	/* initialize it */
 	for (i = 0; i < TOMMY_TRIE_TREE_MAX; ++i)
@@ -134,11 +132,16 @@ expand:
 	i = (node->index >> shift) & TOMMY_TRIE_TREE_MASK;
 	j = (key >> shift) & TOMMY_TRIE_TREE_MASK;
 
+	/* insert the already existing element */
+	/* do it at any level, to not lose it if the next allocation fails */
+	tree->map[i] = node;
+
+	/* link the tree only now that it's complete */
+	++trie->node_count;
+	*let_ptr = tommy_cast(tommy_trie_node*, trie_set_tree(tree));
+
 	/* if they don't collide */
 	if (i != j) {
-		/* insert the already existing element */
-		tree->map[i] = node;
-
 		/* insert the new node */
 		tommy_list_insert_first(&tree->map[j], insert);
 		return;
@@ -237,8 +240,9 @@ reduce:
 		}
 	}
 
-	/* here count is never 0, as we cannot have a tree with only one sub node */
-	assert(count == 1);
+	/* here count is 0 only if an insert was interrupted by an allocation failure */
+	/* in such case we can have a tree with only one sub node */
+	assert(count <= 1);
 
 	*let_ptr = tree->map[last];
 
-- 
2.43.0


From 8946b2b2d9d5e48748449f5daebaa88ebb2d63be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:16 +0000
Subject: [PATCH 6/7] fix: do not corrupt the tree inserting again an element
 already present

The links of the node were cleared, losing its subtrees, and the element was
counted twice.
---
 tommyds/tommytree.c | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/tommyds/tommytree.c b/tommyds/tommytree.c
index 8ef8478..d54a230 100644
--- a/tommyds/tommytree.c
+++ b/tommyds/tommytree.c
@@ -117,8 +117,18 @@ static tommy_tree_node* tommy_tree_insert_node(tommy_compare_func* cmp, tommy_tr
 {
 	int c;
 
-	if (!root)
-		return *let;
+	if (!root) {
+		tommy_tree_node* node = *let;
+
+		node->prev = 0;
+		node->next = 0;
+		node->index = 0;
+
+		/* not present, clear the return pointer */
+		*let = 0;
+
+		return node;
+	}
 
 	c = cmp((*let)->data, root->data);
 
@@ -142,17 +152,17 @@ void* tommy_tree_insert(tommy_tree* tree, tommy_tree_node* node, void* data)
 {
 	tommy_tree_node* insert = node;
 
+	/* don't touch the links now, the node itself may be already in the tree */
 	insert->data = data;
-	insert->prev = 0;
-	insert->next = 0;
-	insert->index = 0;
 
 	tree->root = tommy_tree_insert_node(tree->cmp, tree->root, &insert);
 
-	if (insert == node)
-		++tree->count;
+	if (insert)
+		return insert->data;
 
-	return insert->data;
+	++tree->count;
+
+	return data;
 }
 
 static tommy_tree_node* tommy_tree_remove_node(tommy_compare_func* cmp, tommy_tree_node* root, void* data, tommy_tree_node** let)
-- 
2.43.0


From 3c3757517e88f6c0c7cc25998f4e5610d336daf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:05 +0000
Subject: [PATCH 7/7] fix: report only the allocated blocks in the memory usage
 of the block arrays

After an allocation failure in tommy_arrayblk_grow() or tommy_arrayblkof_grow()
the last blocks of the array are missing, but the memory usage counted them.
---
 tommyds/tommyarrayblk.c   | 8 +++++++-
 tommyds/tommyarrayblkof.c | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/tommyds/tommyarrayblk.c b/tommyds/tommyarrayblk.c
index 8c7befc..ddb774f 100644
--- a/tommyds/tommyarrayblk.c
+++ b/tommyds/tommyarrayblk.c
@@ -82,6 +82,12 @@ void tommy_arrayblk_grow(tommy_arrayblk* array, tommy_size_t count)
 
 tommy_size_t tommy_arrayblk_memory_usage(tommy_arrayblk* array)
 {
-	return tommy_array_memory_usage(&array->block) + tommy_array_size(&array->block) * TOMMY_ARRAYBLK_SIZE * sizeof(void*);
+	tommy_size_t block_count = tommy_array_size(&array->block);
+
+	/* the last blocks may be not allocated if a grow was interrupted */
+	while (block_count && !tommy_array_get(&array->block, block_count - 1))
+		--block_count;
+
+	return tommy_array_memory_usage(&array->block) + block_count * TOMMY_ARRAYBLK_SIZE * sizeof(void*);
 }
 
diff --git a/tommyds/tommyarrayblkof.c b/tommyds/tommyarrayblkof.c
index 20a2290..a35b498 100644
--- a/tommyds/tommyarrayblkof.c
+++ b/tommyds/tommyarrayblkof.c
@@ -83,6 +83,12 @@ void tommy_arrayblkof_grow(tommy_arrayblkof* array, tommy_size_t count)
 
 tommy_size_t tommy_arrayblkof_memory_usage(tommy_arrayblkof* array)
 {
-	return tommy_array_memory_usage(&array->block) + tommy_array_size(&array->block) * TOMMY_ARRAYBLKOF_SIZE * array->element_size;
+	tommy_size_t block_count = tommy_array_size(&array->block);
+
+	/* the last blocks may be not allocated if a grow was interrupted */
+	while (block_count && !tommy_array_get(&array->block, block_count - 1))
+		--block_count;
+
+	return tommy_array_memory_usage(&array->block) + block_count * TOMMY_ARRAYBLKOF_SIZE * array->element_size;
 }
 
-- 
2.43.0

