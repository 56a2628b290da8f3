#include "tommy.h"
#include "tc.h"

#ifdef __cplusplus
extern "C" {
#endif

/* typed views */
#define HT(c) ((tommy_hashtable*)(c))
#define HD(c) ((tommy_hashdyn*)(c))
#define HL(c) ((tommy_hashlin*)(c))
#define TR(c) ((tommy_trie*)(c))
#define TI(c) ((tommy_trie_inplace*)(c))
#define TE(c) ((tommy_tree*)(c))
#define LI(c) ((tommy_list*)(c))
#define AR(c) ((tommy_array*)(c))
#define AO(c) ((tommy_arrayof*)(c))
#define AB(c) ((tommy_arrayblk*)(c))
#define ABO(c) ((tommy_arrayblkof*)(c))
#define AL(c) ((tommy_allocator*)(c))
#define ND(n) ((tommy_node*)(n))
#define NI(n) ((tommy_trie_inplace_node*)(n))

size_t tc_csize(int k)
{
	switch (k) {
	case K_HT: return sizeof(tommy_hashtable);
	case K_HD: return sizeof(tommy_hashdyn);
	case K_HL: return sizeof(tommy_hashlin);
	case K_TR: return sizeof(tommy_trie);
	case K_TI: return sizeof(tommy_trie_inplace);
	case K_TE: return sizeof(tommy_tree);
	case K_LI: return sizeof(tommy_list);
	case K_AR: return sizeof(tommy_array);
	case K_AO: return sizeof(tommy_arrayof);
	case K_AB: return sizeof(tommy_arrayblk);
	case K_ABO: return sizeof(tommy_arrayblkof);
	case K_AL: return sizeof(tommy_allocator);
	}
	return 0;
}

size_t tc_nsize(int k)
{
	return k == K_TI ? sizeof(tommy_trie_inplace_node) : sizeof(tommy_node);
}

size_t tc_trie_block(void) { return TOMMY_TRIE_BLOCK_SIZE; }

int tc_isdebug(void)
{
#ifdef NDEBUG
	return 0;
#else
	return 1;
#endif
}

int tc_iscxx(void)
{
#ifdef __cplusplus
	return 1;
#else
	return 0;
#endif
}

void tc_init(int k, void* c, size_t p0, size_t p1, void* alloc, tc_cmp* cmp)
{
	switch (k) {
	case K_HT: tommy_hashtable_init(HT(c), p0); break;
	case K_HD: tommy_hashdyn_init(HD(c)); break;
	case K_HL: tommy_hashlin_init(HL(c)); break;
	case K_TR: tommy_trie_init(TR(c), AL(alloc)); break;
	case K_TI: tommy_trie_inplace_init(TI(c)); break;
	case K_TE: tommy_tree_init(TE(c), cmp); break;
	case K_LI: tommy_list_init(LI(c)); break;
	case K_AR: tommy_array_init(AR(c)); break;
	case K_AO: tommy_arrayof_init(AO(c), p0); break;
	case K_AB: tommy_arrayblk_init(AB(c)); break;
	case K_ABO: tommy_arrayblkof_init(ABO(c), p0); break;
	case K_AL: tommy_allocator_init(AL(c), p0, p1); break;
	}
}

void tc_done(int k, void* c)
{
	switch (k) {
	case K_HT: tommy_hashtable_done(HT(c)); break;
	case K_HD: tommy_hashdyn_done(HD(c)); break;
	case K_HL: tommy_hashlin_done(HL(c)); break;
	case K_AR: tommy_array_done(AR(c)); break;
	case K_AO: tommy_arrayof_done(AO(c)); break;
	case K_AB: tommy_arrayblk_done(AB(c)); break;
	case K_ABO: tommy_arrayblkof_done(ABO(c)); break;
	case K_AL: tommy_allocator_done(AL(c)); break;
	}
}

void tc_insert(int k, void* c, void* node, void* data, uint64_t hash)
{
	switch (k) {
	case K_HT: tommy_hashtable_insert(HT(c), ND(node), data, (tommy_hash_t)hash); break;
	case K_HD: tommy_hashdyn_insert(HD(c), ND(node), data, (tommy_hash_t)hash); break;
	case K_HL: tommy_hashlin_insert(HL(c), ND(node), data, (tommy_hash_t)hash); break;
	case K_TR: tommy_trie_insert(TR(c), ND(node), data, (tommy_key_t)hash); break;
	case K_TI: tommy_trie_inplace_insert(TI(c), NI(node), data, (tommy_key_t)hash); break;
	}
}

void* tc_tree_insert(void* c, void* node, void* data) { return tommy_tree_insert(TE(c), ND(node), data); }

void* tc_remove(int k, void* c, tc_cmp* cmp, const void* arg, uint64_t hash)
{
	switch (k) {
	case K_HT: return tommy_hashtable_remove(HT(c), cmp, arg, (tommy_hash_t)hash);
	case K_HD: return tommy_hashdyn_remove(HD(c), cmp, arg, (tommy_hash_t)hash);
	case K_HL: return tommy_hashlin_remove(HL(c), cmp, arg, (tommy_hash_t)hash);
	case K_TR: return tommy_trie_remove(TR(c), (tommy_key_t)hash);
	case K_TI: return tommy_trie_inplace_remove(TI(c), (tommy_key_t)hash);
	case K_TE: return tommy_tree_remove(TE(c), (void*)arg);
	}
	return 0;
}

void* tc_remove_existing(int k, void* c, void* node)
{
	switch (k) {
	case K_HT: return tommy_hashtable_remove_existing(HT(c), ND(node));
	case K_HD: return tommy_hashdyn_remove_existing(HD(c), ND(node));
	case K_HL: return tommy_hashlin_remove_existing(HL(c), ND(node));
	case K_TR: return tommy_trie_remove_existing(TR(c), ND(node));
	case K_TI: return tommy_trie_inplace_remove_existing(TI(c), NI(node));
	case K_TE: return tommy_tree_remove_existing(TE(c), ND(node));
	case K_LI: return tommy_list_remove_existing(LI(c), ND(node));
	}
	return 0;
}

void* tc_search(int k, void* c, tc_cmp* cmp, const void* arg, uint64_t hash)
{
	switch (k) {
	case K_HT: return tommy_hashtable_search(HT(c), cmp, arg, (tommy_hash_t)hash);
	case K_HD: return tommy_hashdyn_search(HD(c), cmp, arg, (tommy_hash_t)hash);
	case K_HL: return tommy_hashlin_search(HL(c), cmp, arg, (tommy_hash_t)hash);
	case K_TR: return tommy_trie_search(TR(c), (tommy_key_t)hash);
	case K_TI: return tommy_trie_inplace_search(TI(c), (tommy_key_t)hash);
	case K_TE: return tommy_tree_search(TE(c), (void*)arg);
	}
	return 0;
}

void* tc_tree_search_compare(void* c, tc_cmp* cmp, void* arg) { return tommy_tree_search_compare(TE(c), cmp, arg); }

void* tc_bucket(int k, void* c, uint64_t hash)
{
	switch (k) {
	case K_HT: return tommy_hashtable_bucket(HT(c), (tommy_hash_t)hash);
	case K_HD: return tommy_hashdyn_bucket(HD(c), (tommy_hash_t)hash);
	case K_HL: return tommy_hashlin_bucket(HL(c), (tommy_hash_t)hash);
	case K_TR: return tommy_trie_bucket(TR(c), (tommy_key_t)hash);
	case K_TI: return tommy_trie_inplace_bucket(TI(c), (tommy_key_t)hash);
	}
	return 0;
}

void tc_foreach(int k, void* c, tc_each* f)
{
	switch (k) {
	case K_HT: tommy_hashtable_foreach(HT(c), f); break;
	case K_HD: tommy_hashdyn_foreach(HD(c), f); break;
	case K_HL: tommy_hashlin_foreach(HL(c), f); break;
	case K_TE: tommy_tree_foreach(TE(c), f); break;
	case K_LI: tommy_list_foreach(LI(c), f); break;
	}
}

void tc_foreach_arg(int k, void* c, tc_eacharg* f, void* arg)
{
	switch (k) {
	case K_HT: tommy_hashtable_foreach_arg(HT(c), f, arg); break;
	case K_HD: tommy_hashdyn_foreach_arg(HD(c), f, arg); break;
	case K_HL: tommy_hashlin_foreach_arg(HL(c), f, arg); break;
	case K_TE: tommy_tree_foreach_arg(TE(c), f, arg); break;
	case K_LI: tommy_list_foreach_arg(LI(c), f, arg); break;
	}
}

size_t tc_count(int k, void* c)
{
	switch (k) {
	case K_HT: return tommy_hashtable_count(HT(c));
	case K_HD: return tommy_hashdyn_count(HD(c));
	case K_HL: return tommy_hashlin_count(HL(c));
	case K_TR: return tommy_trie_count(TR(c));
	case K_TI: return tommy_trie_inplace_count(TI(c));
	case K_TE: return tommy_tree_count(TE(c));
	case K_LI: return tommy_list_count(LI(c));
	case K_AR: return tommy_array_size(AR(c));
	case K_AO: return tommy_arrayof_size(AO(c));
	case K_AB: return tommy_arrayblk_size(AB(c));
	case K_ABO: return tommy_arrayblkof_size(ABO(c));
	}
	return 0;
}

size_t tc_mem(int k, void* c)
{
	switch (k) {
	case K_HT: return tommy_hashtable_memory_usage(HT(c));
	case K_HD: return tommy_hashdyn_memory_usage(HD(c));
	case K_HL: return tommy_hashlin_memory_usage(HL(c));
	case K_TR: return tommy_trie_memory_usage(TR(c));
	case K_TI: return tommy_trie_inplace_memory_usage(TI(c));
	case K_TE: return tommy_tree_memory_usage(TE(c));
	case K_AR: return tommy_array_memory_usage(AR(c));
	case K_AO: return tommy_arrayof_memory_usage(AO(c));
	case K_AB: return tommy_arrayblk_memory_usage(AB(c));
	case K_ABO: return tommy_arrayblkof_memory_usage(ABO(c));
	case K_AL: return tommy_allocator_memory_usage(AL(c));
	}
	return 0;
}

void* tc_next(int k, void* n) { return k == K_TI ? (void*)NI(n)->next : (void*)ND(n)->next; }
void* tc_prev(int k, void* n) { return k == K_TI ? (void*)NI(n)->prev : (void*)ND(n)->prev; }
void* tc_data(int k, void* n) { return k == K_TI ? NI(n)->data : ND(n)->data; }

void* tc_list_head(void* c) { return tommy_list_head(LI(c)); }
void* tc_list_tail(void* c) { return tommy_list_tail(LI(c)); }
void tc_list_insert_head(void* c, void* n, void* d) { tommy_list_insert_head(LI(c), ND(n), d); }
void tc_list_insert_tail(void* c, void* n, void* d) { tommy_list_insert_tail(LI(c), ND(n), d); }
void tc_list_concat(void* a, void* b) { tommy_list_concat(LI(a), LI(b)); }
void tc_list_sort(void* c, tc_cmp* cmp) { tommy_list_sort(LI(c), cmp); }
int tc_list_empty(void* c) { return tommy_list_empty(LI(c)) != 0; }

void tc_grow(int k, void* c, size_t n)
{
	switch (k) {
	case K_AR: tommy_array_grow(AR(c), n); break;
	case K_AO: tommy_arrayof_grow(AO(c), n); break;
	case K_AB: tommy_arrayblk_grow(AB(c), n); break;
	case K_ABO: tommy_arrayblkof_grow(ABO(c), n); break;
	}
}

void* tc_ref(int k, void* c, size_t pos)
{
	switch (k) {
	case K_AR: return tommy_array_ref(AR(c), pos);
	case K_AO: return tommy_arrayof_ref(AO(c), pos);
	case K_AB: return tommy_arrayblk_ref(AB(c), pos);
	case K_ABO: return tommy_arrayblkof_ref(ABO(c), pos);
	}
	return 0;
}

void tc_set(int k, void* c, size_t pos, void* v)
{
	if (k == K_AR)
		tommy_array_set(AR(c), pos, v);
	else
		tommy_arrayblk_set(AB(c), pos, v);
}

void* tc_get(int k, void* c, size_t pos)
{
	return k == K_AR ? tommy_array_get(AR(c), pos) : tommy_arrayblk_get(AB(c), pos);
}

void tc_push(int k, void* c, void* v)
{
	if (k == K_AR)
		tommy_array_insert(AR(c), v);
	else
		tommy_arrayblk_insert(AB(c), v);
}

void* tc_alloc(void* c) { return tommy_allocator_alloc(AL(c)); }
void tc_free(void* c, void* p) { tommy_allocator_free(AL(c), p); }

uint32_t tc_hash32(uint32_t iv, const void* k, size_t n) { return tommy_hash_u32(iv, k, n); }
uint64_t tc_hash64(uint64_t iv, const void* k, size_t n) { return tommy_hash_u64(iv, k, n); }
uint64_t tc_bits_domain(unsigned f, uint64_t v)
{
	if (f == 0 || f == 2 || f == 4 || f == 6 || f == 8)
		v &= 0xffffffffu;
	if (f == 2 || f == 3 || f == 4 || f == 5) /* not zero */
		v = v ? v : 1;
	if (f == 6) /* the result must exist */
		v = v < 1 ? 1 : v > 0x80000000u ? 0x80000000u : v;
	if (f == 7)
		v = v < 1 ? 1 : v > ((uint64_t)1 << 63) ? (uint64_t)1 << 63 : v;
	return v;
}
uint64_t tc_bits(unsigned f, uint64_t v)
{
	switch (f) {
	case 0: return tommy_inthash_u32((uint32_t)v);
	case 1: return tommy_inthash_u64(v);
	case 2: return tommy_ilog2_u32((uint32_t)v);
#if TOMMY_SIZE_BIT == 64
	case 3: return tommy_ilog2_u64(v);
	case 5: return tommy_ctz_u64(v);
#else /* only the 64-bit library has them */
	case 3: return v >> 32 ? 32 + tommy_ilog2_u32((uint32_t)(v >> 32)) : tommy_ilog2_u32((uint32_t)v);
	case 5: return (uint32_t)v ? tommy_ctz_u32((uint32_t)v) : 32 + tommy_ctz_u32((uint32_t)(v >> 32));
#endif
	case 4: return tommy_ctz_u32((uint32_t)v);
	case 6: return tommy_roundup_pow2_u32((uint32_t)v);
	case 7: return tommy_roundup_pow2_u64(v);
	default: return tommy_haszero_u32((uint32_t)v) != 0;
	}
}
uint32_t tc_strhash(uint64_t iv, const void* k) { return tommy_strhash_u32(iv, k); }

#ifdef __cplusplus
}
#endif
