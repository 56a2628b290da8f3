/* C boundary between the simulator and the library under test.
 * shim.c implements it using only the public API and documented node fields. */
#ifndef TC_H
#define TC_H
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
enum { K_HT, K_HD, K_HL, K_TR, K_TI, K_TE, K_LI, K_AR, K_AO, K_AB, K_ABO, K_AL, K_MAX };
typedef int tc_cmp(const void*, const void*);
typedef void tc_each(void*);
typedef void tc_eacharg(void*, void*);

size_t tc_csize(int k);
size_t tc_nsize(int k);
size_t tc_trie_block(void);
int tc_isdebug(void);
int tc_iscxx(void);
void tc_init(int k, void* c, size_t p0, size_t p1, void* alloc, tc_cmp* cmp);
void tc_done(int k, void* c);
void tc_insert(int k, void* c, void* node, void* data, uint64_t hash);
void* tc_tree_insert(void* c, void* node, void* data);
void* tc_remove(int k, void* c, tc_cmp* cmp, const void* arg, uint64_t hash);
void* tc_remove_existing(int k, void* c, void* node);
void* tc_search(int k, void* c, tc_cmp* cmp, const void* arg, uint64_t hash);
void* tc_tree_search_compare(void* c, tc_cmp* cmp, void* arg);
void* tc_bucket(int k, void* c, uint64_t hash);
void tc_foreach(int k, void* c, tc_each* f);
void tc_foreach_arg(int k, void* c, tc_eacharg* f, void* arg);
size_t tc_count(int k, void* c);
size_t tc_mem(int k, void* c);
/* documented node fields */
void* tc_next(int k, void* n);
void* tc_prev(int k, void* n);
void* tc_data(int k, void* n);
/* list */
void* tc_list_head(void* c);
void* tc_list_tail(void* c);
void tc_list_insert_head(void* c, void* n, void* d);
void tc_list_insert_tail(void* c, void* n, void* d);
void tc_list_concat(void* a, void* b);
void tc_list_sort(void* c, tc_cmp* cmp);
int tc_list_empty(void* c);
/* arrays */
void tc_grow(int k, void* c, size_t n);
void* tc_ref(int k, void* c, size_t pos);
void tc_set(int k, void* c, size_t pos, void* v);
void* tc_get(int k, void* c, size_t pos);
void tc_push(int k, void* c, void* v);
/* allocator */
void* tc_alloc(void* c);
void tc_free(void* c, void* p);
/* hash functions */
uint32_t tc_hash32(uint32_t iv, const void* k, size_t n);
uint64_t tc_hash64(uint64_t iv, const void* k, size_t n);
uint64_t tc_bits_domain(unsigned f, uint64_t v);
uint64_t tc_bits(unsigned f, uint64_t v);
uint32_t tc_strhash(uint64_t iv, const void* k);
#ifdef __cplusplus
}
#endif
#endif
