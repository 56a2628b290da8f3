#include "world.hpp"
#include <algorithm>
#include <limits.h>
#include <sys/mman.h>
#include <unordered_map>

const char* const op_name[OP_N] = { "insert", "remove", "remove_existing", "search", "search_compare", "bucket", "foreach", "usage", "fill", "drain",
	"clear", "foreach_free", "insert_same", "check", "oscillate", "push_head", "push_tail", "list_remove", "concat", "sort", "list_foreach", "list_clear",
	"list_check", "grow", "array_insert", "array_set", "array_get", "array_clear", "array_check", "block_alloc", "block_free", "allocator_clear",
	"allocator_check", "hash", "neighbour_noise", "heap_noise", "jiggle", "find" };
const char* const gt_name[GT_N] = { "hash", "trie", "trie_inplace", "tree", "list", "array", "allocator", "multiindex", "hashfn" };
static const char* const kind_name[K_MAX] = { "hashtable", "hashdyn", "hashlin", "trie", "trie_inplace", "tree", "list", "array", "arrayof", "arrayblk",
	"arrayblkof", "allocator" };
const char* const cost_name[16] = { "init_done", "list_step", "sort_per_nlogn", "tree", "trie", "trie_inplace", "hashtable", "hashdyn_lookup", "hashdyn_update", "hashlin", "array_access",
	"array_grow", "allocator", "scan_per_element", 0, 0 };
enum { CC_INIT, CC_LIST, CC_SORT, CC_TREE, CC_TRIE, CC_TI, CC_HT, CC_HDL, CC_HDU, CC_HL, CC_AGET, CC_AGROW, CC_ALLOC, CC_SCAN };

struct Group;
// p: the memory of the object, d: the data pointer given to the library (any value)
struct Obj { u8 *p, *d; Group* g; u32 id; u32 key; u64 hash; u32 memb; bool alive; };
struct Cont {
	int id, kind, slot;
	Group* g;
	u8* c;
	bool inited;
	u64 nbase; // heap bytes
	std::map<u32, std::vector<u32> > bykey;
	std::map<u64, std::vector<u32> > byhash;
	std::vector<u32> all;
	std::unordered_map<u32, u32> pos;
	std::vector<u32> seq; // lists: order
	// hashlin resize probe
	u64 grow_half, grow_maxcount; bool grew;
	u64 min_mem; // memory_usage of the empty container right after init
	// arrays
	size_t size, es;
	size_t past; // elements of the arrays already done with
	size_t reach; // the largest size asked for in vain: memory may have been taken for it already
	std::map<size_t, u32> val;
	std::map<size_t, u8*> addr;
	std::map<u8*, size_t> byaddr;
	// allocator
	struct Blk { u8* p; u32 tag; };
	std::vector<Blk> blk;
	std::map<u8*, u32> blkaddr;
	size_t bs, al, peak;
	u32 oom; // calls left by a failing allocation since init
	u64 gap; // hashdyn: updates since the last expensive one; arrays: steps of all the expensive ones
	Cont() : id(0), kind(0), slot(0), g(0), c(0), inited(false), nbase(0), grow_half(0), grow_maxcount(0), grew(false), min_mem(0), size(0), es(0), past(0), reach(0), bs(0), al(0), peak(0), oom(0), gap(0) {}
};
struct Group {
	int id; u32 type; u32 p[GP_N];
	RWLock lk;
	std::vector<Cont*> conts;
	Cont* alloc; // allocator shared by the tries of the group
	std::vector<Obj> objs;
	std::vector<u32> detached;
	std::vector<void*> noise;
	u32 next_idx;
	u64 th; // transcript
	u32 nslots;
	u32 hdr, off[8], span[8], osz; // object layout
	Group() : alloc(0), next_idx(0), th(0xcbf29ce484222325ull), nslots(1), hdr(0), osz(0) {}
};

static const Plan* P;
static std::vector<Group*> G;
static std::vector<Cont*> C;
static std::unordered_map<const void*, std::pair<int, u32> > g_objmap;
static u64 g_hmask;
static int g_only;

static void tev(Group* g, u64 x)
{
	g->th = (g->th ^ x) * 0x100000001b3ull + (x >> 13);
	ev(x + g->id);
}

// ---------------------------------------------------------------- objects
enum { LAY_LOOSE, LAY_TIGHT, LAY_HEADER, LAY_OPAQUE, LAY_N };
// LOOSE: guard bytes around every node. TIGHT: the object starts with its nodes, side by side.
// HEADER: nodes side by side after the payload. OPAQUE: tight, and the data pointer is no address at all.
static void layout_init(Group* g)
{
	u32 lay = g->p[GP_LAYOUT] % LAY_N;
	for (u32 s = 0; s < g->nslots; ++s) {
		u32 z = 0;
		for (Cont* c : g->conts)
			if (c->kind <= K_LI && c->slot == (int)s)
				z = std::max(z, (u32)tc_nsize(c->kind));
		g->span[s] = z ? z : 2 * (u32)sizeof(void*);
		if (lay == LAY_LOOSE)
			g->span[s] = (u32)((tc_nsize(K_TI) + 16 + 7) & ~(size_t)7);
	}
	u32 at = g->hdr = lay == LAY_LOOSE ? 32 : lay == LAY_HEADER ? 8 * (1 + g->p[GP_LAYOUT] / LAY_N % 5) : 0;
	for (u32 s = 0; s < g->nslots; ++s) {
		g->off[s] = at;
		at += g->span[s];
	}
	g->osz = at;
}
static u8* node_of(const Obj& o, int slot) { return o.p + o.g->off[slot]; }

static u64 g_junk; // what the memory of the user holds

// bytes of a slot that belong to the node of container c
static void node_open(Cont* c, Obj& o, bool dirty)
{
	u8* n = node_of(o, c->slot);
	size_t sz = tc_nsize(c->kind);
	if (dirty) {
		// what was there before: patterns, noise, or the node of another element (a structure assigned from a stored one)
		u64 h = mix64((u64)c->id << 40 ^ (u64)o.id << 20 ^ c->all.size() ^ c->seq.size(), g_junk);
		u32 mode = (u32)(h >> 8 & 7);
		const std::vector<u32>& in = c->kind == K_LI ? c->seq : c->all;
		const volatile u8* from = mode < 2 && !in.empty() ? node_of(c->g->objs[in[(h >> 16) % in.size()]], c->slot) : 0;
		if (from == n)
			from = 0;
		for (size_t i = 0; i < sz; ++i) {
			u8 v = (u8)(0x91 + i * 7);
			if (from)
				v = from[i];
			else if (mode == 2)
				v = 0;
			else if (mode == 3)
				v = 0xFF;
			else if (mode == 4)
				v = (u8)(mix64(h, i / 8) >> (i % 8 * 8));
			else if (mode == 5)
				v = i % 4 ? 0 : (u8)(h >> 24 & 3);
			((volatile u8*)n)[i] = v;
		}
		++R->fc[FC_DIRTY_NODE];
	}
	unpoison(n, sz);
}
static u8 idle_byte(size_t i) { return (u8)(0x33 + i * 11); }
static void node_close(Cont* c, Obj& o)
{
	u8* n = node_of(o, c->slot);
	size_t sz = tc_nsize(c->kind);
	for (size_t i = 0; i < sz; ++i)
		((volatile u8*)n)[i] = idle_byte(i);
	poison(n, sz);
}

static u32 obj_new(Group* g)
{
	Obj o;
	u32 sz = g->osz;
	o.p = (u8*)H.alloc(sz, false, -1);
	o.id = (u32)g->objs.size();
	o.g = g;
	o.d = o.p;
	if (g->p[GP_LAYOUT] % LAY_N == LAY_OPAQUE)
		o.d = sizeof(void*) == 8 ? (u8*)(uintptr_t)(0xfff1000000000001ull + ((u64)g->id << 40) + (u64)o.id * 3) : (u8*)(uintptr_t)(0xf0000001u + (u32)g->id * 0x2000000u + o.id * 3);
	o.key = 0;
	o.hash = 0;
	o.memb = 0;
	o.alive = true;
	poison(o.p, sz);
	for (u32 i = 0; i < sz; ++i)
		((volatile u8*)o.p)[i] = 0x6B;
	g->objs.push_back(o);
	g_objmap[o.d] = std::make_pair(g->id, o.id);
	for (Cont* c : g->conts)
		if (c->kind <= K_LI)
			node_close(c, g->objs.back());
	return o.id;
}

static void obj_verify(Group* g, const Obj& o)
{
	volatile u8* p = o.p;
	for (u32 i = 0; i < g->hdr; ++i)
		CHECK(O_ALWAYS, p[i] == 0x6B, "memory:element", "element %u: byte %u outside its node was overwritten", o.id, i);
	u32 used = 0;
	for (Cont* c : g->conts) {
		if (c->kind > K_LI)
			continue;
		used |= 1u << c->slot;
		bool shared = false; // several containers of the group share the slot
		for (Cont* d : g->conts)
			if (d != c && d->kind <= K_LI && d->slot == c->slot && (o.memb & (1u << (d->id & 31))))
				shared = true;
		volatile u8* n = node_of(o, c->slot);
		for (u32 i = (u32)tc_nsize(c->kind); i < g->span[c->slot]; ++i)
			CHECK(O_ALWAYS, n[i] == 0x6B, "memory:element", "element %u: byte %u after its node was overwritten", o.id, i);
		if (!shared && !(o.memb & (1u << (c->id & 31))))
			for (size_t i = 0; i < tc_nsize(c->kind); ++i)
				CHECK(O_HEAP, n[i] == idle_byte(i), "heap:touched-removed", "element %u: node bytes were written while not in the container (%s)", o.id, kind_name[c->kind]);
	}
	for (u32 s = 0; s < g->nslots; ++s)
		if (!((used >> s) & 1))
			for (u32 i = 0; i < g->span[s]; ++i)
				CHECK(O_ALWAYS, p[g->off[s] + i] == 0x6B, "memory:element", "element %u: byte %u of the object was overwritten", o.id, g->off[s] + i);
}

static void obj_free(Group* g, u32 id)
{
	Obj& o = g->objs[id];
	o.alive = false;
	g_objmap.erase(o.d);
	H.release(o.p, -1, false);
}

// element seen by a callback or returned by the library
static Obj* obj_at(Group* g, const void* p)
{
	auto it = g_objmap.find(p);
	if (it == g_objmap.end() || it->second.first != g->id)
		return 0;
	return &g->objs[it->second.second];
}
static bool is_member(Cont* c, const Obj* o) { return (o->memb >> (c->id & 31)) & 1; }

// ---------------------------------------------------------------- keys
static u32 bitrev(u32 x)
{
	u32 r = 0;
	for (int i = 0; i < 32; ++i)
		r |= ((x >> i) & 1) << (31 - i);
	return r;
}
static u32 key_at(Group* g, u32 i)
{
	u32 u = g->p[GP_UNIV], base = g->p[GP_BASE];
	if (u)
		i %= u;
	switch (g->p[GP_KEYMODE]) {
	default:
	case 0: return i;
	case 1: return i * 2654435761u + base;
	case 2: return (i << 27) | (i >> 5);
	case 3: return base + i;
	case 4: return bitrev(i);
	case 5: return 0xffffffffu - i;
	case 6: return base ^ ((i & 31) ? 1u << (i & 31) : 0) ^ ((i >> 5) * 0x01000193u);
	case 7: { // a long common prefix, differing in the last bits
		u32 cl = i / 9;
		return (base + cl * 0x9E3779B9u) ^ (i % 9);
	}
	case 8: case 9: { // the ends of the ranges, and the middle of the signed one
		static const u32 ends[] = { 0xffffffffu, 0, 0x7fffffffu, 0x80000000u, 1, 0xfffffffeu, 0x80000001u, 0x7ffffffeu, 0xffffu, 0x10000u, 0xffff0000u, 0xc0000000u, 0x3fffffffu, 0x40000000u, 0xbfffffffu, 0xaaaaaaaau };
		if (i < 16)
			return ends[(i + base) % 16];
		return g->p[GP_KEYMODE] == 8 ? (i & 1 ? 0x80000000u + i / 2 : 0x7fffffffu - i / 2) : i * 2654435761u + base;
	}
	}
}
static u64 hash_of(Group* g, u32 key)
{
	u64 h;
	switch (g->p[GP_HASHMODE]) {
	default:
	case 0: h = key; break;
	case 1: h = mix64(key, 77); break;
	case 2: h = 0x5555; break;
	case 3: h = key & 7; break;
	case 4: h = (u64)key << 16; break;
	case 5: h = (u64)key << 32 | 5; break;
	case 6: h = key % 13; break;
	case 7: h = (u64)(key & 3) << 31 | (key & 0x30) << 4; break;
	case 8: h = ~(u64)key; break;
	case 9: h = (u64)key << 32 | (key * 0x9E3779B1u & 0xf000000f); break;
	}
	return h & g_hmask;
}
static bool hash_clusters(Group* g) { return g->type == GT_HASH && g->p[GP_HASHMODE] >= 2 && g->p[GP_HASHMODE] != 4 && g->p[GP_HASHMODE] != 8; }

// ---------------------------------------------------------------- callbacks
struct Probe { u32 magic; u32 key; };
struct KC { // per call callback context
	Cont* c;
	Probe* probe;       // the searched value
	const void* arg;    // what must be passed back
	Obj* inserting;
	u32 ncmp;
	// foreach
	std::vector<u32> seen;
	int mode;           // 0 visit, 1 visit and free
	u32 limit;
	std::vector<u32>* rec; // elements compared, in order
	bool scan;          // a call that goes over all the elements
	int oc;
	// searches by hash: the elements the compare function gets
	u64 hash; bool matched;
	u32 accept, which;  // 0: those of the key, 1: just one element, 2: some, 3: all, 4: none
	std::vector<u32> cmps;
	KC() : c(0), probe(0), arg(0), inserting(0), ncmp(0), mode(0), limit(0), rec(0), scan(false), oc(0), hash(0), matched(false), accept(0), which(0) {}
};
static KC* kc() { return (KC*)cur->call->user; }

static bool accepts(const KC* k, const Obj* o)
{
	switch (k->accept) {
	case 0: return o->key == k->probe->key;
	case 1: return o->id == k->which;
	case 2: return o->id % 3 == k->which % 3;
	case 3: return true;
	}
	return false;
}

static int cb_cmp(const void* arg, const void* obj)
{
	cb_enter();
	KC* k = kc();
	++k->ncmp;
	CHECK(O_SEM, arg == k->arg, "sem:cmp-arg", "%s: the compare callback gets another first argument than the one passed", kind_name[k->c->kind]);
	Obj* o = obj_at(k->c->g, obj);
	CHECK(O_SEM, o && is_member(k->c, o), "sem:cmp-object", "%s: the compare callback gets an object that is not in the container", kind_name[k->c->kind]);
	const char* kn = kind_name[k->c->kind];
	CHECK(O_CB, o->hash == k->hash, "cb:other-hash", "%s: the compare callback gets an element with another hash than the one searched", kn);
	CHECK(O_CB, !k->matched, "cb:after-match", "%s: the compare callback is called again after it accepted an element", kn);
	if ((g_mask & O_CB) && k->cmps.size() < 300) {
		CHECK(O_CB, std::find(k->cmps.begin(), k->cmps.end(), o->id) == k->cmps.end(), "cb:repeated", "%s: the compare callback gets element %u again", kn, o->id);
		k->cmps.push_back(o->id);
	}
	int r = accepts(k, o) ? 0 : (o->key & 1) ? 1 : -5;
	k->matched = r == 0;
	cb_leave();
	return r;
}

static int cmp_result(u32 a, u32 b)
{
	if (a == b)
		return 0;
	int m = (a ^ b) % 3;
	if (a < b)
		return m == 0 ? -1 : m == 1 ? -7 : INT_MIN;
	return m == 0 ? 1 : m == 1 ? 9 : INT_MAX;
}
static u32 tree_key(KC* k, const void* p)
{
	if (k->probe && p == k->arg)
		return k->probe->key;
	if (k->inserting && p == k->inserting->d)
		return k->inserting->key;
	Obj* o = obj_at(k->c->g, p);
	CHECK(O_SEM, o && is_member(k->c, o), "sem:cmp-object", "%s: the compare callback gets an object that is not in the container", kind_name[k->c->kind]);
	return o->key;
}
static int cb_tcmp(const void* a, const void* b)
{
	cb_enter();
	KC* k = kc();
	++k->ncmp;
	CHECK(O_WORK | O_TREEWORK | O_SORT, k->ncmp < 50000000, "hang:compares", "endless comparisons");
	int r = cmp_result(tree_key(k, a), tree_key(k, b));
	if (k->rec) {
		Obj* o = obj_at(k->c->g, b);
		if (o)
			k->rec->push_back(o->id);
	}
	cb_leave();
	return r;
}
// compare on a range of keys: search_compare with a coarser order
static int cb_tscmp(const void* a, const void* b)
{
	cb_enter();
	KC* k = kc();
	++k->ncmp;
	CHECK(O_SEM, a == k->arg, "sem:cmp-arg", "search_compare passes another first argument than the one given");
	Obj* o = obj_at(k->c->g, b);
	CHECK(O_SEM, o && is_member(k->c, o), "sem:cmp-object", "search_compare passes an object that is not in the tree");
	int r = cmp_result(k->probe->key >> 4, o->key >> 4);
	cb_leave();
	return r;
}

static void visit(KC* k, void* obj)
{
	Obj* o = obj_at(k->c->g, obj);
	CHECK(O_SEM | O_EACH, o, "each:bad-object", "%s: foreach visits something that is not a live element", kind_name[k->c->kind]);
	CHECK(O_SEM | O_EACH, is_member(k->c, o), "each:not-member", "%s: foreach visits element %u that is not in the container", kind_name[k->c->kind], o->id);
	k->seen.push_back(o->id);
	CHECK(O_SEM | O_EACH, k->seen.size() <= k->limit, "each:too-many", "%s: foreach visits more than the %u elements contained", kind_name[k->c->kind], k->limit);
	if (k->mode == 1) {
		++R->fc[FC_CB_FREE];
		obj_verify(k->c->g, *o);
		o->memb = 0;
		obj_free(k->c->g, o->id);
	}
}
static void cb_each(void* obj)
{
	cb_enter();
	visit(kc(), obj);
	cb_leave();
}
static void cb_eacharg(void* arg, void* obj)
{
	cb_enter();
	CHECK(O_SEM | O_EACH, arg == kc()->arg, "each:arg", "foreach_arg passes another argument than the one given");
	visit(kc(), obj);
	cb_leave();
}

// ---------------------------------------------------------------- calls and per-call oracles
static bool is_of(int k) { return k == K_AO || k == K_ABO; }
static bool is_hash(int k) { return k <= K_HL; }
enum { OC_INIT, OC_DONE, OC_INSERT, OC_REMOVE, OC_LOOKUP, OC_ITERFREE, OC_SORT }; // ITERFREE: the callback frees elements

static u64 step_limit(Cont* c)
{
	u64 n = c->all.size() + c->seq.size() + c->blk.size();
	return 3000000 + 5000 * n + (c->kind == K_AB || c->kind == K_ABO ? 200 * (c->size / 4096 + 1) : 0) + (c->kind == K_HT ? 16ull * (c->g->p[GP_X] + 16) : 0);
}

// ---- steps of one call: bounded whatever is stored, or paid for by the calls before it
static const u64 COST = 600;
static u32 log2up(u64 n)
{
	u32 lg = 0;
	while (n >> lg)
		++lg;
	return lg;
}
static void cost(Cont* c, int cc, u64 got, u64 unit, u64 limit, const char* what)
{
	u64 v = got / (unit ? unit : 1);
	if (v > R->cost[cc])
		R->cost[cc] = v;
	CHECK(O_COST, got <= limit, "cost:class", "%s: %s took %llu steps with %zu elements (limit %llu)", kind_name[c->kind], what, (unsigned long long)got,
		c->all.size() + c->seq.size() + c->blk.size() + c->size, (unsigned long long)limit);
}
static void chk_cost(Cont* c, const CallCtx* x, int oc, const KC* k)
{
	static const char* const what[] = { "init", "done", "an insertion", "a removal", "a lookup", "an iteration", "a sort" };
	Group* g = c->g;
	u64 t = x->ticks, n = c->all.size() + c->seq.size();
	if (g->type == GT_MULTI || g->type == GT_HFN)
		return;
	if (oc == OC_INIT || oc == OC_DONE) {
		cost(c, CC_INIT, t, 0, COST + x->alloc_bytes * 2 + x->freed_bytes + 100 * (x->allocs + x->frees), what[oc]);
		return;
	}
	// hash values must be well spread
	if (is_hash(c->kind) && (g->p[GP_HASHMODE] > 1 || g->p[GP_UNIV] || (g->p[GP_KEYMODE] != 3 && g->p[GP_KEYMODE] != 1)))
		return;
	u64 buckets = 0;
	if (is_hash(c->kind)) {
		buckets = c->kind == K_HT ? 2 * g->p[GP_X] + 32 : 8 * n + 128;
		if (c->kind != K_HT)
			buckets += c->oom * 64;
	}
	if (oc == OC_ITERFREE || (k && k->scan)) {
		cost(c, CC_SCAN, t, n + buckets + 16, COST + 40 * (n + buckets), what[OC_ITERFREE]);
		return;
	}
	bool upd = oc == OC_INSERT || oc == OC_REMOVE;
	switch (c->kind) {
	case K_LI:
		if (oc == OC_SORT)
			cost(c, CC_SORT, t, (n + 1) * log2up(n + 1), COST + 60 * n * log2up(n), what[oc]);
		else
			cost(c, CC_LIST, t, 0, 200, what[oc]);
		break;
	case K_TE:
		cost(c, CC_TREE, t, 0, COST + 300 * log2up(n), what[oc]);
		break;
	case K_TR:
	case K_AL:
		cost(c, c->kind == K_TR ? CC_TRIE : CC_ALLOC, t, 0, COST + x->alloc_bytes * 2, what[oc]);
		break;
	case K_TI:
		cost(c, CC_TI, t, 0, COST, what[oc]);
		break;
	case K_HT:
		cost(c, CC_HT, t, 0, COST + 40 * (n / (g->p[GP_X] + 1)), what[oc]);
		break;
	case K_HL:
		if (c->oom < 8) // a table that could not grow for long catches up
			cost(c, CC_HL, t, 0, COST, what[oc]);
		break;
	case K_HD:
		if (!upd)
			cost(c, CC_HDL, t, 0, COST + 20 * c->oom, what[oc]);
		else {
			++c->gap;
			cost(c, CC_HDU, t > 2000 ? t / c->gap : 0, 0, 200, "an update, per update since the last resize,");
			if (t > 2000)
				c->gap = 0;
		}
		break;
	default: { // arrays
		if (oc == OC_LOOKUP) {
			cost(c, CC_AGET, t, 0, COST, what[oc]);
			break;
		}
		// all the growing so far, against the size reached
		u64 sz = std::max({ (u64)tc_count(c->kind, c->c), (u64)c->size, (u64)c->reach }), es = is_of(c->kind) ? c->es : sizeof(void*);
		if (t > COST)
			c->gap += t;
		cost(c, CC_AGROW, c->gap, 0, COST + 64 * es + (c->kind == K_AB || c->kind == K_ABO ? 4096 * es / 8 : 0) + 4 * sz * (es / 8 + 16), "growing, all together,");
	}
	}
}

static void post_call(Cont* c, CallCtx* x, int oc)
{
	if (g_mask & O_COST)
		chk_cost(c, x, oc, (KC*)x->user);
	if (g_mask & O_DISC) {
		const char* kn = kind_name[c->kind];
		u32 any = x->allocs + x->frees + x->reallocs;
		if (oc == OC_LOOKUP || oc == OC_ITERFREE)
			CHECK(O_DISC, !any, "disc:lookup", "%s: a lookup or iteration calls the heap", kn);
		switch (c->kind) {
		case K_TE: case K_LI: case K_TI:
			CHECK(O_DISC, !any, "disc:inplace", "%s: an in-place container calls the heap", kn);
			break;
		case K_HT:
			if (oc == OC_INSERT || oc == OC_REMOVE)
				CHECK(O_DISC, !any, "disc:fixed", "%s: the fixed-size hashtable calls the heap outside init and done", kn);
			break;
		case K_TR:
			CHECK(O_DISC, !x->frees && !x->reallocs, "disc:trie", "%s: the trie releases heap memory its allocator holds", kn);
			if (oc == OC_REMOVE)
				CHECK(O_DISC, !any, "disc:trie", "%s: removing an element calls the heap", kn);
			break;
		case K_HL:
			CHECK(O_DISC, !x->reallocs, "disc:realloc", "%s: realloc() would move the table", kn);
			if (oc == OC_INSERT)
				CHECK(O_DISC, !x->frees, "disc:grow-frees", "%s: growing frees memory", kn);
			if (oc == OC_REMOVE)
				CHECK(O_DISC, !x->allocs, "disc:shrink-allocates", "%s: removing allocates memory", kn);
			break;
		case K_AR: case K_AO: case K_AB: case K_ABO:
			if (oc == OC_INSERT)
				CHECK(O_DISC, !x->frees && !x->reallocs, "disc:grow-frees", "%s: growing frees or moves memory", kn);
			break;
		case K_AL:
			if (oc == OC_INSERT)
				CHECK(O_DISC, !x->frees && !x->reallocs && x->allocs <= 1, "disc:allocator", "allocator: one block needs %u heap allocations, %u frees", x->allocs, x->frees + x->reallocs);
			if (oc == OC_REMOVE)
				CHECK(O_DISC, !any, "disc:allocator", "allocator: freeing a block calls the heap");
			break;
		}
	}
	if (c->kind == K_HL || c->kind == K_HD || c->kind == K_AR || c->kind == K_AO || c->kind == K_AB || c->kind == K_ABO) {
		if (oc == OC_INSERT && x->allocs)
			++R->pr[PR_GROW_ALLOC];
		if (oc == OC_REMOVE && x->frees)
			++R->pr[PR_SHRINK_FREE];
	}
	if (x->allocs && (c->kind == K_AL || c->kind == K_TR))
		++R->pr[PR_BLOCK_SEG];
	if (c->kind == K_HL) {
		if (oc == OC_INSERT && x->allocs) {
			c->grew = true;
			c->grow_half = c->all.size() * 2;
			c->grow_maxcount = c->all.size();
		}
		c->grow_maxcount = std::max(c->grow_maxcount, (u64)c->all.size());
		if (oc == OC_REMOVE && x->frees && c->grew) {
			if (c->grow_maxcount + 4 < c->grow_half)
				++R->pr[PR_REVERSAL];
			c->grew = false;
		}
	}
}

// everything the container consists of: its structure, its heap blocks, the nodes of its elements
static u64 snapshot(Cont* c)
{
	u64 h = 1;
	auto add = [&](const u8* p, size_t n) {
		for (size_t i = 0; i < n; ++i)
			h = (h ^ ((const volatile u8*)p)[i]) * 0x100000001b3ull;
	};
	add(c->c, tc_csize(c->kind));
	if (c->g->alloc && c->kind == K_TR)
		add(c->g->alloc->c, tc_csize(K_AL));
	for (auto& kv : H.live)
		if (kv.second.owner == c->id || (c->kind == K_TR && c->g->alloc && kv.second.owner == c->g->alloc->id))
			add(kv.first, kv.second.size);
	if (c->kind <= K_LI)
		for (u32 id : c->kind == K_LI ? c->seq : c->all)
			add(node_of(c->g->objs[id], c->slot), tc_nsize(c->kind));
	return h;
}

template <class FN> static int call(Cont* c, KC* k, int oc, FN f, CallCtx* out = 0)
{
	CallCtx x;
	u64 snap = 0;
	bool watch = (g_mask & O_ESC) && oc == OC_LOOKUP && cur->fault.kind == F_ESC && !cur->fault_fired && cur->fault_cb_seen + 40 > cur->fault.k;
	if (watch)
		snap = snapshot(c);
	memset(&x, 0, sizeof x);
	x.user = k;
	if (k) {
		k->c = c;
		k->ncmp = 0;
		k->oc = oc;
		k->matched = false;
		k->cmps.clear();
	}
	// inner nodes of tries come from the allocator: that is who holds the memory
	int r = libcall(&x, c->kind == K_TR ? c->g->alloc->id : c->id, oc == OC_LOOKUP, step_limit(c), f);
	if (x.ticks > R->maxwork && (oc == OC_INSERT || oc == OC_REMOVE) && c->kind == K_HL)
		R->maxwork = (u32)x.ticks;
	if (r == F_OOM) {
		++c->oom;
		if (c->kind == K_HD)
			c->gap += 2 * c->all.size() + 64; // what could not be done is done later
	}
	if (r == 0)
		post_call(c, &x, oc);
	else if (watch)
		CHECK(O_ESC, snapshot(c) == snap, "esc:changed", "%s: a lookup or iteration left by its callback changed the container", kind_name[c->kind]);
	if (out)
		*out = x;
	return r;
}

// ---------------------------------------------------------------- model
static void m_insert(Cont* c, Obj& o)
{
	if (!c->bykey[o.key].empty())
		++R->pr[PR_DUPKEY];
	else if (c->kind <= K_HL && c->byhash.count(o.hash))
		++R->pr[PR_COLLISION];
	c->bykey[o.key].push_back(o.id);
	if (c->kind <= K_HL)
		c->byhash[o.hash].push_back(o.id);
	c->pos[o.id] = (u32)c->all.size();
	c->all.push_back(o.id);
	o.memb |= 1u << (c->id & 31);
}
static void erase_val(std::vector<u32>& v, u32 x) { v.erase(std::find(v.rbegin(), v.rend(), x).base() - 1); }
static void m_remove(Cont* c, Obj& o)
{
	auto it = c->bykey.find(o.key);
	erase_val(it->second, o.id);
	if (it->second.empty())
		c->bykey.erase(it);
	if (c->kind <= K_HL) {
		auto ih = c->byhash.find(o.hash);
		erase_val(ih->second, o.id);
		if (ih->second.empty())
			c->byhash.erase(ih);
	}
	u32 i = c->pos[o.id];
	c->pos.erase(o.id);
	if (i + 1 != c->all.size()) {
		c->all[i] = c->all.back();
		c->pos[c->all[i]] = i;
	}
	c->all.pop_back();
	o.memb &= ~(1u << (c->id & 31));
}
static void m_clear(Cont* c)
{
	for (u32 id : c->all)
		c->g->objs[id].memb &= ~(1u << (c->id & 31));
	c->bykey.clear();
	c->byhash.clear();
	c->all.clear();
	c->pos.clear();
	c->seq.clear();
}

// ---------------------------------------------------------------- init and done
static void c_init(Cont* c)
{
	// the structure itself is user memory full of garbage
	size_t sz = tc_csize(c->kind);
	u64 jh = mix64((u64)c->id << 8 ^ c->g->th, g_junk);
	u32 jm = jh >> 7 & 7;
	for (size_t i = 0; i < sz; ++i)
		((volatile u8*)c->c)[i] = jm == 0 ? 0 : jm == 1 ? 0xFF : jm == 2 ? (u8)(mix64(jh, i / 8) >> (i % 8 * 8)) : jm == 3 ? ((volatile u8*)c->c)[i] : (u8)(0xB7 ^ (i * 29) ^ (P->heap.fill * 85));
	size_t p0 = 0, p1 = 0;
	void* al = 0;
	if (c->kind == K_HT)
		p0 = c->g->p[GP_X];
	if (c->kind == K_AO || c->kind == K_ABO)
		p0 = c->es;
	if (c->kind == K_AL) {
		p0 = c->bs;
		p1 = c->al;
	}
	if (c->kind == K_TR)
		al = c->g->alloc->c;
	KC k;
	for (;;) {
		int r = call(c, &k, OC_INIT, [&] { tc_init(c->kind, c->c, p0, p1, al, cb_tcmp); });
		if (r == 0)
			break;
		CHECK(O_FAULT | O_HEAP, H.owned_n[c->id] == 0, "fault:init-leak", "%s: a failed init keeps %u heap blocks", kind_name[c->kind], H.owned_n[c->id]);
		++R->pr[PR_OOM_RETRIED];
	}
	c->inited = true;
	c->oom = 0;
	c->gap = 0;
	c->grew = false;
	if (c->kind != K_LI)
		c->min_mem = tc_mem(c->kind, c->c);
	if (c->kind <= K_LI && c->kind != K_LI)
		CHECK(O_SEM, tc_count(c->kind, c->c) == 0, "sem:init-count", "%s: not empty after init", kind_name[c->kind]);
}

static void check_no_heap(Cont* c, const char* when)
{
	CHECK(O_HEAP | O_FAULT | O_MEMUSE, H.owned_n[c->id] == 0, "heap:leak", "%s: %u heap blocks (%llu bytes) still held %s", kind_name[c->kind], H.owned_n[c->id],
		(unsigned long long)H.owned[c->id], when);
}

// done() on a container that may still hold elements; they must stay untouched
static void c_done(Cont* c)
{
	if (c->kind == K_TR || c->kind == K_TI || c->kind == K_TE || c->kind == K_LI) {
		c->inited = false;
		return;
	}
	KC k;
	int r = call(c, &k, OC_DONE, [&] { tc_done(c->kind, c->c); });
	(void)r;
	check_no_heap(c, "after done");
	c->inited = false;
}

// snapshot of the elements left inside, to show that done() does not write them
static u64 elements_sum(Cont* c)
{
	u64 h = 1;
	for (u32 id : c->all) {
		volatile u8* n = node_of(c->g->objs[id], c->slot);
		for (size_t i = 0; i < tc_nsize(c->kind); ++i)
			h = (h ^ n[i]) * 0x100000001b3ull;
	}
	return h;
}

// ---------------------------------------------------------------- full checks of keyed containers
static bool has_foreach(int k) { return k == K_HT || k == K_HD || k == K_HL || k == K_TE || k == K_LI; }

static void chk_usage(Cont* c)
{
	KC k;
	size_t cnt = 0, mem = 0;
	if (call(c, &k, OC_LOOKUP, [&] { cnt = tc_count(c->kind, c->c); mem = tc_mem(c->kind, c->c); }) != 0)
		return;
	CHECK(O_SEM | O_MEMUSE, cnt == c->all.size(), "sem:count", "%s: count is %zu, %zu elements are stored", kind_name[c->kind], cnt, c->all.size());
	size_t nodes = cnt * tc_nsize(c->kind);
	tev(c->g, cnt);
	if (g_mask & O_ISO)
		tev(c->g, mem);
	if ((g_mask & O_BUILDS) && is_hash(c->kind)) // in units of every build
		tev(c->g, (mem - nodes) / sizeof(void*));
	if ((g_mask & O_BUILDS) && (c->kind == K_TI || c->kind == K_TE))
		tev(c->g, mem / tc_nsize(c->kind));
	if (is_hash(c->kind) || c->kind == K_TI || c->kind == K_TE) {
		u64 own = H.owned[c->id];
		CHECK(O_MEMUSE, mem == own + nodes, "memuse:hash", "%s: memory_usage %zu, but %llu heap bytes are held and %zu bytes of nodes stored", kind_name[c->kind], mem,
			(unsigned long long)own, nodes);
	}
	if (c->kind == K_HD || c->kind == K_HL) {
		size_t b = (mem - nodes) / sizeof(void*);
		size_t held = H.owned[c->id] / sizeof(void*); // what the heap says
		size_t b0 = c->min_mem / sizeof(void*);
		if (mem >= nodes) {
			CHECK(O_SPACE, cnt <= b / 2 + 1 + c->oom, "space:overfull", "%s: %zu elements in %zu buckets", kind_name[c->kind], cnt, b);
			size_t lim = (c->kind == K_HD ? 8 : 16) * (cnt + 1);
			if (lim < b0)
				lim = b0;
			CHECK(O_SPACE, b <= lim, "space:not-shrunk", "%s: %zu buckets for %zu elements", kind_name[c->kind], b, cnt);
			CHECK(O_SPACE, held <= 2 * lim + b0, "space:held", "%s: %zu words of heap memory are held for %zu elements", kind_name[c->kind], held, cnt);
		}
	}
	if (c->kind == K_TR && (g_mask & O_MEMUSE)) {
		// all the tries on one allocator: the blocks they report are the blocks in use
		size_t sum = 0, n = 0;
		for (Cont* d : c->g->conts)
			if (d->kind == K_TR && d->inited) {
				n += d->all.size() * tc_nsize(K_TR);
				sum += tc_mem(K_TR, d->c);
			}
		size_t am = tc_mem(K_AL, c->g->alloc->c);
		CHECK(O_MEMUSE, sum == n + am, "memuse:trie", "tries report %zu bytes besides %zu bytes of nodes, their allocator has %zu bytes in use", sum - n, n, am);
		u64 held = 0;
		for (Cont* d : c->g->conts)
			if (d->kind == K_TR)
				held += H.owned[d->id];
		held += H.owned[c->g->alloc->id];
		CHECK(O_MEMUSE, am <= held, "memuse:allocator", "allocator reports %zu bytes in use, holds %llu", am, (unsigned long long)held);
		bool empty = true;
		for (Cont* d : c->g->conts)
			if (d->kind == K_TR && !d->all.empty())
				empty = false;
		if (empty)
			CHECK(O_MEMUSE | O_HEAP, am == 0, "memuse:trie-leak", "all tries are empty, their allocator still has %zu bytes in use", am);
	}
}

static void chk_bucket(Cont* c, u32 key, u64 hash, bool present)
{
	if (c->kind == K_TE)
		return;
	KC k;
	void* b = 0;
	if (call(c, &k, OC_LOOKUP, [&] { b = tc_bucket(c->kind, c->c, is_hash(c->kind) ? hash : key); }) != 0)
		return;
	const char* kn = kind_name[c->kind];
	std::vector<u32> got;
	std::set<u32> seen;
	u32 len = 0;
	void* last = 0;
	void* prev_expected = 0;
	for (void* n = b; n; n = tc_next(c->kind, n)) {
		const Block* blk = H.find(n);
		CHECK(O_SEM | O_ORDER, blk && blk->owner == -1, "sem:bucket-node", "%s: bucket list leads to a node that is not in a live element", kn);
		void* d = tc_data(c->kind, n);
		Obj* o = obj_at(c->g, d);
		CHECK(O_SEM | O_ORDER, o && is_member(c, o), "sem:bucket-object", "%s: bucket list holds an object that is not in the container", kn);
		CHECK(O_SEM, node_of(*o, c->slot) == (u8*)n, "sem:bucket-data", "%s: a node does not point to its object", kn);
		CHECK(O_SEM | O_ORDER, seen.insert(o->id).second, "sem:bucket-cycle", "%s: bucket list repeats element %u", kn, o->id);
		if (last)
			CHECK(O_SEM, tc_prev(c->kind, n) == last, "sem:bucket-prev", "%s: prev pointer of element %u is wrong", kn, o->id);
		last = n;
		(void)prev_expected;
		++len;
		if (is_hash(c->kind) ? o->hash == hash : o->key == key)
			got.push_back(o->id);
		else
			CHECK(O_SEM, is_hash(c->kind), "sem:bucket-foreign", "%s: bucket of key %08x holds key %08x", kn, key, o->key);
	}
	if (b)
		CHECK(O_SEM, tc_prev(c->kind, b) == last, "sem:bucket-circular", "%s: the first node does not point to the last", kn);
	static const std::vector<u32> none;
	const std::vector<u32>* want = &none;
	if (is_hash(c->kind)) {
		auto it = c->byhash.find(hash);
		if (it != c->byhash.end())
			want = &it->second;
	} else {
		auto it = c->bykey.find(key);
		if (it != c->bykey.end())
			want = &it->second;
	}
	if (present || !want->empty()) {
		if (g_mask & (O_SEM | O_EACH)) {
			std::vector<u32> a(got), w(*want);
			std::sort(a.begin(), a.end());
			std::sort(w.begin(), w.end());
			CHECK(O_SEM, a == w, "sem:bucket-set", "%s: bucket of key %08x holds %zu of its %zu elements", kn, key, a.size(), w.size());
		}
		CHECK(O_ORDER, got == *want, "order:bucket", "%s: elements of key %08x are not in insertion order", kn, key);
	} else
		CHECK(O_SEM, got.empty(), "sem:bucket-absent", "%s: bucket of an absent key has its elements", kn);
	// short chains for well spread hash values
	if ((g_mask & O_SPACE) && (c->kind == K_HD || c->kind == K_HL) && c->g->p[GP_HASHMODE] == 0 && c->g->p[GP_KEYMODE] == 3 && !c->g->p[GP_UNIV])
		CHECK(O_SPACE, len <= 12, "space:chain", "%s: a bucket holds %u of %zu elements with consecutive hash values", kn, len, c->all.size());
	tev(c->g, len * 1000 + got.size());
}

// a balanced tree of n elements is at most 1.45*log2(n) deep; every level costs one comparison
static void tree_cmp_bound(Cont* c, KC& k, const char* what)
{
	if (!(g_mask & O_TREEWORK))
		return;
	u32 lg = 0;
	while ((c->all.size() + 1) >> lg)
		++lg;
	if (k.ncmp > lg)
		R->maxtree = std::max(R->maxtree, k.ncmp - lg);
	CHECK(O_TREEWORK, k.ncmp <= 2 * lg + 2, "treework", "%s among %zu elements takes %u comparisons", what, c->all.size(), k.ncmp);
}

// the argument passed through to a callback is of no concern to the library: any pointer will do
static void* any_arg(Cont* c, u64 salt, void* def)
{
	u64 r = mix64(salt, 0xA46);
	Obj* o = c->all.empty() ? 0 : &c->g->objs[c->all[(r >> 8) % c->all.size()]];
	switch (r % 8) {
	case 4: return 0;
	case 5: return o ? o->d : def;
	case 6: return o ? (void*)node_of(*o, c->slot) : def;
	case 7: return c->c;
	}
	return def;
}

// what is passed to search for a key: for a tree it may be an element having that key
static void* key_arg(Cont* c, u32 key, void* def)
{
	if (is_hash(c->kind))
		return any_arg(c, key + c->all.size(), def);
	if (c->kind == K_TE && mix64(key, c->all.size()) % 4 == 0) {
		auto it = c->bykey.find(key);
		if (it != c->bykey.end())
			return c->g->objs[it->second[0]].d;
	}
	return def;
}

static void chk_search(Cont* c, u32 key, u64 hash, bool want_event = true)
{
	Probe pr = { 0x9999, key };
	KC k;
	k.probe = &pr;
	k.inserting = 0;
	void* arg = key_arg(c, key, &pr);
	k.arg = arg;
	k.hash = hash;
	void* d = 0;
	const char* kn = kind_name[c->kind];
	int r = call(c, &k, OC_LOOKUP, [&] { d = tc_search(c->kind, c->c, cb_cmp, arg, is_hash(c->kind) ? hash : key); });
	if (r) {
		tev(c->g, 0xC0DE + r);
		return;
	}
	auto it = c->bykey.find(key);
	if (it == c->bykey.end()) {
		++R->pr[PR_SEARCH_MISS];
		CHECK(O_SEM, !d, "sem:search-absent", "%s: search of key %08x finds something, nothing is stored", kn, key);
	} else {
		++R->pr[PR_SEARCH_HIT];
		Obj* o = d ? obj_at(c->g, d) : 0;
		CHECK(O_SEM, d, "sem:search-lost", "%s: search of key %08x finds nothing, %zu elements are stored", kn, key, it->second.size());
		CHECK(O_SEM, o && is_member(c, o) && o->key == key, "sem:search-wrong", "%s: search of key %08x returns a wrong object", kn, key);
		CHECK(O_ORDER, o->id == it->second[0], "order:search", "%s: search returns element %u, the oldest with that key is %u", kn, o->id, it->second[0]);
		if (want_event)
			tev(c->g, o->id + 7);
	}
	if (c->kind == K_TE)
		tree_cmp_bound(c, k, "a search");
}

static void chk_foreach(Cont* c, bool witharg)
{
	if (!has_foreach(c->kind))
		return;
	KC k;
	int dummy;
	k.mode = 0;
	void* arg = any_arg(c, c->all.size() + witharg, &dummy);
	k.arg = arg;
	k.probe = 0;
	k.inserting = 0;
	const std::vector<u32>& want_list = c->kind == K_LI ? c->seq : c->all;
	k.limit = (u32)want_list.size();
	k.scan = true;
	int r = call(c, &k, OC_LOOKUP, [&] {
		if (witharg)
			tc_foreach_arg(c->kind, c->c, cb_eacharg, arg);
		else
			tc_foreach(c->kind, c->c, cb_each);
	});
	if (r) {
		tev(c->g, 0xC0DF + r);
		return;
	}
	const char* kn = kind_name[c->kind];
	std::vector<u32> a(k.seen);
	for (u32 id : a)
		tev(c->g, id);
	if (c->kind == K_LI) {
		CHECK(O_SEM | O_EACH, a == want_list, "each:list-order", "list: foreach does not visit the %zu elements in list order", want_list.size());
		return;
	}
	if (c->kind == K_TE)
		for (size_t i = 1; i < a.size(); ++i)
			CHECK(O_SEM | O_EACH, c->g->objs[a[i - 1]].key < c->g->objs[a[i]].key, "sem:tree-order", "tree: foreach is not in ascending order");
	if (is_hash(c->kind) && (g_mask & O_ORDER)) {
		std::unordered_map<u32, u32> next;
		for (u32 id : a) {
			Obj& o = c->g->objs[id];
			u32& i = next[o.key];
			auto& v = c->bykey[o.key];
			CHECK(O_ORDER, i < v.size() && v[i] == id, "order:foreach", "%s: foreach visits equal keys out of insertion order", kn);
			++i;
		}
	}
	std::vector<u32> w(c->all);
	std::sort(a.begin(), a.end());
	std::sort(w.begin(), w.end());
	CHECK(O_SEM | O_EACH, a == w, "each:set", "%s: foreach visits %zu elements, %zu are stored, or repeats some", kn, a.size(), w.size());
}

static void chk_list(Cont* c);

static void full_check(Cont* c, u32 salt)
{
	++R->pr[PR_FULLCHECK];
	if (c->kind == K_LI) {
		chk_list(c);
		return;
	}
	chk_usage(c);
	chk_foreach(c, salt & 1);
	// every key when few, a sample otherwise
	size_t nk = c->bykey.size(), step = nk > 150 ? nk / 100 : 1, i = 0;
	for (auto& kv : c->bykey) {
		if (i++ % step == salt % step) {
			u64 h = c->g->objs[kv.second[0]].hash;
			chk_search(c, kv.first, h, false);
			chk_bucket(c, kv.first, h, true);
		}
	}
	for (u32 j = 0; j < 6; ++j) { // absent neighbours
		u32 key = (u32)mix64(salt, j);
		if (!c->all.empty() && j < 4)
			key = c->g->objs[c->all[key % c->all.size()]].key ^ (j == 0 ? 1u : j == 1 ? 0x80000000u : 1u << ((key >> 8) & 31));
		if (!c->bykey.count(key)) {
			u64 h = hash_of(c->g, key);
			chk_search(c, key, h);
			chk_bucket(c, key, h, false);
		}
	}
	step = c->all.size() > 200 ? c->all.size() / 100 : 1;
	for (i = salt % step; i < c->all.size(); i += step)
		obj_verify(c->g, c->g->objs[c->all[i]]);
	for (i = 0; i < c->g->detached.size() && i < 50; ++i)
		obj_verify(c->g, c->g->objs[c->g->detached[i]]);
}

// ---------------------------------------------------------------- keyed operations
static u32 take_obj(Group* g, bool reuse)
{
	if (reuse && !g->detached.empty()) {
		u32 id = g->detached.back();
		g->detached.pop_back();
		obj_verify(g, g->objs[id]);
		++R->pr[PR_REINSERT];
		return id;
	}
	return obj_new(g);
}
static void put_obj(Group* g, u32 id, bool keep)
{
	if (keep && g->detached.size() < 64)
		g->detached.push_back(id);
	else {
		obj_verify(g, g->objs[id]);
		obj_free(g, id);
	}
}

static void after_escape(Cont* c, int kind, u32 salt)
{
	tev(c->g, 0xFA00 + kind);
	if (kind == F_OOM)
		++R->pr[PR_OOM_RETRIED];
	if (cur->escapes <= 8)
		full_check(c, salt);
	else
		chk_usage(c);
}

// a caller told of an exhausted heap tries again, or forgets about it
static bool gives_up(u32 salt) { return mix64(salt, 0x61) % 5 < 2; }

static const u32 WORK_LIMIT = 600;
static void chk_work(Cont* c, const CallCtx& x, const char* what)
{
	if (c->kind != K_HL || !(g_mask & O_WORK) || c->g->p[GP_HASHMODE] > 1 || c->g->p[GP_UNIV])
		return;
	CHECK(O_WORK, x.ticks <= WORK_LIMIT, "work:hashlin", "hashlin: one %s with %zu elements took %llu steps (limit %u)", what, c->all.size(), (unsigned long long)x.ticks, WORK_LIMIT);
	CHECK(O_WORK, x.allocs + x.frees <= 2, "work:heap", "hashlin: one %s made %u heap calls", what, x.allocs + x.frees);
}

// inserts an object with this key; returns false when it was not inserted (tree: equal present)
static bool do_insert(Cont* c, u32 key, bool reuse, u32 salt)
{
	Group* g = c->g;
	u32 id = take_obj(g, reuse);
	Obj* o = &g->objs[id];
	o->key = key;
	o->hash = hash_of(g, key);
	node_open(c, *o, true);
	bool ins = true;
	for (int attempt = 0;; ++attempt) {
		KC k;
		CallCtx x;
		k.probe = 0;
		k.arg = 0;
		k.inserting = o;
		void* ret = 0;
		size_t before = c->all.size();
		int r;
		if (c->kind == K_TE)
			r = call(c, &k, OC_INSERT, [&] { ret = tc_tree_insert(c->c, node_of(*o, c->slot), o->d); }, &x);
		else
			r = call(c, &k, OC_INSERT, [&] { tc_insert(c->kind, c->c, node_of(*o, c->slot), o->d, is_hash(c->kind) ? o->hash : key); }, &x);
		++R->pr[PR_INSERT];
		if (r == 0) {
			if (c->kind == K_TE) {
				tree_cmp_bound(c, k, "an insertion");
				auto it = c->bykey.find(key);
				if (it != c->bykey.end()) {
					Obj* e = &g->objs[it->second[0]];
					CHECK(O_SEM, ret == e->d, "sem:tree-dup", "tree: inserting an equal element does not return the one present");
					ins = false;
				} else
					CHECK(O_SEM, ret == o->d, "sem:tree-insert", "tree: inserting a new element returns something else");
			}
			if (ins)
				m_insert(c, *o);
			chk_work(c, x, "insertion");
			break;
		}
		// left by a fault: inserted completely, or not at all
		size_t cnt = tc_count(c->kind, c->c);
		CHECK(O_FAULT | O_ESC, cnt == before || (r == F_OOM && cnt == before + 1), "fault:count", "%s: count goes from %zu to %zu in an insertion that failed",
			kind_name[c->kind], before, cnt);
		if (cnt == before + 1) {
			m_insert(c, *o);
			++R->pr[PR_OOM_APPLIED];
			after_escape(c, r, salt);
			break;
		}
		++R->pr[PR_OOM_NOT_APPLIED];
		after_escape(c, r, salt);
		if (r == F_ESC || gives_up(salt)) { // abandon this one
			ins = false;
			break;
		}
		node_open(c, *o, true);
	}
	tev(g, ins ? 0x1115 + id : 0x1110);
	if (!ins) {
		node_close(c, *o);
		put_obj(g, id, salt & 1);
	}
	return ins;
}

static void removed(Cont* c, Obj* o, bool keep)
{
	u32 id = o->id;
	m_remove(c, *o);
	node_close(c, *o);
	++R->pr[PR_REMOVE];
	put_obj(c->g, id, keep);
}

static void do_remove_key(Cont* c, u32 key, bool keep, u32 salt)
{
	Group* g = c->g;
	u64 hash = hash_of(g, key);
	const char* kn = kind_name[c->kind];
	Probe pr = { 0x8888, key };
	KC k;
	CallCtx x;
	k.probe = &pr;
	k.inserting = 0;
	void* arg = key_arg(c, key, &pr);
	k.arg = arg;
	k.hash = hash;
	void* d = 0;
	size_t before = c->all.size();
	auto it = c->bykey.find(key);
	int r = call(c, &k, OC_REMOVE, [&] { d = tc_remove(c->kind, c->c, cb_cmp, arg, is_hash(c->kind) ? hash : key); }, &x);
	if (r) {
		size_t cnt = tc_count(c->kind, c->c);
		CHECK(O_FAULT | O_ESC, cnt == before || (r == F_OOM && it != c->bykey.end() && cnt + 1 == before), "fault:count", "%s: count goes from %zu to %zu in a removal that failed", kn, before, cnt);
		if (cnt + 1 == before) {
			// removed, but nobody was told which: it is the one the bucket no longer has
			void* b = tc_bucket(c->kind, c->c, is_hash(c->kind) ? hash : key);
			std::set<void*> in;
			for (void* n = b; n && in.size() <= before; n = tc_next(c->kind, n))
				in.insert(n);
			Obj* gone = 0;
			for (u32 id : it->second)
				if (!in.count(node_of(g->objs[id], c->slot))) {
					gone = &g->objs[id];
					break;
				}
			CHECK(O_FAULT, gone, "fault:remove", "%s: a removal that failed removed another element", kn);
			removed(c, gone, keep);
			++R->pr[PR_OOM_APPLIED];
		} else
			++R->pr[PR_OOM_NOT_APPLIED];
		after_escape(c, r, salt);
		return;
	}
	if (c->kind == K_TE)
		tree_cmp_bound(c, k, "a removal");
	if (it == c->bykey.end()) {
		CHECK(O_SEM, !d, "sem:remove-absent", "%s: removing absent key %08x returns something", kn, key);
		tev(g, 0x22);
		return;
	}
	CHECK(O_SEM, d, "sem:remove-lost", "%s: removing key %08x finds nothing, %zu elements are stored", kn, key, it->second.size());
	Obj* o = obj_at(g, d);
	CHECK(O_SEM, o && is_member(c, o) && o->key == key, "sem:remove-wrong", "%s: removing key %08x returns a wrong object", kn, key);
	CHECK(O_ORDER, o->id == it->second[0], "order:remove", "%s: remove takes element %u, the oldest with that key is %u", kn, o->id, it->second[0]);
	tev(g, 0x2222 + o->id);
	removed(c, o, keep);
	chk_work(c, x, "removal");
}

// search or removal in a hash container by a function that accepts what it wants among the elements with a hash
static void do_find(Cont* c, u64 hash, u32 accept, u32 which, bool remove, bool keep, u32 salt)
{
	Group* g = c->g;
	const char* kn = kind_name[c->kind];
	Probe pr = { 0x6666, 0 };
	KC k;
	k.probe = &pr;
	k.hash = hash;
	k.accept = accept;
	k.which = which;
	static const std::vector<u32> none;
	auto it = c->byhash.find(hash);
	const std::vector<u32>& v = it == c->byhash.end() ? none : it->second;
	Obj* want = 0;
	for (u32 id : v)
		if (accepts(&k, &g->objs[id])) {
			want = &g->objs[id];
			break;
		}
	void* arg = !v.empty() && mix64(salt, 0x41) % 3 == 0 ? g->objs[v[mix64(salt, 0x42) % v.size()]].d : any_arg(c, salt, &pr);
	k.arg = arg;
	void* d = 0;
	size_t before = c->all.size();
	int r = call(c, &k, remove ? OC_REMOVE : OC_LOOKUP, [&] { d = remove ? tc_remove(c->kind, c->c, cb_cmp, arg, hash) : tc_search(c->kind, c->c, cb_cmp, arg, hash); });
	if (r) {
		size_t cnt = tc_count(c->kind, c->c);
		CHECK(O_FAULT | O_ESC, cnt == before || (r == F_OOM && want && cnt + 1 == before), "fault:count", "%s: count goes from %zu to %zu in a call that failed", kn, before, cnt);
		if (cnt + 1 == before) {
			removed(c, want, keep);
			++R->pr[PR_OOM_APPLIED];
		} else if (remove)
			++R->pr[PR_OOM_NOT_APPLIED];
		after_escape(c, r, salt);
		return;
	}
	++R->pr[want ? PR_SEARCH_HIT : PR_SEARCH_MISS];
	if (!want) {
		CHECK(O_SEM, !d, "sem:find-absent", "%s: a %s returns something, the compare function accepts nothing", kn, remove ? "removal" : "search");
		tev(g, 0x44);
		return;
	}
	CHECK(O_SEM, d, "sem:find-lost", "%s: a %s finds nothing, the compare function accepts a stored element", kn, remove ? "removal" : "search");
	Obj* o = obj_at(g, d);
	CHECK(O_SEM, o && is_member(c, o) && accepts(&k, o), "sem:find-wrong", "%s: a %s returns an element the compare function does not accept", kn, remove ? "removal" : "search");
	CHECK(O_SEM | O_CB, o->hash == hash, "sem:find-hash", "%s: a %s returns an element with another hash", kn, remove ? "removal" : "search");
	CHECK(O_ORDER | O_CB, o == want, "order:find", "%s: element %u is taken, the oldest the compare function accepts is %u", kn, o->id, want->id);
	tev(g, 0x4444 + o->id);
	if (remove)
		removed(c, o, keep);
}

static void do_remove_existing(Cont* c, u32 id, bool keep, u32 salt)
{
	Group* g = c->g;
	Obj* o = &g->objs[id];
	const char* kn = kind_name[c->kind];
	KC k;
	CallCtx x;
	k.probe = 0;
	k.arg = 0;
	k.inserting = 0;
	void* d = 0;
	size_t before = c->all.size();
	int r = call(c, &k, OC_REMOVE, [&] { d = tc_remove_existing(c->kind, c->c, node_of(*o, c->slot)); }, &x);
	if (r) {
		size_t cnt = tc_count(c->kind, c->c);
		CHECK(O_FAULT | O_ESC, cnt == before || (r == F_OOM && cnt + 1 == before), "fault:count", "%s: count goes from %zu to %zu in a removal that failed", kn, before, cnt);
		if (cnt + 1 == before) {
			removed(c, o, keep);
			++R->pr[PR_OOM_APPLIED];
		} else
			++R->pr[PR_OOM_NOT_APPLIED];
		after_escape(c, r, salt);
		return;
	}
	CHECK(O_SEM, d == o->d, "sem:remove-existing", "%s: remove_existing does not return the element removed", kn);
	tev(g, 0x3333 + id);
	removed(c, o, keep);
	chk_work(c, x, "removal");
}

static void do_clear(Cont* c, u32 mode, u32 salt);

static void reinit(Cont* c)
{
	++R->pr[PR_CLEAR];
	c_init(c);
}

static void do_same(Cont* c, u32 id)
{
	// inserting an element that is already in the tree is not an insertion
	Obj* o = &c->g->objs[id];
	KC k;
	k.probe = 0;
	k.arg = 0;
	k.inserting = 0;
	void* ret = 0;
	++R->pr[PR_SAMENODE];
	if (call(c, &k, OC_INSERT, [&] { ret = tc_tree_insert(c->c, node_of(*o, c->slot), o->d); }) != 0)
		return;
	CHECK(O_SEM, ret == o->d, "sem:tree-same", "tree: inserting the element already present does not return it");
	chk_usage(c);
}

static void do_eachfree(Cont* c, bool witharg)
{
	if (!has_foreach(c->kind))
		return;
	KC k;
	int dummy;
	k.mode = 1;
	void* arg = any_arg(c, c->all.size() + witharg, &dummy);
	k.arg = arg;
	k.probe = 0;
	k.inserting = 0;
	std::vector<u32> want(c->kind == K_LI ? c->seq : c->all);
	k.limit = (u32)want.size();
	Fault f = cur->fault;
	if (f.kind != F_NEST)
		cur->fault.kind = F_NONE;
	call(c, &k, OC_ITERFREE, [&] {
		if (witharg)
			tc_foreach_arg(c->kind, c->c, cb_eacharg, arg);
		else
			tc_foreach(c->kind, c->c, cb_each);
	});
	cur->fault = f;
	std::vector<u32> a(k.seen);
	if (c->kind == K_LI)
		CHECK(O_SEM | O_EACH, a == want, "each:list-order", "list: foreach does not visit the elements in list order");
	std::sort(a.begin(), a.end());
	std::sort(want.begin(), want.end());
	CHECK(O_SEM | O_EACH, a == want, "each:set-free", "%s: foreach visits %zu elements, %zu were stored", kind_name[c->kind], a.size(), want.size());
	c->all.clear();
	m_clear(c);
	c_done(c); // must not look at the freed elements
	reinit(c);
}

static void do_clear(Cont* c, u32 mode, u32 salt)
{
	Group* g = c->g;
	if (c->kind == K_TR || c->kind == K_TI || mode == 0) {
		// remove everything, then done and init again
		u32 j = 0;
		while (!c->all.empty()) {
			u32 id = mode == 1 ? c->all[mix64(salt, j++) % c->all.size()] : mode == 2 ? c->all[0] : c->all.back();
			do_remove_existing(c, id, (salt & 2) != 0, salt);
		}
		chk_usage(c);
		if (c->kind == K_TR) {
			bool empty = true;
			for (Cont* d : g->conts)
				if (d->kind == K_TR && !d->all.empty())
					empty = false;
			if (empty && (salt & 4)) {
				c_done(g->alloc);
				for (Cont* d : g->conts)
					if (d->kind == K_TR)
						check_no_heap(d, "after the allocator is done");
				c_init(g->alloc);
				for (Cont* d : g->conts)
					if (d->kind == K_TR && d != c)
						c_init(d);
			}
		}
		c_done(c);
		reinit(c);
		return;
	}
	// done with the elements inside: they stay as they are and may be used again
	u64 sum = elements_sum(c);
	std::vector<u32> left(c->all);
	for (u32 id : left)
		poison(node_of(g->objs[id], c->slot), tc_nsize(c->kind));
	c_done(c);
	CHECK(O_HEAP, sum == elements_sum(c), "heap:done-writes", "%s: done writes the elements still contained", kind_name[c->kind]);
	m_clear(c);
	for (u32 id : left) {
		node_close(c, g->objs[id]);
		put_obj(g, id, salt & 2);
	}
	reinit(c);
}

static Cont* pick_cont(Group* g, u32 a)
{
	std::vector<Cont*> v;
	for (Cont* c : g->conts)
		if (c->kind != K_AL)
			v.push_back(c);
	return v[a % v.size()];
}

static u32 cap_for(Cont* c, u32 n)
{
	Group* g = c->g;
	if (g->p[GP_UNIV] == 1 && n > 700)
		n = 700;
	else if (hash_clusters(g) && n > 200)
		n = 200;
	if (c->kind == K_HT && n > 40 * (g->p[GP_X] + 8))
		n = 40 * (g->p[GP_X] + 8);
	if (c->kind == K_TE && g->p[GP_UNIV] && n > g->p[GP_UNIV])
		n = g->p[GP_UNIV];
	if (g->p[GP_UNIV] > 1 && c->kind != K_TE && n > g->p[GP_UNIV] * 40)
		n = g->p[GP_UNIV] * 40;
	return n;
}

static void fill_to(Cont* c, u32 target, const Op& op)
{
	Group* g = c->g;
	target = cap_for(c, target);
	u32 guard = 0;
	while (c->all.size() < target && guard++ < 2 * target + 100)
		do_insert(c, key_at(g, g->next_idx++), op.b & 1, op.a + guard);
}
// Removes everything but the elements met on the way to one of them: what is left must not stay a long path.
static void drain_around(Cont* c, u32 target, const Op& op)
{
	Group* g = c->g;
	for (u32 round = 0; round < 4 && c->all.size() > target && !c->all.empty(); ++round) {
		// the deepest of some elements
		std::vector<u32> path;
		for (u32 i = 0; i < 24; ++i) {
			u32 r = (u32)mix64(op.a + round, i);
			u32 key = i == 0 ? c->bykey.begin()->first : i == 1 ? c->bykey.rbegin()->first : g->objs[c->all[r % c->all.size()]].key;
			Probe pr = { 0x9999, key };
			KC k;
			std::vector<u32> rec;
			k.probe = &pr;
			k.arg = &pr;
			k.rec = &rec;
			void* d;
			if (call(c, &k, OC_LOOKUP, [&] { d = tc_search(K_TE, c->c, cb_cmp, &pr, key); }) != 0)
				continue;
			if (rec.size() > path.size())
				path = rec;
		}
		std::set<u32> keep(path.begin(), path.end());
		std::vector<u32> todo;
		for (auto& kv : c->bykey)
			for (u32 id : kv.second)
				if (!keep.count(id))
					todo.push_back(id);
		switch ((op.b >> 1) % 4) {
		case 0: break;
		case 1: std::reverse(todo.begin(), todo.end()); break;
		case 2:
			for (size_t i = todo.size(); i > 1; --i)
				std::swap(todo[i - 1], todo[mix64(op.a ^ 0x77, i) % i]);
			break;
		default: { // those closest to the end of the path first
			u32 key = path.empty() ? 0 : g->objs[path.back()].key;
			std::stable_sort(todo.begin(), todo.end(), [&](u32 a, u32 b) {
				u32 x = g->objs[a].key, y = g->objs[b].key;
				return (x < key ? key - x : x - key) < (y < key ? key - y : y - key);
			});
		}
		}
		size_t n = 0;
		for (u32 id : todo) {
			if (c->all.size() <= target)
				break;
			if (!is_member(c, &g->objs[id]) || !g->objs[id].alive)
				continue;
			if ((op.b >> 6) & 1)
				do_remove_key(c, g->objs[id].key, op.b & 1, op.a + (u32)n);
			else
				do_remove_existing(c, id, op.b & 1, op.a + (u32)n);
			if (++n % 16 == 0)
				for (u32 x : path)
					if (is_member(c, &g->objs[x]))
						chk_search(c, g->objs[x].key, g->objs[x].hash, false);
		}
		for (u32 x : path)
			if (is_member(c, &g->objs[x]))
				chk_search(c, g->objs[x].key, g->objs[x].hash, false);
		if (round == 3 || n == 0)
			break;
	}
}
static void drain_to(Cont* c, u32 target, const Op& op)
{
	u32 j = 0;
	if (c->kind == K_TE && (op.b >> 24 & 7) < (g_mask & O_TREEWORK ? 4 : 1))
		drain_around(c, target, op);
	while (c->all.size() > target) {
		u32 i, n = (u32)c->all.size();
		switch ((op.b >> 1) % 3) {
		case 0: i = n - 1; break;
		case 1: i = 0; break;
		default: i = (u32)(mix64(op.a, j) % n);
		}
		++j;
		u32 id = c->all[i];
		if ((op.b >> 3) & 1)
			do_remove_key(c, c->g->objs[id].key, op.b & 1, op.a + j);
		else
			do_remove_existing(c, id, op.b & 1, op.a + j);
	}
}

static bool op_reads(u32 code)
{
	switch (code) {
	case K_SEARCH: case K_SCMP: case K_BUCKET: case K_FIND: case K_EACH: case K_MEM: case K_CHECK: case L_EACH: case L_CHECK: case A_GET: case A_CHECK: case B_CHECK:
	case H_HASH: case H_NOISE:
		return true;
	}
	return false;
}

static void multi_op(Group* g, const Op& op);

static void keyed_op(Group* g, const Op& op)
{
	Cont* c = pick_cont(g, op.b >> 8);
	u32 n = op.n ? op.n : 1;
	switch (op.code) {
	case K_INS:
		if (hash_clusters(g) && c->all.size() > 400)
			break;
		for (u32 i = 0; i < n; ++i)
			do_insert(c, key_at(g, op.a + i), op.b & 1, op.a + i);
		break;
	case K_REM:
		for (u32 i = 0; i < n; ++i) {
			u32 key = key_at(g, op.a + i);
			if ((op.b & 4) && !c->all.empty())
				key = g->objs[c->all[(op.a + i) % c->all.size()]].key;
			do_remove_key(c, key, op.b & 1, op.a + i);
		}
		break;
	case K_REMX:
		for (u32 i = 0; i < n && !c->all.empty(); ++i)
			do_remove_existing(c, c->all[(op.a + i * 7) % c->all.size()], op.b & 1, op.a + i);
		break;
	case K_SEARCH:
	case K_BUCKET:
		for (u32 i = 0; i < n; ++i) {
			u32 key = key_at(g, op.a + i);
			if ((op.b & 4) && !c->all.empty())
				key = g->objs[c->all[(op.a + i) % c->all.size()]].key;
			if (op.b & 8)
				key = (u32)mix64(op.a, i);
			if (op.code == K_SEARCH)
				chk_search(c, key, hash_of(g, key));
			else
				chk_bucket(c, key, hash_of(g, key), false);
		}
		break;
	case K_FIND:
		if (!is_hash(c->kind))
			break;
		for (u32 i = 0; i < n; ++i) {
			u32 key = key_at(g, op.a + i), id = 0;
			if ((op.b & 4) && !c->all.empty())
				key = g->objs[c->all[(op.a + i) % c->all.size()]].key;
			auto it = c->byhash.find(hash_of(g, key));
			if (it != c->byhash.end())
				id = it->second[mix64(op.a, i) % it->second.size()];
			do_find(c, hash_of(g, key), 1 + (op.b >> 20) % 8 % 4, id, (op.b & 8) && !(op.b & 16), op.b & 1, op.a + i);
		}
		break;
	case K_SCMP:
		if (c->kind != K_TE)
			break;
		for (u32 i = 0; i < n; ++i) {
			u32 key = key_at(g, op.a + i);
			if ((op.b & 4) && !c->all.empty())
				key = g->objs[c->all[(op.a + i) % c->all.size()]].key;
			Probe pr = { 0x7777, key };
			KC k;
			k.probe = &pr;
			void* arg = any_arg(c, op.a + i, &pr);
			k.arg = arg;
			k.inserting = 0;
			void* d = 0;
			if (call(c, &k, OC_LOOKUP, [&] { d = tc_tree_search_compare(c->c, cb_tscmp, arg); }) != 0)
				continue;
			auto lo = c->bykey.lower_bound(key & ~15u);
			bool any = lo != c->bykey.end() && (lo->first >> 4) == (key >> 4);
			Obj* o = d ? obj_at(g, d) : 0;
			if (any)
				CHECK(O_SEM, o && is_member(c, o) && (o->key >> 4) == (key >> 4), "sem:search-compare", "tree: search_compare misses an element its order accepts");
			else
				CHECK(O_SEM, !d, "sem:search-compare-absent", "tree: search_compare returns something, no element matches");
			tree_cmp_bound(c, k, "search_compare");
		}
		break;
	case K_EACH:
		for (u32 i = 0; i < n; ++i)
			chk_foreach(c, (op.a + i) & 1);
		break;
	case K_MEM:
		chk_usage(c);
		break;
	case K_FILL:
		fill_to(c, op.n, op);
		break;
	case K_DRAIN:
		drain_to(c, op.n, op);
		break;
	case K_OSC: { // up and down around a threshold
		u32 lo = op.n, hi = cap_for(c, op.n + (op.b >> 16) % 64);
		for (u32 i = 0; i < 1 + op.a % 4; ++i) {
			fill_to(c, hi, op);
			drain_to(c, lo, op);
		}
		break;
	}
	case K_JIG: { // to a size, and then a few steps up and down many times
		u32 t = cap_for(c, op.n), w = 1 + (op.b >> 16) % 3;
		if (c->all.size() < t)
			fill_to(c, t, op);
		else
			drain_to(c, t, op);
		for (u32 i = 0; i < 20 + op.a % 100; ++i) {
			if (op.b & 16)
				fill_to(c, t + w, op);
			drain_to(c, t > w ? t - w : 0, op);
			if (!(op.b & 16))
				fill_to(c, t + w, op);
		}
		break;
	}
	case K_CLEAR:
		do_clear(c, op.n % 4, op.a);
		break;
	case K_EACHFREE:
		if (has_foreach(c->kind))
			do_eachfree(c, op.a & 1);
		else
			do_clear(c, 0, op.a);
		break;
	case K_SAME:
		if (c->kind == K_TE)
			for (u32 i = 0; i < n && !c->all.empty(); ++i)
				do_same(c, c->all[(op.a + i) % c->all.size()]);
		break;
	case K_CHECK:
		for (Cont* d : g->conts)
			if (d->kind != K_AL)
				full_check(d, op.a);
		break;
	}
}

// ---------------------------------------------------------------- multi-index groups
static void multi_insert_in(Group* g, Cont* c, Obj* o)
{
	node_open(c, *o, true);
	KC k;
	k.probe = 0;
	k.arg = 0;
	k.inserting = o;
	void* ret = o->d;
	for (;;) {
		size_t before = c->all.size();
		int r = call(c, &k, OC_INSERT, [&] {
			if (c->kind == K_TE)
				ret = tc_tree_insert(c->c, node_of(*o, c->slot), o->d);
			else if (c->kind == K_LI && (o->key & 8))
				tc_list_insert_head(c->c, node_of(*o, c->slot), o->d);
			else if (c->kind == K_LI)
				tc_list_insert_tail(c->c, node_of(*o, c->slot), o->d);
			else
				tc_insert(c->kind, c->c, node_of(*o, c->slot), o->d, is_hash(c->kind) ? o->hash : o->key);
		});
		if (r == 0 || (c->kind != K_LI && tc_count(c->kind, c->c) == before + 1))
			break;
		++R->pr[PR_OOM_RETRIED];
		node_open(c, *o, true);
	}
	CHECK(O_SEM | O_MULTI, ret == o->d, "sem:tree-insert", "tree: inserting a new element returns something else");
	if (c->kind == K_LI) {
		c->seq.insert((o->key & 8) ? c->seq.begin() : c->seq.end(), o->id);
		o->memb |= 1u << (c->id & 31);
	} else
		m_insert(c, *o);
}
static void multi_remove_from(Group* g, Cont* c, Obj* o)
{
	KC k;
	k.probe = 0;
	k.arg = 0;
	k.inserting = 0;
	void* d = 0;
	for (;;) {
		size_t before = c->all.size();
		int r = call(c, &k, OC_REMOVE, [&] { d = tc_remove_existing(c->kind, c->c, node_of(*o, c->slot)); });
		if (r == 0)
			break;
		++R->pr[PR_OOM_RETRIED];
		if (c->kind != K_LI && tc_count(c->kind, c->c) + 1 == before) {
			d = o->d;
			break;
		}
	}
	CHECK(O_SEM | O_MULTI, d == o->d, "sem:remove-existing", "%s: remove_existing does not return the element removed", kind_name[c->kind]);
	if (c->kind == K_LI) {
		erase_val(c->seq, o->id);
		o->memb &= ~(1u << (c->id & 31));
	} else
		m_remove(c, *o);
	node_close(c, *o);
	(void)g;
}

static void multi_insert(Group* g, u32 key, bool reuse)
{
	Cont* tree = 0;
	for (Cont* c : g->conts)
		if (c->kind == K_TE)
			tree = c;
	if (tree && tree->bykey.count(key))
		return;
	u32 id = take_obj(g, reuse);
	Obj* o = &g->objs[id];
	o->key = key;
	o->hash = hash_of(g, key);
	for (Cont* c : g->conts)
		if (c->kind != K_AL)
			multi_insert_in(g, c, o);
	++R->pr[PR_INSERT];
	tev(g, 0x7001 + id);
}

static void multi_remove(Group* g, u32 id, u32 first, bool keep)
{
	// found through one index, then taken out of every index it is in
	Obj* o = &g->objs[id];
	std::vector<Cont*> v;
	for (Cont* c : g->conts)
		if (c->kind != K_AL)
			v.push_back(c);
	Cont* f = v[first % v.size()];
	Cont* done = 0;
	if (f->kind != K_LI && (first & 64) && is_member(f, o) && f->bykey[o->key][0] == id && cur->fault.kind == F_NONE) { // by key from that index
		Probe pr = { 0x8888, o->key };
		KC k;
		k.probe = &pr;
		k.inserting = 0;
		k.arg = &pr;
		k.hash = o->hash;
		void* d = 0;
		call(f, &k, OC_REMOVE, [&] { d = tc_remove(f->kind, f->c, cb_cmp, &pr, is_hash(f->kind) ? o->hash : o->key); });
		CHECK(O_SEM | O_MULTI, d == o->d, "sem:remove-wrong", "%s: remove by key does not return the oldest element", kind_name[f->kind]);
		m_remove(f, *o);
		node_close(f, *o);
		done = f;
	}
	for (size_t i = 0; i < v.size(); ++i) {
		Cont* c = v[(first + i) % v.size()];
		if (c != done && is_member(c, o))
			multi_remove_from(g, c, o);
	}
	++R->pr[PR_REMOVE];
	tev(g, 0x7002 + id);
	put_obj(g, id, keep);
}

// in one index and out of it, the others keep the element
static void multi_toggle(Group* g, Cont* ref, u32 id, u32 which)
{
	Obj* o = &g->objs[id];
	std::vector<Cont*> v;
	for (Cont* c : g->conts)
		if (c->kind != K_AL && c != ref)
			v.push_back(c);
	if (v.empty())
		return;
	Cont* c = v[which % v.size()];
	if (is_member(c, o))
		multi_remove_from(g, c, o);
	else if (c->kind != K_TE || !c->bykey.count(o->key))
		multi_insert_in(g, c, o);
	++R->pr[PR_REINSERT];
	tev(g, 0x7003 + id);
}

static void multi_op(Group* g, const Op& op)
{
	Cont* ref = 0;
	for (Cont* c : g->conts)
		if (c->kind != K_AL && c->kind != K_LI) {
			ref = c;
			break;
		}
	u32 n = op.n ? op.n : 1, top = std::min(op.n, 20000u);
	switch (op.code) {
	case K_INS:
		for (u32 i = 0; i < n; ++i)
			multi_insert(g, key_at(g, op.a + i), op.b & 1);
		break;
	case K_FILL:
		for (u32 i = 0; ref->all.size() < top && i < 2 * top; ++i)
			multi_insert(g, key_at(g, g->next_idx++), op.b & 1);
		break;
	case K_SAME:
		for (u32 i = 0; i < n && !ref->all.empty(); ++i)
			multi_toggle(g, ref, ref->all[(op.a + i * 5) % ref->all.size()], op.b + i);
		break;
	case K_REM:
	case K_REMX:
		for (u32 i = 0; i < n && !ref->all.empty(); ++i)
			multi_remove(g, ref->all[(op.a + i * 5) % ref->all.size()], op.a + i, op.b & 1);
		break;
	case K_DRAIN:
		for (u32 i = 0; ref->all.size() > top; ++i)
			multi_remove(g, ref->all[mix64(op.a, i) % ref->all.size()], op.a + i, op.b & 1);
		break;
	case K_OSC:
		for (u32 j = 0; j < 2; ++j) {
			for (u32 i = 0; ref->all.size() < top + 9 && i < 2 * top; ++i)
				multi_insert(g, key_at(g, g->next_idx++), op.b & 1);
			for (u32 i = 0; ref->all.size() > top; ++i)
				multi_remove(g, ref->all[mix64(op.a, i) % ref->all.size()], op.a + i, op.b & 1);
		}
		break;
	case K_SEARCH:
		for (u32 i = 0; i < n; ++i) {
			u32 key = key_at(g, op.a + i);
			if ((op.b & 4) && !ref->all.empty())
				key = g->objs[ref->all[(op.a + i) % ref->all.size()]].key;
			for (Cont* c : g->conts)
				if (c->kind != K_AL && c->kind != K_LI)
					chk_search(c, key, hash_of(g, key));
		}
		break;
	case L_SORT:
		for (Cont* c : g->conts)
			if (c->kind == K_LI) {
				KC k;
				k.probe = 0;
				k.arg = 0;
				k.inserting = 0;
				call(c, &k, OC_SORT, [&] { tc_list_sort(c->c, cb_tcmp); });
				std::stable_sort(c->seq.begin(), c->seq.end(), [&](u32 a, u32 b) { return g->objs[a].key < g->objs[b].key; });
			}
		break;
	default:
		break;
	}
	if (op.code == K_CHECK || op.code == K_MEM || op.code == K_EACH || op.code == K_BUCKET || op.code == K_CLEAR) {
		for (Cont* c : g->conts)
			if (c->kind != K_AL)
				full_check(c, op.a);
	}
}

// ---------------------------------------------------------------- lists
static void chk_list(Cont* c)
{
	KC k;
	size_t cnt = 0;
	int empty = 0;
	void *head = 0, *tail = 0;
	if (call(c, &k, OC_LOOKUP, [&] { empty = tc_list_empty(c->c); head = tc_list_head(c->c); tail = tc_list_tail(c->c); }) != 0)
		return;
	k.scan = true; // the count of a list
	if (call(c, &k, OC_LOOKUP, [&] { cnt = tc_count(K_LI, c->c); }) != 0)
		return;
	CHECK(O_SEM, cnt == c->seq.size(), "sem:list-count", "list: count is %zu, %zu elements are stored", cnt, c->seq.size());
	CHECK(O_SEM, empty == c->seq.empty(), "sem:list-empty", "list: empty() is wrong");
	if (c->seq.empty()) {
		CHECK(O_SEM, !head && !tail, "sem:list-ends", "list: an empty list has a head or a tail");
		return;
	}
	size_t i = 0;
	void* last = 0;
	for (void* n = head; n; n = tc_next(K_LI, n), ++i) {
		CHECK(O_SEM, i < c->seq.size(), "sem:list-long", "list: forward walk finds more than the %zu elements", c->seq.size());
		Obj& o = c->g->objs[c->seq[i]];
		CHECK(O_SEM, (u8*)n == node_of(o, c->slot), "sem:list-order", "list: element %zu of %zu is not the expected one", i, c->seq.size());
		CHECK(O_SEM, tc_data(K_LI, n) == o.d, "sem:list-data", "list: the node of element %zu does not point to its object", i);
		last = n;
	}
	CHECK(O_SEM, i == c->seq.size(), "sem:list-short", "list: forward walk finds %zu of %zu elements", i, c->seq.size());
	CHECK(O_SEM, tail == last, "sem:list-tail", "list: tail() is not the last element");
	// backward: prev is circular
	void* n = head;
	for (i = c->seq.size(); i-- > 0;) {
		n = tc_prev(K_LI, n);
		CHECK(O_SEM, (u8*)n == node_of(c->g->objs[c->seq[i]], c->slot), "sem:list-prev", "list: backward walk is wrong at element %zu of %zu", i, c->seq.size());
	}
	for (u32 id : c->seq)
		obj_verify(c->g, c->g->objs[id]);
	for (u32 id : c->seq)
		tev(c->g, id);
}

static void list_op(Group* g, const Op& op)
{
	u32 nl = (u32)g->conts.size();
	Cont* c = g->conts[(op.b >> 8) % nl];
	u32 n = op.n ? op.n : 1;
	KC k;
	k.probe = 0;
	k.arg = 0;
	k.inserting = 0;
	switch (op.code) {
	case L_HEAD:
	case L_TAIL:
		for (u32 i = 0; i < n; ++i) {
			u32 id = take_obj(g, op.b & 1);
			Obj* o = &g->objs[id];
			o->key = key_at(g, op.a + i);
			node_open(c, *o, true);
			call(c, &k, OC_INSERT, [&] {
				if (op.code == L_HEAD)
					tc_list_insert_head(c->c, node_of(*o, c->slot), o->d);
				else
					tc_list_insert_tail(c->c, node_of(*o, c->slot), o->d);
			});
			o->memb |= 1u << (c->id & 31);
			if (op.code == L_HEAD)
				c->seq.insert(c->seq.begin(), id);
			else
				c->seq.push_back(id);
			++R->pr[PR_INSERT];
		}
		break;
	case L_DEL:
		for (u32 i = 0; i < n && !c->seq.empty(); ++i) {
			u32 m = (u32)c->seq.size();
			u32 at = (op.b & 2) ? 0 : (op.b & 4) ? m - 1 : (op.a + i * 3) % m;
			u32 id = c->seq[at];
			Obj* o = &g->objs[id];
			void* d = 0;
			call(c, &k, OC_REMOVE, [&] { d = tc_remove_existing(K_LI, c->c, node_of(*o, c->slot)); });
			CHECK(O_SEM, d == o->d, "sem:remove-existing", "list: remove_existing does not return the element removed");
			c->seq.erase(c->seq.begin() + at);
			o->memb &= ~(1u << (c->id & 31));
			node_close(c, *o);
			++R->pr[PR_REMOVE];
			put_obj(g, id, op.b & 1);
			tev(g, id);
		}
		break;
	case L_CONCAT: {
		if (nl < 2)
			break;
		Cont* d = g->conts[((op.b >> 8) + 1 + op.a % (nl - 1)) % nl];
		if (c == d)
			break;
		call(c, &k, OC_INSERT, [&] { tc_list_concat(c->c, d->c); });
		++R->pr[PR_CONCAT];
		for (u32 id : d->seq) {
			g->objs[id].memb = 1u << (c->id & 31);
			c->seq.push_back(id);
		}
		d->seq.clear();
		c_init(d);
		break;
	}
	case L_SORT: {
		u32 m = (u32)c->seq.size(), lg = 0;
		while (m >> lg)
			++lg;
		CallCtx x;
		call(c, &k, OC_SORT, [&] { tc_list_sort(c->c, cb_tcmp); }, &x);
		CHECK(O_SORT, x.allocs + x.frees + x.reallocs == 0, "sort:heap", "list: sort uses the heap");
		++R->pr[PR_SORT];
		std::vector<u32> want(c->seq);
		std::stable_sort(want.begin(), want.end(), [&](u32 a, u32 b) { return g->objs[a].key < g->objs[b].key; });
		// what the list really holds now
		std::vector<u32> got;
		std::set<void*> seen;
		for (void* x = tc_list_head(c->c); x; x = tc_next(K_LI, x)) {
			const Block* b = H.find(x);
			CHECK(O_SORT | O_SEM, b && b->owner == -1 && seen.insert(x).second, "sort:broken", "list: sort leaves a broken list");
			Obj* o = obj_at(g, tc_data(K_LI, x));
			CHECK(O_SORT | O_SEM, o && is_member(c, o), "sort:foreign", "list: sort leaves something else in the list");
			got.push_back(o->id);
		}
		CHECK(O_SORT | O_SEQ, got.size() == want.size(), "sort:lost", "list: %zu elements before sort, %zu after", want.size(), got.size());
		for (size_t i = 1; i < got.size(); ++i)
			CHECK(O_SORT | O_SEQ, g->objs[got[i - 1]].key <= g->objs[got[i]].key, "sort:order", "list: not sorted at %zu of %zu", i, got.size());
		CHECK(O_SORT | O_SEQ, got == want, "sort:stable", "list: sort is not stable (%zu elements)", got.size());
		CHECK(O_SORT, k.ncmp <= 2ull * m * lg + 16, "sort:work", "list: sorting %u elements took %u comparisons", m, k.ncmp);
		c->seq = got;
		if (g_mask & O_SORT)
			chk_list(c);
		break;
	}
	case L_EACH:
		chk_foreach(c, op.a & 1);
		break;
	case L_CLEAR:
		if (op.a & 1)
			do_eachfree(c, op.a & 2);
		else {
			for (u32 id : c->seq) {
				g->objs[id].memb = 0;
				node_close(c, g->objs[id]);
				put_obj(g, id, true);
			}
			c->seq.clear();
			c_init(c);
		}
		break;
	case L_CHECK:
		for (Cont* d : g->conts)
			chk_list(d);
		break;
	}
}

// ---------------------------------------------------------------- arrays
static void a_pattern(u8* out, u32 v, size_t es)
{
	for (size_t i = 0; i < es; ++i)
		out[i] = (u8)(v * 2654435761u >> ((i & 3) * 8)) ^ (u8)(i * 37);
}
static u8* a_ref(Cont* c, size_t i)
{
	KC k;
	u8* p = 0;
	if (call(c, &k, OC_LOOKUP, [&] { p = (u8*)tc_ref(c->kind, c->c, i); }) != 0)
		return 0;
	const char* kn = kind_name[c->kind];
	const Block* b = H.find(p);
	CHECK(O_SEM | O_ADDR | O_FAULT, b && b->owner == c->id, "array:ref", "%s: element %zu of %zu is not in memory the array holds", kn, i, c->size);
	CHECK(O_SEM | O_ADDR | O_FAULT, c->es == 0 || H.find(p + c->es - 1) == b, "array:ref-end", "%s: element %zu of %zu leaves the memory the array holds", kn, i, c->size);
	auto it = c->addr.find(i);
	if (it != c->addr.end())
		CHECK(O_ADDR, it->second == p, "addr:moved", "%s: element %zu moved", kn, i);
	else {
		auto up = c->byaddr.lower_bound(p);
		if (up != c->byaddr.end())
			CHECK(O_ADDR | O_SEM, p + c->es <= up->first, "addr:overlap", "%s: elements %zu and %zu overlap", kn, i, up->second);
		if (up != c->byaddr.begin()) {
			--up;
			CHECK(O_ADDR | O_SEM, up->first + c->es <= p, "addr:overlap", "%s: elements %zu and %zu overlap", kn, i, up->second);
		}
		c->addr[i] = p;
		c->byaddr[p] = i;
	}
	return p;
}
// a pointer with all its bits in use
static void* a_ptr(u32 v) { return v ? (void*)(uintptr_t)(v | (u64)(v * 0x9E3779B1u) << 32) : 0; }
static void a_write(Cont* c, size_t i, u32 v)
{
	if (is_of(c->kind)) {
		u8* p = a_ref(c, i);
		if (!p)
			return;
		std::vector<u8> t(c->es);
		a_pattern(t.data(), v, c->es);
		for (size_t j = 0; j < c->es; ++j)
			((volatile u8*)p)[j] = t[j];
	} else {
		KC k;
		call(c, &k, OC_INSERT, [&] { tc_set(c->kind, c->c, i, a_ptr(v)); });
	}
	c->val[i] = v;
}
static void a_read(Cont* c, size_t i)
{
	auto it = c->val.find(i);
	const char* kn = kind_name[c->kind];
	u8* p = a_ref(c, i);
	if (!p)
		return;
	if (is_of(c->kind)) {
		std::vector<u8> t(c->es);
		if (it != c->val.end())
			a_pattern(t.data(), it->second, c->es);
		for (size_t j = 0; j < c->es; ++j)
			CHECK(O_SEM, ((volatile u8*)p)[j] == t[j], it == c->val.end() ? "sem:array-zero" : "sem:array-value", "%s: element %zu of %zu %s (byte %zu)", kn, i, c->size,
				it == c->val.end() ? "was never written and is not zero" : "lost its value", j);
	} else {
		KC k;
		void* v = 0;
		if (call(c, &k, OC_LOOKUP, [&] { v = tc_get(c->kind, c->c, i); }) != 0)
			return;
		u32 want = it == c->val.end() ? 0 : it->second;
		CHECK(O_SEM, v == a_ptr(want) && *(void* volatile*)p == v, want ? "sem:array-value" : "sem:array-zero", "%s: element %zu of %zu has a wrong value", kn, i, c->size);
	}
}
static void a_usage(Cont* c)
{
	KC k;
	size_t sz = 0, mem = 0;
	if (call(c, &k, OC_LOOKUP, [&] { sz = tc_count(c->kind, c->c); mem = tc_mem(c->kind, c->c); }) != 0)
		return;
	CHECK(O_SEM, sz == c->size, "sem:array-size", "%s: size is %zu, %zu expected", kind_name[c->kind], sz, c->size);
	CHECK(O_MEMUSE, mem == H.owned[c->id], "memuse:array", "%s: memory_usage is %zu, %llu bytes are held", kind_name[c->kind], mem, (unsigned long long)H.owned[c->id]);
	// no more than a constant factor (plus the first allocation or one block)
	size_t unit = c->kind == K_AB || c->kind == K_ABO ? 4096 : 64;
	CHECK(O_SPACE, mem <= 2 * (std::max(c->size, c->reach) + unit) * c->es + 2 * (std::max(c->size, c->reach) / 4096 + 64) * sizeof(void*), "space:array", "%s: %zu bytes for %zu elements of %zu", kind_name[c->kind], mem, c->size, c->es);
	CHECK(O_SPACE, H.owned[c->id] <= 2 * (std::max(c->size, c->reach) + unit) * c->es + 2 * (std::max(c->size, c->reach) / 4096 + 64) * sizeof(void*), "space:array-held", "%s: %llu bytes are held for %zu elements of %zu", kind_name[c->kind], (unsigned long long)H.owned[c->id], c->size, c->es);
	tev(c->g, sz);
	if (g_mask & O_ISO)
		tev(c->g, mem);
	if (g_mask & O_BUILDS) {
		if (c->kind == K_AR || c->kind == K_AB)
			tev(c->g, mem / sizeof(void*));
		else if (c->kind == K_AO)
			tev(c->g, mem);
	}
}
static void a_check(Cont* c, u32 salt)
{
	++R->pr[PR_FULLCHECK];
	a_usage(c);
	size_t st = c->val.size() > 300 ? c->val.size() / 200 : 1, i = 0;
	for (auto& kv : c->val)
		if (i++ % st == salt % st)
			a_read(c, kv.first);
	for (size_t b = 1; b <= c->size; b *= 2)
		for (int d = -1; d <= 1; ++d) {
			size_t x = b + d;
			if (x < c->size)
				a_read(c, x);
		}
	for (u32 j = 0; c->size && j < 12; ++j) {
		size_t x = mix64(salt, j) % c->size;
		if (j < 4)
			x = x / 4096 * 4096 + (j & 1 ? 4095 : 0);
		if (j == 4)
			x = c->size - 1;
		if (x < c->size)
			a_read(c, x);
	}
}
static bool a_grow(Cont* c, size_t want, u32 salt)
{
	for (;;) {
		KC k;
		int r = call(c, &k, OC_INSERT, [&] { tc_grow(c->kind, c->c, want); });
		if (r == 0) {
			if (want > c->size)
				c->size = want;
			return true;
		}
		c->reach = std::max(c->reach, want);
		size_t sz = tc_count(c->kind, c->c);
		CHECK(O_FAULT, sz == c->size || sz == want, "fault:array-size", "%s: size is %zu after growing from %zu to %zu failed", kind_name[c->kind], sz, c->size, want);
		++R->pr[sz == want ? PR_OOM_APPLIED : PR_OOM_NOT_APPLIED];
		if (sz > c->size)
			c->size = sz;
		// what it says it has must be there
		tev(c->g, 0xFA00);
		++R->pr[PR_OOM_RETRIED];
		for (size_t j = 0; j < 40 && c->size; ++j)
			a_ref(c, j < 20 ? c->size - 1 - std::min((size_t)mix64(salt, j) % (c->size < 5000 ? c->size : 5000), c->size - 1) : mix64(salt, j) % c->size);
		if (c->size)
			a_ref(c, c->size - 1);
		if (cur->escapes <= 8)
			a_check(c, salt);
		else
			a_usage(c);
		if (gives_up(salt))
			return false;
	}
}
// how far an array may grow, so that the simulated heap is not exhausted
static size_t a_cap(Cont* c)
{
	if (!is_of(c->kind))
		return c->past ? (size_t)1 << 19 : ((size_t)1 << 22) + 2;
	size_t cap = (size_t)(6 << 20) / c->es;
	if (c->es > 4096)
		return (c->past + cap) * c->es > (size_t)24 << 20 ? 64 : cap < 64 ? 64 : cap;
	if (c->es > 65 && cap < 9000)
		cap = c->past * c->es < (size_t)8 << 20 ? 9000 : 2000; // nothing that depends on other groups
	return cap;
}
static void array_op(Group* g, const Op& op)
{
	Cont* c = g->conts[0];
	u32 n = op.n ? op.n : 1;
	switch (op.code) {
	case A_GROW: {
		size_t want = op.n;
		size_t cap = a_cap(c);
		if (want > cap)
			want = cap;
		a_grow(c, want, op.a);
		break;
	}
	case A_PUSH:
		for (u32 i = 0; i < n && c->size < 300000 && c->size < a_cap(c); ++i) {
			u32 v = (op.b & 6) == 6 || (op.a + i) % 5 == 0 ? 0 : (op.a + i) * 3 + 1; // a null pointer is a value as any other
			if (is_of(c->kind)) {
				if (a_grow(c, c->size + 1, op.a + i))
					a_write(c, c->size - 1, v);
			} else
				for (;;) {
					KC k;
					size_t before = c->size;
					int r = call(c, &k, OC_INSERT, [&] { tc_push(c->kind, c->c, a_ptr(v)); });
					if (r == 0) {
						c->val[c->size++] = v;
						break;
					}
					c->reach = std::max(c->reach, before + 1);
					size_t sz = tc_count(c->kind, c->c);
					CHECK(O_FAULT, sz == before, "fault:array-size", "%s: size is %zu after inserting at %zu failed", kind_name[c->kind], sz, before);
					++R->pr[PR_OOM_NOT_APPLIED];
					a_check(c, op.a);
					if (gives_up(op.a + i))
						break;
				}
		}
		break;
	case A_SET:
		for (u32 i = 0; i < n && c->size; ++i) {
			size_t at = (op.b & 1) ? c->size - 1 - (op.a + i) % c->size : (size_t)(mix64(op.a, i) % c->size);
			a_write(c, at, (op.a + i) % 6 == 0 ? 0 : (op.a + i) * 5 + 3);
		}
		break;
	case A_GET:
		for (u32 i = 0; i < n && c->size; ++i)
			a_read(c, mix64(op.a, i) % c->size);
		break;
	case A_CLEAR:
		c_done(c);
		c->past += c->size;
		c->reach = 0;
		c->size = 0;
		c->val.clear();
		c->addr.clear();
		c->byaddr.clear();
		reinit(c);
		break;
	case A_CHECK:
		a_check(c, op.a);
		break;
	}
}

// ---------------------------------------------------------------- allocator
static u8 b_byte(u32 tag, size_t i) { return (u8)(tag * 167 + i * 13 + 1); }
static void b_verify(Cont* c, const Cont::Blk& b)
{
	for (size_t i = 0; i < c->bs; ++i)
		CHECK(O_BLOCK, ((volatile u8*)b.p)[i] == b_byte(b.tag, i), "block:changed", "allocator: byte %zu of a block of %zu bytes changed while it was held", i, c->bs);
}
static void b_release(Cont* c, u32 at)
{
	Cont::Blk b = c->blk[at];
	b_verify(c, b);
	KC k;
	call(c, &k, OC_REMOVE, [&] { tc_free(c->c, b.p); });
	c->blkaddr.erase(b.p);
	c->blk[at] = c->blk.back();
	c->blk.pop_back();
}
static void b_usage(Cont* c)
{
	KC k;
	size_t mem = 0;
	if (call(c, &k, OC_LOOKUP, [&] { mem = tc_mem(K_AL, c->c); }) != 0)
		return;
	size_t al = c->al < sizeof(void*) ? sizeof(void*) : c->al;
	size_t unit = (c->bs + al - 1) / al * al;
	CHECK(O_MEMUSE, mem == c->blk.size() * unit, "memuse:allocator", "allocator: memory_usage %zu for %zu blocks of %zu bytes", mem, c->blk.size(), unit);
	c->peak = std::max(c->peak, c->blk.size());
	size_t fit = al + 16 < 4032 ? (4032 - 16 - al) / unit : 0; // blocks in a segment of a page
	size_t per = fit ? 4096 / fit : unit + al + 16;
	CHECK(O_BLOCK | O_SPACE, H.owned[c->id] <= 2 * c->peak * per + 4 * (4096 + al + unit), "block:not-reused", "allocator: %llu bytes are held, never more than %zu blocks of %zu bytes were in use",
		(unsigned long long)H.owned[c->id], c->peak, unit);
	CHECK(O_MEMUSE, mem <= H.owned[c->id], "memuse:allocator-held", "allocator: memory_usage %zu exceeds the %llu bytes held", mem, (unsigned long long)H.owned[c->id]);
}
static void alloc_op(Group* g, const Op& op)
{
	Cont* c = g->conts[0];
	u32 n = op.n ? op.n : 1;
	size_t al = c->al < sizeof(void*) ? sizeof(void*) : c->al;
	switch (op.code) {
	case B_ALLOC:
		for (u32 i = 0; i < n && c->blk.size() * (c->bs + c->al) < (4u << 20); ++i) {
			u8* p = 0;
			bool gone = false;
			for (;;) {
				KC k;
				size_t before = c->blk.size();
				int r = call(c, &k, OC_INSERT, [&] { p = (u8*)tc_alloc(c->c); });
				if (r == 0)
					break;
				++R->pr[PR_OOM_NOT_APPLIED];
				++R->pr[PR_OOM_RETRIED];
				(void)before;
				b_usage(c);
				if (cur->escapes <= 8)
					for (auto& b : c->blk)
						b_verify(c, b);
				if (gives_up(op.a + i)) {
					gone = true;
					break;
				}
			}
			if (gone)
				continue;
			CHECK(O_BLOCK, p, "block:null", "allocator: returns a null block");
			CHECK(O_BLOCK, (uintptr_t)p % al == 0, "block:align", "allocator: block not aligned at %zu", al);
			const Block* hb = H.find(p);
			CHECK(O_BLOCK, hb && hb->owner == c->id && (c->bs == 0 || H.find(p + c->bs - 1) == hb), "block:bounds", "allocator: a block of %zu bytes (align %zu) leaves the memory the allocator holds",
				c->bs, c->al);
			auto up = c->blkaddr.lower_bound(p);
			if (up != c->blkaddr.end())
				CHECK(O_BLOCK, up->first >= p + c->bs && up->first != p, "block:overlap", "allocator: two blocks of %zu bytes overlap", c->bs);
			if (up != c->blkaddr.begin()) {
				--up;
				CHECK(O_BLOCK, up->first + c->bs <= p, "block:overlap", "allocator: two blocks of %zu bytes overlap", c->bs);
			}
			Cont::Blk b = { p, op.a + i };
			for (size_t j = 0; j < c->bs; ++j)
				((volatile u8*)p)[j] = b_byte(b.tag, j);
			c->blk.push_back(b);
			c->blkaddr[p] = b.tag;
			++R->pr[PR_INSERT];
		}
		break;
	case B_FREE:
		for (u32 i = 0; i < n && !c->blk.empty(); ++i)
			b_release(c, (op.b & 1) ? (u32)c->blk.size() - 1 : (u32)(mix64(op.a, i) % c->blk.size()));
		break;
	case B_CLEAR:
		if (op.a & 1)
			while (!c->blk.empty())
				b_release(c, (u32)c->blk.size() - 1);
		for (auto& b : c->blk)
			b_verify(c, b);
		c->blk.clear();
		c->blkaddr.clear();
		c->peak = 0;
		c_done(c);
		reinit(c);
		break;
	case B_CHECK:
		b_usage(c);
		for (auto& b : c->blk)
			b_verify(c, b);
		++R->pr[PR_FULLCHECK];
		break;
	}
	b_usage(c);
	tev(g, c->blk.size());
}

// ---------------------------------------------------------------- hash functions
// one window per task, between inaccessible pages; the library sees it read only, at another address
static size_t WIN = 8192;
struct Win { u8* base; u8* ro; size_t lo, hi; };
static std::vector<Win> g_win;
static void win_init(u32 n, bool big)
{
	WIN = big ? 160 * 1024 : 8192;
	u8* b = sizeof(void*) == 8 ? (u8*)(uintptr_t)0x280000000000ull : (u8*)(uintptr_t)0x50000000u;
	for (u32 i = 0; i < n; ++i) {
		u8* m = b + i * ((size_t)1 << 20);
		u8* v = m + ((size_t)1 << 19);
		if (mmap(m, (size_t)1 << 20, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0) != m
			|| mmap(m + 4096, WIN, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_FIXED, -1, 0) != m + 4096
			|| mremap(m + 4096, 0, WIN, MREMAP_MAYMOVE | MREMAP_FIXED, v + 4096) != v + 4096 || mprotect(v + 4096, WIN, PROT_READ) != 0) {
			snprintf(R->msg, sizeof R->msg, "cannot map the key windows");
			finish(ST_ERROR);
		}
		Win w = { m + 4096, v + 4096, 0, 0 };
		g_win.push_back(w);
	}
}
static void win_noise(Win& w, u64 seed, u32 n)
{
	for (u32 i = 0; i < n; ++i) {
		size_t at = mix64(seed, i) % WIN;
		if (w.hi > w.lo && (i & 3)) { // close to the key
			size_t near = mix64(seed, i + 1000) % 16;
			at = (i & 1) ? w.hi + near : w.lo - 1 - near;
		}
		if (at >= WIN || (at >= w.lo && at < w.hi))
			continue;
		((volatile u8*)w.base)[at] = (u8)(mix64(seed, i + 77) & ((i & 2) ? 0xff : 0));
		if (w.hi > w.lo)
			++R->fc[FC_NEIGHBOUR_WRITE];
	}
}
static u64 hash_call(Cont* c, u32 fn, u64 iv, const u8* p, size_t n)
{
	u64 r = 0;
	KC k;
	call(c, &k, OC_LOOKUP, [&] { r = fn == 0 ? tc_hash32((u32)iv, p, n) : fn == 1 ? tc_hash64(iv, p, n) : tc_strhash(iv, p); });
	return r;
}
static u64 hash_at(Cont* c, Win& w, size_t at, u32 fn, u64 iv, const std::vector<u8>& key)
{
	size_t n = key.size();
	w.lo = at;
	w.hi = at + n;
	for (size_t i = 0; i < n; ++i)
		((volatile u8*)w.base)[at + i] = key[i];
	poison(w.ro, at & ~(size_t)7);
	poison(w.ro + at + n, WIN - (at + n));
	u64 r = hash_call(c, fn, iv, w.ro + at, n - (fn == 2));
	for (size_t i = 0; i < n; ++i)
		CHECK(O_HASH, ((volatile u8*)w.base)[at + i] == key[i], "hash:writes", "a hash function writes its key");
	unpoison(w.ro, WIN);
	w.lo = w.hi = 0;
	return r;
}
// the same buffer with another key in it, the same length, another initial value: nothing of an earlier computation may be left
static void hash_modified(Group* g, Cont* c, Win& w, const Op& op, u32 fn, u64 iv, const std::vector<u8>& key)
{
	static const char* const name[3] = { "hash_u32", "hash_u64", "strhash_u32" };
	size_t n = key.size(), body = n - (fn == 2);
	if (n > (WIN > 8192 ? 70000 : 3000))
		return;
	size_t at = 64 + (op.b >> 8) % 32;
	u64 base = hash_at(c, w, at, fn, iv, key);
	for (u32 i = 0; i < 4; ++i) {
		std::vector<u8> k2(key);
		u64 iv2 = iv;
		size_t q = 0;
		if (i == 3)
			iv2 = (i & 1) ? iv ^ (1ull << (op.a % 32)) : iv;
		else if (body) {
			q = i == 0 ? body - 1 : i == 1 ? body - 1 - mix64(op.a, 5) % (body < 16 ? body : 16) : mix64(op.a, 6) % body;
			k2[q] ^= 1u << (mix64(op.a, 8 + i) % 8);
			if (fn == 2 && k2[q] == 0)
				k2[q] = 0x55;
		} else
			continue;
		u64 r = hash_at(c, w, at, fn, iv2, k2);
		u64 f = hash_at(c, w, at + WIN / 2 - 96 + (op.b >> 13) % 16, fn, iv2, k2);
		CHECK(O_HASH, r == f, "hash:remembers", "%s of %zu bytes depends on what was at the same address in an earlier call (byte %zu changed)", name[fn], n, q);
		if (r == base && k2 != key && (g_mask & O_HASH)) { // a collision, or is this byte not read at all?
			bool ignored = true;
			for (u32 j = 1; j < 8 && ignored; ++j) {
				std::vector<u8> k3(key);
				k3[q] ^= (u8)(j * 37);
				if (fn != 2 || k3[q])
					ignored = hash_at(c, w, at, fn, iv, k3) == base;
			}
			CHECK(O_HASH, !ignored, "hash:ignores", "%s of %zu bytes does not depend on byte %zu", name[fn], n, q);
		}
		u64 again = hash_at(c, w, at, fn, iv, key);
		CHECK(O_HASH, again == base, "hash:remembers", "%s of %zu bytes gives another result the second time", name[fn], n);
		tev(g, r);
	}
}
// the integer hashes and the bit helpers
static void hash_bits(Group* g, Cont* c, const Op& op, u32 rep)
{
	for (u32 f = 0; f < 9; ++f) {
		u64 v = mix64(op.a, 900 + rep * 16 + f);
		v >>= (v >> 58);
		if (v & 1)
			v = ((u64)1 << (v >> 1) % 63) + (v >> 7) % 3 - 1;
		v = tc_bits_domain(f, v);
		u64 r[2] = { 0, 0 };
		for (int i = 0; i < 2; ++i) {
			KC k;
			call(c, &k, OC_LOOKUP, [&] { r[i] = tc_bits(f, v); });
		}
		CHECK(O_HASH, r[0] == r[1], "hash:bits", "an integer function gives two results for the same value");
		tev(g, r[0]);
	}
}
static void hfn_op(Group* g, const Op& op)
{
	Cont* c = g->conts[0];
	if (op.code == H_NOISE) {
		for (Win& w : g_win)
			win_noise(w, op.a, 8 + op.n % 40);
		return;
	}
	Win& w = g_win[cur->id];
	for (u32 rep = 0; rep < 1 + op.b % 3; ++rep) {
		u32 fn = (op.a + rep) % 3;
		size_t len = op.n < 6000 ? (op.n + rep * 5) % 6000 : std::min(op.n, 140000u);
		u64 iv = mix64(op.a, 3 + rep) & (op.b & 4 ? ~0ull : 0);
		std::vector<u8> key(len + (fn == 2));
		for (size_t i = 0; i < len; ++i) {
			key[i] = (u8)mix64(op.a + rep, i + 10);
			if (fn == 2 && key[i] == 0)
				key[i] = (i & 1) ? 0x80 : 0x01;
			if ((op.b & 8) && (mix64(op.a, i) & 3) == 0)
				key[i] = (op.a & 64) ? 0x80 : 0x01;
		}
		if (fn == 2)
			key[len] = 0;
		size_t n = key.size();
		u64 first = 0;
		for (u32 pl = 0; pl < 6; ++pl) {
			size_t at;
			switch (pl) {
			case 0: at = 1024; break;
			case 1: at = WIN - n; break;
			case 2: at = 0; break;
			case 3: at = n < WIN / 2 ? WIN / 2 - n / 2 : (WIN - n) / 2; break;
			default: at = mix64(op.a, pl + 50 + rep) % (WIN - n); break;
			}
			if (pl == 1 || pl == 2)
				++R->fc[FC_GUARD_PAGE];
			w.lo = at;
			w.hi = at + n;
			if (pl == 0)
				for (size_t i = 0; i < WIN; ++i)
					((volatile u8*)w.base)[i] = 0;
			else
				win_noise(w, op.a + pl, 60);
			for (size_t i = 0; i < n; ++i)
				((volatile u8*)w.base)[at + i] = key[i];
			// everything but the key is out of bounds, to the byte at its end
			poison(w.ro, at & ~(size_t)7);
			if (pl == 1)
				; // the guard page follows
			else
				poison(w.ro + at + n, WIN - (at + n));
			u64 r = hash_call(c, fn, iv, w.ro + at, n - (fn == 2));
			for (size_t i = 0; i < n; ++i)
				CHECK(O_HASH, ((volatile u8*)w.base)[at + i] == key[i], "hash:writes", "a hash function writes its key");
			unpoison(w.ro, WIN);
			w.lo = w.hi = 0;
			if (pl == 0)
				first = r;
			CHECK(O_HASH, r == first, "hash:depends", "%s of %zu bytes depends on where the key is or on the bytes around it",
				fn == 0 ? "hash_u32" : fn == 1 ? "hash_u64" : "strhash_u32", n);
			++R->pr[PR_SEARCH_HIT];
		}
		tev(g, first);
		hash_bits(g, c, op, rep);
		hash_modified(g, c, w, op, fn, iv, key);
	}
}

// ---------------------------------------------------------------- user heap activity
static void noise_op(Group* g, const Op& op)
{
	for (u32 i = 0; i < 1 + op.n % 12; ++i) {
		u64 r = mix64(op.a, i);
		if ((r & 1) || g->noise.empty())
			g->noise.push_back(H.alloc((size_t)(1 + (r >> 8) % ((r & 2) ? 4096 : 128)), false, -1));
		else {
			size_t at = (r >> 16) % g->noise.size();
			H.release(g->noise[at], -1, false);
			g->noise[at] = g->noise.back();
			g->noise.pop_back();
		}
		sched_point();
	}
}

// ---------------------------------------------------------------- world
static Cont* new_cont(Group* g, int kind, int slot)
{
	Cont* c = new Cont();
	c->id = (int)C.size();
	c->kind = kind;
	c->slot = slot;
	c->g = g;
	c->es = sizeof(void*);
	C.push_back(c);
	g->conts.push_back(c);
	c->c = (u8*)H.alloc(tc_csize(kind), false, -1);
	if (c->id >= 32) {
		snprintf(R->msg, sizeof R->msg, "too many containers");
		finish(ST_ERROR);
	}
	return c;
}

static void group_create(const GroupCfg& gc, int id)
{
	Group* g = new Group();
	g->id = id;
	g->type = gc.type;
	for (int i = 0; i < GP_N; ++i)
		g->p[i] = gc.p[i];
	G.push_back(g);
	g->nslots = 1 + g->p[GP_SLOT] % 3;
	int slot = (int)(g->p[GP_SLOT] / 3 % g->nslots);
	if (g->type == GT_TRIE)
		g->alloc = 0;
	auto mk_alloc = [&] {
		Cont* a = new_cont(g, K_AL, 0);
		a->bs = tc_trie_block();
		a->al = tc_trie_block();
		g->alloc = a;
	};
	switch (g->type) {
	case GT_HASH:
		for (u32 i = 0; i < 1 + g->p[GP_MISC] % 2; ++i)
			new_cont(g, (int)(g->p[GP_KIND] % 3), slot);
		break;
	case GT_TRIE:
		mk_alloc();
		if (g->p[GP_MISC] % 3)
			++R->pr[PR_SHARED_ALLOC];
		for (u32 i = 0; i < 1 + g->p[GP_MISC] % 3; ++i)
			new_cont(g, K_TR, slot);
		break;
	case GT_TI:
		for (u32 i = 0; i < 1 + g->p[GP_MISC] % 2; ++i)
			new_cont(g, K_TI, slot);
		break;
	case GT_TREE:
		for (u32 i = 0; i < 1 + g->p[GP_MISC] % 2; ++i)
			new_cont(g, K_TE, slot);
		break;
	case GT_LIST:
		for (u32 i = 0; i < 1 + g->p[GP_MISC] % 4; ++i)
			new_cont(g, K_LI, slot);
		break;
	case GT_ARRAY: {
		Cont* c = new_cont(g, K_AR + (int)(g->p[GP_KIND] % 4), 0);
		if (is_of(c->kind)) {
			c->es = g->p[GP_X] <= 4096 || c->kind == K_AO ? g->p[GP_X] : g->p[GP_X] % 4096;
			if (c->es == 0)
				c->es = 100;
		}
		break;
	}
	case GT_ALLOC: {
		Cont* c = new_cont(g, K_AL, 0);
		c->bs = g->p[GP_X] ? g->p[GP_X] : 1;
		c->al = g->p[GP_BASE];
		break;
	}
	case GT_MULTI:
		mk_alloc();
		{
			int kinds[7] = { K_LI, (int)(g->p[GP_KIND] % 3), K_TR, K_TE, K_TI, (int)(g->p[GP_BASE] % 3), K_LI };
			int s = 0;
			for (int i = 0; i < 7; ++i)
				if (i < 2 || ((g->p[GP_MISC] >> i) & 1))
					new_cont(g, kinds[i], s++);
			g->nslots = s;
			for (Cont* c : g->conts) // any of the nodes may be the first one of the object
				if (c->kind <= K_LI)
					c->slot = (int)((g->p[GP_Y] & 1 ? g->nslots - 1 - c->slot : c->slot) + g->p[GP_Y] / 2) % g->nslots;
		}
		break;
	case GT_HFN:
		new_cont(g, K_AL, 0);
		break;
	}
	layout_init(g);
}

static void group_init(Group* g)
{
	if (g->type == GT_HFN)
		return;
	for (Cont* c : g->conts)
		c_init(c);
}

static void group_finish(Group* g)
{
	if (g->type == GT_HFN)
		return;
	for (Cont* c : g->conts) {
		switch (c->kind) {
		case K_AL: break;
		case K_AR: case K_AO: case K_AB: case K_ABO:
			a_check(c, 1);
			c_done(c);
			break;
		default:
			full_check(c, 3);
		}
	}
	if (g->type == GT_ALLOC) {
		Cont* c = g->conts[0];
		for (auto& b : c->blk)
			b_verify(c, b);
		c_done(c);
	} else if (g->type != GT_ARRAY) {
		for (Cont* c : g->conts) {
			if (c->kind == K_AL)
				continue;
			if (g->type == GT_MULTI) {
				while (!c->all.empty()) {
					u32 id = c->all.back();
					KC k;
					k.probe = 0;
					k.arg = 0;
					k.inserting = 0;
					void* d = 0;
					call(c, &k, OC_REMOVE, [&] { d = tc_remove_existing(c->kind, c->c, node_of(g->objs[id], c->slot)); });
					CHECK(O_SEM | O_MULTI, d == g->objs[id].d, "sem:remove-existing", "%s: remove_existing does not return the element removed", kind_name[c->kind]);
					m_remove(c, g->objs[id]);
				}
				c_done(c);
			} else if (c->kind == K_TR || c->kind == K_TI) {
				while (!c->all.empty())
					do_remove_existing(c, c->all.back(), false, 1);
				chk_usage(c);
				c_done(c);
			} else if (c->kind == K_LI) {
				do_eachfree(c, false);
			} else {
				do_eachfree(c, true);
				c_done(c);
			}
		}
		if (g->alloc) {
			if (g_mask & (O_MEMUSE | O_HEAP | O_FAULT)) {
				size_t am = tc_mem(K_AL, g->alloc->c);
				CHECK(O_MEMUSE | O_HEAP | O_FAULT, am == 0, "memuse:trie-leak", "all tries are empty, their allocator still has %zu bytes in use", am);
			}
			c_done(g->alloc);
		}
	}
	for (Cont* c : g->conts)
		check_no_heap(c, "at the end");
}

// What a callback does that uses the library: it looks up the container it was called from,
// or works on a container of its own.
static void side_op(Group* g, u64 z)
{
	Op o;
	memset(&o, 0, sizeof o);
	o.a = (u32)z;
	o.b = (u32)(z >> 32);
	o.n = 1 + (u32)(z >> 20) % 4;
	static const u32 kc[] = { K_INS, K_INS, K_INS, K_REM, K_REMX, K_SEARCH, K_EACH, K_BUCKET, K_CHECK, K_FIND, K_FILL, K_DRAIN, K_CLEAR, K_EACHFREE, K_SAME, K_SCMP };
	static const u32 lc[] = { L_HEAD, L_TAIL, L_TAIL, L_DEL, L_CONCAT, L_SORT, L_EACH, L_CHECK };
	static const u32 ac[] = { A_PUSH, A_PUSH, A_GROW, A_SET, A_GET, A_CHECK };
	static const u32 bc[] = { B_ALLOC, B_ALLOC, B_FREE, B_CHECK };
	u32 w = (u32)(z >> 8);
	switch (g->type) {
	case GT_LIST: o.code = lc[w % 8]; list_op(g, o); break;
	case GT_ARRAY: o.code = ac[w % 6]; o.n *= 5; array_op(g, o); break;
	case GT_ALLOC: o.code = bc[w % 4]; alloc_op(g, o); break;
	case GT_HASH: case GT_TRIE: case GT_TI: case GT_TREE:
		o.code = kc[w % 16];
		if (o.code == K_FILL || o.code == K_DRAIN)
			o.n = (u32)(z >> 20) % 40;
		keyed_op(g, o);
		break;
	default: break;
	}
}
static bool is_side(Group* g, int task) { return g->p[GP_Y] == 1000u + (u32)task; }
static void nest(Task* t)
{
	KC* k = kc();
	Cont* c = k->c;
	u64 z = mix64(t->fault_cb_seen * 77 + t->fault.k, R->ops);
	CallCtx* outer = t->call;
	jmp_buf esc;
	memcpy(&esc, &t->esc, sizeof esc);
	bool armed = t->esc_armed, fired = t->fault_fired;
	Fault f = t->fault;
	u32 outage = t->outage, escapes = t->escapes, acs = t->fault_alloc_seen, cbs = t->fault_cb_seen;
	t->nested = true;
	t->fault.kind = F_NONE;
	bool lookup = k->oc == OC_LOOKUP || (c->kind <= K_TE && (k->oc == OC_REMOVE || k->oc == OC_INSERT));
	if (lookup && z % 3 != 0) {
		u32 w = (u32)(z >> 8) % 6;
		if (c->kind == K_LI || (w == 0 && c->all.size() <= 300))
			chk_foreach(c, w & 1);
		else if (w == 1)
			chk_usage(c);
		else {
			u32 key = (u32)(z >> 20);
			if (!c->all.empty() && w != 2)
				key = c->g->objs[c->all[key % c->all.size()]].key;
			chk_search(c, key, hash_of(c->g, key));
			chk_bucket(c, key, hash_of(c->g, key), false);
		}
	} else
		for (Group* s : G)
			if (is_side(s, t->id))
				for (u32 i = 0; i < 1 + (z >> 16) % 3; ++i)
					side_op(s, mix64(z, i));
	t->nested = false;
	t->fault = f;
	t->outage = outage;
	t->escapes = escapes;
	t->fault_alloc_seen = acs;
	t->fault_cb_seen = cbs;
	t->fault_fired = fired;
	t->esc_armed = armed;
	memcpy(&t->esc, &esc, sizeof esc);
	t->call = outer;
	t->in_lib = false;
}

static bool op_fits(Group* g, u32 code)
{
	switch (g->type) {
	case GT_HASH: case GT_TRIE: case GT_TI: case GT_TREE: return code <= K_OSC || code == K_JIG || code == K_FIND;
	case GT_MULTI: return code <= K_OSC || code == L_SORT;
	case GT_LIST: return code >= L_HEAD && code <= L_CHECK;
	case GT_ARRAY: return code >= A_GROW && code <= A_CHECK;
	case GT_ALLOC: return code >= B_ALLOC && code <= B_CHECK;
	case GT_HFN: return code == H_HASH || code == H_NOISE;
	}
	return false;
}

static void exec_op(const Op& op)
{
	if (op.group >= G.size())
		return;
	Group* g = G[op.group];
	bool w = !op_reads(op.code) || (op.code == K_FIND && (op.b & 8));
	if (op.code != U_NOISE && !op_fits(g, op.code))
		return;
	sched_point();
	bool need_lock = g->type != GT_HFN;
	if (need_lock)
		lock(g->lk, w);
	++R->ops;
	ev(op.code * 131 + op.task);
	ev_dump("task %u: group %u %s a=%u b=%u n=%u%s", op.task, op.group, op_name[op.code], op.a, op.b, op.n, op.fk ? " (fault armed)" : "");
	cur->fault.kind = op.fk < F_KINDS ? op.fk : 0;
	cur->fault.k = op.fkk & 0xffff ? op.fkk & 0xffff : 1;
	cur->outage = op.fkk >> 16;
	cur->escapes = 0;
	cur->fault_alloc_seen = cur->fault_cb_seen = 0;
	cur->fault_fired = false;
	cur->nested = false;
	if (op.code == U_NOISE)
		noise_op(g, op);
	else
		switch (g->type) {
		case GT_MULTI: multi_op(g, op); break;
		case GT_LIST: list_op(g, op); break;
		case GT_ARRAY: array_op(g, op); break;
		case GT_ALLOC: alloc_op(g, op); break;
		case GT_HFN: hfn_op(g, op); break;
		default: keyed_op(g, op);
		}
	if (cur->fault_fired)
		++R->nontrivial;
	cur->fault.kind = F_NONE;
	cur->outage = 0;
	for (Cont* c : g->conts)
		if (c->all.size() > 65536 || c->seq.size() > 65536 || c->size > 65536) {
			++R->pr[PR_BIG];
			break;
		}
	if (P->checkmode == 1 && w && op.code != U_NOISE && g->type <= GT_TREE) {
		Cont* c = pick_cont(g, op.b >> 8);
		if (c->all.size() <= 64)
			full_check(c, op.a);
		else
			chk_usage(c);
	}
	if (P->checkmode == 1 && w && g->type == GT_LIST && op.code != U_NOISE)
		for (Cont* c : g->conts)
			if (c->seq.size() <= 64)
				chk_list(c);
	if (need_lock)
		unlock(g->lk, w);
}

static void task_entry(Task* t)
{
	for (const Op& op : P->ops) {
		if (op.task % P->ntasks != (u32)t->id)
			continue;
		if (g_only >= 0 && (int)op.group != g_only)
			continue;
		exec_op(op);
	}
}
static void init_entry(Task*)
{
	for (Group* g : G)
		if (g_only < 0 || g->id == g_only)
			group_init(g);
}
static void fini_entry(Task*)
{
	for (Group* g : G)
		if (g_only < 0 || g->id == g_only)
			group_finish(g);
}

void world_run(const Plan& p, int only_group, bool clean)
{
	P = &p;
	g_only = only_group;
	g_nest = nest;
	g_hmask = sizeof(size_t) == 8 && p.prop != "C26" ? ~0ull : 0xffffffffull; // C26: hash values that every build can hold
	HeapCfg hc = p.heap;
	if (only_group >= 0) { // other garbage, other addresses, same behaviour expected
		hc.seed ^= 0x5bd1e995;
		hc.fill = 3 - hc.fill % 4;
		hc.colour = (hc.colour + 1) % 3;
		hc.place = (hc.place + 1) % 3;
		hc.reuse = (hc.reuse + 1) % 3;
	}
	if (clean)
		hc.fill = 0;
	H.init(hc);
	g_junk = hc.seed;
	g_dirty_stack = p.dirty != 0 && !clean;
	for (size_t i = 0; i < p.groups.size(); ++i)
		group_create(p.groups[i], (int)i);
	bool hfn = false;
	for (auto& gc : p.groups)
		hfn |= gc.type == GT_HFN;
	if (hfn) {
		bool big = false;
		for (const Op& o : p.ops)
			big |= p.groups[o.group].type == GT_HFN && o.n >= 6000;
		win_init(p.ntasks, big);
	}
	Task ti;
	ti.id = 100;
	ti.entry = init_entry;
	std::vector<Task*> one(1, &ti);
	std::vector<SchedEnt> none;
	sched_run(one, none);
	std::vector<Task*> tasks;
	for (u32 i = 0; i < p.ntasks; ++i) {
		Task* t = new Task();
		t->id = (int)i;
		t->entry = task_entry;
		tasks.push_back(t);
	}
	sched_run(tasks, only_group >= 0 ? none : p.sched);
	Task tf;
	tf.id = 101;
	tf.entry = fini_entry;
	one[0] = &tf;
	sched_run(one, none);
	for (Group* g : G) {
		for (u32 id : g->detached) {
			obj_verify(g, g->objs[id]);
			obj_free(g, id);
		}
		g->detached.clear();
		if (g->id < 4)
			R->ghash[g->id] = g->th;
	}
	H.check_all();
}
