// Simulator core: PRNG, result channel, simulated heap, simulated clock, tasks, locks, faults.
#pragma once
#include "tc.h"
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <setjmp.h>
#include <ucontext.h>

typedef uint8_t u8;
typedef uint32_t u32;
typedef uint64_t u64;

struct Rng {
	u64 s;
	explicit Rng(u64 x = 0) : s(x) {}
	u64 next()
	{
		u64 z = (s += 0x9E3779B97F4A7C15ull);
		z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
		z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
		return z ^ (z >> 31);
	}
	u64 below(u64 n) { return n ? next() % n : 0; }
	u64 range(u64 a, u64 b) { return a + below(b - a + 1); }
	bool chance(u32 num, u32 den) { return below(den) < num; }
};
inline u64 mix64(u64 a, u64 b)
{
	Rng r(a * 0xD6E8FEB86659FD93ull + b);
	r.next();
	return r.next();
}

// ---- oracle categories (bit mask per property) ----
enum : u32 {
	O_SEM = 1u << 0,     // contents equal the reference model
	O_ORDER = 1u << 1,   // insertion order of equal keys
	O_HEAP = 1u << 2,    // leaks, double/foreign frees, touched removed elements, red zones
	O_DISC = 1u << 3,    // which calls may use the heap and how
	O_PURE = 1u << 4,    // lookups write nothing
	O_WORK = 1u << 5,    // bounded work of one operation
	O_SPACE = 1u << 6,   // table size follows the number of elements
	O_MEMUSE = 1u << 7,  // memory_usage() equals the memory held
	O_ISO = 1u << 8,     // interleaved == serial
	O_FAULT = 1u << 9,   // all-or-nothing under failing allocations
	O_ESC = 1u << 10,    // callback escapes leave the container unchanged
	O_EACH = 1u << 11,   // foreach visits
	O_SORT = 1u << 12,   // sort result and cost
	O_ADDR = 1u << 13,   // element addresses stable
	O_BLOCK = 1u << 14,  // allocator blocks
	O_HASH = 1u << 15,   // hash functions read only the key
	O_TREEWORK = 1u << 16, // comparisons per tree operation
	O_MULTI = 1u << 17,
	O_SEQ = 1u << 18,    // the sequence a list holds after a sort
	O_COST = 1u << 19,   // cost class of every operation
	O_CB = 1u << 20,     // what callbacks are called with, and what they may do
	O_BUILDS = 1u << 30,   // transcripts comparable between builds
	O_ALWAYS = 1u << 31, // crash, hang, memory error: always reported
	// a failed check of these categories leaves model and library apart: the run cannot go on,
	// and ends without a verdict when the property under check is another one
	O_HARD = O_SEM | O_BLOCK | O_FAULT | O_ESC | O_MULTI | O_ALWAYS,
};

// ---- fault kinds ----
enum { F_NONE, F_OOM, F_ESC, F_CANCEL, F_NEST, F_KINDS };
// counters reported in evidence
enum {
	FC_OOM, FC_ESC, FC_CANCEL, FC_PREEMPT_LIB, FC_PREEMPT_CB, FC_PREEMPT_HEAP, FC_LOCKWAIT, FC_DIRTY_MALLOC, FC_ADDR_REUSE,
	FC_SCRIBBLE, FC_CB_FREE, FC_DIRTY_STACK, FC_GUARD_PAGE, FC_NEIGHBOUR_WRITE, FC_STARVE, FC_OUTAGE, FC_HEAP_PLACE, FC_NEST, FC_DIRTY_NODE, FC_PREEMPT_MEM, FC_N
};
extern const char* const fc_name[FC_N];
// probes: rare conditions reached
enum {
	PR_INSERT, PR_REMOVE, PR_SEARCH_HIT, PR_SEARCH_MISS, PR_GROW_ALLOC, PR_SHRINK_FREE, PR_DUPKEY, PR_COLLISION, PR_REINSERT, PR_CONCAT, PR_SORT,
	PR_BLOCK_SEG, PR_CLEAR, PR_FULLCHECK, PR_SHARED_ALLOC, PR_READERS_OVERLAP, PR_TASKS_OVERLAP, PR_OOM_NOT_APPLIED, PR_OOM_APPLIED, PR_OOM_RETRIED,
	PR_SAMENODE, PR_BIG, PR_REVERSAL, PR_N
};
extern const char* const pr_name[PR_N];

enum { ST_RUNNING, ST_OK, ST_VIOLATION, ST_INCONCLUSIVE, ST_ERROR };
struct Result {
	volatile u32 status;
	char cls[64];
	char msg[512];
	u64 ticks, heapcalls, switches, ops, calls;
	u64 evhash, schedhash;
	u64 ghash[4]; // transcript hash per group
	u32 fc[FC_N];
	u32 pr[PR_N];
	u32 maxwork, maxtree;
	u64 cost[16]; // largest number of steps, per cost class
	u32 nontrivial;
	u8 cov[8192]; // library basic blocks reached (bitmap by pc)
};
extern Result* R;
extern u32 g_mask; // enabled oracle categories
extern bool g_verbose;

[[noreturn]] void finish(u32 status);
[[noreturn]] void violation(u32 cat, const char* cls, const char* fmt, ...) __attribute__((format(printf, 3, 4)));
#define CHECK(cat, cond, cls, ...) do { if (!(cond) && ((cat) & (g_mask | O_HARD))) violation(cat, cls, __VA_ARGS__); } while (0)
inline void ev(u64 x) { R->evhash = (R->evhash ^ x) * 0x100000001b3ull + (x >> 17); }
void ev_dump(const char* fmt, ...) __attribute__((format(printf, 1, 2)));

// ---- ASan annotations (no-ops when the variant has no ASan) ----
void poison(const void* p, size_t n);
void unpoison(const void* p, size_t n);

// ---- simulated heap ----
struct HeapCfg { u32 fill, reuse, colour, scribble; u64 seed; u32 place; };
struct Block {
	u32 size;
	int owner;   // container id of the library call that allocated it, or -1 for the user
	u32 serial;
};
struct SimHeap {
	HeapCfg cfg;
	Rng rng;
	u8* base; u8* top; u8* end;
	std::map<u8*, Block> live;
	std::map<u8*, u32> dead; // freed blocks (size), not reused
	std::map<u32, std::vector<u8*> > bins;
	std::map<int, u64> owned; // bytes per owner
	std::map<int, u32> owned_n;
	u32 serial, nfree, nalloc, nreuse;
	void init(const HeapCfg& c);
	void* alloc(size_t n, bool zero, int owner);
	void release(void* p, int owner, bool lib);
	bool is_live(const void* p) const;
	const Block* find(const void* p) const; // live block containing p
	void check_redzone(u8* p, u32 size);
	void check_all();
	static u8* arena_base();
	static size_t arena_size();
};
extern SimHeap H;
void set_prot(bool readonly);

// ---- tasks ----
struct SchedEnt { u32 delta, pick; };
struct Fault { u32 kind, k; };

struct CallCtx { // one library call in progress
	int owner;          // container id for heap attribution
	bool pure;          // arena is write-protected during the call
	u64 ticks;          // simulated time spent in this call
	u64 limit;
	u32 allocs, frees, reallocs, raw;
	u64 freed_bytes, alloc_bytes;
	u32 callbacks;
	void* user;         // callback context
};

struct Task {
	int id;
	ucontext_t uc;
	u8* stack; size_t stack_size;
	bool done, started;
	volatile bool in_lib;
	CallCtx* volatile call;
	jmp_buf esc; volatile bool esc_armed;
	Fault fault; u32 fault_alloc_seen, fault_cb_seen; bool fault_fired;
	u32 outage;  // allocations that fail after the first failing one
	u32 escapes; // library calls left by a fault during this operation
	bool nested; // a callback that uses the library itself
	// lock wait
	struct RWLock* wait; bool wait_w;
	void* fake_stack;
	void (*entry)(Task*);
};
struct RWLock { int readers; int writer; RWLock() : readers(0), writer(-1) {} };

extern Task* volatile cur;
extern bool g_dirty_stack;
static const u32 SCHED_TO_CALL = 1u << 30;
void sched_run(std::vector<Task*>& tasks, const std::vector<SchedEnt>& sched);
void sched_point(); // one unit of simulated time outside library code
void lock(RWLock& l, bool w);
void unlock(RWLock& l, bool w);
void cb_enter(); // library -> harness callback
void cb_leave();
extern void (*g_nest)(Task*); // what a callback does inside the library

// Runs f as one library call. Returns 0 when it returned, else the fault kind that left it.
void call_begin(CallCtx* c, int owner, bool pure, u64 limit);
void call_end();
void dirty_stack();

template <class FN> int libcall(CallCtx* c, int owner, bool pure, u64 limit, FN f)
{
	call_begin(c, owner, pure, limit);
	Task* t = cur;
	t->esc_armed = true;
	int r = _setjmp(t->esc);
	if (r == 0) {
		dirty_stack();
		t->in_lib = true;
		f();
	}
	cur->in_lib = false;
	cur->esc_armed = false;
	call_end();
	return r;
}
void install_handlers();
