#include "core.hpp"
#include <signal.h>
#include <sys/mman.h>
#include <unistd.h>

const char* const fc_name[FC_N] = { "allocation_failure", "callback_escape", "reader_cancelled", "preempt_in_library", "preempt_in_callback",
	"stalled_allocator", "lock_wait", "dirty_malloc", "address_reuse", "scribbled_free", "callback_frees_element", "dirty_stack", "key_at_guard_page",
	"neighbour_overwritten_mid_call", "starvation_burst", "allocation_outage", "heap_at_another_place", "callback_reenters", "dirty_node", "preempt_at_memory_access" };
const char* const pr_name[PR_N] = { "insert", "remove", "search_hit", "search_miss", "grow_allocates", "shrink_frees", "duplicate_key", "hash_collision",
	"reinserted_element", "list_concat", "list_sort", "allocator_segment", "clear_and_reinit", "full_check", "allocator_shared", "readers_overlap",
	"tasks_overlap_in_library", "oom_operation_not_applied", "oom_operation_applied", "oom_retried", "tree_same_node_reinserted", "big_container",
	"resize_direction_reversed" };

Result* R;
u32 g_mask = ~0u;
bool g_verbose;
SimHeap H;
Task* volatile cur;
bool g_dirty_stack;

extern "C" {
void __asan_poison_memory_region(const volatile void*, size_t) __attribute__((weak));
void __asan_unpoison_memory_region(const volatile void*, size_t) __attribute__((weak));
void __sanitizer_start_switch_fiber(void**, const void*, size_t) __attribute__((weak));
void __sanitizer_finish_switch_fiber(void*, const void**, size_t*) __attribute__((weak));
const char* __asan_get_report_description() __attribute__((weak));
void* __asan_get_report_address() __attribute__((weak));
int __asan_get_report_access_type() __attribute__((weak));
const char* __asan_default_options()
{
	return "exitcode=99:abort_on_error=0:handle_segv=0:handle_abort=0:handle_sigbus=0:handle_sigfpe=0:handle_sigill=0:detect_leaks=0:"
	       "detect_stack_use_after_return=0:symbolize=0:print_stats=0:allocator_may_return_null=1:use_sigaltstack=0:print_summary=0:print_legend=0";
}
void __asan_on_error();
}

void poison(const void* p, size_t n)
{
	if (__asan_poison_memory_region && n)
		__asan_poison_memory_region(p, n);
}
void unpoison(const void* p, size_t n)
{
	if (__asan_unpoison_memory_region && n)
		__asan_unpoison_memory_region(p, n);
}

void finish(u32 status)
{
	R->status = status;
	_exit(status == ST_OK ? 0 : status == ST_VIOLATION ? 10 : status == ST_INCONCLUSIVE ? 11 : 12);
}

void violation(u32 cat, const char* cls, const char* fmt, ...)
{
	static int nested;
	va_list ap;
	if (nested++)
		finish(R->status == ST_RUNNING ? (u32)ST_VIOLATION : R->status);
	snprintf(R->cls, sizeof R->cls, "%s", cls);
	va_start(ap, fmt);
	vsnprintf(R->msg, sizeof R->msg, fmt, ap);
	va_end(ap);
	finish(cat == O_ALWAYS || (cat & g_mask) ? ST_VIOLATION : ST_INCONCLUSIVE);
}

void ev_dump(const char* fmt, ...)
{
	if (!g_verbose)
		return;
	va_list ap;
	va_start(ap, fmt);
	printf("[t=%llu task=%d] ", (unsigned long long)R->ticks, cur ? cur->id : -1);
	vprintf(fmt, ap);
	printf("\n");
	fflush(stdout);
	va_end(ap);
}

// ---------------------------------------------------------------- crash handling
static bool in_arena(const void* p) { return (u8*)p >= SimHeap::arena_base() && (u8*)p < SimHeap::arena_base() + SimHeap::arena_size(); }

static const char* near_desc(const void* p, char* buf, size_t n)
{
	if (in_arena(p)) {
		u8* a = (u8*)p;
		std::map<u8*, Block>::const_iterator it = H.live.upper_bound(a);
		if (it != H.live.begin()) {
			--it;
			snprintf(buf, n, "heap offset +0x%zx, %zd bytes into a live block of %u bytes (owner %d)", (size_t)(a - SimHeap::arena_base()),
				(ptrdiff_t)(a - it->first), it->second.size, it->second.owner);
			return buf;
		}
		snprintf(buf, n, "heap offset +0x%zx", (size_t)(a - SimHeap::arena_base()));
		return buf;
	}
	snprintf(buf, n, "outside the simulated heap");
	return buf;
}

extern "C" void __asan_on_error()
{
	static int once;
	if (once++)
		return;
	const char* d = __asan_get_report_description ? __asan_get_report_description() : "memory-error";
	char b[200];
	if (R->status != ST_RUNNING)
		return;
	snprintf(R->cls, sizeof R->cls, "memory:%s", d);
	snprintf(R->msg, sizeof R->msg, "the library %s memory it must not touch: %s", __asan_get_report_access_type && __asan_get_report_access_type() ? "writes" : "reads",
		near_desc(__asan_get_report_address ? __asan_get_report_address() : 0, b, sizeof b));
	R->status = ST_VIOLATION;
	if (!g_verbose)
		_exit(10);
}

static void on_signal(int sig, siginfo_t* si, void*)
{
	char b[200];
	if (sig == SIGSEGV || sig == SIGBUS) {
		bool wr = in_arena(si->si_addr);
		if (wr && cur && cur->call && cur->call->pure)
			violation(O_PURE, "pure:write", "a lookup wrote to shared memory: %s", near_desc(si->si_addr, b, sizeof b));
		violation(O_ALWAYS, "crash:segv", "invalid memory access: %s", near_desc(si->si_addr, b, sizeof b));
	}
	if (sig == SIGABRT)
		violation(O_ALWAYS, "crash:abort", "assertion failed or abort() called");
	if (sig == SIGALRM) { // a slow machine, not a verdict: endless calls meet their step limit
		snprintf(R->cls, sizeof R->cls, "timeout");
		snprintf(R->msg, sizeof R->msg, "the run takes too long");
		finish(ST_INCONCLUSIVE);
	}
	violation(O_ALWAYS, "crash:signal", "signal %d", sig);
}

void install_handlers()
{
	static u8 alt[65536];
	stack_t ss;
	memset(&ss, 0, sizeof ss);
	ss.ss_sp = alt;
	ss.ss_size = sizeof alt;
	sigaltstack(&ss, 0);
	struct sigaction sa;
	memset(&sa, 0, sizeof sa);
	sa.sa_sigaction = on_signal;
	sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
	int sigs[] = { SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL, SIGALRM };
	for (int s : sigs)
		sigaction(s, &sa, 0);
}

// ---------------------------------------------------------------- simulated heap
// where the heap is in the address space: far up, in the lower half or upper half of the first 4 GB, across a 2 GB or 4 GB boundary
static u64 g_arena = sizeof(void*) == 8 ? 0x200000000000ull : 0x60000000ull;
u8* SimHeap::arena_base() { return (u8*)(uintptr_t)g_arena; }
size_t SimHeap::arena_size() { return sizeof(void*) == 8 ? (size_t)1 << 30 : (size_t)192 << 20; }

static const size_t RZ = 32; // red zone on each side

// plain byte loops: the arena is poisoned for ASan, so no libc mem* calls here
__attribute__((optimize("no-tree-loop-distribute-patterns"), noinline)) static void fill_bytes(volatile u8* p, size_t n, u8 v)
{
	volatile u64* q;
	while (n && ((uintptr_t)p & 7)) { *p++ = v; --n; }
	q = (volatile u64*)p;
	u64 vv = 0x0101010101010101ull * v;
	for (; n >= 8; n -= 8)
		*q++ = vv;
	p = (volatile u8*)q;
	while (n--)
		*p++ = v;
}

static bool g_ro;
static u8* g_ro_top;

void set_prot(bool ro)
{
	if (ro == g_ro)
		return;
	u8* b = SimHeap::arena_base();
	if (ro) {
		g_ro_top = b + ((H.top - b + 4096 + 4095) & ~(size_t)4095);
		if (g_ro_top > H.end)
			g_ro_top = H.end;
	}
	if (mprotect(b, g_ro_top - b, ro ? PROT_READ : PROT_READ | PROT_WRITE) != 0) {
		snprintf(R->msg, sizeof R->msg, "mprotect failed");
		finish(ST_ERROR);
	}
	g_ro = ro;
}

void SimHeap::init(const HeapCfg& c)
{
	cfg = c;
	rng = Rng(c.seed);
	if (sizeof(void*) == 4)
		g_arena = cfg.place == 1 ? 0x90000000ull : cfg.place == 2 ? 0x80000000ull - 0x8000 : 0x60000000ull;
	else if (__sanitizer_start_switch_fiber) // the first 16 TB belong to AddressSanitizer
		g_arena = cfg.place == 1 ? 0x3f0080000000ull - 0x8000 : cfg.place == 2 ? 0x2fff80000000ull - 0x8000 : 0x200000000000ull;
	else
		g_arena = cfg.place == 1 ? 0x60000000ull : cfg.place == 2 ? 0x100000000ull - 0x8000 : 0x200000000000ull;
	if (cfg.place)
		++R->fc[FC_HEAP_PLACE];
	base = arena_base();
	end = base + arena_size();
	void* p = mmap(base, arena_size(), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
	if (p != base) {
		snprintf(R->msg, sizeof R->msg, "cannot map the arena");
		finish(ST_ERROR);
	}
	top = base + 4096;
	serial = nfree = nalloc = nreuse = 0;
}

void* SimHeap::alloc(size_t n, bool zero, int owner)
{
	u8* p = 0;
	const size_t align = sizeof(void*) == 8 ? 16 : 8;
	size_t sz = n ? n : 1;
	bool fresh = true;
	if (sz > arena_size() / 4)
		violation(O_ALWAYS, "heap:absurd-size", "allocation of %zu bytes requested", n);
	u32 cls = (u32)((sz + 15) & ~(size_t)15);
	if (cfg.reuse) {
		std::map<u32, std::vector<u8*> >::iterator it = bins.find(cls);
		if (it != bins.end() && !it->second.empty()) {
			std::vector<u8*>& v = it->second;
			size_t i = cfg.reuse == 1 ? v.size() - 1 : rng.below(v.size());
			if (cfg.reuse == 1 || rng.chance(3, 4)) {
				p = v[i];
				v[i] = v.back();
				v.pop_back();
				dead.erase(p);
				fresh = false;
				++nreuse;
				++R->fc[FC_ADDR_REUSE];
			}
		}
	}
	if (!p) {
		size_t gap = RZ;
		if (cfg.colour)
			gap += align * rng.below(cfg.colour == 1 ? 4 : 16);
		p = (u8*)(((uintptr_t)top + gap + align - 1) & ~(uintptr_t)(align - 1));
		if (p + cls + RZ > end) {
			snprintf(R->cls, sizeof R->cls, "timeout"); // the run is too large, no verdict
			snprintf(R->msg, sizeof R->msg, "simulated heap exhausted");
			finish(ST_INCONCLUSIVE);
		}
		poison(top, p - top);
		top = p + cls + RZ;
		fill_bytes(p - RZ, RZ, 0xA5);
	}
	fill_bytes(p + sz, cls - sz + RZ, 0xA5);
	poison(p + sz, cls - sz + RZ);
	unpoison(p, sz);
	if (zero) {
		if (!fresh)
			fill_bytes(p, sz, 0);
	} else {
		if (cfg.fill)
			++R->fc[FC_DIRTY_MALLOC];
		if (cfg.fill == 0) {
			if (!fresh)
				fill_bytes(p, sz, 0);
		} else if (cfg.fill == 1)
			fill_bytes(p, sz, 0xCD);
		else if (cfg.fill == 2)
			fill_bytes(p, sz, 0xFF);
		else {
			// plausible looking garbage: pointers into the heap, small integers
			size_t i;
			volatile uintptr_t* q = (volatile uintptr_t*)p;
			for (i = 0; i + sizeof(uintptr_t) <= sz; i += sizeof(uintptr_t)) {
				u64 r = rng.next();
				*q++ = (r & 1) ? (uintptr_t)(base + ((r >> 8) % (size_t)(top - base) & ~(size_t)15)) : (uintptr_t)(r >> 40);
			}
			for (; i < sz; ++i)
				((volatile u8*)p)[i] = 0x5C;
		}
	}
	Block b;
	b.size = (u32)sz;
	b.owner = owner;
	b.serial = ++serial;
	live[p] = b;
	owned[owner] += n;
	owned_n[owner]++;
	++nalloc;
	return p;
}

void SimHeap::check_redzone(u8* p, u32 size)
{
	u32 cls = (u32)((size + 15) & ~15u);
	for (size_t i = 1; i <= RZ; ++i)
		if (((volatile u8*)p)[-(ptrdiff_t)i] != 0xA5)
			violation(O_ALWAYS, "memory:redzone", "bytes before a block of %u bytes were overwritten (offset -%zu)", size, i);
	for (size_t i = size; i < cls + RZ; ++i)
		if (((volatile u8*)p)[i] != 0xA5)
			violation(O_ALWAYS, "memory:redzone", "bytes after a block of %u bytes were overwritten (offset +%zu)", size, i - size);
}

void SimHeap::release(void* vp, int owner, bool lib)
{
	u8* p = (u8*)vp;
	if (!p)
		return;
	std::map<u8*, Block>::iterator it = live.find(p);
	if (it == live.end()) {
		if (dead.count(p))
			violation(O_ALWAYS, "heap:double-free", "a block is freed twice");
		violation(O_ALWAYS, "heap:bad-free", "free() of an address that is not the start of a live block");
	}
	if (lib && it->second.owner != owner)
		violation(O_ALWAYS, "heap:foreign-free", "a call on container %d frees memory that belongs to %d", owner, it->second.owner);
	Block b = it->second;
	check_redzone(p, b.size);
	live.erase(it);
	owned[b.owner] -= b.size;
	owned_n[b.owner]--;
	++nfree;
	if (cfg.scribble) {
		++R->fc[FC_SCRIBBLE];
		fill_bytes(p, b.size, cfg.scribble == 1 ? 0xDD : 0xF7);
	}
	poison(p, b.size);
	dead[p] = b.size;
	if (cfg.reuse)
		bins[(b.size + 15) & ~15u].push_back(p);
}

bool SimHeap::is_live(const void* p) const { return live.count((u8*)p) != 0; }

const Block* SimHeap::find(const void* p) const
{
	std::map<u8*, Block>::const_iterator it = live.upper_bound((u8*)p);
	if (it == live.begin())
		return 0;
	--it;
	if ((u8*)p >= it->first + it->second.size)
		return 0;
	return &it->second;
}

void SimHeap::check_all()
{
	for (auto& kv : live)
		check_redzone(kv.first, kv.second.size);
	if (cfg.scribble && !cfg.reuse) {
		u8 v = cfg.scribble == 1 ? 0xDD : 0xF7;
		for (auto& kv : dead)
			for (u32 i = 0; i < kv.second; ++i)
				if (((volatile u8*)kv.first)[i] != v)
					violation(O_ALWAYS, "memory:write-after-free", "a freed block of %u bytes was written at offset %u", kv.second, i);
	}
}

// ---------------------------------------------------------------- scheduler
static ucontext_t g_main;
static void* g_main_fake;
static const void* g_main_bottom;
static size_t g_main_size;
static u64 g_quantum;
static bool g_preemptible, g_to_call;
static std::vector<Task*>* g_tasks;

static void switch_to_task(Task* t)
{
	cur = t;
	if (t->in_lib && t->call && t->call->pure)
		set_prot(true);
	if (__sanitizer_start_switch_fiber)
		__sanitizer_start_switch_fiber(&g_main_fake, t->stack, t->stack_size);
	swapcontext(&g_main, &t->uc);
	if (__sanitizer_finish_switch_fiber)
		__sanitizer_finish_switch_fiber(g_main_fake, 0, 0);
	set_prot(false);
	cur = 0;
}

static void yield_to_sched(Task* t, bool final)
{
	if (__sanitizer_start_switch_fiber)
		__sanitizer_start_switch_fiber(final ? 0 : &t->fake_stack, g_main_bottom, g_main_size);
	swapcontext(&t->uc, &g_main);
	if (__sanitizer_finish_switch_fiber)
		__sanitizer_finish_switch_fiber(t->fake_stack, &g_main_bottom, &g_main_size);
}

static void task_main(unsigned lo, unsigned hi)
{
	Task* t = (Task*)(uintptr_t)((u64)lo | ((u64)hi << 32));
	if (__sanitizer_finish_switch_fiber)
		__sanitizer_finish_switch_fiber(0, &g_main_bottom, &g_main_size);
	t->entry(t);
	t->done = true;
	yield_to_sched(t, true);
}

static bool can_run(Task* t)
{
	if (t->done)
		return false;
	if (!t->wait)
		return true;
	return t->wait_w ? t->wait->readers == 0 && t->wait->writer < 0 : t->wait->writer < 0;
}

void sched_run(std::vector<Task*>& tasks, const std::vector<SchedEnt>& sched)
{
	size_t si = 0;
	int last = -1, burst = 0;
	g_tasks = &tasks;
	for (Task* t : tasks) {
		t->stack_size = 256 * 1024;
		// fixed addresses: a run does not depend on where the kernel puts things
		u8* at = sizeof(void*) == 8 ? (u8*)(uintptr_t)0x300000000000ull : (u8*)(uintptr_t)0x58000000u;
		at += (size_t)t->id % 128 * (512 * 1024);
		t->stack = (u8*)mmap(at, t->stack_size + 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0);
		if (t->stack != at) {
			snprintf(R->msg, sizeof R->msg, "cannot map a task stack");
			finish(ST_ERROR);
		}
		mprotect(t->stack, 4096, PROT_NONE);
		t->stack += 4096;
		t->done = false;
		t->in_lib = false;
		t->call = 0;
		t->wait = 0;
		t->esc_armed = false;
		t->fault.kind = F_NONE;
		t->outage = t->escapes = 0;
		getcontext(&t->uc);
		t->uc.uc_stack.ss_sp = t->stack;
		t->uc.uc_stack.ss_size = t->stack_size;
		t->uc.uc_link = 0;
		u64 a = (u64)(uintptr_t)t;
		makecontext(&t->uc, (void (*)())task_main, 2, (unsigned)a, (unsigned)(a >> 32));
	}
	for (;;) {
		std::vector<Task*> run;
		bool alive = false;
		for (Task* t : tasks) {
			if (!t->done)
				alive = true;
			if (can_run(t))
				run.push_back(t);
		}
		if (!alive)
			break;
		if (run.empty()) {
			snprintf(R->msg, sizeof R->msg, "deadlock among simulated locks");
			finish(ST_ERROR);
		}
		u32 pick = 0;
		if (si < sched.size()) {
			g_to_call = sched[si].delta >= SCHED_TO_CALL; // until it is about to call the library
			g_quantum = g_to_call ? ~0ull : sched[si].delta ? sched[si].delta : 1;
			pick = sched[si].pick;
			g_preemptible = true;
			++si;
		} else {
			g_quantum = ~0ull;
			g_to_call = false;
			g_preemptible = tasks.size() > 1;
		}
		Task* t = run[pick % run.size()];
		if (t->id == last) {
			if (++burst == 4 && run.size() > 1)
				++R->fc[FC_STARVE];
		} else
			burst = 0;
		last = t->id;
		++R->switches;
		R->schedhash = (R->schedhash ^ (u64)(t->id + 1)) * 0x100000001b3ull ^ (R->ticks << 8);
		if (t->in_lib) {
			int n = 0, m = 0;
			for (Task* o : tasks)
				if (!o->done && o->in_lib) {
					++n;
					if (o->call && o->call->pure)
						++m;
				}
			if (n > 1)
				++R->pr[PR_TASKS_OVERLAP];
			if (m > 1)
				++R->pr[PR_READERS_OVERLAP];
		}
		t->wait = 0;
		switch_to_task(t);
	}
	g_tasks = 0;
}

static inline void spend(int kind)
{
	Task* t = cur;
	if (--g_quantum == 0) {
		if (!g_preemptible || !t) {
			g_quantum = ~0ull;
			return;
		}
		if (kind >= 0)
			++R->fc[kind];
		yield_to_sched(t, false);
	}
}

void sched_point()
{
	++R->ticks;
	if (cur)
		spend(-1);
}

static bool lock_free_for(RWLock& l, bool w) { return w ? l.readers == 0 && l.writer < 0 : l.writer < 0; }

void lock(RWLock& l, bool w)
{
	Task* t = cur;
	if (!t)
		return;
	while (!lock_free_for(l, w)) {
		++R->fc[FC_LOCKWAIT];
		t->wait = &l;
		t->wait_w = w;
		yield_to_sched(t, false);
	}
	t->wait = 0;
	if (w)
		l.writer = t->id;
	else
		++l.readers;
}

void unlock(RWLock& l, bool w)
{
	if (!cur)
		return;
	if (w)
		l.writer = -1;
	else
		--l.readers;
}

// ---------------------------------------------------------------- library calls
__attribute__((noinline)) void dirty_stack()
{
	if (!g_dirty_stack)
		return;
	volatile u64 a[192] __attribute__((unused));
	static const u64 vs[4] = { 0xE5E5E5E5E5E5E5E5ull, ~0ull, 0x0000000100000001ull, 0x7F007F007F007F00ull };
	u64 v = vs[R->calls & 3];
	for (int i = 0; i < 192; ++i)
		a[i] = v;
	++R->fc[FC_DIRTY_STACK];
}

void call_begin(CallCtx* c, int owner, bool pure, u64 limit)
{
	if (g_to_call && cur && g_tasks) {
		g_to_call = false;
		yield_to_sched(cur, false);
	}
	void* user = c->user;
	memset(c, 0, sizeof *c);
	c->user = user;
	c->owner = owner;
	c->pure = pure && (g_mask & O_PURE);
	c->limit = limit;
	++R->calls;
	cur->call = c;
	if (c->pure)
		set_prot(true);
}

void call_end()
{
	CallCtx* c = cur->call;
	if (c->pure)
		set_prot(false);
	cur->call = 0;
}

[[noreturn]] static void escape(int kind)
{
	Task* t = cur;
	t->in_lib = false;
	t->fault_fired = true;
	++t->escapes;
	++R->fc[kind == F_OOM ? FC_OOM : kind == F_ESC ? FC_ESC : FC_CANCEL];
	ev(0xE5C00 + kind);
	_longjmp(t->esc, kind);
}

static const char* fault_name[F_KINDS] = { "none", "allocation failure", "callback escape", "cancellation", "re-entering callback" };

void cb_enter()
{
	Task* t = cur;
	t->in_lib = false;
	++t->call->callbacks;
	++R->ticks;
	spend(FC_PREEMPT_CB);
	if (t->fault.kind == F_ESC && t->esc_armed && !t->fault_fired && ++t->fault_cb_seen == t->fault.k) {
		ev_dump("inject: %s", fault_name[F_ESC]);
		escape(F_ESC);
	}
	if (t->fault.kind == F_NEST && !t->nested && g_nest) {
		u32 n = ++t->fault_cb_seen, k = t->fault.k;
		if (n >= k && (n - k) % 3 == 0 && (n - k) / 3 <= t->outage % 16) {
			++R->fc[FC_NEST];
			ev(0xE5D00);
			g_nest(t);
		}
	}
}
void (*g_nest)(Task*);

void cb_leave() { cur->in_lib = true; }

extern "C" {

void __sanitizer_cov_trace_pc()
{
	Task* t = cur;
	if (!t || !t->in_lib)
		return;
	uintptr_t pc = (uintptr_t)__builtin_return_address(0);
	pc = (pc >> 1) & 0xffff;
	R->cov[pc >> 3] |= (u8)(1u << (pc & 7));
	++R->ticks;
	CallCtx* c = t->call;
	if (++c->ticks > c->limit)
		violation(O_ALWAYS, "hang:steps", "one library call did not finish within %llu basic blocks", (unsigned long long)c->limit);
	if (t->fault.kind == F_CANCEL && c->pure && !t->fault_fired && ++t->fault_alloc_seen == t->fault.k) {
		ev_dump("inject: %s", fault_name[F_CANCEL]);
		escape(F_CANCEL);
	}
	spend(FC_PREEMPT_LIB);
}

// build A: tasks are also preempted between any two accesses to memory other than their own stack
static inline void mem_access(const void* p)
{
	Task* t = cur;
	if (t && t->in_lib && (size_t)((const u8*)p - t->stack) >= t->stack_size)
		spend(FC_PREEMPT_MEM);
}
void __sanitizer_cov_load1(void* p) { mem_access(p); }
void __sanitizer_cov_load2(void* p) { mem_access(p); }
void __sanitizer_cov_load4(void* p) { mem_access(p); }
void __sanitizer_cov_load8(void* p) { mem_access(p); }
void __sanitizer_cov_load16(void* p) { mem_access(p); }
void __sanitizer_cov_store1(void* p) { mem_access(p); }
void __sanitizer_cov_store2(void* p) { mem_access(p); }
void __sanitizer_cov_store4(void* p) { mem_access(p); }
void __sanitizer_cov_store8(void* p) { mem_access(p); }
void __sanitizer_cov_store16(void* p) { mem_access(p); }

void sim_charge(size_t n)
{
	Task* t = cur;
	if (t && t->call) {
		t->call->ticks += n / 64;
		R->ticks += n / 64;
	}
}

static void heap_call()
{
	Task* t = cur;
	if (!t || !t->call) {
		snprintf(R->msg, sizeof R->msg, "heap call outside a library call");
		finish(ST_ERROR);
	}
	++R->heapcalls;
	++R->ticks;
	if (t->call->pure)
		violation(O_PURE | O_DISC, "pure:heap-call", "a lookup calls the heap");
	t->in_lib = false;
	spend(FC_PREEMPT_HEAP);
}

static void fail_alloc(Task* t)
{
	if (t->fault.kind != F_OOM)
		return;
	if (t->fault_fired) {
		if (!t->outage)
			return;
		--t->outage;
		++R->fc[FC_OUTAGE];
	} else if (++t->fault_alloc_seen != t->fault.k)
		return;
	ev_dump("inject: %s", fault_name[F_OOM]);
	escape(F_OOM);
}

static void* lib_alloc(size_t n, bool zero)
{
	heap_call();
	Task* t = cur;
	CallCtx* c = t->call;
	fail_alloc(t);
	++c->allocs;
	c->alloc_bytes += n;
	if (zero)
		sim_charge(n);
	void* p = H.alloc(n, zero, c->owner);
	ev(0xA110C000 + n);
	t->in_lib = true;
	return p;
}

void* sim_malloc(size_t n) { return lib_alloc(n, false); }
void* sim_calloc(size_t n, size_t m)
{
	if (m && n > (size_t)-1 / m)
		violation(O_ALWAYS, "heap:absurd-size", "calloc(%zu,%zu) overflows", n, m);
	return lib_alloc(n * m, true);
}
void sim_free(void* p)
{
	heap_call();
	Task* t = cur;
	CallCtx* c = t->call;
	if (p) {
		++c->frees;
		std::map<u8*, Block>::iterator it = H.live.find((u8*)p);
		if (it != H.live.end())
			c->freed_bytes += it->second.size;
	}
	H.release(p, c->owner, true);
	ev(0xF4EE);
	t->in_lib = true;
}
void* sim_realloc(void* p, size_t n)
{
	if (!p)
		return lib_alloc(n, false);
	heap_call();
	Task* t = cur;
	CallCtx* c = t->call;
	fail_alloc(t);
	++c->reallocs;
	sim_charge(n);
	std::map<u8*, Block>::iterator it = H.live.find((u8*)p);
	if (it == H.live.end())
		violation(O_ALWAYS, "heap:bad-free", "realloc() of an address that is not a live block");
	u32 old = it->second.size;
	u8* q = (u8*)H.alloc(n, false, c->owner); // always moves
	for (size_t i = 0; i < old && i < n; ++i)
		((volatile u8*)q)[i] = ((volatile u8*)p)[i];
	H.release(p, c->owner, true);
	t->in_lib = true;
	return q;
}
static void raw()
{
	if (cur && cur->call) {
		++cur->call->raw;
		if (g_mask & O_DISC)
			violation(O_DISC, "disc:bypass", "the library calls malloc/free directly, not the configured functions");
	}
}
void* sim_raw_malloc(size_t n) { raw(); return sim_malloc(n); }
void* sim_raw_calloc(size_t n, size_t m) { raw(); return sim_calloc(n, m); }
void* sim_raw_realloc(void* p, size_t n) { raw(); return sim_realloc(p, n); }
void sim_raw_free(void* p) { raw(); sim_free(p); }

}
