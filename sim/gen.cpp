// Plans: generation from (property, seed, index), text form, property table.
#include "world.hpp"

struct PropDef {
	const char* id;
	u32 mask;
	u32 types[12]; u32 ntypes;
};
// group type + kind packed: type | (kind+1) << 8, kind only for GT_HASH / GT_ARRAY
#define TK(t, k) ((u32)(t) | ((u32)(k) + 1) << 8)
#define T_(t) ((u32)(t))
static const PropDef props[] = {
	{ "C01", O_SEM, { TK(GT_HASH, K_HT) }, 1 },
	{ "C02", O_SEM, { TK(GT_HASH, K_HD) }, 1 },
	{ "C03", O_SEM, { TK(GT_HASH, K_HL) }, 1 },
	{ "C04", O_SEM, { T_(GT_TRIE) }, 1 },
	{ "C05", O_SEM, { T_(GT_TI) }, 1 },
	{ "C06", O_SEM, { T_(GT_TREE) }, 1 },
	{ "C07", O_SEM | O_SEQ, { T_(GT_LIST) }, 1 },
	{ "C08", O_SORT, { T_(GT_LIST) }, 1 },
	{ "C09", O_SEM | O_ADDR, { TK(GT_ARRAY, 0), TK(GT_ARRAY, 2) }, 2 },
	{ "C10", O_SEM | O_ADDR, { TK(GT_ARRAY, 1), TK(GT_ARRAY, 3) }, 2 },
	{ "C11", O_BLOCK, { T_(GT_ALLOC) }, 1 },
	{ "C12", O_ORDER, { TK(GT_HASH, K_HT), TK(GT_HASH, K_HD), TK(GT_HASH, K_HL), T_(GT_TRIE), T_(GT_TI), TK(GT_HASH, K_HL), TK(GT_HASH, K_HD) }, 7 },
	{ "C13", O_HEAP, { TK(GT_HASH, K_HT), TK(GT_HASH, K_HD), TK(GT_HASH, K_HL), T_(GT_TRIE), T_(GT_TREE), T_(GT_LIST), T_(GT_ARRAY), T_(GT_ALLOC) }, 8 },
	{ "C14", O_DISC, { T_(GT_HASH), TK(GT_HASH, K_HL), T_(GT_TRIE), T_(GT_TI), T_(GT_TREE), T_(GT_LIST), T_(GT_ARRAY), T_(GT_ALLOC) }, 8 },
	{ "C15", O_ISO, { T_(GT_HASH), T_(GT_TRIE), T_(GT_TI), T_(GT_TREE), T_(GT_LIST), T_(GT_ARRAY), T_(GT_ALLOC), T_(GT_HFN) }, 8 },
	{ "C16", O_PURE | O_SEM, { T_(GT_HASH), T_(GT_HASH), T_(GT_TRIE), T_(GT_TI), T_(GT_TREE), T_(GT_LIST), T_(GT_ARRAY), T_(GT_MULTI) }, 8 },
	{ "C17", O_EACH, { TK(GT_HASH, K_HT), TK(GT_HASH, K_HD), TK(GT_HASH, K_HL), T_(GT_TREE), T_(GT_LIST) }, 5 },
	{ "C18", O_SEM | O_MULTI, { T_(GT_MULTI) }, 1 },
	{ "C19", O_WORK, { TK(GT_HASH, K_HL) }, 1 },
	{ "C20", O_SPACE, { TK(GT_HASH, K_HD), TK(GT_HASH, K_HL), T_(GT_ARRAY) }, 3 },
	{ "C21", O_FAULT | O_SEM | O_HEAP | O_ADDR | O_BLOCK | O_MEMUSE, { TK(GT_HASH, K_HD), TK(GT_HASH, K_HL), TK(GT_HASH, K_HT), T_(GT_TRIE), T_(GT_ARRAY), T_(GT_ARRAY), T_(GT_ALLOC) }, 7 },
	{ "C22", O_MEMUSE, { T_(GT_HASH), TK(GT_HASH, K_HL), T_(GT_TRIE), T_(GT_TI), T_(GT_TREE), T_(GT_ARRAY), T_(GT_ALLOC) }, 7 },
	{ "C23", O_TREEWORK, { T_(GT_TREE) }, 1 },
	{ "C24", O_HASH, { T_(GT_HFN) }, 1 },
	{ "C25", O_ESC | O_SEM, { T_(GT_HASH), T_(GT_HASH), T_(GT_TREE), T_(GT_TREE), T_(GT_LIST) }, 5 },
	{ "C27", O_COST, { TK(GT_HASH, K_HD), TK(GT_HASH, K_HD), TK(GT_HASH, K_HT), T_(GT_TRIE), T_(GT_TI), T_(GT_LIST), T_(GT_LIST), T_(GT_ARRAY), T_(GT_ALLOC), T_(GT_TREE), TK(GT_HASH, K_HL) }, 11 },
	{ "C28", O_CB | O_SEM | O_EACH, { TK(GT_HASH, K_HT), TK(GT_HASH, K_HD), TK(GT_HASH, K_HL), T_(GT_TREE), T_(GT_TREE), T_(GT_LIST) }, 6 },
	{ "C26", O_BUILDS, { T_(GT_HASH), T_(GT_TRIE), T_(GT_TI), T_(GT_TREE), T_(GT_LIST), T_(GT_ARRAY), T_(GT_ALLOC), T_(GT_HFN) }, 8 },
};
static const PropDef* prop_find(const std::string& s)
{
	for (const PropDef& d : props)
		if (s == d.id)
			return &d;
	return 0;
}
u32 prop_mask(const std::string& s)
{
	const PropDef* d = prop_find(s);
	return d ? d->mask : 0;
}
bool prop_isolation(const std::string& s) { return s == "C15"; }

// ---------------------------------------------------------------- generation
enum { LAY_LOOSE_, LAY_TIGHT_, LAY_HEADER_, LAY_OPAQUE_ };
struct Gen {
	Rng r;
	Plan& p;
	std::string prop;
	u32 scale; // size class of this run
	u32 faultkind, faultpct;
	bool outages;
	bool is(const char* s) const { return prop == s; }
	Gen(Plan& pp, u64 seed) : r(seed), p(pp), scale(0), faultkind(0), faultpct(0), outages(false) {}

	u32 target()
	{
		// sizes around the resize thresholds, and anything between
		u32 kmax = scale == 0 ? 6 : scale == 1 ? 9 : scale == 2 ? 11 : scale == 3 ? 13 : 17;
		if (scale == 4 && r.chance(1, 2)) // a really big one, past 65536
			return (u32)r.range(60000, 140000);
		switch (r.below(5)) {
		case 0: return (u32)r.below(24);
		case 1: return (u32)r.below((u64)1 << r.range(1, kmax));
		default: {
			static const u32 div[] = { 1, 2, 2, 2, 4, 8, 8, 16, 3, 5 };
			i64_t v = (i64_t)((1u << r.range(4, kmax)) / div[r.below(10)]) + (i64_t)r.below(7) - 3;
			return v < 0 ? 0 : (u32)v;
		}
		}
	}
	typedef long long i64_t;

	GroupCfg group(u32 tk)
	{
		GroupCfg g = GroupCfg();
		g.type = tk & 0xff;
		u32 kind = tk >> 8;
		g.p[GP_KIND] = kind ? kind - 1 : (u32)r.below(12);
		g.p[GP_KEYMODE] = (u32)r.below(10);
		static const u32 un[] = { 0, 0, 0, 3, 8, 20, 60, 300 };
		g.p[GP_UNIV] = r.chance(1, 25) ? 1 : un[r.below(8)];
		static const u32 hm[] = { 0, 0, 0, 1, 1, 1, 2, 3, 4, 5, 6, 7, 8, 9 };
		g.p[GP_HASHMODE] = hm[r.below(14)];
		g.p[GP_SLOT] = (u32)r.below(9);
		g.p[GP_BASE] = (u32)r.next();
		g.p[GP_MISC] = (u32)r.below(1000);
		static const u32 ly[] = { LAY_LOOSE_, LAY_LOOSE_, LAY_TIGHT_, LAY_TIGHT_, LAY_HEADER_, LAY_OPAQUE_ };
		g.p[GP_LAYOUT] = ly[r.below(6)] + 4 * (u32)r.below(5);
		g.p[GP_Y] = (u32)r.below(16);
		switch (g.type) {
		case GT_HASH: {
			static const u32 bm[] = { 0, 1, 15, 16, 17, 33, 64, 100, 1000, 4096 };
			static const u32 bb[] = { 40000, 32767, 32768, 32769, 65535, 65536, 65537, 100000, 131072, 131073, 200000 };
			g.p[GP_X] = r.chance(1, is("C01") ? 40 : 120) ? bb[r.below(11)] : bm[r.below(10)];
			break;
		}
		case GT_ARRAY: {
			static const u32 es[] = { 1, 2, 3, 4, 5, 7, 8, 12, 16, 24, 31, 40, 64, 100 };
			g.p[GP_X] = es[r.below(14)];
			if (!is("C26") && r.chance(1, 4)) {
				static const u32 big[] = { 65, 72, 96, 127, 128, 129, 160, 200, 255, 256, 257, 300, 400, 511, 512, 513, 1000, 1024, 2048 };
				g.p[GP_X] = r.chance(1, 3) ? (u32)r.range(65, 1200) : big[r.below(19)];
				if (is("C10") && r.chance(1, 60)) { // one segment is large already
					static const u32 vast[] = { 4097, 8192, 32767, 32768, 65535, 65536, 65537, 70000, 100000 };
					g.p[GP_X] = vast[r.below(9)];
					g.p[GP_KIND] = 1; // not in blocks
				}
			}
			break;
		}
		case GT_ALLOC: {
			// the documentation allows the size of the object as alignment, so any number
			static const u32 al[] = { 0, 1, 4, 8, 8, 16, 16, 32, 64, 64, 128, 256, 12, 20, 24, 24, 40, 48, 56, 72, 96, 120, 200, 512, 1024, 4096, 8192 };
			g.p[GP_BASE] = al[r.below(27)];
			u32 z = (u32)r.below(10);
			g.p[GP_X] = z < 3 ? 8u * (1 + (u32)r.below(20)) : z < 6 ? 1 + (u32)r.below(100) : z < 7 ? 1u << r.below(15) : z < 8 ? 4032u / (1 + (u32)r.below(60)) : 1 + (u32)r.below(r.chance(1, 2) ? 5000 : 20000);
			if (r.chance(1, 5)) // blocks of exactly the alignment, or a multiple of it
				g.p[GP_X] = (g.p[GP_BASE] ? g.p[GP_BASE] : 8) * (u32)r.range(1, 4);
			break;
		}
		default:
			break;
		}
		if (is("C12")) {
			static const u32 u2[] = { 1, 2, 3, 5, 8, 16, 40 };
			g.p[GP_UNIV] = u2[r.below(7)];
		}
		if (is("C19") || (is("C27") && (g.type == GT_HASH || r.chance(1, 2)))) {
			g.p[GP_UNIV] = 0;
			g.p[GP_HASHMODE] = (u32)r.below(2);
			g.p[GP_KEYMODE] = r.chance(1, 2) ? 3 : 1;
			g.p[GP_MISC] = 0;
		}
		if (is("C20")) {
			g.p[GP_MISC] = 0;
			if (r.chance(3, 4)) {
				g.p[GP_UNIV] = 0;
				g.p[GP_HASHMODE] = 0;
				g.p[GP_KEYMODE] = 3;
			}
		}
		if (is("C23")) {
			static const u32 km[] = { 0, 0, 1, 3, 4, 5, 7 };
			g.p[GP_KEYMODE] = km[r.below(7)];
			if (r.chance(3, 4))
				g.p[GP_UNIV] = 0;
		}
		if (is("C21")) {
			if (g.type == GT_HASH && r.chance(2, 3))
				g.p[GP_HASHMODE] = (u32)r.below(2);
			if (g.type == GT_TRIE)
				g.p[GP_KEYMODE] = r.chance(1, 2) ? 7 : 6;
		}
		if (is("C26")) { // the high half of a hash does not exist on 32 bits; sizes in bytes differ
			if (g.p[GP_HASHMODE] == 5 || g.p[GP_HASHMODE] == 4 || g.p[GP_HASHMODE] >= 8)
				g.p[GP_HASHMODE] = 0;
			if (g.type == GT_ALLOC)
			{
				g.p[GP_X] = (g.p[GP_X] + 7) / 8 * 8;
				g.p[GP_BASE] = (g.p[GP_BASE] + 7) / 8 * 8;
			}
		}
		if (g.type == GT_MULTI)
			g.p[GP_HASHMODE] = (u32)r.below(2);
		return g;
	}

	Op op_for(const GroupCfg& g, u32 gi, u32 task, bool reader)
	{
		Op o;
		memset(&o, 0, sizeof o);
		o.task = task;
		o.group = gi;
		o.a = r.chance(1, 3) ? (u32)r.below(64) : (u32)r.next();
		o.b = (u32)r.next();
		o.n = 1;
		u32 w = (u32)r.below(100);
		auto small = [&] { return r.chance(3, 4) ? 1 : (u32)r.range(2, 24); };
		switch (g.type) {
		case GT_HASH: case GT_TRIE: case GT_TI: case GT_TREE: case GT_MULTI:
			if (reader)
				w = 50 + w % 36;
			else if (is("C19"))
				w = w < 40 ? 87 : w < 85 ? 93 : 97;
			else if (is("C27") && g.type == GT_HASH && g.p[GP_KIND] % 3 != 0 && r.chance(1, 2))
				w = r.chance(1, 2) ? 95 : 87;
			else if (is("C20"))
				w = w < 40 ? 87 : w < 80 ? 93 : w < 92 ? 97 : 75;
			else if (is("C16") && w < 50 && r.chance(1, 2))
				w = 50 + w % 36;
			else if ((is("C02") || is("C03")) && r.chance(1, 5))
				w = 86 + w % 10;
			else if (scale == 4 && r.chance(1, 2))
				w = 86 + w % 8;
			if (w < 22) { o.code = K_INS; o.n = small(); }
			else if (w < 36) { o.code = K_REM; o.n = small(); }
			else if (w < 48) { o.code = K_REMX; o.n = small(); }
			else if (w < 50) { o.code = reader ? K_SEARCH : K_SAME; o.n = small(); }
			else if (w < 62) { o.code = K_SEARCH; o.n = small(); }
			else if (w < 66) {
				o.code = g.type == GT_TREE ? K_SCMP : g.type == GT_HASH ? K_FIND : K_BUCKET;
				o.n = small();
				if (o.code == K_FIND && reader)
					o.b &= ~8u;
			}
			else if (w < 70) { o.code = K_BUCKET; o.n = small(); }
			else if (w < 75) { o.code = K_EACH; o.n = (u32)r.range(1, 2); }
			else if (w < 78) o.code = K_MEM;
			else if (w < 86) o.code = K_CHECK;
			else if (w < 90) { o.code = K_FILL; o.n = target(); }
			else if (w < 94) { o.code = K_DRAIN; o.n = target() / (r.chance(1, 2) ? 1 : 8); }
			else if (w < 96) {
				if (g.type != GT_MULTI && r.chance(1, 3)) {
					o.code = K_JIG;
					o.n = r.chance(1, 4) ? target() : (1u << r.range(3, scale < 2 ? 9 : 13)) >> r.below(2);
					if (is("C16") && reader)
						o.code = K_EACH;
				} else { o.code = K_OSC; o.n = target() / 2; }
			}
			else if (w < 97) { o.code = K_CLEAR; o.n = (u32)r.below(4); }
			else if (w < 98) { o.code = is("C19") || is("C20") ? K_OSC : K_EACHFREE; if (o.code == K_OSC) o.n = target() / 2; }
			else o.code = U_NOISE;
			if (is("C17") && r.chance(1, 4)) { o.code = r.chance(1, 2) ? K_EACHFREE : K_EACH; o.n = 1; }
			if (is("C28") && !reader && g.type == GT_HASH && o.code == K_REMX && r.chance(1, 2)) { o.code = K_FIND; o.n = 1; }
			if (is("C06") && o.code == K_INS && r.chance(1, 6)) { o.code = K_SAME; o.n = 1; }
			if (o.code == U_NOISE) o.n = (u32)r.below(12);
			if ((o.code == K_CLEAR || o.code == K_EACHFREE) && reader) o.code = K_EACH;
			break;
		case GT_LIST:
			if (reader)
				w = 80 + w % 12;
			if (is("C08") && r.chance(1, 3))
				w = 70;
			if (w < 20) { o.code = L_HEAD; o.n = small(); }
			else if (w < 44) { o.code = L_TAIL; o.n = scale == 4 && r.chance(1, 2) ? target() : r.chance(1, 6) ? 1 + target() / 4 : small(); }
			else if (w < 60) { o.code = L_DEL; o.n = small(); }
			else if (w < 68) o.code = L_CONCAT;
			else if (w < 78) o.code = L_SORT;
			else if (w < 84) o.code = L_EACH;
			else if (w < 92) o.code = L_CHECK;
			else if (w < 94) o.code = L_CLEAR;
			else { o.code = U_NOISE; o.n = (u32)r.below(12); }
			break;
		case GT_ARRAY:
			if (reader)
				w = 60 + w % 26;
			if (w < 24) {
				o.code = A_GROW;
				u32 z = (u32)r.below(12);
				o.n = z < 6 ? target() * 2 : z < 9 ? (u32)r.below(5000) : z < 11 ? 4096u * (u32)r.range(1, 6) + (u32)r.below(5) - 2 : (u32)r.below(20000);
				if (scale >= 2 && r.chance(1, 5))
					o.n = (u32)r.below(300000);
				if (scale == 4 && r.chance(1, 3)) {
					u32 bit = (u32)r.range(16, 22);
					o.n = r.chance(1, 2) ? (1u << bit) + (u32)r.below(5) - 2 : (u32)r.below(1u << bit);
				}
			} else if (w < 44) { o.code = A_PUSH; o.n = r.chance(1, 6) ? (u32)r.range(1, 300) : small(); }
			else if (w < 62) { o.code = A_SET; o.n = small(); }
			else if (w < 74) { o.code = A_GET; o.n = small(); }
			else if (w < 88) o.code = A_CHECK;
			else if (w < 92) o.code = A_CLEAR;
			else { o.code = U_NOISE; o.n = (u32)r.below(12); }
			break;
		case GT_ALLOC:
			if (w < 45) { o.code = B_ALLOC; o.n = scale == 4 && r.chance(1, 2) ? target() : r.chance(1, 4) ? (u32)r.range(1, 200) : small(); }
			else if (w < 75) { o.code = B_FREE; o.n = scale == 4 && r.chance(1, 3) ? target() : r.chance(1, 4) ? (u32)r.range(1, 200) : small(); }
			else if (w < 88) o.code = B_CHECK;
			else if (w < 92) o.code = B_CLEAR;
			else { o.code = U_NOISE; o.n = (u32)r.below(12); }
			break;
		case GT_HFN:
			o.code = w < 75 ? H_HASH : w < 95 ? H_NOISE : U_NOISE;
			o.n = r.chance(1, 4) ? (u32)r.below(r.chance(1, 2) ? 600 : 6000) : (u32)r.below(90);
			if (is("C24") && o.code == H_HASH && r.chance(1, 1500))
				o.n = r.chance(2, 3) ? 65520 + (u32)r.below(60) : 6000 + (u32)r.below(134000);
			break;
		}
		if (faultkind && r.chance(faultpct, 100)) {
			bool ok = true;
			if (faultkind == F_OOM && (is("C15") || is("C26"))) // how many blocks a segment has depends on its address
				ok = g.type != GT_TRIE && g.type != GT_ALLOC;
			if (faultkind == F_NEST)
				ok = o.code != U_NOISE;
			if (faultkind == F_ESC)
				ok = o.code != L_SORT && o.code != K_EACHFREE && o.code != L_CLEAR;
			if (ok) {
				o.fk = faultkind;
				if (faultkind == F_CANCEL)
					o.fkk = r.chance(1, 2) ? (u32)r.range(1, 30) : (u32)r.range(1, 400);
				else
					o.fkk = r.chance(1, 2) ? 1 : (u32)r.range(1, faultkind == F_OOM ? 6 : 12);
				if (faultkind == F_NEST) // how often again
					o.fkk |= (u32)r.below(16) << 16;
				if (faultkind == F_OOM && outages && r.chance(1, 3)) // the heap stays exhausted for a while
					o.fkk |= (r.chance(3, 4) ? (u32)r.range(1, 8) : (u32)r.range(1, 200)) << 16;
			}
		}
		return o;
	}

	void sched(u32 nent)
	{
		u32 style = (u32)r.below(4);
		u32 hog = (u32)r.next();
		for (u32 i = 0; i < nent; ++i) {
			SchedEnt e;
			u32 z = style == 3 ? (u32)r.below(3) : style;
			e.delta = z == 0 ? (u32)r.range(1, 24) : z == 1 ? (u32)r.range(1, 300) : (u32)r.range(20, 3000);
			e.pick = (i / 16 % 3 == 2 && style != 1) ? hog : (u32)r.next() & 0xffff;
			p.sched.push_back(e);
		}
	}
};

// two callers doing the same things at the same time: they meet before each call, then advance in small steps
static void twins(Plan& p, Rng& r)
{
	p.ntasks = 2;
	GroupCfg one = p.groups[0];
	p.groups.assign(2, one);
	std::vector<Op> ops;
	if (r.chance(1, 2)) // one has more elements than the other
		for (const Op& o : p.ops)
			if (o.task == 0 && o.n > 1) {
				ops.push_back(o);
				ops.back().task = ops.back().group = 1;
				ops.back().n = (u32)r.range(1, 64);
				ops.back().fk = 0;
				break;
			}
	for (const Op& o : p.ops) {
		if (o.group != 0)
			continue;
		for (u32 t = 0; t < 2; ++t) {
			ops.push_back(o);
			ops.back().task = ops.back().group = t;
		}
	}
	p.ops = ops;
	p.sched.clear();
	static const u32 step[] = { 2, 4, 10, 40 };
	u32 st = step[r.below(4)], n = (u32)r.range(50, 1500);
	while (p.sched.size() < n) {
		SchedEnt e;
		for (u32 t = 0; t < 2; ++t) {
			e.delta = SCHED_TO_CALL;
			e.pick = t;
			p.sched.push_back(e);
		}
		u32 m = (u32)r.range(2, r.chance(1, 4) ? 60 : 12), f = (u32)r.below(2);
		for (u32 i = 0; i < m; ++i) {
			e.delta = (u32)r.range(1, st);
			e.pick = i + f;
			p.sched.push_back(e);
		}
	}
}

bool plan_gen(Plan& p, const std::string& prop, u64 seed, u32 idx)
{
	const PropDef* d = prop_find(prop);
	if (!d)
		return false;
	u64 ps = 0;
	for (char ch : prop)
		ps = ps * 131 + (u8)ch;
	Gen g(p, mix64(mix64(seed, ps), idx));
	Rng& r = g.r;
	g.prop = prop;
	p.prop = prop;
	p.seed = seed;
	p.idx = idx;
	p.groups.clear();
	p.ops.clear();
	p.sched.clear();
	p.heap.fill = (u32)r.below(4);
	p.heap.reuse = (u32)r.below(3);
	p.heap.colour = (u32)r.below(3);
	p.heap.scribble = (u32)r.range(r.chance(1, 8) ? 0 : 1, 2);
	p.heap.seed = r.next();
	p.heap.place = (u32)(p.heap.seed >> 40) % 5 % 3;
	p.dirty = r.chance(3, 4);
	p.checkmode = r.chance(1, 3);
	u32 z = (u32)r.below(20);
	g.scale = z < 9 ? 0 : z < 16 ? 1 : 2;
	if (g.is("C19"))
		g.scale = z < 6 ? 1 : z < 15 ? 2 : 3;
	if (g.is("C23") && z >= 12)
		g.scale = 3;
	if (g.is("C20") && z >= 17)
		g.scale = 3;
	if ((g.is("C08") || g.is("C27")) && z >= 17)
		g.scale = 3;
	bool huge = r.chance(1, 250) && !g.is("C15") && !g.is("C16") && !g.is("C24") && !g.is("C26");
	if (huge)
		g.scale = 4;

	bool exclusive = false;
	u32 readers = 0; // number of tasks that only read
	p.ntasks = r.chance(1, 2) ? 1 : (u32)r.range(2, 3);
	u32 nops = (u32)r.range(4, 50);
	if (g.is("C19"))
		nops = (u32)r.range(4, 16);
	if (g.is("C15") || g.is("C26")) {
		exclusive = true;
		p.ntasks = (u32)r.range(2, 4);
	}
	if (g.is("C26") && r.chance(1, 2))
		p.ntasks = 1;
	if (g.is("C16")) {
		p.ntasks = (u32)r.range(2, 4);
		readers = p.ntasks - 1;
		g.faultkind = r.chance(3, 4) ? F_CANCEL : 0;
		g.faultpct = 40;
	}
	if (g.is("C24"))
		p.ntasks = (u32)r.range(1, 4);
	if (g.is("C21")) {
		g.faultkind = F_OOM;
		g.faultpct = 60;
	}
	if (g.is("C25")) {
		g.faultkind = F_ESC;
		g.faultpct = 60;
	}
	if (g.is("C28")) {
		g.faultkind = F_NEST;
		g.faultpct = 70;
	}
	if (exclusive) { // whatever a task sees of its own faults, it sees alone and in every build
		u32 f = (u32)r.below(20);
		g.faultkind = f < 4 ? F_OOM : f < 9 ? F_ESC : 0;
		g.faultpct = 25;
	}
	if (!g.faultkind && !exclusive && !huge && !g.is("C24")) {
		// a part of the runs of every property goes through faults as well
		u32 f = (u32)r.below(20);
		g.faultkind = f < 3 ? F_OOM : f < 5 ? F_ESC : f < 6 ? F_CANCEL : 0;
		g.faultpct = 25;
	}
	g.outages = g.is("C21") || g.is("C13") || g.is("C22") || g.is("C02") || g.is("C03") || g.is("C04") || g.is("C09") || g.is("C10") || g.is("C11") || g.is("C12") || g.is("C14") ||
		g.is("C17") || g.is("C18");
	// many small steps on a small set of elements: histories that only build up slowly
	bool longrun = !huge && !g.is("C19") && !g.is("C23") && !g.is("C24") && r.chance(1, 10);
	if (longrun) {
		nops = (u32)r.range(120, 500);
		g.scale = 0;
		p.checkmode = 0;
	}
	if (huge) {
		nops = (u32)r.range(3, 8);
		p.checkmode = 0;
		if (p.heap.reuse == 0)
			p.heap.reuse = 1;
	}
	if (exclusive) {
		for (u32 i = 0; i < p.ntasks; ++i)
			p.groups.push_back(g.group(d->types[r.below(d->ntypes)]));
		// make sharing of hidden state likely: often the same kind twice
		if (p.ntasks > 1 && r.chance(2, 3)) {
			u32 ty = p.groups[0].type, k = p.groups[0].p[GP_KIND];
			p.groups[1] = g.group(ty == GT_HASH || ty == GT_ARRAY ? TK(ty, k) : T_(ty));
		}
	} else {
		p.groups.push_back(g.group(d->types[r.below(d->ntypes)]));
		// a second group of the property, or background activity of another kind
		if (p.ntasks > 1 || r.chance(1, 4))
			p.groups.push_back(g.group(d->types[r.below(d->ntypes)]));
	}
	if (longrun)
		for (GroupCfg& gc : p.groups) {
			static const u32 un[] = { 0, 2, 3, 5, 8, 12, 20, 40 };
			if (!g.is("C20"))
				gc.p[GP_UNIV] = un[r.below(8)];
			if (gc.type == GT_HASH && gc.p[GP_X] > 1000)
				gc.p[GP_X] = 16;
		}
	if (huge)
		for (GroupCfg& gc : p.groups) {
			gc.p[GP_UNIV] = 0;
			if (gc.type == GT_HASH || gc.type == GT_MULTI) {
				static const u32 km[] = { 0, 1, 3, 5 };
				gc.p[GP_KEYMODE] = km[gc.p[GP_KEYMODE] % 4];
				gc.p[GP_HASHMODE] = gc.p[GP_HASHMODE] == 5 ? 5 : (u32)r.below(2);
				if (gc.p[GP_KIND] % 3 == 0)
					gc.p[GP_X] = 16384;
			}
		}
	u32 shared = (u32)p.groups.size();
	if (g.is("C28")) // for every task, something its callbacks work on
		for (u32 i = 0; i < p.ntasks; ++i) {
			static const u32 ty[] = { GT_HASH, GT_HASH, GT_TREE, GT_TREE, GT_LIST, GT_LIST, GT_TRIE, GT_TI, GT_ARRAY, GT_ALLOC };
			u32 same = p.groups[0].type == GT_HASH ? TK(GT_HASH, p.groups[0].p[GP_KIND] % 3) : T_(p.groups[0].type);
			GroupCfg s = g.group(r.chance(1, 2) ? same : T_(ty[r.below(10)]));
			s.p[GP_Y] = 1000 + i;
			if (s.type == GT_HASH)
				s.p[GP_X] %= 200;
			p.groups.push_back(s);
		}
	for (u32 i = 0; i < nops; ++i) {
		u32 task = (u32)r.below(p.ntasks), gi;
		if (exclusive)
			gi = task;
		else
			gi = shared > 1 && r.chance(1, 3) ? 1 : 0;
		bool reader = readers && task >= 1 && i >= 2;
		if (readers && i < 2)
			task = 0;
		Op o = g.op_for(p.groups[gi], gi, task, reader);
		if (readers && i < 2 && p.groups[gi].type != GT_LIST && p.groups[gi].type != GT_ARRAY && p.groups[gi].type != GT_ALLOC) {
			o.code = K_FILL;
			o.n = g.target() % 300;
			o.fk = 0;
		}
		p.ops.push_back(o);
	}
	if (p.ntasks > 1)
		g.sched((u32)r.range(10, 300));
	if (g.is("C15") && p.ntasks > 1 && r.chance(1, 2))
		twins(p, r);
	return true;
}

// ---------------------------------------------------------------- text form
void plan_write(const Plan& p, FILE* f)
{
	fprintf(f, "plan %s seed %llu idx %u\n", p.prop.c_str(), (unsigned long long)p.seed, p.idx);
	fprintf(f, "cfg tasks %u dirty %u check %u fill %u reuse %u colour %u scribble %u hseed %llu place %u\n", p.ntasks, p.dirty, p.checkmode, p.heap.fill, p.heap.reuse, p.heap.colour,
		p.heap.scribble, (unsigned long long)p.heap.seed, p.heap.place);
	for (const GroupCfg& g : p.groups) {
		fprintf(f, "group %s", gt_name[g.type]);
		for (int i = 0; i < GP_N; ++i)
			fprintf(f, " %u", g.p[i]);
		fprintf(f, "\n");
	}
	for (const Op& o : p.ops)
		fprintf(f, "op %u %u %s %u %u %u %u %u\n", o.task, o.group, op_name[o.code], o.a, o.b, o.n, o.fk, o.fkk);
	for (const SchedEnt& s : p.sched)
		fprintf(f, "run %u %u\n", s.delta, s.pick);
}

bool plan_read(Plan& p, FILE* f)
{
	char line[512], name[64];
	p.groups.clear();
	p.ops.clear();
	p.sched.clear();
	bool got = false;
	while (fgets(line, sizeof line, f)) {
		unsigned long long s1;
		if (line[0] == '#' || line[0] == '\n')
			continue;
		if (sscanf(line, "plan %63s seed %llu idx %u", name, &s1, &p.idx) == 3) {
			p.prop = name;
			p.seed = s1;
			got = true;
		} else if (sscanf(line, "cfg tasks %u dirty %u check %u fill %u reuse %u colour %u scribble %u hseed %llu place %u", &p.ntasks, &p.dirty, &p.checkmode, &p.heap.fill, &p.heap.reuse,
				   &p.heap.colour, &p.heap.scribble, &s1, &p.heap.place) == 9) {
			p.heap.seed = s1;
		} else if (!strncmp(line, "group ", 6)) {
			GroupCfg g;
			u32* q = g.p;
			if (sscanf(line, "group %63s %u %u %u %u %u %u %u %u %u %u", name, q, q + 1, q + 2, q + 3, q + 4, q + 5, q + 6, q + 7, q + 8, q + 9) != 11)
				return false;
			for (g.type = 0; g.type < GT_N && strcmp(gt_name[g.type], name); ++g.type)
				;
			if (g.type == GT_N)
				return false;
			p.groups.push_back(g);
		} else if (!strncmp(line, "op ", 3)) {
			Op o;
			if (sscanf(line, "op %u %u %63s %u %u %u %u %u", &o.task, &o.group, name, &o.a, &o.b, &o.n, &o.fk, &o.fkk) != 8)
				return false;
			for (o.code = 0; o.code < OP_N && strcmp(op_name[o.code], name); ++o.code)
				;
			if (o.code == OP_N)
				return false;
			p.ops.push_back(o);
		} else if (!strncmp(line, "run ", 4)) {
			SchedEnt s;
			if (sscanf(line, "run %u %u", &s.delta, &s.pick) != 2)
				return false;
			p.sched.push_back(s);
		}
	}
	return got && p.ntasks > 0 && p.ntasks <= 8;
}
