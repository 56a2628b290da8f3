// Plans (what one simulated run does) and their execution.
#pragma once
#include "core.hpp"

enum { GT_HASH, GT_TRIE, GT_TI, GT_TREE, GT_LIST, GT_ARRAY, GT_ALLOC, GT_MULTI, GT_HFN, GT_N };
// op codes
enum {
	// keyed containers
	K_INS, K_REM, K_REMX, K_SEARCH, K_SCMP, K_BUCKET, K_EACH, K_MEM, K_FILL, K_DRAIN, K_CLEAR, K_EACHFREE, K_SAME, K_CHECK, K_OSC,
	// lists
	L_HEAD, L_TAIL, L_DEL, L_CONCAT, L_SORT, L_EACH, L_CLEAR, L_CHECK,
	// arrays
	A_GROW, A_PUSH, A_SET, A_GET, A_CLEAR, A_CHECK,
	// allocator
	B_ALLOC, B_FREE, B_CLEAR, B_CHECK,
	// hash functions
	H_HASH, H_NOISE,
	// user heap activity
	U_NOISE,
	// many small steps up and down around one size
	K_JIG,
	// search or removal by hash with any accepting function
	K_FIND,
	OP_N
};
extern const char* const op_name[OP_N];
extern const char* const gt_name[GT_N];
extern const char* const cost_name[16];

struct Op { u32 task, group, code, a, b, n, fk, fkk; };
enum { GP_KIND, GP_X, GP_KEYMODE, GP_UNIV, GP_HASHMODE, GP_SLOT, GP_BASE, GP_MISC, GP_LAYOUT, GP_Y, GP_N };
struct GroupCfg { u32 type; u32 p[GP_N]; };
struct Plan {
	std::string prop;
	u64 seed; u32 idx;
	u32 ntasks;
	u32 dirty;
	u32 checkmode; // 0: full check at flagged ops only, 1: after every op
	HeapCfg heap;
	std::vector<GroupCfg> groups;
	std::vector<Op> ops;
	std::vector<SchedEnt> sched;
};
void plan_write(const Plan& p, FILE* f);
bool plan_read(Plan& p, FILE* f);
bool plan_gen(Plan& p, const std::string& prop, u64 seed, u32 idx);
u32 prop_mask(const std::string& prop); // 0 when unknown
bool prop_isolation(const std::string& prop);

// only_group >= 0: run the ops of one group alone, serially, with another heap seed
// clean: with zeroed memory
void world_run(const Plan& p, int only_group, bool clean);
