// sim run    PROP SEED FROM TO STRIDE OUTDIR [transcripts]   many runs, one process each
// sim replay FILE [-v]                                      one run from a plan file
// sim gen    PROP SEED IDX                                  prints the plan
#include "world.hpp"
#include <algorithm>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

static double now()
{
	struct timespec ts;
	clock_gettime(CLOCK_MONOTONIC, &ts);
	return ts.tv_sec + ts.tv_nsec * 1e-9;
}

static u32 run_child(const Plan& p, int only, bool verbose, bool clean = false)
{
	memset(R, 0, sizeof *R);
	R->evhash = R->schedhash = 0xcbf29ce484222325ull;
	fflush(stdout);
	pid_t pid = fork();
	if (pid == 0) {
		if (!verbose) {
			int fd = open("/dev/null", O_WRONLY);
			dup2(fd, 2);
		}
		g_verbose = verbose;
		install_handlers();
		alarm(60);
		world_run(p, only, clean);
		finish(ST_OK);
	}
	int st = 0;
	if (pid < 0 || waitpid(pid, &st, 0) < 0) {
		snprintf(R->msg, sizeof R->msg, "fork failed");
		return R->status = ST_ERROR;
	}
	if (R->status == ST_RUNNING) {
		R->status = ST_VIOLATION;
		snprintf(R->cls, sizeof R->cls, WIFSIGNALED(st) ? "crash:signal" : "crash:exit");
		snprintf(R->msg, sizeof R->msg, "the run died: %s %d", WIFSIGNALED(st) ? "signal" : "exit code", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st));
	}
	return R->status;
}

// the whole run, with its serial reference executions when the property needs them
static u32 run_plan(const Plan& p, bool verbose)
{
	u32 st = run_child(p, -1, verbose);
	if ((st != ST_OK && st != ST_INCONCLUSIVE) || !prop_isolation(p.prop) || !strcmp(R->cls, "timeout"))
		return st;
	static Result keep;
	memcpy(&keep, R, sizeof keep);
	for (size_t g = 0; g < p.groups.size() && g < 4; ++g) {
		st = run_child(p, (int)g, verbose, keep.status == ST_INCONCLUSIVE);
		if (st == ST_VIOLATION || st == ST_ERROR)
			return st;
		if (!strcmp(R->cls, "timeout"))
			return st;
		if (keep.status == ST_INCONCLUSIVE) { // the interleaved run failed a check that is another property's business
			if (st != ST_OK)          // ... and so does this group by itself
				break;
			continue;
		}
		u64 h = R->ghash[g];
		if (st != ST_OK || h != keep.ghash[g]) {
			char why[200];
			snprintf(why, sizeof why, "%s", st != ST_OK ? R->msg : "other results");
			memcpy(R, &keep, sizeof keep);
			R->status = ST_VIOLATION;
			snprintf(R->cls, sizeof R->cls, "iso:transcript");
			snprintf(R->msg, sizeof R->msg, "group %zu (%s) behaves differently when its calls are interleaved with calls on other containers (alone, with other garbage and addresses: %s)",
				g, gt_name[p.groups[g].type], why);
			return ST_VIOLATION;
		}
	}
	memcpy(R, &keep, sizeof keep);
	if (keep.status == ST_INCONCLUSIVE && st == ST_OK) { // every group is right when it runs alone
		R->status = ST_VIOLATION;
		snprintf(R->cls, sizeof R->cls, "iso:%.50s", keep.cls);
		snprintf(R->msg, sizeof R->msg, "every group is right when it runs alone, but not together: %.400s", keep.msg);
	}
	return R->status;
}

static const char* status_name(u32 s) { return s == ST_OK ? "ok" : s == ST_VIOLATION ? "violation" : s == ST_INCONCLUSIVE ? "inconclusive" : "error"; }

int main(int argc, char** argv)
{
	// no address randomisation, when that can be turned off
	if (!getenv("SIM_REEXEC")) {
		int old = personality(0xffffffff);
		if (old != -1 && !(old & ADDR_NO_RANDOMIZE) && personality(old | ADDR_NO_RANDOMIZE) != -1) {
			setenv("SIM_REEXEC", "1", 1);
			execv("/proc/self/exe", argv);
		}
	}
	R = (Result*)mmap(0, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (argc >= 5 && !strcmp(argv[1], "gen")) {
		Plan p;
		if (!plan_gen(p, argv[2], strtoull(argv[3], 0, 0), (u32)strtoul(argv[4], 0, 0)))
			return 3;
		plan_write(p, stdout);
		return 0;
	}
	if (argc >= 3 && !strcmp(argv[1], "replay")) {
		Plan p;
		FILE* f = fopen(argv[2], "r");
		if (!f || !plan_read(p, f)) {
			fprintf(stderr, "cannot read the plan\n");
			return 3;
		}
		fclose(f);
		bool v = argc >= 4 && !strcmp(argv[3], "-v");
		g_mask = prop_mask(p.prop);
		u32 st = run_plan(p, v);
		printf("RESULT %s cls=%s ev=%016llx sched=%016llx ticks=%llu ops=%llu calls=%llu g=%016llx,%016llx,%016llx,%016llx msg=%s\n", status_name(st), R->cls[0] ? R->cls : "-",
			(unsigned long long)R->evhash, (unsigned long long)R->schedhash, (unsigned long long)R->ticks, (unsigned long long)R->ops, (unsigned long long)R->calls,
			(unsigned long long)R->ghash[0], (unsigned long long)R->ghash[1], (unsigned long long)R->ghash[2], (unsigned long long)R->ghash[3], R->msg);
		if (v) {
			for (int i = 0; i < FC_N; ++i)
				if (R->fc[i])
					printf("  fault %s %u\n", fc_name[i], R->fc[i]);
			for (int i = 0; i < PR_N; ++i)
				if (R->pr[i])
					printf("  probe %s %u\n", pr_name[i], R->pr[i]);
			printf("  maxwork %u maxtree %u\n", R->maxwork, R->maxtree);
		}
		return st == ST_OK ? 0 : st == ST_VIOLATION ? 10 : st == ST_INCONCLUSIVE ? 11 : 12;
	}
	if (argc >= 8 && !strcmp(argv[1], "run")) {
		std::string prop = argv[2];
		u64 seed = strtoull(argv[3], 0, 0);
		u32 from = (u32)strtoul(argv[4], 0, 0), to = (u32)strtoul(argv[5], 0, 0), stride = (u32)strtoul(argv[6], 0, 0);
		std::string out = argv[7];
		double limit = argc >= 9 ? atof(argv[8]) : 1e9;
		bool transcripts = argc >= 10 && atoi(argv[9]);
		double t0 = now();
		g_mask = prop_mask(prop);
		if (!g_mask)
			return 3;
		FILE* fo = fopen((out + ".runs").c_str(), "w");
		u64 ticks = 0, heapcalls = 0, switches = 0, ops = 0, calls = 0, fc[FC_N] = { 0 }, pr[PR_N] = { 0 };
		u64 fcr[FC_N] = { 0 };
		u32 runs = 0, inconcl = 0, maxwork = 0, maxtree = 0, faulted = 0;
		static u8 cov[8192];
		u64 cost[16] = { 0 };
		bool stop = false;
		for (u32 i = from; i < to && !stop && now() - t0 < limit; i += stride) {
			Plan p;
			plan_gen(p, prop, seed, i);
			u32 st = run_plan(p, false);
			++runs;
			bool nontriv = R->pr[PR_INSERT] + R->pr[PR_SEARCH_HIT] > 0;
			u32 anyf = 0;
			for (int k = 0; k < FC_N; ++k)
				anyf += R->fc[k];
			nontriv = nontriv && anyf;
			faulted += R->nontrivial != 0;
			fprintf(fo, "%u %s %016llx %016llx %d", i, !strcmp(R->cls, "timeout") ? "timeout" : status_name(st), (unsigned long long)R->evhash, (unsigned long long)R->schedhash, nontriv ? 1 : 0);
			if (transcripts)
				fprintf(fo, " %016llx,%016llx,%016llx,%016llx", (unsigned long long)R->ghash[0], (unsigned long long)R->ghash[1], (unsigned long long)R->ghash[2], (unsigned long long)R->ghash[3]);
			fprintf(fo, "\n");
			ticks += R->ticks;
			heapcalls += R->heapcalls;
			switches += R->switches;
			ops += R->ops;
			calls += R->calls;
			for (int k = 0; k < FC_N; ++k) {
				fc[k] += R->fc[k];
				fcr[k] += R->fc[k] != 0;
			}
			for (int k = 0; k < PR_N; ++k)
				pr[k] += R->pr[k];
			for (size_t k = 0; k < sizeof cov; ++k)
				cov[k] |= R->cov[k];
			if (R->maxwork > maxwork)
				maxwork = R->maxwork;
			maxtree = std::max(maxtree, R->maxtree);
			for (int k = 0; k < 16; ++k)
				cost[k] = std::max(cost[k], (u64)R->cost[k]);
			if (st == ST_INCONCLUSIVE) {
				++inconcl;
				printf("INCONCLUSIVE idx=%u cls=%s msg=%s\n", i, R->cls, R->msg);
			}
			if (st == ST_VIOLATION || st == ST_ERROR) {
				FILE* fp = fopen((out + ".plan").c_str(), "w");
				plan_write(p, fp);
				fclose(fp);
				printf("%s idx=%u cls=%s ev=%016llx msg=%s\n", st == ST_VIOLATION ? "FOUND" : "ERROR", i, R->cls, (unsigned long long)R->evhash, R->msg);
				fflush(stdout);
				stop = true;
			}
		}
		fclose(fo);
		u32 blocks = 0;
		for (size_t k = 0; k < sizeof cov; ++k)
			blocks += __builtin_popcount(cov[k]);
		printf("STAT runs %u\nSTAT inconclusive %u\nSTAT ticks %llu\nSTAT heap_calls %llu\nSTAT switches %llu\nSTAT ops %llu\nSTAT library_calls %llu\nSTAT faulted_runs %u\nMAX max_hashlin_steps_per_call %u\nMAX tree_comparisons_beyond_log2 %u\nMAX library_blocks %u\n",
			runs, inconcl, (unsigned long long)ticks, (unsigned long long)heapcalls, (unsigned long long)switches, (unsigned long long)ops, (unsigned long long)calls, faulted, maxwork, maxtree, blocks);
		for (int k = 0; k < 16; ++k)
			if (cost[k])
				printf("MAX cost_%s %llu\n", cost_name[k], (unsigned long long)cost[k]);
		for (int k = 0; k < FC_N; ++k)
			printf("FAULT %s %llu %llu\n", fc_name[k], (unsigned long long)fc[k], (unsigned long long)fcr[k]);
		for (int k = 0; k < PR_N; ++k)
			printf("PROBE %s %llu\n", pr_name[k], (unsigned long long)pr[k]);
		printf("COV ");
		for (size_t k = 0; k < sizeof cov; ++k)
			if (cov[k])
				printf("%zx:%02x,", k, cov[k]);
		printf("\nWALL %.3f\n", now() - t0);
		return 0;
	}
	fprintf(stderr, "usage\n");
	return 2;
}
