#!/usr/bin/env python3
"""Deterministic simulation checks of tommyds.

  check.py PROPERTY [quick|thorough]   search simulated runs for a violation of the property
  check.py --replay FILE               execute the run recorded in a replay file
  check.py --selftest [N]              determinism: same seeds, several worker counts, same histories
"""
import json, os, re, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

import build
import plan as planlib

VERIF = build.VERIF
WORKERS = 8
VARS = "ABCDE"

# runs per variant for the quick tier, scaled by the cost of a run of the property
BASE = {"A": 8000, "B": 16000, "C": 8000, "D": 11000, "E": 7000}
SCALE = {"C01": 1.0, "C02": 0.9, "C03": 1.0, "C16": 0.7, "C18": 0.8, "C19": 0.6, "C20": 0.6, "C22": 0.9, "C23": 0.7, "C15": 2.0,
         "C07": 2.0, "C08": 2.0, "C09": 2.0, "C10": 1.6, "C11": 1.6, "C12": 1.3, "C24": 1.6, "C26": 1.5, "C27": 0.6}
QUICK_CAP, THOROUGH_CAP = 240.0, 720.0
THOROUGH_FACTOR = 60

RULE = ("One evaluation is one simulated run: a plan (containers, operations of 1-4 tasks, schedule, heap policy, faults) drawn from one PRNG "
        "seeded by (VERIF_SEED, property, index), executed in its own process against the library built from /repo. Non-trivial: at least one "
        "element was stored or looked up and at least one fault or perturbation fired (allocation failure, callback escape, cancelled reader, "
        "preemption inside a library call, recycled or dirty memory, scribbled frees, ...). Distinct: different history hash (all events, "
        "results and faults in order).")


def status_rc(rc):
    return {0: "ok", 10: "violation", 11: "inconclusive"}.get(rc, "error")


class Checker:
    def __init__(self, prop, tier, seed, bindir):
        self.prop, self.tier, self.seed, self.bin = prop, tier, seed, bindir
        self.tmp = tempfile.mkdtemp(prefix="sim-%s-" % prop)

    def exe(self, v):
        return os.path.join(self.bin, "sim_" + v)

    # ---------------------------------------------------------------- search
    def chunks(self):
        f = SCALE.get(self.prop, 1.2) * (THOROUGH_FACTOR if self.tier == "thorough" else 1)
        out = []
        if self.prop == "C26":
            n = int(8000 * f)
            for a in range(0, n, 150):
                out.append(("*", a, min(n, a + 150)))
            return out
        per = {}
        for v, b in BASE.items():
            n, size = int(b * f), 150 if v == "A" else 300
            o = {"B": 0, "A": 1000000, "D": 2000000, "C": 3000000, "E": 4000000}[v]  # other plans in every build
            per[v] = [(v, o + a, o + min(n, a + size)) for a in range(0, n, size)]
        k = 0
        while any(per.values()):  # interleaved, so that a capped search still covers every variant
            for v in VARS:
                m = max(len(per[x]) for x in per)
                if per[v] and (len(per[v]) >= m * 0.6 or k % 2 == 0):
                    out.append(per[v].pop(0))
            k += 1
        return out

    def run_chunk(self, ch, i, limit, stop):
        v, a, b = ch
        res = []
        for var in (VARS if v == "*" else v):
            out = os.path.join(self.tmp, "c%d%s" % (i, var))
            args = [self.exe(var), "run", self.prop, str(self.seed), str(a), str(b), "1", out, "%.1f" % limit, "1" if v == "*" else "0"]
            p = subprocess.run(args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            runs = []
            try:
                runs = [l.split() for l in open(out + ".runs")]
                os.unlink(out + ".runs")
            except OSError:
                pass
            res.append((var, out, p, runs))
        return res

    def search(self):
        chunks = self.chunks()
        cap = THOROUGH_CAP if self.tier == "thorough" else QUICK_CAP
        t0 = time.monotonic()
        st = {"stat": {}, "max": {}, "fault": {}, "faultruns": {}, "probe": {}, "per_variant": {}}
        ev, sched, nontriv, evaluations = set(), set(), set(), 0
        incl = {}
        lock = threading.Lock()
        best = [None]  # earliest chunk with something to report
        nxt = [0]

        def worker():
            nonlocal evaluations
            while True:
                with lock:
                    i = nxt[0]
                    nxt[0] += 1
                left = cap - (time.monotonic() - t0)
                if i >= len(chunks) or left <= 0 or (best[0] is not None and i > best[0][0]):
                    return
                res = self.run_chunk(chunks[i], i, left, None)
                found = None
                with lock:
                    for var, out, p, runs in res:
                        if p.returncode != 0:
                            found = found or ("error", var, None, "sim exited with %s: %s" % (p.returncode, p.stdout[-500:]))
                        for line in p.stdout.splitlines():
                            w = line.split(None, 3)
                            if not w:
                                continue
                            if w[0] == "STAT":
                                st["stat"][w[1]] = st["stat"].get(w[1], 0) + int(w[2])
                            elif w[0] == "MAX":
                                st["max"][w[1]] = max(st["max"].get(w[1], 0), int(w[2]))
                            elif w[0] == "FAULT":
                                st["fault"][w[1]] = st["fault"].get(w[1], 0) + int(w[2])
                                st["faultruns"][w[1]] = st["faultruns"].get(w[1], 0) + int(w[3])
                            elif w[0] == "PROBE":
                                st["probe"][w[1]] = st["probe"].get(w[1], 0) + int(w[2])
                            elif w[0] == "INCONCLUSIVE":
                                m = re.search(r"cls=(\S+)", line)
                                c = m.group(1) if m else "?"
                                incl[c] = incl.get(c, 0) + 1
                            elif w[0] == "FOUND" and chunks[i][0] != "*":
                                found = found or ("violation", var, out + ".plan", line)
                            elif w[0] == "ERROR":
                                found = found or ("error", var, out + ".plan", line)
                        for r in runs:
                            evaluations += 1
                            ev.add(r[2])
                            sched.add(r[3])
                            if r[4] == "1":
                                nontriv.add(r[2])
                            st["per_variant"][var] = st["per_variant"].get(var, 0) + 1
                    if chunks[i][0] == "*" and not (found and found[0] == "error"):
                        d = self.compare(res)
                        if d is not None:
                            found = ("violation", "*", d, "builds differ")
                    if found and (best[0] is None or i < best[0][0]):
                        best[0] = (i, found)

        ts = [threading.Thread(target=worker) for _ in range(WORKERS)]
        [t.start() for t in ts]
        [t.join() for t in ts]
        st.update(evaluations=evaluations, distinct=len(ev), nontrivial=len(nontriv), schedules=len(sched), inconclusive=incl,
                  search_s=time.monotonic() - t0, planned=sum(c[2] - c[1] for c in chunks) * (len(VARS) if self.prop == "C26" else 1))
        return st, best[0][1] if best[0] else None

    def compare(self, res):
        """C26: same plan, same observable behaviour in all the builds. Returns the differing index."""
        by = [{r[0]: (r[1], r[5]) for r in runs} for _, _, _, runs in res]
        idx = sorted({int(k) for b in by for k in b})
        for k in idx:
            got = [b.get(str(k)) for b in by]
            if None in got:  # one build stopped at the wall-clock limit, or at a violation
                if any(g and g[0] not in ("ok", "inconclusive", "timeout") for g in got):
                    return k
                continue
            if any(g[0] == "timeout" for g in got):
                continue
            if len(set(got)) > 1 or got[0][0] not in ("ok", "inconclusive"):
                return k
        return None

    # ---------------------------------------------------------------- one run
    def replay_one(self, path, var):
        try:
            p = subprocess.run([self.exe(var), "replay", path], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True,
                               errors="replace", timeout=200)
        except subprocess.TimeoutExpired:
            return "error", "", "", "timeout", ""
        m = re.search(r"^RESULT (\S+) cls=(\S+) ev=(\S+) .*? g=(\S+) msg=(.*)$", p.stdout, re.M)
        if not m:
            return "error", "", "", p.stdout[-300:], ""
        return status_rc(p.returncode), m.group(2), m.group(3), m.group(5), m.group(4)

    def evaluate(self, pl, var):
        """(status, class, history hash, message) of a plan in this property's sense"""
        fd, path = tempfile.mkstemp(dir=self.tmp, suffix=".plan")
        os.write(fd, pl.text().encode())
        os.close(fd)
        try:
            if var != "*":
                return self.replay_one(path, var)[:4]
            rs = [self.replay_one(path, v) for v in VARS]
            if any(r[0] == "error" for r in rs):
                return "error", "", "", str(rs)
            if any(r[1] == "timeout" for r in rs):
                return "inconclusive", "timeout", "", ""
            key = [(r[0], r[4]) for r in rs]
            if len(set(key)) > 1 or rs[0][0] == "violation":
                kinds = "/".join(r[1] if r[0] != "ok" else "ok" for r in rs)
                bad = next((r for r in rs if r[0] != "ok"), None)
                names = ["%s: %s" % (v, r[3] or "transcript " + r[4].split(",")[0]) for v, r in zip(VARS, rs)]
                return "violation", "builds:" + kinds, "+".join(r[2] for r in rs), "the builds behave differently - " + "; ".join(names)
            return rs[0][0], "-", "+".join(r[2] for r in rs), ""
        finally:
            os.unlink(path)

    # ---------------------------------------------------------------- minimisation
    def minimise(self, pl, var, cls, budget=75.0):
        t0 = time.monotonic()
        n = [0]

        def ok(cand):
            if time.monotonic() - t0 > budget:
                return False
            n[0] += 1
            r = self.evaluate(cand, var)
            return r[0] == "violation" and r[1] == cls

        with ThreadPoolExecutor(WORKERS) as ex:
            def first(cands):
                """first candidate (in order) that still fails the same way"""
                for k in range(0, len(cands), WORKERS):
                    part = cands[k:k + WORKERS]
                    for c, r in zip(part, list(ex.map(ok, part))):
                        if r:
                            return c
                    if time.monotonic() - t0 > budget:
                        return None
                return None

            def ddmin(get, put):
                nonlocal pl
                size = max(1, len(get(pl)) // 2)
                while size >= 1 and get(pl):
                    items = get(pl)
                    cands = [put(pl, items[:k] + items[k + size:]) for k in range(0, len(items), size)]
                    c = first(cands)
                    if c is not None:
                        pl = c
                        size = min(size, max(1, len(get(pl)) // 2))
                    elif size == 1:
                        break
                    else:
                        size //= 2
                    if time.monotonic() - t0 > budget:
                        return

            for rnd in range(3):
                before = pl.text()
                if pl.sched:
                    c = first([pl.with_sched([])])
                    pl = c or pl
                ddmin(lambda p: p.ops, lambda p, x: p.with_ops(x))
                ddmin(lambda p: p.sched, lambda p, x: p.with_sched(x))
                for cands in (pl.simpler_cfg(), pl.simpler_groups()):
                    for c in cands:
                        d = c(pl)
                        if d is not None and d.text() != pl.text() and first([d]) is not None:
                            pl = d
                # arguments
                for i in range(len(pl.ops)):
                    while True:
                        c = first(pl.simpler_op(i))
                        if c is None:
                            break
                        pl = c
                if pl.text() == before or time.monotonic() - t0 > budget:
                    break
        return pl, n[0]

    # ---------------------------------------------------------------- main
    def main(self):
        t0 = time.monotonic()
        st, found = self.search()
        rc, violations, note = 0, 0, None
        if found:
            kind, var, where, line = found
            if kind == "error":
                print("ERROR of the check: %s" % line)
                self.evidence(st, t0, 0)
                return 3
            if self.prop == "C26":
                src = subprocess.run([self.exe("A"), "gen", self.prop, str(self.seed), str(where)], stdout=subprocess.PIPE, text=True).stdout
            else:
                src = open(where).read()
            pl = planlib.Plan(src)
            r0 = self.evaluate(pl, var)
            r1 = self.evaluate(pl, var)
            if r0[0] != "violation" or r0[:3] != r1[:3]:
                print("ERROR of the check: a violation did not replay: %s / %s / %s" % (line, r0, r1))
                self.evidence(st, t0, 0)
                return 3
            small, tried = self.minimise(pl, var, r0[1])
            a, b = self.evaluate(small, var), self.evaluate(small, var)
            if a[0] != "violation" or a[:3] != b[:3]:
                small, a = pl, r0
            path = self.write_replay(small, var, a, len(pl.ops), len(pl.sched), tried)
            print("%s: %s" % (a[1], a[3]))
            print("build %s; %d operations, %d schedule entries, %d faults armed (found with %d operations, %d schedule entries)" % (
                var, len(small.ops), len(small.sched), sum(1 for o in small.ops if o[6]), len(pl.ops), len(pl.sched)))
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            violations, rc = 1, 1
        self.evidence(st, t0, violations)
        if rc == 0:
            print("property %s held on %d simulated runs (%d distinct histories), %.0f s" % (self.prop, st["evaluations"], st["distinct"], time.monotonic() - t0))
            if st["inconclusive"]:
                print("  runs ended without a verdict by a failure of another property: %s" % st["inconclusive"])
        return rc

    def write_replay(self, pl, var, r, nops, nsched, tried):
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%s-%s.plan" % (self.prop, self.seed, pl.idx))
        with open(path, "w") as f:
            f.write("# replay: python3 /verif/check.py --replay %s\n" % path)
            f.write("# property %s\n# build %s\n# class %s\n# history %s\n# message %s\n" % (self.prop, var, r[1], r[2], r[3]))
            f.write("# minimised from %d operations and %d schedule entries with %d executions\n" % (nops, nsched, tried))
            f.write(pl.text())
        return path

    def evidence(self, st, t0, violations):
        wall = time.monotonic() - t0
        ex = subprocess.run([self.exe("B"), "gen", self.prop, str(self.seed), "0"], stdout=subprocess.PIPE, text=True).stdout
        ex2 = subprocess.run([self.exe("B"), "gen", self.prop, str(self.seed), "1"], stdout=subprocess.PIPE, text=True).stdout
        hours = max(st["search_s"], 1e-3) / 3600
        j = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": "exploration",
            "coverage": {
                "evaluations": st["evaluations"], "distinct_nontrivial": st["nontrivial"], "rule": RULE,
                "samples": [ex.splitlines()[:60], ex2.splitlines()[:60]],
                "planned_runs": st["planned"],
                "runs_per_build": {"%s (%s)" % (v, build.VARIANTS[v]): n for v, n in sorted(st["per_variant"].items())},
                "distinct_histories": st["distinct"], "distinct_interleavings": st["schedules"],
                "interleaving_measure": "hash of the sequence (task chosen, simulated time of the switch)",
                "runs_per_hour": int(st["evaluations"] / hours),
                "seeds_per_hour": int(st["evaluations"] / hours),
                "simulated_time_ticks": st["stat"].get("ticks", 0),
                "simulated_time_unit": "one basic block of library code, one callback, one heap call or one step between operations",
                "library_calls": st["stat"].get("library_calls", 0), "operations": st["stat"].get("ops", 0),
                "context_switches": st["stat"].get("switches", 0), "heap_calls": st["stat"].get("heap_calls", 0),
                "faults_injected": st["fault"], "runs_in_which_a_fault_kind_fired": st["faultruns"],
                "probes": st["probe"], "library_basic_blocks_reached": st["max"].get("library_blocks", 0),
                "max_tree_comparisons_beyond_log2": st["max"].get("tree_comparisons_beyond_log2", 0),
                "max_steps_of_one_hashlin_update": st["max"].get("max_hashlin_steps_per_call", 0),
                "max_steps_by_cost_class": {k[5:]: v for k, v in sorted(st["max"].items()) if k.startswith("cost_")},
                "runs_without_verdict": sum(st["inconclusive"].values()), "runs_without_verdict_by_class": st["inconclusive"],
                "real_code": ["every file of /repo/tommyds, unmodified, built five ways"],
                "stubs": ["heap (tommy_malloc/calloc/realloc/free seam)", "caller tasks, their scheduler and their reader/writer locks", "caller callbacks"],
            },
            "assumptions": [
                "callers serialise updates of one container with a reader/writer lock, as the documentation requires",
                "a sampled search: a clean batch is evidence, not proof",
            ],
            "wall_s": round(wall, 2), "violations": violations,
        }
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.prop + ".json"), "w") as f:
            json.dump(j, f, indent=1)

    def close(self):
        import shutil
        shutil.rmtree(self.tmp, ignore_errors=True)


def do_replay(path):
    text = open(path).read()
    hdr = dict(re.findall(r"^# (property|build|class|history) (.*)$", text, re.M))
    c = Checker(hdr["property"], "quick", 0, build.build())
    try:
        r = c.evaluate(planlib.Plan(text), hdr["build"])
        if hdr["build"] != "*":
            p = subprocess.run([c.exe(hdr["build"]), "replay", path, "-v"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            print(p.stdout)
        print("result: %s %s history %s: %s" % (r[0], r[1], r[2], r[3]))
        if r[0] == "violation":
            print("same class: %s, same history: %s" % (r[1] == hdr["class"], r[2] == hdr["history"]))
            print("VIOLATION property=%s replay=%s" % (hdr["property"], path))
            return 1
        return 0 if r[0] in ("ok", "inconclusive") else 3
    finally:
        c.close()


def selftest(n):
    """every run twice, in different processes and at different worker counts: the histories must be the same"""
    b = build.build()
    bad = total = 0
    props = ["C%02d" % i for i in range(1, 29)]
    for p in props:
        for v in VARS:
            logs = []
            for workers in (1, 3, 8):
                d = tempfile.mkdtemp(prefix="selftest-")
                def go(w):
                    out = os.path.join(d, "w%d" % w)
                    subprocess.run([os.path.join(b, "sim_" + v), "run", p, "77", str(w), str(n), str(workers), out, "600", "1"], stdout=subprocess.DEVNULL)
                    return [tuple(l.split()) for l in open(out + ".runs")]
                with ThreadPoolExecutor(workers) as ex:
                    logs.append(sorted(sum(ex.map(go, range(workers)), [])))
                import shutil
                shutil.rmtree(d)
            total += len(logs[0])
            diff = sum(1 for x in zip(*logs) if len(set(x)) > 1)
            if diff or len({len(l) for l in logs}) > 1:
                bad += 1
                print("NOT DETERMINISTIC: %s %s: %d runs differ" % (p, v, diff))
    print("determinism: %d runs executed 3 times at 1, 3 and 8 workers, %d property/build pairs differ" % (total, bad))
    return 1 if bad else 0


def main(argv):
    try:
        if argv[:1] == ["--replay"]:
            return do_replay(argv[1])
        if argv[:1] == ["--selftest"]:
            return selftest(int(argv[1]) if len(argv) > 1 else 60)
        prop = argv[0]
        tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
        seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        b = build.build()
    except build.BuildError as e:
        print("ERROR of the check: cannot build: %s" % e)
        return 2
    print("seed %d property %s tier %s" % (seed, prop, tier), flush=True)
    c = Checker(prop, tier, seed, b)
    try:
        return c.main()
    finally:
        c.close()


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
