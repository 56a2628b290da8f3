"""Text form of a simulated run, and the ways to make it simpler."""
import copy


class Plan:
    def __init__(self, text):
        self.cfg, self.groups, self.ops, self.sched = {}, [], [], []
        self.head, self.idx = "", "0"
        for line in text.splitlines():
            w = line.split()
            if not w or w[0].startswith("#"):
                continue
            if w[0] == "plan":
                self.head, self.idx = line, w[-1]
            elif w[0] == "cfg":
                self.cfg = {w[i]: int(w[i + 1]) for i in range(1, len(w), 2)}
            elif w[0] == "group":
                self.groups.append([w[1]] + [int(x) for x in w[2:]])
            elif w[0] == "op":
                self.ops.append([int(w[1]), int(w[2]), w[3]] + [int(x) for x in w[4:]])
            elif w[0] == "run":
                self.sched.append([int(w[1]), int(w[2])])

    def text(self):
        out = [self.head, "cfg " + " ".join("%s %d" % (k, v) for k, v in self.cfg.items())]
        out += ["group " + " ".join(map(str, g)) for g in self.groups]
        out += ["op " + " ".join(map(str, o)) for o in self.ops]
        out += ["run %d %d" % tuple(s) for s in self.sched]
        return "\n".join(out) + "\n"

    def copy(self):
        return copy.deepcopy(self)

    def with_ops(self, ops):
        p = self.copy()
        p.ops = copy.deepcopy(ops)
        return p

    def with_sched(self, sched):
        p = self.copy()
        p.sched = copy.deepcopy(sched)
        return p

    def simpler_cfg(self):
        def setter(k, v):
            def f(p):
                if p.cfg.get(k) == v:
                    return None
                q = p.copy()
                q.cfg[k] = v
                return q
            return f

        def one_task(p):
            q = p.copy()
            for o in q.ops:
                o[0] = 0
            q.cfg["tasks"] = 1
            q.sched = []
            return q
        return [one_task, setter("dirty", 0), setter("check", 0), setter("check", 1), setter("reuse", 0), setter("colour", 0), setter("place", 0), setter("fill", 0), setter("scribble", 0)]

    def simpler_groups(self):
        fs = []

        def drop_last(p):
            used = max([o[1] for o in p.ops] or [0])
            if len(p.groups) - 1 <= used:
                return None
            q = p.copy()
            q.groups = q.groups[:used + 1]
            return q

        def drop_first(p):
            if len(p.groups) < 2 or any(o[1] == 0 for o in p.ops):
                return None
            q = p.copy()
            q.groups = q.groups[1:]
            for o in q.ops:
                o[1] -= 1
            return q
        fs += [drop_last, drop_first]
        for gi in range(len(self.groups)):
            for k in range(2, 11):  # not the container kind
                for v in (0, 1):
                    def f(p, gi=gi, k=k, v=v):
                        if gi >= len(p.groups) or p.groups[gi][k] == v or (v == 1 and p.groups[gi][k] == 0):
                            return None
                        q = p.copy()
                        q.groups[gi][k] = v
                        return q
                    fs.append(f)
        return fs

    def simpler_op(self, i):
        """candidates that shrink the arguments of one operation: task group code a b n fault k"""
        out = []

        def cand(k, v):
            if self.ops[i][k] != v:
                p = self.copy()
                p.ops[i][k] = v
                out.append(p)
        o = self.ops[i]
        if o[6]:
            p = self.copy()
            p.ops[i][6] = p.ops[i][7] = 0
            out.append(p)
            if o[7] > 1:
                cand(7, 1)
                cand(7, o[7] & 0xffff)
                cand(7, o[7] & ~0xffff | 1)
                cand(7, (o[7] >> 17 << 16) | o[7] & 0xffff)
                cand(7, o[7] & ~0xffff | (o[7] & 0xffff) // 2)
        if o[5] > 1:
            for v in (0, 1, o[5] // 2, o[5] - o[5] // 4, o[5] - 1):
                if v < o[5]:
                    cand(5, v)
        for k in (3, 4):
            for v in (0, 1, o[k] // 2, o[k] & 0xff, o[k] & 0xf):
                if v < o[k]:
                    cand(k, v)
        return out
