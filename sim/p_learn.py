"""What was experienced is put to use: closed loop with a simulated environment."""
import re
from core import Prop, Violation
from p_shell import kv, lines

OPS = ["left", "right", "up", "down", "say", "pick", "drop", "go", "activate", "deactivate"]


class G01(Prop):
    id = "G01"
    variants = ("mid", "ship")
    quick_cases = 500
    thorough_cases = 40000
    rule = ("a random environment - situations, the operation that helps in each, outcomes, chains of these - is demonstrated in random order with pauses, failed attempts and unrelated events in between; "
            "then the environment answers the reasoner's own executions; non-trivial when at least two different operations had to be chosen")

    def gen(self, rng, i, tier):
        if rng.random() < .2:
            return self._gen_general(rng)
        n = rng.choice([1, 2, 3, 4, 6])
        nops = rng.randint(1, 5)
        style = rng.choice(["atom", "prop", "rel", "mixed"])
        def sit(k):
            s = style if style != "mixed" else rng.choice(["atom", "prop", "rel"])
            return {"atom": "s%d" % k, "prop": "<{s%d} --> [p%d]>" % (k, k), "rel": "<(u%d * v%d) --> r%d>" % (k, k, k)}[s]
        chain = rng.random() < .35
        ng = 1 if chain else rng.randint(1, min(3, n))
        con = []
        if chain:
            d = rng.randint(2, 3)
            st = [sit(k) for k in range(d)]
            for k in range(d):
                con.append([st[k], rng.randrange(nops), st[k + 1] if k + 1 < d else "g0"])
        else:
            for k in range(n):
                con.append([sit(k), rng.randrange(nops), "g%d" % rng.randrange(ng)])
        plan = []
        for c in range(len(con)):
            plan += [["demo", c, rng.choice([0, 0, 1, 2]), rng.choice([0, 0, 1, 2])] for _ in range(rng.randint(2, 4))]
            if rng.random() < .4 and nops > 1:
                plan.append(["fail", c, rng.randrange(nops)])
        if rng.random() < .5:
            plan += [["noise", rng.randrange(5)] for _ in range(rng.randint(1, 5))]
        rng.shuffle(plan)
        return {"params": {"prng": rng.randrange(1, 1 << 30)}, "con": con, "nops": 10, "opsel": rng.sample(range(10), nops), "plan": plan, "pause": rng.choice([30, 50, 100, 150]), "order": rng.sample(range(len(con)), len(con)),
                "chain": chain, "rounds": rng.choice([1, 1, 2])}

    shrink_lists = ("plan",)

    def _gen_general(self, rng):
        n = rng.choice([1, 1, 2, 3])
        nops = rng.randint(n, 5)
        ops = rng.sample(range(nops), n)
        con = []
        for k in range(n):
            f = rng.choice(["prop", "rel1", "rel2"])
            con.append([f, ops[k], "p%d" % k, "q%d" % k])
        plan = []
        for c in range(n):
            for r in range(rng.randint(2, 4)):
                plan.append(["demo", c, rng.choice([0, 0, 1]), rng.choice([0, 0, 1]), "x%d" % rng.randrange(1000)])
        rng.shuffle(plan)
        return {"params": {"prng": rng.randrange(1, 1 << 30)}, "general": True, "con": con, "nops": 10, "opsel": rng.sample(range(10), nops), "plan": plan, "pause": rng.choice([30, 50, 100]), "order": rng.sample(range(n), n),
                "other": rng.random() < .4, "new": ["z%d" % rng.randrange(1000) for _ in range(n)]}

    @staticmethod
    def _inst(f, x, p):
        return {"prop": "<{%s} --> [%s]>" % (x, p), "rel1": "<(%s * y%s) --> %s>" % (x, x, p), "rel2": "<(y%s * %s) --> %s>" % (x, x, p)}[f]

    def _run_general(self, case, R):
        con, vs = case["con"], []
        n = {}
        for p in case["plan"]:
            n.setdefault(p[1], set()).add(p[4])
        if any(len(n.get(k, ())) < 2 for k in range(len(con))):
            return [], {"nontrivial": False}
        ls = ["*motorbabbling=false", "*volume=0", "*babblingops=%d" % case["nops"]]
        arg = lambda f, x: "({SELF} * %s)" % ("{%s}" % x if f == "prop" else x)
        for p in case["plan"]:
            f, o, a, b = con[p[1]]
            x = p[4]
            ls.append("%s. :|:" % self._inst(f, x, a))
            if p[2]:
                ls.append(str(p[2]))
            ls.append("<%s --> ^%s>. :|:" % (arg(f, x), OPS[case["opsel"][o]]))
            if p[3]:
                ls.append(str(p[3]))
            ls.append("%s. :|:" % self._inst(f, x, b))
            ls.append(str(case["pause"]))
        want = {}
        for k in case["order"]:
            f, o, a, b = con[k]
            x = case["new"][k]
            if case["other"]:
                ls.append("%s. :|:" % self._inst(f, "w%d" % k, a))
            ls.append("%s. :|:" % self._inst(f, x, a))
            ls.append("%s! :|:" % self._inst(f, x, b))
            want[len(ls)] = (self._inst(f, x, a), self._inst(f, x, b), "^%s executed with args %s" % (OPS[case["opsel"][o]], arg(f, x)))
            ls += ["1", "%s. :|:" % self._inst(f, x, b), str(case["pause"])]
        h = R.run("ship", ["mode shell"] + kv(case["params"]) + lines(ls))
        if h.bad_end():
            return [Violation("died", h.bad_end())], {}
        segs = h.segments()[1:]
        for at, (a, g, e) in sorted(want.items()):
            ex = [t.strip() for ln, recs in segs[at - 1:at + 1] for k, t in recs if k == ">" and " executed with args" in t]
            if not ex:
                vs.append(Violation("not-general", "given %s and goal %s nothing is done, expected %s" % (a, g, e))); break
            if ex[0] != e:
                vs.append(Violation("wrong-general", "given %s and goal %s: %s, expected %s" % (a, g, ex[0], e))); break
        return vs, {"sig": h.hash(), "nontrivial": True}

    def _demo(self, case):
        ls = ["*motorbabbling=false", "*volume=0", "*babblingops=%d" % case["nops"]]
        con = case["con"]
        for p in case["plan"]:
            if p[0] == "demo":
                s, o, g = con[p[1]]
                ls.append("%s. :|:" % s)
                if p[2]:
                    ls.append(str(p[2]))
                ls.append("^%s. :|:" % OPS[case["opsel"][o]])
                if p[3]:
                    ls.append(str(p[3]))
                ls.append("%s. :|:" % g)
            elif p[0] == "fail":
                s, o, g = con[p[1]]
                if p[2] == o:
                    continue
                ls += ["%s. :|:" % s, "^%s. :|:" % OPS[case["opsel"][p[2]]]]
            else:
                ls.append("noise%d. :|:" % p[1])
            ls.append(str(case["pause"]))
        return ls

    def execute(self, case, R):
        if case.get("general"):
            return self._run_general(case, R)
        con, vs = case["con"], []
        demos = {k: sum(1 for p in case["plan"] if p[0] == "demo" and p[1] == k) for k in range(len(con))}
        if any(v < 2 for v in demos.values()):
            return [], {"nontrivial": False}
        ls = self._demo(case)
        want = {}
        for _ in range(1 if case["chain"] else case["rounds"]):
            if case["chain"]:
                for k in range(len(con)):
                    s, o, g = con[k]
                    ls.append("%s. :|:" % s)
                    ls.append("g0! :|:")
                    want[len(ls)] = (s, o, "g0", len(con) - k)
                    ls += ["2"]
                ls += ["g0. :|:", str(case["pause"])]
            else:
                for k in case["order"]:
                    s, o, g = con[k]
                    ls.append("%s. :|:" % s)
                    ls.append("%s! :|:" % g)
                    want[len(ls)] = (s, o, g, 1)
                    ls += ["1", "%s. :|:" % g, str(case["pause"])]
        ls += ["200", "%s! :|:" % con[-1][2]]
        want[len(ls)] = None
        h = R.run("mid", ["mode shell"] + kv(case["params"]) + lines(ls))
        if h.bad_end():
            return [Violation("died", h.bad_end())], {}
        segs = h.segments()[1:]
        used = set()
        for at, w in sorted(want.items()):
            ex = []
            for ln, recs in segs[at - 1:at + (1 if w else 0)]:
                ex += [t.split(" ")[0][1:] for k, t in recs if k == ">" and " executed with args" in t]
            if w is None:
                if ex:
                    vs.append(Violation("no-situation", "%s is done for %s although nothing that makes it useful is the case" % (ex[0], con[-1][2]))); break
                continue
            used.add(w[1])
            if not ex:
                vs.append(Violation("idle", "in situation %s with goal %s nothing is done, %s was demonstrated to help (%d steps away)" % (w[0], w[2], OPS[case["opsel"][w[1]]], w[3]))); break
            if ex[0] != OPS[case["opsel"][w[1]]]:
                vs.append(Violation("wrong", "in situation %s with goal %s %s is done instead of %s (%d steps away)" % (w[0], w[2], ex[0], OPS[case["opsel"][w[1]]], w[3]))); break
        return vs, {"sig": h.hash(), "nontrivial": len(used) > 1}
