"""Properties about goals: decisions, babbling, subgoals.  Every goal selected in any cycle is judged from a
snapshot of memory taken the moment it is selected (the 'Selected: g! ...' line), by an independent model."""
import functools, itertools, json, math, re
from core import Prop, Violation
import gen
import narsese as N
from p_reason import died
from p_sensor import is_op, op_atom, split_op, rac

SELLINE = re.compile(r"Selected: (.*)! :\|: occurrenceTime=(-?\d+) Priority=(\S+) Stamp=\[([0-9,]*)\] Truth: frequency=(\S+), confidence=(\S+)$")
DECLINE = re.compile(r"decision expectation=(\S+) implication: (.*)\. Stamp=\[([0-9,]*)\] Truth: frequency=(\S+) confidence=(\S+) dt=(\S+) precondition: (.*)\. :\|: "
                     r"Stamp=\[([0-9,]*)\] Truth: frequency=(\S+) confidence=(\S+) occurrenceTime=(-?\d+)$")
EXEC = re.compile(r"(\^\S+) executed with args (.*)$")
LAYERS, GQCAP = 30, {"small": 60, "tiny": 10, "mid": 400}
CAPACITY = {"tiny": 24, "small": 96, "mid": 768}


class Uncertain(Exception):
    """more than one outcome would be right; not judged"""


def complexity(t):
    if isinstance(t, str):
        return 1
    return sum(map(complexity, t[1:])) + (2 if t[0] in "{[" else 1)


def stamp_equal(a, b):
    return len(a) == len(b) and all(x in b for x in a)


@functools.lru_cache(1 << 16)
def ops_of(t):
    """operations of a condition, in order"""
    if not isinstance(t, str) and t[0] == "&/":
        return ops_of(t[1]) + ops_of(t[2])
    return [t] if is_op(t) else []


def no_op(t):
    while not isinstance(t, str) and t[0] == "&/" and is_op(t[2]):
        t = t[1]
    return t


def plain_atoms(t):
    return {a for a in N.atoms(t) if re.match(r"[A-Za-z0-9^]", a)}


def subst(t, b):
    """substitution, None if the result is too deep to be represented"""
    if any(not isinstance(v, str) and N.atoms(v) & set(b) for v in b.values()):
        raise Uncertain         # the same variable name on both sides
    r = N.subst(t, b)
    f = N.fits(r)
    if f is None:
        raise Uncertain
    return r if f else None


class Snap:
    def __init__(self, s):
        self.t = s["t"]
        self.dthr = s["cfg"]["dthr"]
        self.n = s["n"]
        self.ops = {o["term"]: o["id"] for o in s["ops"]}
        self.args = {o["id"]: [a for _, a in o["args"]] for o in s["ops"]}
        self.vals, self.distance = s.get("vals", {}), s["cfg"]["sim"]
        self.bops, self.chance = s["cfg"]["bops"], s["cfg"]["babble"]
        ev = lambda e: e and ((e["f"], e["c"]), e["st"], e["ot"], N.parse(e["term"]))
        imp = lambda i: dict(term=N.parse(i["term"]), tv=(i["f"], i["c"]), st=i["st"], dt=i["dt"], valid=i["valid"], src=i["src"])
        self.c = {}
        for c in s["concepts"]:
            self.c[c["term"]] = dict(name=c["term"], id=c["id"], term=N.parse(c["term"]), bs=ev(c["bs"]), gs=ev(c["gs"]),
                                     imps={o: [imp(i) for i in tab] for o, tab in c["imps"]}, links=[imp(i) for i in c["links"]])
        self.bev = [x["p"] for x in s["bev"]]
        self.q = {l: [(x["p"], ev(x["e"])) for x in q] for l, q in s["gev"]}


def rac4(ex, inc):
    """revision and choice for (truth, stamp, time, term)"""
    if ex is None:
        return inc
    later = max(ex[2], inc[2])
    eu, iu = N.projection(ex[0], ex[2], later), N.projection(inc[0], inc[2], later)
    dep = not isinstance(inc[3], str) and inc[3][0] in ("&&", "&/") and N.has_var(inc[3], "#")
    if set(ex[1]) & set(inc[1]) or dep or (ex[2] != -1 and ex[2] != inc[2]) or ex[3] != inc[3]:
        if abs(iu[1] - eu[1]) < 1e-13 and iu != eu and ex[2] != inc[2]:
            raise Uncertain
        return inc if iu[1] > eu[1] else ex
    return (N.revision(eu, iu), N.zip_stamp(ex[1], inc[1]), later, ex[3])


class Outcomes(list):
    pass


class Judge:
    """the model: what happens to one selected goal in the memory of a snapshot"""
    def __init__(self, S):
        self.S = S
        self.negatives = {}

    def related(self, t):
        """concepts a goal is about: (concept, term of the goal made specific)"""
        out = []
        mine = plain_atoms(t)
        hv, hq = N.has_var(t), N.has_var(t, "?")
        for c in self.S.c.values():
            if c["term"] != t and not mine & plain_atoms(c["term"]):
                continue
            if not hv or hq:
                if N.unify(c["term"], t) is not None:
                    out.append((c, t))
            if hv:
                b = N.unify(t, c["term"])
                if b is not None:
                    t2 = subst(t, b)
                    if t2 is not None:
                        out.append((c, t2))
        return out

    def alike(self, general, cm):
        """(bindings, truth) if the condition is what is believed, or has values close to it"""
        f = [1.0]

        def near(a, b):
            v = self.S.vals
            if a in v and b in v and a.rpartition("_")[0] == b.rpartition("_")[0]:
                k = max(0.0, 1 - abs(v[a] - v[b]) / self.S.distance)
                f[0] *= k
                return k > 0
            return False
        b = N.unify(general, cm["term"], near=near)
        return None if b is None else (b, (cm["bs"][0][0], cm["bs"][0][1] * f[0]), f[0])

    def negative(self, opid, ops, gs):
        """do the immediate outcomes of the operation speak against it?"""
        S = self.S
        key = (opid, tuple(ops), tuple((k, v[2], v[0], tuple(v[1]), v[3]) for k, v in gs.items()))
        if key in self.negatives:
            return self.negatives[key]
        acc = None
        for c in S.c.values():
            g = gs.get(c["name"], c["gs"])
            if g is None or S.t - g[2] >= 20:
                continue
            for imp in c["imps"].get(opid, []):
                if not imp["valid"]:
                    continue
                p = S.c[imp["src"]]["bs"]
                if p is None or S.t - p[2] >= 20 or ops_of(imp["term"][1]) != ops:
                    continue
                ctx = N.goal_deduction(g[0], imp["tv"])
                tv = N.goal_deduction(ctx, N.projection(p[0], p[2], S.t))
                st = N.zip_stamp(p[1], N.zip_stamp(g[1], imp["st"]))
                acc = rac4(acc, (tv, st, S.t, no_op(imp["term"][1])))
        self.negatives[key] = acc is not None and N.exp(acc[0]) < .5
        return self.negatives[key]

    def consider(self, goal, term, imp, cm, gs, tv):
        ctx = N.goal_deduction(goal[0], imp["tv"])
        p = cm["bs"]
        desire = N.exp(N.goal_deduction(ctx, N.projection(tv, p[2], self.S.t)))
        seq = term[1]
        op = split_op(seq)[1]
        args = None
        if op is not None and not isinstance(op, str):
            if op[1][1] != ("{", "SELF"):
                return None
            args = op[1]
        if op is None:
            return None
        opid = self.S.ops.get(op_atom(op), 0)
        if self.negative(opid, ops_of(seq), gs):
            return None
        return dict(desire=desire, op=op_atom(op), args=args, prec=cm, opid=opid)

    def best(self, c, goal, gterm, gs):
        """the decision for one concept the goal is about; None or dict"""
        S = self.S
        subs = N.unify(c["term"], gterm)
        if subs is None:
            return None
        generic = N.has_var(c["term"]) and N.has_var(gterm)
        best, bd, bc = None, 0.0, 65
        for opid in range(1, 11):
            if opid not in S.ops.values():
                break
            for imp in c["imps"].get(opid, []):
                if not imp["valid"]:
                    continue
                t = subst(imp["term"], subs)
                if t is None:
                    continue
                left = no_op(t[1])
                for cm in S.c.values():
                    if cm["bs"] is None or N.has_var(cm["term"]):
                        continue
                    s2 = self.alike(left, cm)
                    if s2 is None:
                        continue
                    s2, tv, factor = s2
                    if factor < 1:      # only if no other condition of this goal comes closer to it
                        other = [x[1][1] for o in range(1, 11) if o in S.ops.values() for j in c["imps"].get(o, []) if j["valid"] for x in [self.alike(no_op(j["term"][1]), cm)] if x]
                        if any(x > tv[1] + 1e-12 for x in other):
                            continue
                        if any(x > tv[1] for x in other):
                            raise Uncertain
                    spec = subst(t, s2)
                    if spec is None:
                        continue
                    if generic and N.has_var(spec, "$"):
                        continue
                    d = self.consider(goal, spec, imp, cm, gs, tv)
                    desire = d["desire"] if d else 0.0
                    if N.has_var(imp["term"]):
                        rc = S.c.get(N.show(spec[2]))
                        if rc and any(j["term"] == spec and j["tv"][1] > .05 and j["tv"][0] < .5 for j in rc["imps"].get(opid, [])):
                            continue
                    k = complexity(spec)
                    if abs(desire - bd) < 1e-12 and desire != bd:
                        raise Uncertain
                    if desire > bd or (desire == bd and k < bc):
                        best, bd, bc = d and dict(d, imp=imp, impterm=t, spec=spec), desire, k
        if best is None or bd < S.dthr:
            if best is not None and abs(bd - S.dthr) < 1e-12:
                raise Uncertain
            return None
        if abs(bd - S.dthr) < 1e-12:
            raise Uncertain
        return best

    def decide(self, goal):
        """-> list of acceptable outcomes, each (decisions of all concepts, chosen ones)"""
        S = self.S
        rel = self.related(goal[3])
        if len(rel) > 3:
            raise Uncertain
        outs = Outcomes()
        outs.rel = rel
        for order in itertools.permutations(rel):
            gs = {}
            ds = []
            for c, t in order:
                old = gs.get(c["name"], c["gs"])
                if old is None or goal[2] > old[2]:
                    gs[c["name"]] = (goal[0], goal[1], goal[2], t)
                d = self.best(c, goal, t, gs)
                if d:
                    ds.append(d)
            top = max([d["desire"] for d in ds], default=None)
            outs.append((ds, [d for d in ds if d["desire"] == top], gs))
        return outs

    # -- subgoals
    def sequence(self, goal, prio):
        S = self.S
        comps = []
        t = goal[3]
        while not isinstance(t, str) and t[0] == "&/":
            comps.append(t[2]); t = t[1]
        comps.append(t)
        comps.reverse()           # in order of time
        if any(N.has_var(x) for x in comps):
            raise Uncertain
        tv, st = N.projection(goal[0], goal[2], S.t), goal[1]
        last = -1
        i = 0
        while True:
            c = S.c.get(N.show(comps[i]))
            b = c and c["bs"]
            if b is None or b[2] < last or N.exp(N.projection(b[0], b[2], S.t)) < .501:
                break
            if i == len(comps) - 1:
                return []         # all of it happened
            last = b[2]
            tv = N.goal_deduction(tv, N.projection(b[0], b[2], S.t))
            st = N.zip_stamp(b[1], st)
            i += 1
        if i == 0:
            tv = N.deduction(tv, (1.0, .9))
        return [(prio * N.exp(tv), (tv, st, S.t, comps[i]))]

    def propagate(self, goal, prio, gs):
        S = self.S
        out = []
        new = {}
        for c, _ in self.related_plain(goal[3]):
            g = rac4(gs.get(c["name"], c["gs"]), goal)
            new[c["name"]] = g
            for tab in [c["imps"].get(o, []) for o in range(11)] + [c["links"]]:
                for imp in tab:
                    if not imp["valid"]:
                        continue
                    b = N.unify(imp["term"][2], g[3])
                    if b is None:
                        continue
                    t = subst(imp["term"], b)
                    if t is None:
                        continue
                    tv = N.goal_deduction(g[0], imp["tv"])
                    out.append((prio * N.exp(tv), (tv, N.zip_stamp(g[1], imp["st"]), S.t, no_op(t[1]))))
        return out, new

    def related_plain(self, t):
        mine = plain_atoms(t)
        return [(c, None) for c in self.S.c.values() if (c["term"] == t or mine & plain_atoms(c["term"])) and N.unify(c["term"], t) is not None]


def close(e, x):
    """same goal event?"""
    return e[3] == x[3] and e[2] == x[2] and N.tclose(e[0], x[0]) and sorted(e[1]) == sorted(x[1])


def lang_lines(rng, deep):
    """knowledge, events and goals for goal-directed behaviour"""
    A = ["s%d" % k for k in range(rng.choice([2, 3, 5]))]
    G = ["g%d" % k for k in range(rng.choice([1, 2, 3]))]
    nops = rng.choice([1, 2, 3, 5])
    ops = gen.OPS[:nops] if rng.random() < .6 else rng.sample(gen.OPS, nops)
    if ops[0] != gen.OPS[0] and gen.OPS[9] not in ops and rng.random() < .3:
        ops[rng.randrange(nops)] = gen.OPS[9]
    general = rng.random() < .35
    args = rng.random() < .5
    lines = ["*babblingops=%d" % nops]
    numeric = rng.random() < .25
    if numeric:
        lines.append(rng.choice(["*space 10 v", "*space 10 v", "*space 10 w"]))
        if rng.random() < .6:
            lines.append(rng.choice(["*space 10 w", "*setvalue 0.45 100 v", "*setvalue 0.5 100 v", "*setvalue 2.5 10 v"]))
        if rng.random() < .4:
            lines.append("*similaritydistance=%s" % rng.choice(["0.1", "0.25", "0.5", "0.9", "2.0"]))

    def value():
        return rng.choice(["v_0.%d", "v_0.%d", "v_0.%d", "w_0.%d"]) % rng.randrange(10) if rng.random() < .9 else rng.choice(["v_0.45", "v_0.50", "v_2.5", "w_9.9"])

    def other(e):
        """perhaps the same with other values"""
        return re.sub(r"[vw]_\d\.\d+", lambda m: value() if rng.random() < .6 else m.group(0), e)

    def tv(p=.5):
        if rng.random() > p:
            return ""
        return " {%s %s}" % (rng.choice(["1.0", "0.0", "0.9", "0.3", "%.3f" % rng.random()]), rng.choice(["0.9", "0.99", "0.5", "0.2", "%.3f" % (.02 + .97 * rng.random())]))

    def cond():
        k = rng.random()
        if numeric and k < .5:
            return rng.choice(["<%s --> [%s]>", "<%s --> [%s]>", "<(%s * %s) --> p0>"]) % (rng.choice(["x", "y"]), value())
        if general and k < .4:
            return "<%s --> p%d>" % (rng.choice(["x", "y", "{z}"]), rng.randrange(2))
        if k < .15:
            return "(%s &/ %s)" % (rng.choice(A), rng.choice(A))
        return rng.choice(A)

    def goal():
        if general and rng.random() < .4:
            return "<%s --> q%d>" % (rng.choice(["x", "y", "{z}"]), rng.randrange(2))
        return rng.choice(G)

    def op():
        o = rng.choice(ops)
        if args and rng.random() < .5:
            return "<({SELF} * %s) --> %s>" % (rng.choice(["x", "y", "{z}"]), o)
        return o

    def imp():
        k = rng.random()
        if general and k < .35:
            o = rng.choice(ops)
            v = "$1"
            if args and rng.random() < .6:
                o = "<({SELF} * $1) --> %s>" % o
            post = "<$1 --> q%d>" % rng.randrange(2) if rng.random() < .7 else rng.choice(G)
            pre = "<$1 --> p%d>" % rng.randrange(2) if not numeric or rng.random() < .4 else "<$1 --> [%s]>" % value()
            if args and rng.random() < .15:     # somebody does it
                return "<(<{$1} --> p0> &/ <({$1} * %s) --> %s>) =/> %s>" % (rng.choice(["x", "y"]), ops[0], rng.choice(["g0", "<{$1} --> q0>"]))
            if "$1" not in post and "$1" not in o:
                pre = "<$1 --> p0>"; post = "<$1 --> q0>"
            return "<(%s &/ %s) =/> %s>" % (pre, o, post)
        if deep and k < .6:
            return rng.choice(["<%s =/> %s>", "<%s =/> %s>", "<%s ==> %s>"]) % (rng.choice([cond(), rng.choice(G)]), goal())
        if deep and k < .75:
            return "<(%s &/ %s) =/> %s>" % (rng.choice(G), op(), goal())
        return "<(%s &/ %s) =/> %s>" % (cond(), op(), goal())
    known = []

    def know(p):
        t = imp()
        known.append(t)
        lines.append("%s.%s" % (t, tv(p)))
        if "$1" in t and rng.random() < .3:     # and an instance of it
            t = t.replace("$1", rng.choice(["x", "y"]))
            lines.append("%s. {%s %s}" % (t, rng.choice(["0.1", "0.3", "0.4", "0.45", "0.5", "0.7"]), rng.choice(["0.04", "0.06", "0.3", "0.9"])))

    def scene():
        """the condition of something known comes true, then its outcome is wanted"""
        m = re.match(r"<\((.*) &/ ([^&]*)\) =/> (.*)>$", rng.choice(known))
        if not m:
            return
        w = rng.choice(["x", "y", "{z}"]) if "{$1}" not in m.group(1) else rng.choice(["SELF", "SELF", "z"])
        events = [m.group(1)]
        while events[0].startswith("(") and "&/" in events[0]:
            l, r = re.match(r"\((.*) &/ ([^&]*)\)$", events[0]).groups()
            events[:1] = [l, r]
        for e in events:
            if e in A or e.startswith("<"):
                lines.append("%s. :|:%s" % (other(e.replace("$1", w)), tv(.25)))
            else:
                lines.append("%s. :|:" % rng.choice(A))
        for _ in range(rng.choice([0, 0, 0, 1, 2])):
            lines.append(rng.choice(["1", "2", "5", "%s. :|:%s" % (rng.choice(A), tv(.3)), "<%s --> p0>. :|:" % rng.choice(["x", "y"])]))
        g = m.group(3).replace("$1", w if rng.random() < .7 else rng.choice(["x", "y", "?1", "$1"]))
        if rng.random() < .15:                              # something else is to be avoided
            lines.append("%s! :|: {0.0 0.9}" % goal())
            if rng.random() < .4:
                lines.append(str(rng.randrange(14, 22)))
                for e in events:
                    if e in A or e.startswith("<"):
                        lines.append("%s. :|:" % e.replace("$1", w))
            if rng.random() < .2:
                lines.append(str(rng.randrange(14, 22)))
        lines.append("%s! :|:%s" % (g, tv(.2)))
    n = rng.choice([5, 8, 12]) if deep else rng.choice([8, 12, 20])
    for _ in range(rng.choice([1, 3, 6])):
        know(.5)
    for _ in range(n):
        k = rng.random()
        if k < .2:
            know(.4)
        elif k < (.5 if deep else .7):
            scene()
        elif k < (.62 if deep else .75):
            e = cond()
            if e.startswith("("):
                e = rng.choice(A)
            lines.append("%s. :|:%s" % (e, tv(.4)))
        elif k < .87:
            g = goal()
            if deep and rng.random() < .4:
                g = "(%s &/ %s)" % (rng.choice(A + G), rng.choice(A + G))
                if rng.random() < .4:
                    g = "(%s &/ %s)" % (g, rng.choice(A + G))
            lines.append("%s! :|:%s" % (g, tv(.3)))
        elif k < .9:
            lines.append("%s. :|:" % op())
        elif k < .92:
            lines.append("*decisionthreshold=%s" % rng.choice(["0.501", "0.55", "0.6", "0.7"]))
        else:
            lines.append(rng.choice(["1", "2", "3", "5", "18" if rng.random() < .3 else "", ""]))
    return lines, ops


class GoalProp(Prop):
    variants = ("mid",)
    kinds = ()
    deep = False
    babble = False

    def gen(self, rng, i, tier):
        lines, ops = lang_lines(rng, self.deep)
        sc = [("".join(rng.choice("..x") for _ in range(30)) if rng.random() < .3 else "") for _ in ops]
        return {"params": {"variant": "mid", "prng": rng.randrange(1, 1 << 30), "script": sc, "names": list(ops)}, "ops": lines}

    def execute(self, case, R):
        p = case["params"]
        plan = ["mode shell", "prng %d" % p["prng"], "snap-sel 1"]
        plan += ["addop %d %s %s" % (k + 1, nm, sc) for k, (nm, sc) in enumerate(zip(p.get("names", gen.OPS), p["script"])) if sc]
        plan += ["line *motorbabbling=false"] * (not self.babble) + [l[1:] if l[:1] == "@" else "line " + l for l in case["ops"]]
        h = self.h = R.run(p["variant"], plan)
        self.variant = p["variant"]
        full = (h.bad_end() or "").startswith("OUTPUTLIMIT")      # too much to look at: what there is, is judged
        vs = [] if full else died(h)
        self.info = dict(goals=0, decisions=0, none=0, subgoals=0, uncertain=0)
        # split into cycles by depth
        stack = []
        tag = None
        ended = None        # the cycle that just ended, until a final snapshot of it
        for k, t in h.recs:
            if vs:
                break
            if k == "CYCE":
                tag = k
            elif k == "S" and tag == "CYCE" and ended is not None:
                try:
                    ended.append((tag, json.loads(t)))
                except ValueError:
                    break
                tag = None
            else:
                if ended is not None:
                    vs += self.cycle(ended, GQCAP[self.variant])
                    ended = None
                if k == "CB":
                    acted = stack and any(r[0] == ">" and EXEC.match(r[1]) for r in stack[-1])
                    if stack:
                        stack[-1].append(("NEST", None))
                    stack.append([("AFTER", None)] if acted else [])
                elif k == "CE":
                    ended = stack.pop()
                elif k in ("SEL", "CYC"):
                    tag = k
                elif k == "S" and stack and tag:
                    try:
                        stack[-1].append((tag, json.loads(t)))
                    except ValueError:
                        break       # cut off
                    tag = None
                elif k == ">" and stack:
                    stack[-1].append((">", t))
        if ended is not None and not vs and not full:
            vs += self.cycle(ended, GQCAP[self.variant])
        vs = [v for v in vs if v[0] in self.kinds or v[0] == "died"]
        return vs[:2], dict(self.info, sig=h.hash(), nontrivial=self.info["decisions"] > 0 if not self.deep else self.info["subgoals"] > 1)

    def cycle(self, recs, cap):
        """judge one cycle's goals"""
        vs = []
        n = self.info
        q = None
        i = 0
        pos = [k for k, r in enumerate(recs) if r[0] == "SEL"]
        cyc = [r for r in recs if r[0] == "CYC"]
        if cyc and recs[0][0] == "AFTER":
            left = Snap(cyc[0][1]).q
            if any(left.values()):
                return [Violation("goals-kept", "t=%d: an operation was just executed, still goals wait in layers %r" % (cyc[0][1]["t"], sorted(l for l in left if left[l])))]
        if not cyc or not pos:
            if cyc and not any(r[0] == "NEST" for r in recs):
                S = Snap(cyc[0][1])
                if any(S.q.values()):
                    return [Violation("goal-not-selected", "t=%d: goals waiting in layers %r, none processed" % (S.t, sorted(S.q)))]
            return []
        q = {l: list(x) for l, x in Snap(cyc[0][1]).q.items()}   # the queues, followed through the cycle
        layer = -1
        gs_want = {}
        for k in pos:
            line = recs[k - 1][1]
            m = SELLINE.match(line)
            end = pos[pos.index(k) + 1] - 1 if k != pos[-1] else len(recs)
            out = [r[1] for r in recs[k + 1:end] if r[0] == ">"]
            nested = any(r[0] == "NEST" for r in recs[k + 1:end])
            S = Snap(recs[k][1])
            n["goals"] += 1
            head = "t=%d %s: " % (S.t, line[:100])
            # which goal is it: the best of the next layer anything waits in
            hit = []
            while not hit:
                layer += 1
                if layer >= LAYERS:
                    return vs + [Violation("goal-from-nowhere", head + "no such goal was waiting")]
                ql = q.get(layer, [])
                top = max([x[0] for x in ql if len(x) < 3], default=0)
                cands = [x for x in ql if x[0] >= top * (1 - 1e-12)]
                hit = [x for x in cands if N.show(x[1][3]) == m.group(1) and x[1][2] == int(m.group(2)) and ",".join(map(str, x[1][1])) == m.group(4)
                       and abs(x[1][0][0] - float(m.group(5))) < 2e-6 and abs(x[1][0][1] - float(m.group(6))) < 2e-6 and abs(x[0] - float(m.group(3))) < 2e-6]
                if not hit and top:
                    return vs + [Violation("goal-selection", head + "layer %d should give %r" % (layer, [(x[0],) + x[1] for x in cands]))]
            ql.remove(hit[0])
            prio, goal = hit[0][:2]
            v = self.compare(q, S, gs_want, head, 1.0)
            if v:
                return vs + v
            q = {l: list(x) for l, x in S.q.items()}
            J = Judge(S)
            try:
                if N.show(goal[3]) not in S.c and S.n >= CAPACITY[self.variant] - 2:
                    raise Uncertain         # a concept will be forgotten, nobody knows which
                pushes, gs_want = self.one(J, goal, prio, out, nested, head, vs)
                self.ids = {name: c["id"] for name, c in S.c.items()}
                if nested or any(EXEC.match(o) for o in out):
                    if not nested and recs[-1][0] == "CYCE" and any(Snap(recs[-1][1]).q.values()):
                        vs.append(Violation("goals-kept", head + "an operation was executed, still goals wait at the end of the cycle"))
                    return vs          # acted: all goals are dropped, a new cycle follows
                if vs:
                    return vs
                nl = min(LAYERS - 1, layer + 1)
                pushed = []
                for pr, e in pushes:
                    pr *= 1.0 / math.log2(1.0 + complexity(e[3]))
                    if abs(e[0][1] - .01) < 1e-12:
                        raise Uncertain
                    if e[0][1] < .01 or pr <= 0:
                        continue
                    g = gs_want.get(N.show(e[3])) or (S.c.get(N.show(e[3])) or {}).get("gs")
                    there = [x for x in [g] + [y[1] for l in q.values() for y in l] if x is not None and x[3] == e[3] and x[2] == e[2]
                             and (set(e[1]) <= set(x[1]) or set(x[1]) <= set(e[1])) and N.tclose(x[0], e[0], 1e-9)]
                    if any(x[0] == e[0] and sorted(x[1]) == sorted(e[1]) for x in there):
                        continue        # the same goal is there already
                    ql = q.setdefault(nl, [])
                    if len(ql) >= cap:
                        raise Uncertain
                    if there:           # which of the two stays depends on an order nobody promises
                        ql[:] = [(x[0], x[1], "maybe") if x[1] in there and x[1] in pushed else x for x in ql]
                    ql.append((pr, e, "maybe") if there else (pr, e))
                    pushed.append(e)
                    n["subgoals"] += 1
            except Uncertain:
                n["uncertain"] += 1
                return vs
        last = recs[-1]
        if last[0] == "CYCE":
            vs += self.compare(q, Snap(last[1]), gs_want, "t=%d end of cycle: " % S.t, .9999)
        return vs

    def compare(self, q, S, gs, head, decay):
        for l in sorted(set(q) | set(S.q)):
            a = sorted(q.get(l, []), key=lambda x: (-x[0], N.show(x[1][3])))
            b = list(S.q.get(l, []))
            for x in a:
                y = [y for y in b if close(x[1], y[1]) and abs(y[0] - x[0] * decay) < 1e-9]
                if not y and len(x) > 2:
                    continue
                if not y:
                    return [Violation("subgoals", head + "goal %r should wait in layer %d; there wait %r" % (x, l, [(y[0],) + y[1] for y in b][:4]))]
                b.remove(y[0])
            if b:
                return [Violation("subgoals", head + "goal %r waits in layer %d, which nothing asks for" % (b[0], l))]
        for name, g in gs.items():
            c = S.c.get(name)
            if c is None or self.ids.get(name) not in (None, c["id"]):
                continue            # forgotten since
            if c["gs"] is None or not close(g, c["gs"]):
                return [Violation("goal-state", head + "current goal of %s should be %r, is %r" % (name, g, c["gs"]))]
        return []

    def one(self, J, goal, prio, out, nested, head, vs):
        n = self.info
        S = J.S
        dec = [d for d in map(DECLINE.match, out) if d]
        ex = [d for d in map(EXEC.match, out) if d]
        t = goal[3]
        if not isinstance(t, str) and t[0] == "&/":
            if dec or ex:
                vs.append(Violation("decision", head + "decided %r for a sequence goal" % (out[:3],)))
            push = J.sequence(goal, prio)
            more, new = J.propagate(goal, prio, {})
            return push + more, new
        known = N.show(t) in S.c
        if not known:   # its concept is created now
            S.c[N.show(t)] = dict(name=N.show(t), id=None, term=t, bs=None, gs=None, imps={}, links=[])
        outs = J.decide(goal)
        ok = False
        why = None
        for ds, top, gs in outs:
            w = self.babbled(J, ds, top, dec, ex, len(outs.rel)) if S.chance > 0 else self.match(ds, top, dec, ex)
            why = why or w
            if w is None:
                ok = True
                J.chosen = top
                break
        if not ok:
            vs.append(Violation("decision", head + why))
            return [], {}
        n["decisions" if ds else "none"] += 1
        if ds or ex:
            return [], {}
        push, new = J.propagate(goal, prio, gs)
        return push, dict(gs, **new)

    def match(self, ds, top, dec, ex, lines_only=False):
        want = [(d["desire"], d["impterm"], d["imp"], d["prec"]) for d in ds]
        desc = "; ".join("%.6f by %s in %s" % (d["desire"], N.show(d["imp"]["term"]), d["prec"]["name"]) for d in ds) or "no decision"
        if len(ds) != len(dec):
            return "expected %s; printed %r" % (desc, [d.group(0) for d in dec])
        left = list(dec)
        for d in ds:
            hit = None
            for l in left:
                b = d["prec"]["bs"]
                if (abs(float(l.group(1)) - d["desire"]) < 1e-6 and l.group(2) == N.show(d["impterm"]) and l.group(3) == ",".join(map(str, d["imp"]["st"]))
                        and abs(float(l.group(4)) - d["imp"]["tv"][0]) < 1e-6 and abs(float(l.group(5)) - d["imp"]["tv"][1]) < 1e-6
                        and l.group(7) == N.show(b[3]) and l.group(8) == ",".join(map(str, b[1])) and int(l.group(11)) == b[2]
                        and abs(float(l.group(9)) - b[0][0]) < 1e-6 and abs(float(l.group(10)) - b[0][1]) < 1e-6):
                    hit = l
                    break
            if hit is None:
                return "expected %s; printed %r" % (desc, [x.group(0) for x in left])
            left.remove(hit)
        if lines_only:
            return None
        if not ds:
            return "nothing should be executed, but %r" % ex[0].group(0) if ex else None
        if not ex:
            return "expected execution by %s, nothing was executed" % desc
        for d in top:
            if ex[0].group(1) == d["op"] and ex[0].group(2).strip() == (N.show(d["args"]) if d["args"] else ""):
                return None
        return "expected execution by %s, but %r" % (desc, ex[0].group(0))


class D02(GoalProp):
    id = "D02"
    title = "Exploration stays within its settings"
    kinds = ("decision", "babble")
    babble = True
    quick_cases = 220
    thorough_cases = 30000
    rule = "each case is a seeded session of knowledge and many goals with some babbling settings; it counts if an operation was tried out"

    def gen(self, rng, i, tier):
        lines, ops = lang_lines(rng, False)
        out = []
        if rng.random() < .85:
            out.append("*motorbabbling=%s" % rng.choice(["0", "0.05", "0.2", "0.5", "0.9", "1.0", "true", "false"]))
        bops = rng.choice([0, 1, 1, 2, 3, 5, 10, 50])
        if rng.random() < .8:
            out.append("*babblingops=%d" % bops)
        for o in range(1, 6):
            if rng.random() < .35:
                for k in range(1, 1 + rng.choice([1, 2, 3, 10])):
                    out.append("*setoparg %d %d %s" % (o, k, rng.choice(["x", "y", "{z}", "a%d" % k, "(x * y)", "<x --> y>"])))
        if rng.random() < .2 and gen.OPS[9] not in ops:
            out.append("*setopname 10 ^extra")    # not one in use: knowledge about operators that no longer exist is refused
        body = [l for l in lines if not l.startswith("*babblingops")]
        goals = ["%s! :|:" % g for g in ("w0", "w1", "w2")]
        count = rng.choice([10, 40, 60])
        every = False
        if rng.random() < .15:               # long enough to see everything tried out
            out.append("*motorbabbling=%s" % rng.choice(["0.9", "1.0"]))
            body = body[:rng.choice([2, 10])]
            count = rng.choice([80, 220])
            if rng.random() < .3:            # with all operators
                every, count = True, 320
                out.append("*babblingops=%d" % rng.choice([9, 10, 10, 20]))
                out.append("*motorbabbling=1.0")
        weak = rng.random() < .5 and not every           # a reason too weak to stop exploration
        if weak:
            body.insert(0, "<(s0 &/ %s) =/> w0>. {1.0 %.3f}" % (rng.choice(ops), .02 + .12 * rng.random()))
        for _ in range(count):
            k = rng.randrange(len(body) + 1)
            g = rng.choice(goals)
            body[k:k] = (["s0. :|:"] if weak and g[:2] == "w0" else []) + [g]
        if rng.random() < .3 and not every:
            body.insert(rng.randrange(len(body)), "*motorbabbling=%s" % rng.choice(["0", "false", "1.0"]))
        if rng.random() < .3 and not every:
            body.insert(rng.randrange(len(body)), "*babblingops=%d" % rng.choice([0, 1, 2, 4]))
        sc = [("".join(rng.choice("..x") for _ in range(30)) if rng.random() < .3 else "") for _ in range(5)]
        return {"params": {"variant": "mid", "prng": rng.randrange(1, 1 << 30), "script": sc, "names": (list(ops) + [o for o in gen.OPS if o not in ops])[:5]}, "ops": out + body}

    def execute(self, case, R):
        self.tries = {}
        self.weak = {}
        self.chosen = {}
        v, info = super().execute(case, R)
        if not v:
            v = self.rates()
        info["nontrivial"] = info.get("babbled", 0) > 0
        return v, info

    def rates(self):
        for (chance, free), (n, got) in sorted(self.tries.items()):
            q = int(chance * 32767) / 32768
            p = 1 - (1 - q) ** free
            if n >= 25 and abs(got - n * p) > 5 * math.sqrt(n * p * (1 - p)) + 1.5:
                return [Violation("babble", "with a chance of %g, %d of %d goals nothing was suggested for made an operation tried out" % (chance, got, n))]
        for chance, (n, got) in sorted(self.weak.items()):
            if not got and n * math.log(1 - chance / 2) < -15:
                return [Violation("babble", "with a chance of %g, none of %d goals with weak suggestions only made an operation tried out" % (chance, n))]
        for (what, among), got in sorted(self.chosen.items()):
            n = sum(got.values())
            for x in range(among):
                if not got.get(x) and n * math.log(1 - 1 / among) < -18:
                    return [Violation("babble", "%s %d of %d was never among %d tried out" % (what, x + 1, among, n))]
        return []

    def babbled(self, J, ds, top, dec, ex, free):
        S = J.S
        n = self.info
        w = self.match(ds, top, dec, ex, lines_only=True)
        if w:
            return w
        n.setdefault("babbled", 0)
        names = {i: t for t, i in S.ops.items()}
        count = 0
        while count + 1 in names:
            count += 1
        can = min(S.bops, count)
        done = ex and (ex[0].group(1), ex[0].group(2).strip())
        good = sum(d["desire"] > .55 for d in ds)
        as_said = done and any(done == (d["op"], N.show(d["args"]) if d["args"] else "") for d in top)
        if not ds and can > 0:
            t = self.tries.setdefault((S.chance, free), [0, 0])
            t[0] += 1
            t[1] += bool(ex)
        elif ds and not good and can > 1:
            t = self.weak.setdefault(S.chance, [0, 0])
            t[0] += 1
            t[1] += bool(ex and not as_said)
        if as_said:
            return None
        if not ex:
            return "expected an execution, nothing was executed" if ds else None
        if good >= free:
            return "%s executed although everything good enough was suggested otherwise" % (done,)
        ok = [(names[k], "({SELF} * %s)" % a if a else "") for k in range(1, can + 1) for a in (S.args.get(k) or [""])]
        if done not in ok:
            return "%s executed, but only %r may be tried out" % (done, ok)
        n["babbled"] += 1
        k = [k for k in range(1, can + 1) if names[k] == done[0]]
        if len(k) == 1 and not ds:
            self.count("operation", can, k[0] - 1)
            args = ["({SELF} * %s)" % a for a in (S.args.get(k[0]) or [])]
            if len(set(args)) == len(args) > 1:
                self.count("argument of " + done[0], len(args), args.index(done[1]))
        return None

    def count(self, what, among, x):
        c = self.chosen.setdefault((what, among), {})
        c[x] = c.get(x, 0) + 1


class D01(GoalProp):
    id = "D01"
    title = "The best supported operation is executed"
    kinds = ("decision",)
    quick_cases = 380
    thorough_cases = 80000
    rule = "each case is a seeded session of knowledge, events and goals; it counts if a decision was made"


class D03(GoalProp):
    id = "D03"
    title = "Goals become the subgoals that lead to them"
    kinds = ("subgoals", "goals-kept", "goal-state", "goal-selection", "goal-from-nowhere", "goal-not-selected")
    deep = True
    quick_cases = 2000
    thorough_cases = 80000
    rule = "each case is a seeded session of knowledge, events, goals and sequence goals; it counts if at least two subgoals arose"


class M03(GoalProp):
    id = "M03"
    title = "Knowledge about forgotten concepts is not used, and comes back when re-entered"
    variants = ("tiny", "small")
    deep = True
    kinds = ("decision", "subgoals", "goal-selection", "goal-state", "not-restored", "not-its-concept")
    quick_cases = 300
    thorough_cases = 30000
    rule = "each case is a seeded session with far more concepts than memory holds; it counts if a decision or subgoal was judged and knowledge became invalid"

    def gen(self, rng, i, tier):
        lines, ops = lang_lines(rng, rng.random() < .5)
        variant = rng.choice(["tiny", "tiny", "small"])
        imps = [l for l in lines if "=/>" in l or "==>" in l] or ["<(s0 &/ ^left) =/> g0>."]
        out = []
        n = 0
        for l in lines:
            out.append(l)
            k = rng.random()
            if k < .25:      # push something out
                for _ in range(rng.choice([1, 3, 10, 30]) * (1 if variant == "tiny" else 3)):
                    n += 1
                    out.append(rng.choice(["f%d." % n, "f%d. :|:" % n, "<f%d --> h>." % n, "f%d! :|:" % n]) if rng.random() < .8 else rng.choice(["g0! :|:", "g0. :|:", "g0."]))
            elif k < .5:
                out.append(rng.choice(imps))
            elif k < .6:
                t = rng.choice(imps)
                m = re.match(r"<\(?(\w+) ", t)
                out.append((m.group(1) if m else "s0") + ". :|:")
                out.append("g%d! :|:" % rng.randrange(2))
        full = []
        for l in out:
            full += ["@state 1", l, "@state 1"] if "=/>" in l or "==>" in l else [l]
        sc = [("".join(rng.choice("..x") for _ in range(30)) if rng.random() < .2 else "") for _ in ops]
        return {"params": {"variant": variant, "prng": rng.randrange(1, 1 << 30), "script": sc, "names": list(ops)}, "ops": full}

    def execute(self, case, R):
        vs, info = super().execute(case, R)
        prev = line = None
        lost = 0
        for k, t in self.h.recs:
            if vs:
                break
            if k == "IN":
                prev, line = prev, t.partition(" ")[2]
            if k != "S":
                continue
            try:
                s = json.loads(t)
            except ValueError:
                break
            lost += sum(not i["valid"] for c in s["concepts"] for _, tab in c["imps"] for i in tab)
            v, prev = self.bookkeeping(s, prev, line)
            line = None
            vs = vs + v
        return vs[:2], dict(info, lost=lost, nontrivial=lost > 0 and info["decisions"] + info["subgoals"] > 0)

    def bookkeeping(self, s, prev, line):
        ids = {c["term"]: c["id"] for c in s["concepts"]}
        for c in s["concepts"]:
            for imp in [i for _, tab in c["imps"] for i in tab] + c["links"]:
                term = N.parse(imp["term"])
                if imp["valid"] and imp["src"] != N.show(no_op(term[1])):
                    return [Violation("not-its-concept", "t=%d: %s is considered to be about %s" % (s["t"], imp["term"], imp["src"]))], s
        if line and prev and ("=/>" in line or "==>" in line):
            term = N.parse(line.partition(">.")[0] + ">")
            src = N.show(no_op(term[1]))
            was = {c["term"]: c["id"] for c in prev["concepts"]}
            for c in s["concepts"]:
                if c["term"] != N.show(term[2]) or src not in ids:
                    continue
                for imp in [i for _, tab in c["imps"] for i in tab] + c["links"]:
                    if N.parse(imp["term"]) == term and not imp["valid"] and imp["sid"] < prev["cid"] and (was.get(src) == ids[src] or src not in was):
                        return [Violation("not-restored", "t=%d: after %r this knowledge still belongs to a forgotten concept %d, %s has id %d" % (s["t"], line, imp["sid"], src, ids[src]))], s
        return [], s
