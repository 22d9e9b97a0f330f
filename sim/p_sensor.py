"""Properties about the sensorimotor part: temporal learning, prediction, decisions, subgoals."""
import json, re
from core import Prop, Violation
import gen
import narsese as N
from p_reason import died

MINC, WIN, SEQLEN = .01, 20, 3


def rac(ex, inc):
    """revision and choice; events as (truth, stamp, occurrence), None = nothing"""
    if ex is None:
        return inc
    later = max(ex[2], inc[2])
    eu, iu = N.projection(ex[0], ex[2], later), N.projection(inc[0], inc[2], later)
    if set(ex[1]) & set(inc[1]) or (ex[2] != -1 and ex[2] != inc[2]):
        return inc if iu[1] > eu[1] else ex
    return (N.revision(eu, iu), N.zip_stamp(ex[1], inc[1]), later)


def is_op(t):
    if isinstance(t, str):
        return t.startswith("^")
    return t[0] == "-->" and isinstance(t[2], str) and t[2].startswith("^") and not isinstance(t[1], str) and t[1][0] == "*" \
        and not isinstance(t[1][1], str) and t[1][1][0] == "{"


def op_atom(t):
    return t if isinstance(t, str) else t[2]


def split_op(t):
    """(precondition, op) of an implication's left side"""
    if not isinstance(t, str) and t[0] == "&/" and is_op(t[2]):
        return t[1], t[2]
    return t, None


class Mem:
    """model of the part of memory temporal learning works on, taken from a snapshot"""
    def __init__(self, s, size):
        self.t = s["t"]
        self.ac = s["cfg"]["ac"]
        self.size = size
        self.ops = {o["term"]: o["id"] for o in s["ops"]}
        self.c = {}
        slot = {}
        for c in s["concepts"]:
            e = lambda k: ((c[k]["f"], c[k]["c"]), c[k]["st"], c[k]["ot"]) if c[k] else None
            self.c[c["term"]] = dict(term=N.parse(c["term"]), bs=e("bs"), ct=c["bs"]["ct"] if c["bs"] else None, pb=e("pb"), ls=c["ls"], imps={})
            slot[c["slot"]] = c["term"]
            for op, tab in c["imps"]:
                self.c[c["term"]]["imps"][op] = [dict(term=N.parse(i["term"]), tv=(i["f"], i["c"]), st=i["st"], dt=i["dt"], valid=i["valid"]) for i in tab]
        self.oti = [slot.get(x) for x in s["oti"]]
        self.stats = dict(links=0, seqs=0, anticipated=0)

    def opid(self, t):
        return self.ops.get(op_atom(t), 0) if is_op(t) else 0

    def concept(self, t):
        n = N.show(t)
        if n not in self.c:
            self.c[n] = dict(term=t, bs=None, ct=None, pb=None, ls=0, imps={})
        return self.c[n]

    def oti_add(self, name, cap):
        self.oti = ([name] + self.oti)[:cap]

    # -- tables
    def put(self, tab, imp):
        x = N.exp(imp["tv"])
        for i in range(TABLE):
            if i == len(tab) or x > N.exp(tab[i]["tv"]):
                tab.insert(i, imp)
                del tab[TABLE:]
                return

    def learn(self, opi, imp):
        pre, post = imp["term"][1], imp["term"][2]
        tab = self.concept(post)["imps"].setdefault(opi, [])
        self.concept(split_op(pre)[0])
        for i, o in enumerate(tab):
            if o["term"] == imp["term"]:
                w1, w2 = N.c2w(o["tv"][1]), N.c2w(imp["tv"][1])
                new = dict(o, tv=N.revision(o["tv"], imp["tv"]), st=N.zip_stamp(o["st"], imp["st"]),
                           dt=o["dt"] if w1 + w2 == 0 else (w1 * o["dt"] + w2 * imp["dt"]) / (w1 + w2))
                del tab[i]
                self.put(tab, new)
                return
        self.put(tab, dict(imp, valid=1))

    def link(self, a, at, ast, aot, b, bev):
        """a =/> b observed"""
        pre, op = split_op(a)
        if N.show(pre) not in self.c or N.show(b) not in self.c or pre == b or set(ast) & set(bev[1]):
            return
        ap = N.projection(at, aot, bev[2])
        tv = N.induction(bev[0], ap)
        if tv[1] < MINC:
            return
        ev = N.eternalize(tv)
        self.stats["links"] += 1
        self.learn(self.opid(op) if op is not None else 0, dict(term=("=/>", a, b), tv=ev, st=N.zip_stamp(ast, bev[1]), dt=float(bev[2] - aot)))

    # -- one selected event
    def process(self, term, ev, prio, cap):
        t = self.t
        c = self.concept(term)
        c["ls"] = t
        if c["bs"] is None or ev[2] > c["bs"][2]:
            c["bs"], c["ct"] = ev, t
        my = self.opid(term)
        ot = ev[2]

        def near(x, strict):
            d, l = abs(x["bs"][2] - ot), abs(x["ls"] - ot)
            return (d < WIN and l < WIN) if strict else (d <= WIN and l <= WIN)
        if not my:
            seen = set()
            for on in list(self.oti):
                if on in seen or on not in self.c:
                    continue
                seen.add(on)
                o = self.c[on]
                if not self.opid(o["term"]) or o["bs"] is None or o["ct"] >= t or o["bs"][2] >= ot or not near(o, True):
                    continue
                seen2 = set()
                for pn in list(self.oti):
                    if pn in seen2 or pn not in self.c:
                        continue
                    seen2.add(pn)
                    p = self.c[pn]
                    if self.opid(p["term"]) or p["bs"] is None or p["ct"] >= t or p["bs"][2] >= o["bs"][2] or not near(p, True) or set(p["bs"][1]) & set(ev[1]):
                        continue
                    tv = N.intersection(N.projection(p["bs"][0], p["bs"][2], o["bs"][2]), o["bs"][0])
                    if tv[1] >= MINC:
                        self.link(("&/", p["term"], o["term"]), tv, N.zip_stamp(p["bs"][1], o["bs"][1]), o["bs"][2], term, ev)
        seen = set()
        i = 0
        while i < len(self.oti):
            n = self.oti[i]; i += 1
            if n in seen or n not in self.c:
                continue
            seen.add(n)
            x = self.c[n]
            if x["bs"] is None or x["ct"] > t or not near(x, False) or x["bs"][2] > ot:
                continue
            xo = self.opid(x["term"])
            if bool(my) != bool(xo) or set(x["bs"][1]) & set(ev[1]):
                continue
            xb = x["bs"]
            tv = N.intersection(N.projection(xb[0], xb[2], ot), ev[0])
            if tv[1] < MINC:
                continue
            if my:
                continue
            self.link(x["term"], xb[0], xb[1], xb[2], term, ev)
            if xb[2] == ot:
                self.link(term, ev[0], ev[1], ot, x["term"], xb)
            depth, q = 1, x["term"]
            while not isinstance(q, str) and q[0] == "&/":
                depth += 1; q = q[1]
            if depth < SEQLEN:
                seq = ("&/", x["term"], term)
                s = self.concept(seq)
                self.oti_add(N.show(seq), cap)
                s["ls"] = t
                self.stats["seqs"] += 1
                if s["bs"] is None or ot > s["bs"][2]:
                    s["bs"], s["ct"] = (tv, N.zip_stamp(xb[1], ev[1]), ot), t
        if prio >= 1.0:
            self.anticipate(my, term)

    def anticipate(self, opid, opterm):
        t = self.t
        for name in list(self.c):
            post = self.c[name]
            tab = post["imps"].get(opid, [])
            tab[:] = [i for i in tab if i["valid"]]
            for imp in [dict(i) for i in tab]:
                pre, op = split_op(imp["term"][1])
                src = self.c.get(N.show(pre))
                if src is None or src["bs"] is None or src["bs"][2] > t:
                    continue
                if opid and op != opterm:
                    continue
                p = src["bs"]
                if opid:
                    ptv, pot, pst = N.intersection(N.projection(p[0], p[2], t), N.RELIANCE), t, p[1]
                else:
                    ptv, pot, pst = p[0], p[2], p[1]
                tv = N.deduction(imp["tv"], ptv)
                if not (N.exp(tv) > .501 or (tv[1] < .05 and tv[0] == 0.0)):
                    continue
                self.stats["anticipated"] += 1
                past = N.projection(p[0], 0, cround(imp["dt"]))
                neg = N.eternalize(N.induction((0.0, self.ac), past))
                self.learn(opid, dict(term=imp["term"], tv=neg, st=[], dt=imp["dt"]))
                if not set(p[1]) & set(imp["st"]):
                    res = (tv, N.zip_stamp(pst, imp["st"]), int(pot + imp["dt"]))
                    post["pb"] = rac(post["pb"], res)


TABLE = 20


def cround(x):
    r = int(x)
    return r + (1 if x - r >= .5 else -1 if x - r <= -.5 else 0)


class T02(Prop):
    id = "T02"
    title = "What follows what is learned exactly"
    variants = ("small", "mid")
    quick_cases = 2000
    thorough_cases = 60000
    rule = "each case is a seeded stream of events and operations; it counts if at least three temporal implications were learned"

    def gen(self, rng, i, tier):
        A = ["e%d" % k for k in range(rng.choice([2, 3, 3, 4, 5]))]
        nops = rng.choice([0, 1, 2, 3])
        lines = ["*babblingops=%d" % max(1, nops), "*motorbabbling=false"]
        if rng.random() < .25:
            lines.append("*anticipationconfidence=%s" % rng.choice(["0.0", "0.02", "0.1", "0.5"]))
        if rng.random() < .25:
            lines += rng.sample(["*decisionthreshold=%s" % rng.choice(["0.0", "0.3", "0.9", "0.99"]), "*questionpriming=%s" % rng.choice(["0.0", "1.0"]), "*similaritydistance=%s" % rng.choice(["0.1", "2.0"]), "*volume=100", "*restrictedconceptcreation=false"], rng.choice([1, 2]))
        ops = gen.OPS[:nops]
        conc = rng.choice([0, .05, .25])
        pause = rng.choice([0, .1, .3])

        def tv():
            if rng.random() < .6:
                return ""
            return " {%s %s}" % (rng.choice(["1.0", "0.0", "%.3f" % rng.random()]), rng.choice(["0.9", "0.99", "0.5", "0.01", "0.02", "0.05", "%.3f" % (rng.random() * .999)]))

        def op():
            return rng.choice(ops)
        loop = [rng.choice(A + ops) for _ in range(rng.choice([2, 3, 4]))] if rng.random() < .4 else None
        n = rng.choice([6, 12, 25, 50])
        for k in range(n):
            r = rng.random()
            if r < pause:
                lines.append(rng.choice(["", "1", "2", "3", "5", "17", "18", "19", "20", "21", "25", "40"]))
            elif r < pause + conc and ". :|:" in lines[-1]:
                lines += ["*concurrent", "%s. :|:%s" % (rng.choice(A), tv())]
            elif r < pause + conc + .04:
                a, b = rng.choice(A), rng.choice(A)
                if rng.random() < .3:
                    a = "(%s &/ %s)" % (a, rng.choice(A))
                if ops and rng.random() < .6:
                    a = "(%s &/ %s)" % (a, op())
                lines.append("dt=%s <%s =/> %s>.%s" % (rng.choice(["0", "1", "2.5", "7", "19"]), a, b, tv()))
            elif r < pause + conc + .06:
                lines.append("%s.%s" % (rng.choice(A), tv()))
            elif r < pause + conc + .07:
                lines.append("*currenttime=%d" % rng.choice([1, 5, 30, 1000]))
            else:
                x = loop[k % len(loop)] if loop and rng.random() < .9 else (op() if ops and rng.random() < .35 else rng.choice(A))
                lines.append("%s. :|:%s" % (x, tv() if x[0] == "e" else ""))
        return {"params": {"prng": rng.randrange(1, 1 << 30), "variant": "small" if rng.random() < .85 else "mid"}, "ops": lines}

    def execute(self, case, R):
        p = case["params"]
        plan = ["mode shell", "prng %d" % p["prng"], "snap-full 1", "snap-every 1", "snap-ends 2"]
        plan += ["addop %d %s" % (k + 1, o) for k, o in ()]
        plan += ["line " + l for l in case["ops"]]
        h = R.run(p["variant"], plan)
        cap, size = (64, 96) if p["variant"] == "small" else (512, 768)
        vs = died(h)
        pre = None
        sel = []
        n = dict(cycles=0, skipped=0, links=0, seqs=0, anticipated=0)
        want = None
        for k, t in h.recs:
            if vs:
                break
            if k == "CYC":
                want = "pre"
            elif k == "CYCE":
                want = "post"
            elif k == "S" and want == "pre":
                pre, sel, want = json.loads(t), [], None
            elif k == ">" and t.startswith("Selected: "):
                sel.append(t)
            elif k == "S" and want == "post":
                want = None
                if pre is not None:
                    vs += self.judge(pre, sel, json.loads(t), cap, size, n)
                pre = None
        return vs[:2], dict(n, sig=h.hash(), nontrivial=n["links"] >= 3)

    def judge(self, pre, sel, post, cap, size, n):
        if post["n"] >= size or pre["n"] >= size:
            n["skipped"] += 1
            return []
        M = Mem(pre, size)
        n["cycles"] += 1
        if len(sel) > 1:
            return [Violation("selection", "t=%d: %d events selected in one cycle" % (pre["t"], len(sel)))]
        if bool(sel) != bool(pre["bev"]):
            return [Violation("selection", "t=%d: %d events waiting, %d selected" % (pre["t"], len(pre["bev"]), len(sel)))]
        if sel:
            m = re.match(r"Selected: (.*)\. (?::\|: occurrenceTime=(-?\d+) )?Priority=(\S+) Stamp=\[([0-9,]*)\] Truth: frequency=(\S+), confidence=(\S+)", sel[0])
            q = [x for x in pre["bev"] if m and x["e"]["term"] == m.group(1) and x["e"]["ot"] == int(m.group(2) or -1) and ",".join(map(str, x["e"]["st"])) == m.group(4)
                 and abs(x["e"]["f"] - float(m.group(5))) < 1e-6 and abs(x["e"]["c"] - float(m.group(6))) < 1e-6]
            if not q:
                return [Violation("selection", "t=%d: selected %r, which was not waiting" % (pre["t"], sel[0]))]
            x = q[0]
            top = max(y["p"] for y in pre["bev"])
            if not any(y["p"] == top for y in q):
                return [Violation("selection", "t=%d: selected %r of priority %.9f although an event of priority %.9f waited" % (pre["t"], sel[0], x["p"], top))]
            x = [y for y in q if y["p"] == top][0]
            e = x["e"]
            if e["ot"] != -1 and not e["pr"] and M.t - e["ot"] < WIN:
                M.process(N.parse(e["term"]), ((e["f"], e["c"]), e["st"], e["ot"]), x["p"], cap)
        for k in M.stats:
            n[k] += M.stats[k]
        W = Mem(post, size)
        out = []
        head = "t=%d %s: " % (pre["t"], sel[0][:80] if sel else "nothing selected")
        for name in sorted(set(M.c) | set(W.c)):
            a, b = M.c.get(name), W.c.get(name)
            if a is None or b is None:
                out.append(Violation("concepts", head + "concept %s %s" % (name, "appeared" if a is None else "is missing")))
                continue
            for key in ("bs", "pb"):
                if (a[key] is None) != (b[key] is None) or a[key] is not None and not (
                        N.tclose(a[key][0], b[key][0]) and a[key][1] == b[key][1] and a[key][2] == b[key][2]):
                    out.append(Violation({"bs": "event", "pb": "prediction"}[key], head + "%s of %s should be %r, is %r" % (key, name, a[key], b[key])))
            for op in sorted(set(a["imps"]) | set(b["imps"])):
                wa = {N.show(i["term"]): i for i in a["imps"].get(op, []) if i["valid"]}
                wb = {N.show(i["term"]): i for i in b["imps"].get(op, []) if i["valid"]}
                for im in sorted(set(wa) | set(wb)):
                    x, y = wa.get(im), wb.get(im)
                    f = lambda z: z and (z["tv"], z["st"], z["dt"])
                    if x is None or y is None or not (N.tclose(x["tv"], y["tv"]) and x["st"] == y["st"] and abs(x["dt"] - y["dt"]) < 1e-9 * max(1, abs(x["dt"]))):
                        out.append(Violation("implication", head + "%s should be %r, is %r" % (im, f(x), f(y))))
        return out[:2]


def value_name(sp, g, v):
    return "%s%s%.*f" % (sp, "_" if sp else "", 1 if g <= 10 else 2 if g <= 100 else 3, v)


class T03(Prop):
    id = "T03"
    title = "Measured values are compared truly"
    variants = ("mid",)
    quick_cases = 1500
    thorough_cases = 60000
    rule = "each case is a seeded session of events stating values of attributes; it counts if at least two comparisons were derived"

    def gen(self, rng, i, tier):
        lines, vals = [], []
        for sp in rng.sample(["v", "w", "temp"], rng.choice([1, 1, 2])):
            g = rng.choice([2, 3, 5, 10, 20, 60, 100])
            if rng.random() < .7:
                lines.append("*space %d %s" % (g, sp))
                vals += [value_name(sp, g, k / g) for k in rng.sample(range(g), min(g, rng.choice([2, 3, 6])))]
            else:
                g = rng.choice([g, 1000])
                near = rng.random()
                for k in range(3):
                    x = "%.3f" % (rng.choice([1, 1, 10, -1]) * rng.random())
                    if g == 1000 and rng.random() < .6:     # hardly different
                        x = "%.3f" % (near + k * rng.choice([.001, .002, .01]))
                    lines.append("*setvalue %s %d %s" % (x, g, sp))
                    vals.append(value_name(sp, g, float(x)))
        lines = ["*volume=100"] + lines
        if rng.random() < .2:
            vals.append("huge")
        things = rng.sample(["a", "b", "{c}", "[d]", "e", "(f & g)"], rng.choice([2, 3, 4]))
        attrs = rng.sample(["size", "[loud]", "warm", "{p}"], rng.choice([1, 1, 2]))
        cop = rng.choice([["-->"], ["-->"], ["|->"], ["-->", "|->"]])
        for k in range(rng.choice([3, 5, 8])):
            if rng.random() < .25:
                lines.append(rng.choice(["1", "2", "5", "19", "21", "x. :|:", "(y &/ z). :|:", "<u --> size>. :|:", "x."]))
                continue
            tv = "" if rng.random() < .6 else " {%s %s}" % (rng.choice(["1.0", "0.0", "%.3f" % rng.random()]), rng.choice(["0.9", "0.99", "0.5", "%.3f" % (rng.random() * .999)]))
            if ":|:" in lines[-1] and rng.random() < .15:
                lines.append("*concurrent")
            c, a = rng.choice(cop), rng.choice(attrs)
            lines.append("<(%s * %s) %s %s>. :|:%s" % (rng.choice(things), rng.choice(vals), c, a, tv))
            if rng.random() < (.7 if c == "|->" else .2):
                lines += ["<(?1 * ?2) %s (%s %s)>? :|:" % (c, op, a) for op in "=+"]
        return {"params": {"prng": rng.randrange(1, 1 << 30), "variant": "mid"}, "ops": lines}

    LINE = re.compile(r"(Input|Derived|Answer): (.*)\. :\|: occurrenceTime=(-?\d+) (?:Priority|creationTime)=(\S+) Stamp=\[([0-9,]*)\] Truth: frequency=(\S+), confidence=(\S+)")

    def execute(self, case, R):
        p = case["params"]
        vals = {}
        for l in case["ops"]:
            m = re.match(r"\*(?:setvalue (\S+)|space) (\d+) (\S+)$", l)
            if m:
                g = int(m.group(2))
                for v in [float(m.group(1))] if m.group(1) else [float("%f" % (k / g)) for k in range(g)]:
                    vals[value_name(m.group(3), g, v)] = v
        h = R.run(p["variant"], ["mode shell", "prng %d" % p["prng"]] + ["line " + l for l in case["ops"]])
        vs = died(h)
        n = dict(comparisons=0, pairs=0)
        said, order, got, asked = {}, [], [], None           # evidence id -> (statement, truth, time)
        out, lines = h.out(), 0
        for t in out + ["Input: end. :|:"]:
            if vs:
                break
            lines += t.startswith("Derived: ")
            if lines > 100:         # the index of recent events can have lost the first one since
                pass
            elif t.startswith("Input: ") and "? :|:" not in t:
                vs += self.complete(order, got)
                n["pairs"] += bool(got)
            elif t.startswith("Input: "):
                asked = t[7:]
                continue
            if t == "Answer: None." and lines <= 100 and asked and order and order[-1][0]:
                vs += self.complete(order, got, asked)
            m = self.LINE.match(t)
            if not m:
                continue
            try:
                term = N.parse(m.group(2))
            except (ValueError, IndexError):
                continue
            ot, st = int(m.group(3)), [int(x) for x in m.group(5).split(",")]
            tv = (float(m.group(6)), float(m.group(7)))
            if m.group(1) == "Input":
                said[st[0]] = (self.measured(term, vals), tv, ot, st[0], term)
                order.append(said[st[0]])
                got, asked = [], None
                continue
            rel = self.relation(term)
            if rel:
                got.append((rel, frozenset(st), tv))
                vs += self.sound(rel, st, tv, ot, said, t)
                n["comparisons"] += 1
        return vs[:2], dict(n, sig=h.hash(), nontrivial=n["comparisons"] >= 2)

    @staticmethod
    def measured(t, vals):
        """(thing, value, attribute, copula) of a statement of a measured value"""
        if not isinstance(t, str) and t[0] in ("-->", "|->") and not isinstance(t[1], str) and t[1][0] == "*" and t[1][2] in vals:
            return t[1][1], vals[t[1][2]], t[2], t[0]

    @staticmethod
    def relation(t):
        """(X, Y, larger or equal, attribute, copula) of a comparison, without context"""
        if not isinstance(t, str) and t[0] in ("-->", "|->") and not isinstance(t[1], str) and t[1][0] == "*" and not isinstance(t[2], str) and t[2][0] in ("=", "+"):
            return t[1][1], t[1][2], t[2][0], t[2][1], t[0]

    def sound(self, rel, st, tv, ot, said, line):
        X, Y, op, A, cop = rel
        ev = [said[x] for x in st if x in said and said[x][0] and said[x][0][2] == A]
        if len(st) > 2:     # can be an analogy
            return []
        cand = [(a, b) for a in ev for b in ev if a is not b and a[0][0] == X and b[0][0] == Y and (a[0][1] > b[0][1] if op == "+" else a[0][1] == b[0][1])]
        if not cand:
            return [Violation("untrue", "%r: but the events it is based on say %s" % (line, [said.get(x, [None])[0] for x in st]))]
        if len(st) == 2:
            a, b = sorted(cand[0], key=lambda e: (e[2], e[3]))
            want = N.intersection(N.projection(a[1], a[2], b[2]), b[1])
            if a[2] != b[2] and ((abs(want[0] - tv[0]) > 3e-6 if want[0] < 1 else tv[0] > want[0]) or tv[1] > want[1] + 3e-6 or ot != b[2] or cop != a[0][3]):
                return [Violation("truth", "%r: expected truth %r at time %d, %s" % (line, want, b[2], a[0][3]))]
        return []

    def complete(self, order, got, asked=None):
        """the event before last and the last one in immediate succession"""
        if len(order) < 2:
            return []
        a, b = order[-2:]
        if not a[0] or not b[0] or a[0][2] != b[0][2] or b[2] - a[2] != 1 or a[4] == b[4] or min(a[1][1], b[1][1]) < .4 \
                or any(x[4] in (a[4], b[4]) and x[2] >= a[2] for x in order[:-2]):       # revised
            return []
        X, Y = a[0][0], b[0][0]
        op = "+" if a[0][1] != b[0][1] else "="
        if a[0][1] < b[0][1]:
            X, Y = Y, X
        rel = (X, Y, op, a[0][2], a[0][3])
        if asked:
            if asked == "<(?1 * ?2) %s (%s %s)>? :|:" % (a[0][3], op, N.show(a[0][2])):
                return [Violation("missing", "%s at %d and %s at %d were not compared: no answer to %s" % (N.show(a[4]), a[2], N.show(b[4]), b[2], asked))]
        elif a[0][3] == "-->":
            want = N.intersection(N.projection(a[1], a[2], b[2]), b[1])
            if not any(x[0] == rel and x[1] == frozenset((a[3], b[3])) and N.tclose(x[2], want, 3e-6) for x in got):
                return [Violation("missing", "%s at %d and %s at %d were not compared" % (N.show(a[4]), a[2], N.show(b[4]), b[2]))]
        return []
