"""I02: conditions in which the same operation serves the same goal are taken to go together."""
import math, re
from core import Violation
import narsese as N
from p_goals import GoalProp, Uncertain, DECLINE, EXEC, CAPACITY, complexity, no_op, ops_of, lang_lines
from p_sensor import is_op
from p_nal import LINE, generalises, heads, leaves, tree, untree
import gen

TABLE, QUEUE = 20, 40
SEQ = lambda t: not isinstance(t, str) and t[0] == "&/"


def length(t):
    return length(t[1]) + length(t[2]) if SEQ(t) else 1


def differing(a, b):
    """the parts in which two sequences differ"""
    while SEQ(a) and SEQ(b):
        if a[1] == b[1]:
            a, b = a[2], b[2]
        elif a[2] == b[2]:
            a, b = a[1], b[1]
        else:
            break
    return a, b


def subjects(t, side):
    """names in the subjects of the statements of a condition; of a product only one side, if one is given"""
    if isinstance(t, str):
        return []
    if t[0] == "&/":
        return subjects(t[1], side) + subjects(t[2], side)
    if t[0] != "-->" or {"/1", "/2", "\\1", "\\2", "-->"} & set(heads(tree(t))[1:]):
        raise Uncertain
    s = t[1]
    if not isinstance(s, str) and s[0] == "*" and len(s) == 3:
        s = s[side]
    if not isinstance(s, str) and s[0] in "{[" and len(s) > 2:
        return []
    return [x for x in leaves(tree(s)) if x != "@"]


def general(t, side):
    """the statement with variables for what both conditions, or one of them repeatedly, are about; None if there is nothing such"""
    if ops_of(t[1]) or ops_of(t[2]) or N.has_var(t):
        raise Uncertain
    a, b = subjects(t[1], side), subjects(t[2], side)
    order = []

    def go(x, i):
        if isinstance(x, str):
            order.append((i, x))
        else:
            go(x[1], 2 * i); go(x[2], 2 * i + 1)
    go(tree(t), 1)
    m, k = {}, {"$": 0, "#": 0}
    for _, x in sorted(order):
        v = "$" if x in a and x in b else "#" if a.count(x) > 1 or b.count(x) > 1 else None
        if v and x not in m:
            k[v] += 1
            m[x] = v + str(k[v])
    if not m:
        return None

    def put(x):
        return m.get(x, x) if isinstance(x, str) else (x[0], put(x[1]), put(x[2]))
    return untree(put(tree(t)))


def numbers(s):
    return sorted(int(x) for x in s.split(",") if x)


class I02(GoalProp):
    id = "I02"
    title = "Conditions that serve the same goal through the same operation are taken to go together, and nothing else is concluded from acting"
    kinds = ("equivalence",)
    quick_cases = 400
    thorough_cases = 60000
    rule = "each case is a seeded session of knowledge, events and goals; it counts if two conditions were found to be interchangeable"

    def gen(self, rng, i, tier):
        case = GoalProp.gen(self, rng, i, tier)
        if rng.random() < .25:
            lines = case["ops"]
            self.more(rng, lines, [l for l in lines if "=/>" in l and "$" not in l])
            return self.fitting(case, lines)
        g = rng.choice(["g0", "g0", "<x --> q0>", "<(x * y) --> q1>"])
        op = rng.choice(gen.OPS[:2]) if rng.random() < .7 else "<({SELF} * x) --> %s>" % gen.OPS[0]
        lines = ["*babblingops=2"]
        known = []
        for _ in range(rng.choice([1, 2, 3])):
            known.append("<(%s &/ %s) =/> %s>." % (self.cond(rng), op, g))
            lines.append(known[-1] + self.tv(rng))
        self.more(rng, lines, known)
        for _ in range(rng.choice([1, 2, 4])):
            c = self.cond(rng) if rng.random() < .2 else re.match(r"<\((.*) &/ ", rng.choice([l for l in lines if l[:2] == "<(" and "^" in l and "#" not in l] or known)).group(1)
            c = c.replace("$1", "x").replace("#1", "x")
            parts = []
            while c[0] == "(":
                c, r = re.match(r"\((.*) &/ ([^&]*)\)$", c).groups()
                parts.append(r)
            for e in [c] + parts[::-1]:
                lines.append(e + ". :|:" + (self.tv(rng) if rng.random() < .2 else ""))
            lines += [g + "! :|:", rng.choice(["1", "3", "s9. :|:", "20"])]
        return self.fitting(case, lines)

    def fitting(self, case, lines):
        case["ops"] = [l for l in lines if l[:1] not in ("<", "(") or N.fits(N.parse(re.match(r"(.*[>)])[.!]", l).group(1)))]
        return case

    def cond(self, rng):
        a = ["s0", "s1", "s2", "<x --> p0>", "<y --> p0>", "<x --> p1>", "<(x * y) --> r>", "<(x * z) --> r>", "<(y * x) --> t>", "<{x} --> r>", "<#1 --> p0>"]
        k = rng.choice([1, 1, 1, 2, 2, 3, 3, 4])
        c = rng.choice(a)
        for _ in range(k - 1):
            c = "(%s &/ %s)" % (c, rng.choice(a[:6] + a[:9]))
        return c

    def tv(self, rng):
        if rng.random() > .6:
            return ""
        return " {%s %s}" % (rng.choice(["1.0", "0.0", "0.9", "0.3", "%.3f" % rng.random()]), rng.choice(["0.9", "0.99", "0.5", "0.2", "%.3f" % (.02 + .97 * rng.random())]))

    def more(self, rng, lines, imps):
        """more conditions for the same goal"""
        for _ in range(rng.choice([1, 3, 6, 10])):
            m = re.match(r"<\((.*) &/ ([^&]*)\) =/> (.*?)>\.( .*)?$", rng.choice(imps)) if imps else None
            if not m or not is_op(N.parse(m.group(2))):
                continue
            op = m.group(2)
            if rng.random() < .1:
                op = rng.choice(gen.OPS[:3] + ["<({SELF} * x) --> %s>" % gen.OPS[0], "<({SELF} * y) --> %s>" % gen.OPS[0]])
            c = self.cond(rng)
            if rng.random() < .4:           # much like a known one
                o = m.group(1)
                c = o.replace(*rng.choice([("s0", "s2"), ("s1", "s0"), ("x", "y"), ("p0", "p1"), ("s2", "<x --> p1>"), ("<x --> p0>", "s1"), ("z", "y"), ("r", "t")]))
            l = "<(%s &/ %s) =/> %s>." % (c, op, m.group(3)) + self.tv(rng)
            k = rng.random()
            if k < .3:                      # knowledge from the same source
                l = "*stampid=%d\n%s" % (rng.choice([1, 2, 3, 40]), l)
            elif k < .5:
                a, b = m.group(1), c
                while rng.random() < .5 and a[0] == b[0] == "(" and " &/ " in a and " &/ " in b:
                    (a, a2), (b, b2) = re.match(r"\((.*) &/ ([^&]*)\)$", a).groups(), re.match(r"\((.*) &/ ([^&]*)\)$", b).groups()
                    if a == b:
                        a, b = a2, b2
                if rng.random() < .5:
                    a, b = b, a
                if a != b:
                    l += "\n<%s =/> %s>. {%s %s}" % (a, b, rng.choice(["1.0", "0.0", "0.9", "0.6", "0.5", "0.4", "0.1"]), rng.choice(["0.9", "0.5", "0.1"]))
            at = rng.randrange(len(lines) + 1) if rng.random() < .3 else 1
            lines[at:at] = l.split("\n")

    def execute(self, case, R):
        self.seen = set()
        self.done = 0
        vs, info = GoalProp.execute(self, case, R)
        info["concluded"] = self.done
        info["nontrivial"] = self.done > 0
        return vs, info

    def cycle(self, recs, cap):
        vs = GoalProp.cycle(self, recs, cap)
        for k, t in recs:
            if k == ">":
                self.note(t)
        return vs

    def note(self, t):
        m = LINE.match(t)
        if m and "==>" in m.group(3):
            self.seen.add(m.group(3))

    def one(self, J, goal, prio, out, nested, head, vs):
        res = GoalProp.one(self, J, goal, prio, out, nested, head, vs)
        dec = [k for k, o in enumerate(out) if DECLINE.match(o)]
        ex = [k for k, o in enumerate(out) if EXEC.match(o)]
        if vs or not ex:
            return res
        tops = J.chosen
        said = out[dec[-1] + 1:ex[0]] if dec else out[:ex[0]]
        if len({(d["spec"], d["imp"]["tv"], tuple(d["imp"]["st"])) for d in tops}) != 1:
            raise Uncertain
        v = self.concluded(J.S, tops[0], said)
        if v:
            vs.append(Violation("equivalence", head + v))
        for o in out:
            self.note(o)
        return res

    def concluded(self, S, d, said):
        spec, tv, st = d["spec"], d["imp"]["tv"], d["imp"]["st"]
        wanted = []
        if not N.has_var(spec, "$#"):
            c = S.c.get(N.show(spec[2]))
            for j in (c["imps"].get(d["opid"], []) if c else []):
                o = j["term"]
                if N.has_var(o, "$#"):
                    continue
                a, b = no_op(spec[1]), no_op(o[1])
                if a == b or ops_of(spec[1]) != ops_of(o[1]) or set(st) & set(j["st"]):
                    continue
                a, b = differing(a, b)
                if length(a) != length(b):
                    continue

                def follows(x, y):
                    z = S.c.get(N.show(y))
                    for k in (z["imps"].get(0, []) if z else []):
                        if k["term"][1] == x:
                            return N.exp(k["tv"]) > .5
                    return False
                if follows(a, b) or follows(b, a):
                    continue
                s2 = N.zip_stamp(st, j["st"])
                for t, v in (("==>", a, b), N.induction(tv, j["tv"])), (("==>", b, a), N.abduction(tv, j["tv"])):
                    f = N.fits(t)
                    if f is None:
                        raise Uncertain
                    if f:
                        wanted.append((t, v, s2))
        sure = True
        for w in list(wanted):
            try:
                for side in (2, 1):
                    g = general(w[0], side)
                    if g and (g,) + w[1:] not in wanted:
                        wanted.append((g,) + w[1:])
            except Uncertain:
                sure = False
        got = []
        for l in said:
            m = LINE.match(l)
            if not m:
                continue
            got.append(m)
            t = N.parse(m.group(3))
            name = m.group(3)
            mine = [w for w in wanted if w[0] == t or not sure and generalises(tree(t), tree(w[0]))]
            if not mine or m.group(4) != ".":
                return "acting on %s, this was concluded: %r; what goes together: %r" % (N.show(spec), l, [N.show(w[0]) for w in wanted])
            if m.group(1) == "Revised" or name in self.seen and not m.group(5):
                continue
            v2 = (float(m.group(9)), float(m.group(10)))
            for w in mine:
                x = w[1] if m.group(5) else N.eternalize(w[1])
                if N.tclose(x, v2, 4e-6) and (sorted(w[2]) == numbers(m.group(8))) and (not m.group(5) or int(m.group(6)) == S.t):
                    break
            else:
                return "acting on %s, concluded %r; should be one of %r at %d" % (N.show(spec), l, mine, S.t)
            if abs(float(m.group(7)) - 1 / math.log2(1 + complexity(t))) > 4e-6:
                return "acting on %s, concluded with another priority: %r" % (N.show(spec), l)
        room = QUEUE - len(S.bev) + sum(p < .15 for p in S.bev)
        if S.n >= CAPACITY[self.variant] - 40 or room < 6 * len(wanted):
            return None
        for t, v, s2 in wanted:
            name = N.show(t)
            if v[1] < .0101 or complexity(t) > 80 or name in self.seen or sum(w[0] == t for w in wanted) > 1:
                continue
            self.done += 1
            links = (S.c.get(N.show(t[2])) or {"links": []})["links"]
            if not any(m.group(3) == name and m.group(5) for m in got) or len(links) + len(wanted) < TABLE and not any(m.group(3) == name and not m.group(5) for m in got):
                return "acting on %s, %s was not concluded (%r)" % (N.show(spec), name, [m.group(0) for m in got])
        return None
