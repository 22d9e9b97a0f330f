"""Narsese as it is written and shown."""
import re
from core import Prop, Violation
import narsese as N
import p_nal as L
from p_reason import died

STAT = ["-->", "<->", "==>", "<=>", "=/>", "|->"]
COMP = ["*", "&/", "&&", "||", "&", "|", "~", "-", "/1", "/2", "\\1", "\\2"]


def normal(t):
    """variables numbered per kind in the order they are met level by level, left to right"""
    names, n, level = {}, {"$": 0, "#": 0, "?": 0}, [t]
    while level:
        nxt = []
        for x in level:
            if isinstance(x, str):
                if N.is_var(x) and x not in names:
                    n[x[0]] += 1
                    names[x] = "%s%d" % (x[0], n[x[0]])
            else:
                nxt += x[1:]
        level = nxt
    return N.subst(t, names), max(n.values())


def understood(t):
    """what the system makes of a term: reduced, variables normalised"""
    v, n = normal(L.tree(t))
    return L.reduce(v)


def readable(x):
    return L.show(x)


class Gen:
    def __init__(self, rng):
        r = self.r = rng
        self.atoms = [r.choice(["a", "b", "c", "x", "cat", "Tim", "x_y", "n7", "a-b", "B", "M", "is", "long" + "g" * 27, "long" + "g" * 26 + "h", "long" + "g" * 26, "42", "0.5", "k'", "u@v", "self", "t^2"]) for _ in range(r.choice([2, 4, 8]))]
        self.vars = [r.choice("$#?") + r.choice(["1", "2", "9", "x", "who"]) for _ in range(3)]
        self.pv = r.choice([0, 0, .1, .3])
        self.stat = [c for c in STAT if r.random() < .7] or ["-->"]
        self.comp = [c for c in COMP if r.random() < .6] or ["*"]
        self.un = [c for c in ["!", "*", "{", "["] if r.random() < .8] or ["{"]
        self.loose = r.random()

    def leaf(self):
        r = self.r
        return r.choice(self.vars) if r.random() < self.pv else r.choice(self.atoms + ["SELF"]) if r.random() < .93 else r.choice(["^left", "^go", "^n1"])

    def term(self, d):
        r = self.r
        if d <= 0 or r.random() < .25:
            return self.leaf()
        k = r.random()
        if k < .25:
            return (r.choice(self.stat), self.term(d - 1), self.term(d - 1))
        if k < .6:
            return (r.choice(self.comp), self.term(d - 1), self.term(d - 1))
        if k < .8:
            return (r.choice(self.un), self.term(d - 1))
        if k < .97:
            return (r.choice("{["), self.term(d - 1), self.term(d - 1))
        return (r.choice("{["), (".", self.leaf(), self.leaf()), self.leaf())

    def statement(self):
        r = self.r
        for _ in range(100):
            t = self.term(r.choice([1, 2, 2, 3, 4, 5])) if r.random() < .4 else (r.choice(self.stat), self.term(r.choice([0, 1, 2, 3])), self.term(r.choice([0, 1, 2, 3])))
            if not isinstance(t, str) and L.fits(L.tree(t)) and len(N.show(t)) < 700 and normal(L.tree(t))[1] <= 9:
                return t
        return ("-->", "a", "b")

    # ---- spellings
    def sp(self):
        r = self.r
        return " " if r.random() > self.loose else r.choice(["  ", "   ", " "])

    def opt(self):
        r = self.r
        return "" if r.random() > self.loose else r.choice(["", " ", "  "])

    def sep(self):
        r = self.r
        return self.sp() if r.random() > self.loose else r.choice([",", ", ", " , ", " ,"])

    def spell(self, t):
        r = self.r
        if isinstance(t, str):
            return t
        h, xs = t[0], [self.spell(x) for x in t[1:]]
        if h in "{[":
            return h + self.opt() + self.sep().join(xs) + self.opt() + N.CLOSE[N.OPEN.index(h)]
        if h == "!":
            h = r.choice(["!", "--"])
        if len(xs) == 1:
            return "(" + self.opt() + h + self.sep() + xs[0] + self.opt() + ")"
        o, c = ("<", ">") if (t[0] in STAT) == (r.random() > self.loose * .3) else ("(", ")")
        if r.random() < self.loose * .4:
            return o + (" " if o == "<" else self.opt()) + h + self.sep() + xs[0] + self.sep() + xs[1] + self.opt() + c
        b1 = self.opt() if xs[0][-1] in ">)}]" and h[0] not in "-=" else self.sp()
        b2 = self.opt() if xs[1][0] in "<({[" else self.sp()
        # "<" directly before "-" or "=" starts a copula
        return o + self.opt() + xs[0] + b1 + h + b2 + xs[1] + self.opt() + c

    def number(self, v):
        r = self.r
        return "%.3f" % v if r.random() > self.loose else r.choice(["%.3f" % v, "%.6f" % v, "%g" % v, ("%.3f" % v).lstrip("0") if v < 1 and v > 0 else "%.1f" % v if round(v, 1) == v else "%.3f" % v, "%.4e" % v, "0%.3f" % v])

    def sentence(self):
        """(canonical spelling, another spelling, what the echo is to say)"""
        r = self.r
        k = r.random()
        t = self.statement()
        w = r.choice([(1.0, .9), (r.randrange(1001) / 1000, r.randrange(11, 990) / 1000)]) if r.random() < .6 else None
        if w is None:
            a = b = ""
        else:
            a = " {%.3f %.3f}" % w
            b = " {%s%s%s%s}" % (self.opt(), self.number(w[0]), self.sp(), self.number(w[1]))
            if r.random() < self.loose * .5:
                b = " %%%s;%s%%" % (self.number(w[0]), self.number(w[1]))
                if abs(w[1] - .9) < 1e-9:
                    b = " %%%s%%" % self.number(w[0])
        p, tense = ("?", r.choice(["", " :|:", " :\\:", " :/:"])) if k < .35 else ("!", " :|:") if k < .45 else (".", r.choice(["", "", " :|:"]))
        if p == "?":
            a = b = ""
        dt, ds = "", ""
        if t[0] in ("=/>", "==>") and p == ".":
            tense = ""
        if t[0] == "=/>" and p == "." and r.random() < .6:
            d = r.choice([0, 1, 5, 2.5, 10, 100.125])
            dt, ds = "dt=%f " % d, "dt=%s%s" % (r.choice(["%f" % d, "%g" % d, "%.3f" % d, "%e" % d]), self.sp())
            if r.random() < .3 and not tense:
                dt = ""
        if not dt:
            ds = ""
        lead = self.opt() if not ds and r.random() < .2 else ""
        return [dt + N.show(t) + p + tense + a, ds + lead + self.spell(t) + self.opt() + p + tense + b, {"t": t, "p": p, "tense": tense, "w": list(w or (1.0, .9)), "dt": float(dt[3:]) if dt else 0.0}]


TERM = re.compile(r"^(?:Input|Derived|Revised|Selected|Answer): (?:dt=\S+ )?(.*?[^\s(])[.!?](?: |$)")


class P01(Prop):
    id = "P01"
    variants = ("mid",)
    quick_cases = 900
    thorough_cases = 60000
    rule = "each case is a session entered once in canonical and once in free spelling; every term it printed is entered again in a fresh instance; it counts if at least one spelling differed"

    def gen(self, rng, i, tier):
        g = Gen(rng)
        ops = []
        for _ in range(rng.choice([1, 3, 6, 12])):
            ops.append(g.sentence())
            if rng.random() < .25:
                n = str(rng.choice([1, 2, 5]))
                ops.append([n, n, None])
        bad = []
        for _ in range(2):
            t, p = g.statement(), rng.choice([".", "?", "! :|:", ". :|:"])
            k = rng.random()
            x = rng.choice(g.atoms)
            if k < .35:      # a bracket is missing
                w = N.tokens(N.show(t))
                at = rng.choice([j for j, (kind, _) in enumerate(w) if kind in "ox"])
                b = " ".join(c for j, (_, c) in enumerate(w) if j != at)
            elif k < .6:     # a component too many
                nodes = [n for n in subterms(t) if not isinstance(n, str) and len(n) == 3]
                if nodes:
                    n = rng.choice(nodes)
                    b = N.show(replaced(t, n, "\2")).replace("\2", N.show(n)[:-1] + " " + rng.choice([x, x, "* " + x, "{%s}" % x]) + N.show(n)[-1])
                else:
                    b = "(%s * %s %s)" % (x, x, x)
            elif k < .8:     # no copula, no component
                leaf = rng.choice([n for n in subterms(t) if isinstance(n, str)])
                b = N.show(replaced(t, leaf, "\2")).replace("\2", rng.choice(["(%s)" % x, "<%s>" % x, "()", "{}", "[]", "(*)", "(%s %s)" % (x, x), "((%s))" % x]))
            else:            # more than a term
                b = N.show(t) + " " + rng.choice([x, N.show(g.statement()), ")", "}", ">"])
            bad.append([b + p])
        return {"params": {"prng": rng.randrange(1, 1 << 30)}, "ops": ops, "bad": bad}

    shrink_lists = ("ops", "bad")

    def execute(self, case, R):
        for b in case["bad"]:
            h = R.run("mid", ["mode shell", "prng %d" % case["params"]["prng"], "line " + b[0]])
            if not (h.bad_end() or "").startswith("EXIT") or h.abort_reason() is None:
                return [Violation("accepted", "%r is no sentence but was taken: %r" % (b[0][:300], " ".join(t for t in h.out() if t.startswith("Input"))[:300]))], {}
        head = ["mode shell", "prng %d" % case["params"]["prng"], "line *motorbabbling=false", "line *volume=100"]
        a = R.run("mid", head + ["line " + o[0] for o in case["ops"]] + ["digest"])
        b = R.run("mid", head + ["line " + o[1] for o in case["ops"]] + ["digest"])
        vs = []
        strip = lambda h: [x for x in h.recs if x[0] not in ("IN", "END", "STATS")]
        same = sum(o[0] != o[1] for o in case["ops"])
        ended = a.bad_end() or b.bad_end()
        if ended:
            return [Violation("refused", "%s / %s: %s" % (a.bad_end(), b.bad_end(), a.abort_reason() or b.abort_reason()))], {}
        A, B = a.segments(), b.segments()
        # every input is echoed as what it says
        n = 0
        A_in = [x for x in A if x[0] is not None][2:]
        B_in = [x for x in B if x[0] is not None][2:]
        now = 1
        assert len(A_in) == len(case["ops"])
        for o, (l, recs), (l2, recs2) in zip(case["ops"], A_in, B_in):
            m = o[2]
            if m is None:
                continue
            n += 1
            want = readable(understood(tt(m["t"])))
            for said, rs in ((o[0], recs), (o[1], recs2)):
                echo = next((t for k, t in rs if k == ">" and t.startswith("Input: ")), None)
                ok = False
                if echo is not None:
                    if m["p"] == "?":
                        ok = echo == "Input: " + want + "?" + m["tense"]
                    else:
                        rx = re.escape("Input: " + ("dt=%f " % m["dt"] if want_head(m["t"]) == "=/>" else "") + want + m["p"] + " ") + (r":\|: occurrenceTime=\d+ " if m["tense"] else "") + r"Priority=1\.000000 Stamp=\[\d+\] Truth: " + re.escape("frequency=%f, confidence=%f" % tuple(m["w"]))
                        ok = re.fullmatch(rx, echo) is not None
                if not ok:
                    vs.append(Violation("echo", "%r is shown as %r, expected %r" % (said[:300], (echo or "")[:300], want[:300])))
                    return vs, {}
        if strip(a) != strip(b):
            d = next((p for p in zip(strip(a), strip(b)) if p[0] != p[1]), ("one ends", "earlier"))
            vs.append(Violation("spelling", "the same sentences spelled differently lead to something else: %r or %r" % d))
            return vs, {}
        # what is shown can be read
        shown = []
        for t in a.out():
            m = TERM.match(t)
            if m and m.group(1) not in shown and m.group(1) != "None" and len(m.group(1)) < 1000:
                shown.append(m.group(1))
        shown = shown[:80]
        try:
            want = [understood(N.parse(s)) for s in shown]
        except (ValueError, IndexError) as e:
            return [Violation("unreadable", str(e)[:300])], {}
        c = R.run("mid", head[:3] + ["line %s?" % s for s in shown])
        got = [t[7:-1] for t in c.out() if t.startswith("Input: ")]
        if c.bad_end() or len(got) != len(shown):
            return [Violation("unreadable", "%s %s after %r" % (c.bad_end(), c.abort_reason(), shown[len(got) - 1] if got else ""))], {}
        for s, w, x in zip(shown, want, got):
            if x != readable(normal(w)[0]) and x != readable(w):
                vs.append(Violation("readback", "%r read again is %r, expected %r" % (s[:300], x[:300], readable(w)[:300])))
                break
        return vs, {"sig": a.hash(), "nontrivial": same > 0, "sentences": n, "differently_spelled": same, "terms_read_again": len(shown)}

    def sample(self, case):
        return {"params": case["params"], "ops": [o[:2] for o in case["ops"][:6]]}


def tt(t):
    return t if isinstance(t, str) else tuple(tt(x) for x in t)


def want_head(t):
    return t[0]


def subterms(t):
    return [t] if isinstance(t, str) else [t] + [y for x in t[1:] for y in subterms(x)]


def replaced(t, old, new):
    """every occurrence of a subterm replaced"""
    return new if t == old else t if isinstance(t, str) else (t[0],) + tuple(replaced(x, old, new) for x in t[1:])
