"""Seeded workloads in Narsese.  Everything is drawn from the random.Random handed in."""

OPS = ["^left", "^right", "^up", "^down", "^say", "^pick", "^drop", "^go", "^activate", "^deactivate"]


class Lang:
    """A swarm of language features: each instance enables a random subset, over few or many atoms."""
    def __init__(self, rng, natoms=None, features=None):
        self.r = rng
        n = natoms or rng.choice([3, 5, 8, 14, 30])
        self.atoms = ["a%d" % i if rng.random() < .5 else "x%d" % i for i in range(n)]
        allf = ["inh", "sim", "set", "prod", "impl", "equ", "var", "neg", "conj", "rel", "int", "depvar", "props", "instance"]
        self.f = features if features is not None else [x for x in allf if rng.random() < .6] or ["inh"]
        self.nops = rng.choice([0, 1, 2, 3, 10])
        self.args = ["{x}", "{y}", "{z}"]

    def atom(self):
        return self.r.choice(self.atoms)

    def term(self, d=0):
        r = self.r
        k = r.random()
        if d >= 1 or k < .6:
            return self.atom()
        c = []
        if "set" in self.f:
            c += ["{%s}" % self.atom(), "[%s]" % self.atom()]
        if "prod" in self.f:
            c += ["(%s * %s)" % (self.atom(), self.atom())]
        if "int" in self.f:
            c += ["(%s & %s)" % (self.atom(), self.atom()), "(%s | %s)" % (self.atom(), self.atom())]
        return r.choice(c) if c else self.atom()

    def statement(self):
        r = self.r
        c = ["inh"] + [x for x in ("sim", "rel", "impl", "equ", "conj", "neg", "var", "depvar", "props", "instance") if x in self.f]
        k = r.choice(c)
        if k == "inh":
            return "<%s --> %s>" % (self.term(), self.term())
        if k == "sim":
            return "<%s <-> %s>" % (self.term(), self.term())
        if k == "rel":
            return "<(%s * %s) --> %s>" % (self.atom(), self.atom(), self.atom())
        if k == "impl":
            return "<<%s --> %s> ==> <%s --> %s>>" % (self.atom(), self.atom(), self.atom(), self.atom())
        if k == "equ":
            return "<<%s --> %s> <=> <%s --> %s>>" % (self.atom(), self.atom(), self.atom(), self.atom())
        if k == "conj":
            return "(<%s --> %s> && <%s --> %s>)" % (self.atom(), self.atom(), self.atom(), self.atom())
        if k == "neg":
            return "(! <%s --> %s>)" % (self.atom(), self.atom())
        if k == "var":
            return "<<$1 --> %s> ==> <$1 --> %s>>" % (self.atom(), self.atom())
        if k == "depvar":
            return "(<#1 --> %s> && <#1 --> %s>)" % (self.atom(), self.atom())
        if k == "props":
            return "<{%s} --> [%s]>" % (self.atom(), self.atom())
        return "<{%s} --> %s>" % (self.atom(), self.atom())

    def op(self, args=None):
        r = self.r
        o = r.choice(OPS[:max(1, self.nops)])
        if (r.random() < .3) if args is None else args:
            return "<({SELF} * %s) --> %s>" % (r.choice(self.args), o)
        return o

    def ev(self):
        """a term usable as event"""
        r = self.r
        k = r.random()
        if k < .55:
            return self.atom()
        if k < .85:
            return self.statement()
        return "(%s &/ %s)" % (self.atom(), self.atom())

    def truth(self, full=False):
        r = self.r
        k = r.random()
        if k < .5 and not full:
            return ""
        f = r.choice(["0.0", "1.0", "0.5", "0.9", "0.1", "%.3f" % r.random(), "%.3f" % r.random()])
        c = r.choice(["0.9", "0.5", "0.99", "0.1", "0.02", "%.3f" % (.01 + .98 * r.random())])
        return " {%s %s}" % (f, c)

    def temporal(self):
        r = self.r
        pre = self.atom() if r.random() < .7 else ("(%s &/ %s)" % (self.atom(), self.atom()) if r.random() < .5 else "<%s --> %s>" % (self.atom(), self.atom()))
        post = self.atom() if r.random() < .7 else "<%s --> %s>" % (self.atom(), self.atom())
        if "var" in self.f and r.random() < .4:
            pre, post = "<$1 --> %s>" % self.atom(), "<$1 --> %s>" % self.atom()
            if self.nops and r.random() < .5:
                return "<(%s &/ <({SELF} * $1) --> %s>) =/> %s>" % (pre, r.choice(OPS[:self.nops]), post)
        if self.nops and r.random() < .75:
            pre = "(%s &/ %s)" % (pre, self.op())
        return "<%s =/> %s>" % (pre, post)

    def line(self, w=None):
        """one input line"""
        r = self.r
        kinds = w or self.weights()
        k = r.choices(list(kinds), list(kinds.values()))[0]
        if k == "belief":
            return "%s.%s" % (self.statement(), self.truth())
        if k == "atombelief":
            return "%s.%s" % (self.atom(), self.truth())
        if k == "event":
            return "%s. :|:%s" % (self.ev(), self.truth())
        if k == "opevent":
            return "%s. :|:" % self.op() if self.nops else "%s. :|:" % self.atom()
        if k == "temporal":
            return "%s.%s" % (self.temporal(), self.truth())
        if k == "goal":
            return "%s! :|:%s" % (self.atom() if r.random() < .7 else ("<%s --> %s>" % (self.atom(), self.atom()) if r.random() < .6 else "(%s &/ %s)" % (self.atom(), self.atom())), self.truth() if r.random() < .3 else "")
        if k == "question":
            return "%s?" % r.choice([self.statement(), self.atom(), "<%s --> ?1>" % self.atom(), "<?1 --> %s>" % self.atom()])
        if k == "tquestion":
            return "%s? %s" % (r.choice([self.ev(), self.atom(), "<?1 --> %s>" % self.atom()]), r.choice([":|:", ":\\:", ":/:"]))
        if k == "iquestion":
            return "%s?" % r.choice([self.temporal(), "<?1 =/> %s>" % self.atom(), "<%s =/> ?1>" % self.atom()])
        if k == "cycles":
            return str(r.choice([1, 1, 2, 3, 5, 10, 20]))
        if k == "concurrent":
            return "*concurrent"
        return ""

    def weights(self):
        r = self.r
        base = dict(belief=4, atombelief=1, event=5, opevent=2, temporal=2, goal=2, question=1, tquestion=.5, iquestion=.5, cycles=2, concurrent=.3)
        return {k: v * r.choice([0, .5, 1, 1, 2]) for k, v in base.items()} if r.random() < .7 else base


def config(rng, lang):
    """settings a client may issue at the start"""
    out = []
    if lang.nops == 0:
        out.append("*babblingops=1")
        out.append("*motorbabbling=false")
    else:
        out.append("*babblingops=%d" % lang.nops)
        if rng.random() < .5:
            out.append("*motorbabbling=%s" % rng.choice(["false", "true", "0.9", "0.5"]))
        for k in range(1, lang.nops + 1):
            if rng.random() < .3:
                for j, a in enumerate(lang.args[:rng.randint(1, 3)]):
                    out.append("*setoparg %d %d %s" % (k, j + 1, a))
    if rng.random() < .15:
        out.append("*anticipationconfidence=%s" % rng.choice(["0.0", "0.02", "0.1"]))
    if rng.random() < .1:
        out.append("*decisionthreshold=%s" % rng.choice(["0.51", "0.6", "0.8"]))
    if rng.random() < .1:
        out.append("*questionpriming=%s" % rng.choice(["0.0", "0.5", "1.0"]))
    if rng.random() < .1:
        out.append("*volume=%d" % rng.choice([0, 50, 100]))
    if rng.random() < .08:
        out.append("*restrictedconceptcreation=true")
    if rng.random() < .15:
        for j, a in enumerate(lang.atoms[:rng.randint(1, 4)]):
            out.append("*setvalue %.2f 100 %s" % (rng.random(), a))
    return out


def session(rng, n=None, lang=None):
    lang = lang or Lang(rng)
    w = lang.weights()
    if sum(w.values()) <= 0:
        w = dict(belief=1, event=1)
    lines = config(rng, lang) + [""]
    for _ in range(n if n is not None else rng.choice([5, 15, 30, 60, 120])):
        l = lang.line(w)
        # "*concurrent" means: the next event happens together with the one just entered
        if l == "*concurrent" and ". :|:" not in lines[-1]:
            l = "1"
        lines.append(l)
    return lines
