"""Declarative inference: every pair of premises the system reasons with is seen (control information, variant ctl), and
everything it derives from them is compared to an independent rule base."""
import json, math, re
from core import Prop, Violation
import narsese as N
from p_reason import died

# (premises, conclusion, truth function of the premises in this order, introduces variables)
RULES = []


def T(s):
    return tree(N.parse(s))


def tree(t):
    """printed term -> binary tree as it is matched: one-element compounds have the second child '@'"""
    if isinstance(t, str):
        return t
    if len(t) == 2:
        return (t[0], tree(t[1]), "@")
    r = tuple(tree(x) for x in t[1:])
    while len(r) > 2:
        r = ((".", r[0], r[1]),) + r[2:]
    return (t[0],) + r


def untree(t):
    if isinstance(t, str):
        return t
    if t[2] == "@":
        return (t[0], untree(t[1]))
    return (t[0], untree(t[1]), untree(t[2]))


def t_or(a, b):
    return 1 - (1 - a) * (1 - b)


def pnn(a, b):
    fn = a[0] * (1 - b[0])
    return (1 - fn, fn * a[1] * b[1])


def npp(a, b):
    f = (1 - a[0]) * b[0]
    return (f, f * a[1] * b[1])


def comparison(a, b):
    f0 = t_or(a[0], b[0])
    return (a[0] * b[0] / f0 if f0 else 0.0, N.w2c(f0 * a[1] * b[1]))


def analogy(a, b):
    return (a[0] * b[0], a[1] * b[1] * b[0])


def nnn(a, b):
    fn = (1 - a[0]) * (1 - b[0])
    return (1 - fn, fn * a[1] * b[1])


def pnp(a, b):
    f = a[0] * (1 - b[0])
    return (f, f * a[1] * b[1])


TV = {
    "ded": N.deduction, "ind": N.induction, "abd": N.abduction, "exe": lambda a, b: (1.0, N.w2c(a[0] * b[0] * a[1] * b[1])),
    "int": N.intersection, "uni": lambda a, b: (t_or(a[0], b[0]), a[1] * b[1]), "dif": lambda a, b: (a[0] * (1 - b[0]), a[1] * b[1]),
    "cmp": comparison, "ana": analogy, "res": lambda a, b: (a[0] * b[0], a[1] * b[1] * t_or(a[0], b[0])),
    "neg": lambda a, b: (1 - a[0], a[1]), "sded": lambda a, b: N.deduction(a, N.RELIANCE), "sdedneg": lambda a, b: N.negation(N.deduction(a, N.RELIANCE)),
    "sint": lambda a, b: N.intersection(a, N.RELIANCE), "pnn": pnn, "npp": npp, "pnp": pnp, "nnn": nnn, "ppp": lambda a, b: npp(N.negation(a), b),
    "gt": lambda a, b: (1.0, a[1] * b[1]) if a[0] > b[0] else (0.0, 0.0), "eq": lambda a, b: (1.0, a[1] * b[1]) if a[0] == b[0] else (0.0, 0.0),
    "anon": lambda a, b: analogy(a, (1.0, N.w2c(b[0] * b[1]))),
}

TEXT = r"""
(S --> M) , (M --> P) |- (S --> P) ded
(A --> B) , (A --> C) |- (C --> B) ind
(A --> C) , (B --> C) |- (B --> A) abd
(A --> B) , (B --> C) |- (C --> A) exe
S , (S --> P) |- P ded
P , (S --> P) |- S abd
(S <-> P) |- (P <-> S) sint
(M <-> P) , (S <-> M) |- (S <-> P) res
(P --> M) , (S --> M) |- (S <-> P) cmp
(M --> P) , (M --> S) |- (S <-> P) cmp
(M --> P) , (S <-> M) |- (S --> P) ana
(P --> M) , (S <-> M) |- (P --> S) ana
S , (S <-> P) |- P ana
S , (P <-> S) |- P ana
(S --> {P}) |- (S <-> {P}) sint
([S] --> P) |- ([S] <-> P) sint
({M} --> P) , (S <-> M) |- ({S} --> P) ana
(P --> [M]) , (S <-> M) |- (P --> [S]) ana
({A} <-> {B}) |- (A <-> B) sint
([A] <-> [B]) |- (A <-> B) sint
({A B} --> M) |- ({A} --> M) sded
({A B} --> M) |- ({B} --> M) sded
(M --> [A B]) |- (M --> [A]) sded
(M --> [A B]) |- (M --> [B]) sded
((S | P) --> M) |- (S --> M) sded
(M --> (S & P)) |- (M --> S) sded
((S | P) --> M) |- (P --> M) sded
(M --> (S & P)) |- (M --> P) sded
((A ~ S) --> M) |- (A --> M) sded
(M --> (B - S)) |- (M --> B) sded
((A ~ S) --> M) |- (S --> M) sdedneg
(M --> (B - S)) |- (M --> S) sdedneg
(P --> M) , (S --> M) |- ((P | S) --> M) int
(P --> M) , (S --> M) |- ((P & S) --> M) uni
(P --> M) , (S --> M) |- ((P ~ S) --> M) dif
(M --> P) , (M --> S) |- (M --> (P & S)) int
(M --> P) , (M --> S) |- (M --> (P | S)) uni
(M --> P) , (M --> S) |- (M --> (P - S)) dif
(S --> M) , ((S | P) --> M) |- (P --> M) pnn
(P --> M) , ((S | P) --> M) |- (S --> M) pnn
(S --> M) , ((S & P) --> M) |- (P --> M) npp
(P --> M) , ((S & P) --> M) |- (S --> M) npp
(S --> M) , ((S ~ P) --> M) |- (P --> M) pnp
(S --> M) , ((P ~ S) --> M) |- (P --> M) nnn
(M --> S) , (M --> (S & P)) |- (M --> P) pnn
(M --> P) , (M --> (S & P)) |- (M --> S) pnn
(M --> S) , (M --> (S | P)) |- (M --> P) npp
(M --> P) , (M --> (S | P)) |- (M --> S) npp
(M --> S) , (M --> (S - P)) |- (M --> P) pnp
(M --> S) , (M --> (P - S)) |- (M --> P) nnn
((A * B) --> (S * M)) |- (A --> S) sded
((A * B) --> (S * M)) |- (B --> M) sded
((A * B) --> R) |- (A --> (R /1 B)) sint
(A --> (R /1 B)) |- ((A * B) --> R) sint
((A * B) --> R) |- (B --> (R /2 A)) sint
(B --> (R /2 A)) |- ((A * B) --> R) sint
(R --> (A * B)) |- ((R \1 B) --> A) sint
((R \1 B) --> A) |- (R --> (A * B)) sint
(R --> (A * B)) |- ((R \2 A) --> B) sint
((R \2 A) --> B) |- (R --> (A * B)) sint
({R} |-> [P]) , ({S} |-> [P]) |- (({R} * {S}) --> (+ P)) gt
((A * B) --> (+ P)) , ((B * C) --> (+ P)) |- ((A * C) --> (+ P)) ded
({R} |-> [P]) , ({S} |-> [P]) |- (({R} * {S}) --> (= P)) eq
((A * B) --> (= P)) , ((B * C) --> (= P)) |- ((A * C) --> (= P)) ded
((A * B) --> (= P)) |- ((B * A) --> (= P)) sint
((A * B) --> R) , ((C * B) --> R) |- (C --> A) abd
((A * B) --> R) , ((A * C) --> R) |- (C --> B) abd
(R --> (A * B)) , (R --> (C * B)) |- (C --> A) ind
(R --> (A * B)) , (R --> (A * C)) |- (C --> B) ind
((A * B) --> R) , (C --> A) |- ((C * B) --> R) ded
((A * B) --> R) , (A --> C) |- ((C * B) --> R) ind
((A * B) --> R) , (C <-> A) |- ((C * B) --> R) ana
((A * B) --> R) , (C --> B) |- ((A * C) --> R) ded
((A * B) --> R) , (B --> C) |- ((A * C) --> R) ind
((A * B) --> R) , (C <-> B) |- ((A * C) --> R) ana
(R --> (A * B)) , (A --> C) |- (R --> (C * B)) ded
(R --> (A * B)) , (C --> A) |- (R --> (C * B)) abd
(R --> (A * B)) , (C <-> A) |- (R --> (C * B)) ana
(R --> (A * B)) , (B --> C) |- (R --> (A * C)) ded
(R --> (A * B)) , (C --> B) |- (R --> (A * C)) abd
(R --> (A * B)) , (C <-> B) |- (R --> (A * C)) ana
((A * B) --> R) , ((C * B) --> R) |- (A <-> C) cmp
((A * B) --> R) , ((A * C) --> R) |- (B <-> C) cmp
(R --> (A * B)) , (R --> (C * B)) |- (A <-> C) cmp
(R --> (A * B)) , (R --> (A * C)) |- (B <-> C) cmp
(! A) |- A neg
(A && B) |- A sded
(A && B) |- B sded
(A && B) |- (B && A) sint
S , (S && A) |- A pnn
S , (S || A) |- A npp
S , ((! S) && A) |- A nnn
S , ((! S) || A) |- A ppp
(S ==> M) , (M ==> P) |- (S ==> P) ded
(A ==> B) , (A ==> C) |- (C ==> B) ind
(A ==> C) , (B ==> C) |- (B ==> A) abd
(A ==> B) , (B ==> C) |- (C ==> A) exe
(A ==> C) , (B ==> C) |- ((A && B) ==> C) uni
(A ==> C) , (B ==> C) |- ((A || B) ==> C) int
(C ==> A) , (C ==> B) |- (C ==> (A && B)) int
(C ==> A) , (C ==> B) |- (C ==> (A || B)) uni
((S && P) ==> M) , (S ==> M) |- P abd
((C && M) ==> P) , (S ==> M) |- ((C && S) ==> P) ded
((C && P) ==> M) , ((C && S) ==> M) |- (S ==> P) abd
((C && M) ==> P) , (M ==> S) |- ((C && S) ==> P) ind
(S <=> P) |- (P <=> S) sint
(S ==> P) , (P ==> S) |- (S <=> P) int
(P ==> M) , (S ==> M) |- (S <=> P) cmp
(M ==> P) , (M ==> S) |- (S <=> P) cmp
(M ==> P) , (S <=> M) |- (S ==> P) ana
(P ==> M) , (S <=> M) |- (P ==> S) ana
(M <=> P) , (S <=> M) |- (S <=> P) res
(C --> A) , (C --> B) |- ((C --> B) ==> (C --> A)) ind v
(A --> C) , (B --> C) |- ((B --> C) ==> (A --> C)) ind v
(C --> A) , (C --> B) |- ((C --> B) <=> (C --> A)) cmp v
(A --> C) , (B --> C) |- ((B --> C) <=> (A --> C)) cmp v
(! (C --> A)) , (C --> B) |- ((C --> B) ==> (! (C --> A))) ind v
(! (A --> C)) , (B --> C) |- ((B --> C) ==> (! (A --> C))) ind v
(! (C --> A)) , (C --> B) |- ((C --> B) <=> (! (C --> A))) cmp v
(! (A --> C)) , (B --> C) |- ((B --> C) <=> (! (A --> C))) cmp v
(C --> A) , (! (C --> B)) |- ((! (C --> B)) ==> (C --> A)) ind v
(A --> C) , (! (B --> C)) |- ((! (B --> C)) ==> (A --> C)) ind v
(C --> A) , (! (C --> B)) |- ((! (C --> B)) <=> (C --> A)) cmp v
(A --> C) , (! (B --> C)) |- ((! (B --> C)) <=> (A --> C)) cmp v
(C --> A) , (C --> B) |- ((C --> B) && (C --> A)) int v
(A --> C) , (B --> C) |- ((B --> C) && (A --> C)) int v
(! (C --> A)) , (C --> B) |- ((C --> B) && (! (C --> A))) int v
(! (A --> C)) , (B --> C) |- ((B --> C) && (! (A --> C))) int v
(C --> A) , (! (C --> B)) |- ((! (C --> B)) && (C --> A)) int v
(A --> C) , (! (B --> C)) |- ((! (B --> C)) && (A --> C)) int v
(($1 --> B) ==> ($1 --> C)) , A |- (A && (($1 --> B) ==> ($1 --> C))) int v
((#1 --> B) && (#1 --> C)) , A |- (A ==> ((#1 --> B) && (#1 --> C))) ind v
(B ==> C) , A |- ((A && B) ==> C) ind v
((A * B) --> R) , ((B * A) --> S) |- (((B * A) --> S) ==> ((A * B) --> R)) ind v
(! ((B * A) --> R)) , ((A * B) --> S) |- (((A * B) --> S) ==> (! ((B * A) --> R))) ind v
((B * A) --> R) , (! ((A * B) --> S)) |- ((! ((A * B) --> S)) ==> ((B * A) --> R)) ind v
((A * B) --> R) , ((B * C) --> S) |- (((A * B) --> R) && ((B * C) --> S)) int
((A * C) --> M) , (((A * B) --> R) && ((B * C) --> S)) |- ((((A * B) --> R) && ((B * C) --> S)) ==> ((A * C) --> M)) ind v
"""
for _l in TEXT.strip().split("\n"):
    _p, _c = _l.split(" |- ")
    _c = _c.split(" ")
    _v = _c[-1] == "v"
    if _v:
        _c.pop()
    RULES.append(([T(x) for x in _p.split(" , ")], T(" ".join(_c[:-1])), _c[-1], _v))

REDUCE = []
for _a, _b, _k in [("(A & A)", "A", "T"), ("(A | A)", "A", "T"), ("(A && A)", "A", "S"), ("(A || A)", "A", "S"),
                   ("({A} | {B})", "{A B}", "T"), ("({A B} | {C})", "{(A . B) C}", "T"), ("({C} | {A B})", "{C (A . B)}", "T"),
                   ("([A] & [B])", "[A B]", "T"), ("([A B] & [C])", "[(A . B) C]", "T"), ("([A] & [B C])", "[A (B . C)]", "T"),
                   ("{(A . B)}", "{A B}", "T"), ("[(A . B)]", "[A B]", "T")]:
    if _k == "T":
        REDUCE += [(T("(%s --> M)" % _a), T("(%s --> M)" % _b)), (T("(M --> %s)" % _a), T("(M --> %s)" % _b))]
    else:
        REDUCE.append((T(_a), T(_b)))


def match(p, t, b):
    if isinstance(p, str):
        if p.isalpha() and p.isupper() and len(p) == 1:
            if t == "@" or (p in b and b[p] != t):
                return False
            b[p] = t
            return True
        return p == t
    return not isinstance(t, str) and p[0] == t[0] and match(p[1], t[1], b) and match(p[2], t[2], b)


def fill(p, b):
    if isinstance(p, str):
        return b.get(p, p)
    return (p[0], fill(p[1], b), fill(p[2], b))


def reduce(t):
    for p, r in REDUCE:
        b = {}
        if match(p, t, b):
            return fill(r, b)
    return t


def leaves(t, out=None):
    out = [] if out is None else out
    if isinstance(t, str):
        if t != "@":
            out.append(t)
    else:
        leaves(t[1], out); leaves(t[2], out)
    return out


def fits(t, i=1):
    if i > 64:
        return False
    return isinstance(t, str) or (fits(t[1], 2 * i) and fits(t[2], 2 * i + 1))


def heads(t):
    return [] if isinstance(t, str) else [t[0]] + heads(t[1]) + heads(t[2])


class Maybe(Exception):
    """substitution which may capture variables"""


def vsubst(t, b):
    if any(set(leaves(v)) & set(b) for v in b.values()):
        raise Maybe
    return fill(t, b)


def unify(g, s):
    b = {}

    def go(g, s):
        if isinstance(g, str) and N.is_var(g):
            if s == "@" or (g[0] == "?" and isinstance(s, str) and N.is_var(s)) or (g in b and b[g] != s):
                return False
            b[g] = s
            return True
        if isinstance(g, str) or isinstance(s, str):
            return g == s
        return g[0] == s[0] and go(g[1], s[1]) and go(g[2], s[2])
    return b if go(g, s) else None


def special(t1, t2, v1, v2, out):
    """variable elimination with the premises in this order"""
    if isinstance(t2, str):
        return
    if t2[0] in ("==>", "<=>"):
        imp = t2[0] == "==>"
        b = unify(t2[1], t1)
        if b is not None:
            out.append((vsubst(t2[2], b), TV["ded" if imp else "ana"](v2, v1)))
        if imp and not isinstance(t2[1], str) and t2[1][0] == "&&":
            for u, rest in ((t2[1][1], t2[1][2]), (t2[1][2], t2[1][1])):
                b = unify(u, t1)
                if b is not None:
                    out.append((vsubst(("==>", rest, t2[2]), b), TV["ded"](v2, v1)))
                    break
        b = unify(t2[2], t1)
        if b is not None:
            out.append((vsubst(t2[1], b), TV["abd" if imp else "ana"](v2, v1)))
    if t2[0] == "&&":
        b = unify(t2[1], t1)
        if b is not None:
            out.append((vsubst(t2[2], b), TV["anon"](v2, v1)))


def infer(t1, t2, v1, v2):
    """-> [(term, truth, introduces variables, by special rule)] ; t2 None: from one premise"""
    out = []
    for k, (ps, c, fn, var) in enumerate(RULES):
        if (len(ps) == 1) != (t2 is None):
            continue
        if t2 is None:
            b = {}
            if match(ps[0], t1, b):
                out.append((reduce(fill(c, b)), TV[fn](v1, v1), var, False, k))
            continue
        for x, y, vx, vy in ((t1, t2, v1, v2), (t2, t1, v2, v1)):
            b = {}
            if match(ps[0], x, b) and match(ps[1], y, b):
                out.append((reduce(fill(c, b)), TV[fn](vx, vy), var, False, k))
    if t2 is not None:
        sp = []
        try:
            special(t1, t2, v1, v2, sp)
            special(t2, t1, v2, v1, sp)
        except Maybe:
            out.append(None)
        out += [(t, v, False, True, -1) for t, v in sp]
    return [x for x in out if x is None or fits(x[0])]


def generalises(d, c):
    """is d what c becomes when atoms are consistently replaced by new variables?"""
    b = {}

    def go(d, c):
        if isinstance(d, str) and N.is_var(d) and d != c:
            if not isinstance(c, str) or c == "@" or N.is_var(c) or d in b and b[d] != c:
                return False
            b[d] = c
            return True
        if isinstance(d, str) or isinstance(c, str):
            return d == c
        return d[0] == c[0] and go(d[1], c[1]) and go(d[2], c[2])
    if not go(d, c) or not b or len(set(b.values())) < len(b):
        return False
    n = leaves(d)
    if any(n.count(v) < 2 for v in b):
        return False
    return d[0] == "&&" and not any(v[0] == "$" for v in b) or d[0] in ("==>", "<=>") and all(v[0] == "#" or v in leaves(d[1]) and v in leaves(d[2]) for v in b)


LINE = re.compile(r"(Selected|Input|Derived|Revised): (?:dt=(\S+) )?(.*?)([.!?])( :\|: occurrenceTime=(-?\d+))? Priority=(\S+) Stamp=\[([0-9,]*)\] Truth: frequency=(\S+?),? confidence=(\S+)$")
EPS = 4e-6


def plain(t):
    """certainly wanted: nothing any filter could object to"""
    h = heads(t)
    if any(N.is_var(x) for x in leaves(t)) or isinstance(t, str):
        return False
    if t[0] in ("-->", "<->"):
        a = leaves(t)
        return len(set(a)) == len(a) and not ({"{", "["} & set(h) and {"&", "|", "-", "~"} & set(h)) and "." not in h
    if t[0] in ("&&", "||"):
        return not any(isinstance(x, str) for x in t[1:]) and not {"&&", "||", "!", "==>", "<=>"} & set(heads(t[1]) + heads(t[2]))
    if t[0] == "!":
        return not isinstance(t[1], str) and t[1][0] in ("-->", "<->")
    if t[0] in ("==>", "<=>"):
        return t[1] != t[2] and not {"&&", "||", "==>", "<=>", "=/>"} & set(h[1:])
    return False


def introduced(c):
    """two statements about distinct simple terms which share one in the same place: certainly a variable replaces it"""
    def part(x):
        if x[0] == "!" and not isinstance(x[1], str):
            return x[1][1:] if x[1][0] == "-->" else None
        return x[1:] if x[0] == "-->" else None
    if isinstance(c[1], str) or isinstance(c[2], str):
        return None
    a, b = part(c[1]), part(c[2])
    if not a or not b or not all(isinstance(x, str) and not N.is_var(x) for x in a + b):
        return None
    if len(set(a + b)) != 3 or not (a[0] == b[0] or a[1] == b[1]):
        return None
    shared = a[0] if a[0] == b[0] else a[1]
    v = "#1" if c[0] == "&&" else "$1"

    def go(x):
        return v if x == shared else x if isinstance(x, str) else (x[0], go(x[1]), go(x[2]))
    return go(c)


class I01(Prop):
    id = "I01"
    title = "Conclusions follow from their premises by the inference rules"
    variants = ("ctl",)
    quick_cases = 1800
    thorough_cases = 60000
    rule = "each case is a seeded session around the premises of some inference rules; it counts if something was derived from two premises"

    def gen(self, rng, i, tier):
        atoms = ["a", "b", "c", "d", "e", "f", "g"][:rng.choice([3, 5, 6, 7])]
        events = rng.random() < .25

        def compound():
            k = rng.random()
            x, y = rng.choice(atoms), rng.choice(atoms)
            return ("*", x, y) if k < .3 else ("{", x) if k < .45 else ("[", x) if k < .6 else ("{", x, y) if k < .7 else (rng.choice("&|-~"), x, y)

        def statement(deep=0):
            k = rng.random()
            if k < .12 and not deep:
                return ("!", statement(1))
            if k < .2 and not deep:
                return (rng.choice(["&&", "||"]), statement(1), statement(1))
            x = compound() if rng.random() < .15 else rng.choice(atoms)
            y = compound() if rng.random() < .15 else rng.choice(atoms)
            return (rng.choice(["-->", "-->", "-->", "<->"]), x, y)

        def inst(ps):
            stm = set()

            def look(p, top):
                if isinstance(p, str):
                    if top:
                        stm.add(p)
                else:
                    for q in p[1:]:
                        look(q, p[0] in ("==>", "<=>", "&&", "||", "!"))
            for p in ps:
                look(p, True)
            b = {}
            names = sorted({x for p in ps for x in leaves(p) if len(x) == 1 and x.isupper()})
            free = rng.sample(atoms, len(atoms))
            for x in names:
                b[x] = statement() if x in stm else compound() if rng.random() < .15 else free.pop() if free and rng.random() < .85 else rng.choice(atoms)
            return [fill2(untree(p), b) for p in ps]

        def fill2(p, b):
            if isinstance(p, str):
                return b.get(p, p)
            return (p[0],) + tuple(fill2(x, b) for x in p[1:])

        def tv():
            k = rng.random()
            if k < .4:
                return ""
            return " {%s %s}" % (rng.choice(["1.0", "0.0", "0.9", "%.3f" % rng.random()]), rng.choice(["0.9", "0.99", "0.5", "%.3f" % (.02 + .97 * rng.random())]))
        general = [["<<$1 --> {0}> ==> <$1 --> {1}>>", "<{2} --> {0}>"], ["<<$1 --> {0}> ==> <$1 --> {1}>>", "<{2} --> {1}>"],
                   ["<(<$1 --> {0}> && <$1 --> {1}>) ==> <$1 --> {3}>>", "<{2} --> {1}>", "<{2} --> {0}>"], ["(<#1 --> {0}> && <#1 --> {1}>)", "<{2} --> {0}>", "<{2} --> {1}>"],
                   ["<<$1 --> {0}> <=> <$1 --> {1}>>", "<{2} --> {0}>"], ["<<({0} * $1) --> {1}> ==> <$1 --> {2}>>", "<({0} * {3}) --> {1}>"],
                   ["<<$1 --> {0}> ==> <{2} --> $1>>", "<{3} --> {0}>", "<{2} --> {3}>"],
                   ["<(<({0} * $1) --> {1}> && <($1 * $2) --> {1}>) ==> <({0} * $2) --> {1}>>", "<({0} * {2}) --> {1}>", "<({2} * {3}) --> {1}>"]]
        general += [["<{0} --> [{1}]>", "<{0} --> [{2}]>"], ["<{0} --> [{1}]>", "<{0} --> [{2} {3}]>"], ["<{{{1}}} --> {0}>", "<{{{2}}} --> {0}>"],
                    ["<{{{1}}} --> {0}>", "<{{{2} {3}}} --> {0}>"], ["<{0} --> [{1} {2}]>", "<{0} --> [{3}]>", "<{0} --> {2}>"], ["<{0} --> {1}>", "<{0} --> ({1} & {1})>"]]
        lines = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            if rng.random() < .2:
                pool = rng.sample("abcdefg", 4)
                ps = [x.format(*pool) for x in rng.choice(general)]
            else:
                r = rng.choice(RULES)
                if any("|->" in heads(p) or "=" in heads(p) or "+" in heads(p) for p in r[0]) and rng.random() < .5:
                    r = rng.choice(RULES)
                ps = [N.show(t) for t in inst(r[0])]
            if rng.random() < .3:
                ps.append(N.show(statement()))
            rng.shuffle(ps)
            for p in ps:
                if not fits(tree(N.parse(p))):
                    continue
                lines.append("%s.%s%s" % (p, " :|:" if events and rng.random() < .6 else "", tv()))
                if rng.random() < .25:
                    lines.append(rng.choice(["1", "2", "5"]))
        if rng.random() < .3 and lines:
            lines.append(rng.choice(lines))
        lines.append(str(rng.choice([1, 4, 10, 25])))
        return {"params": {"prng": rng.randrange(1, 1 << 30)}, "ops": lines}

    def execute(self, case, R):
        plan = ["mode shell", "prng %d" % case["params"]["prng"], "snap-apply 1", "line *motorbabbling=false"] + ["line " + l for l in case["ops"]]
        h = R.run("ctl", plan)
        full = (h.bad_end() or "").startswith("OUTPUTLIMIT")
        vs = [] if full else died(h)
        n = dict(pairs=0, conclusions=0, introduced=0, required=0, open=0)
        self.rules = set()
        self.boost = 0.0
        sel = None          # the event inference is done with
        pair = None         # (concept, licensed conclusions)
        seen = {}           # term -> [(stamp, confidence, time)]
        got = []            # derived in this pair
        events = any(":|:" in l for l in case["ops"])
        singles = []
        revised, pending = set(), []
        for k, t in h.recs:
            if vs:
                break
            if k in ("AP", "IN", "EOF") or t.startswith("Selected: "):
                vs += [v for key, v in pending if key not in revised and not self.accumulated(key, seen)]
                revised, pending = set(), []
            if k == "AP":
                vs += self.missing(pair, got, seen, n)
                try:
                    a = json.loads(t)
                except ValueError:
                    break
                pair, got = None, []
                self.boost = 0.0
                if sel:
                    vs2, pair = self.premises(sel, a, n)
                    vs += vs2
                continue
            if k == "IN" or k == "EOF":
                vs += self.missing(pair, got, seen, n)
                pair, got, sel = None, [], None
                continue
            if k != ">":
                continue
            m = LINE.match(t)
            if not m:
                continue
            kind, dt, term, punct, _, ot, pr, st, f, c = m.groups()
            if "=/>" in term:
                continue
            try:
                term = tree(N.parse(term))
            except (ValueError, IndexError):
                vs.append(Violation("unreadable", "%r" % t))
                break
            ot = int(ot) if ot is not None else -1
            st = [int(x) for x in st.split(",") if x]
            tv = (float(f), float(c))
            if kind == "Selected":
                vs += self.missing(pair, got, seen, n)
                pair, got = None, []
                sel = (term, tv, st, ot, float(pr)) if punct == "." else None
                singles = infer(term, None, tv, None) if sel else []
                if sel and not events:
                    got = []
                    pair = (None, singles, sel, st, True, None)
                continue
            if kind == "Revised":
                revised.add((term, tuple(st), f, c))
            if kind == "Derived" and sel:
                v = self.licensed(term, tv, st, ot, float(pr), sel, pair, singles, events, t, n)
                if v and term[0] == "==>" and ot == -1:
                    pending.append(((term, tuple(st), f, c), v))    # knowledge revised with it is announced again
                elif v:
                    vs.append(v)
                got.append(term)
                if pair and term == pair[0]:
                    self.boost = max(self.boost, float(pr))     # what was just derived can be the premise itself
            seen.setdefault(term, []).append((frozenset(st), tv[1], ot, tuple(st), tv))
        return vs[:2], dict(n, sig=h.hash(), nontrivial=n["pairs"] > 0 and n["conclusions"] > 0, rules=len(self.rules))

    def accumulated(self, key, seen):
        """knowledge of the same term said before, revised"""
        term, st, f, c = key
        all_ = {(x[3], x[4]) for x in seen.get(term, [])}
        for sa, a in all_:
            for sb, b in all_:
                if tuple(N.zip_stamp(sa, sb)) == st and not set(sa) & set(sb):
                    for x in (a, N.eternalize(a)):
                        for y in (b, N.eternalize(b)):
                            if N.tclose((float(f), float(c)), N.revision(x, y), 1e-4):
                                return True
        return False

    def premises(self, sel, a, n):
        term, tv, st, ot, pr = sel
        b = a["b"]
        if b is None:
            return [Violation("no-premise", "t=%d: inference of %s with a concept nothing is believed about" % (a["t"], show(term)))], None
        if ot != -1 and a["bs"] is not None and abs(ot - a["bs"]["ot"]) < 20:
            b = a["bs"]
            bt = N.projection((b["f"], b["c"]), b["ot"], ot)
        else:
            bt = (b["f"], b["c"])
        n["pairs"] += 1
        if set(b["st"]) & set(st):
            return [Violation("overlap", "t=%d: inference between %s %r and %s %r, which share evidence" % (a["t"], show(term), st, b["term"], b["st"]))], None
        other = tree(N.parse(b["term"]))
        room = a["n"] < 1350 and a["nq"] < 1350
        return [], (other, infer(term, other, tv, bt), sel, N.zip_stamp(st, b["st"]), room, a["pr"])

    def licensed(self, d, tv, st, ot, pr, sel, pair, singles, events, line, n):
        why = []
        for lic, stamp, cp in ((pair[1] if pair else [], pair[3] if pair else None, pair[5] if pair else None), (singles, sel[2], 1.0)):
            if st != stamp:
                continue
            for x in lic:
                if x is None:
                    n["open"] += 1
                    return None
                c, v, var, spec, rule = x
                if not (c == d and not var or var and generalises(d, c) or var and d == c and d[0] not in ("==>", "<=>", "&&")):
                    continue
                if not any(N.tclose(tv, w, EPS) for w in (v, N.eternalize(v))):
                    why.append("truth %r" % (v,))
                    continue
                if ot not in (-1, sel[3]):
                    why.append("time %d" % sel[3])
                    continue
                want = (cp or 1.0) * sel[4] * N.exp(v) / math.log2(1 + complexity(d))
                if not pr > want * (1 - 2e-3) - 2e-6 or pr > want * (max(cp or 1.0, self.boost) / (cp or 1.0) if spec else 1) * (1 + 2e-3) + 2e-6:
                    why.append("priority %g" % want)
                    continue
                n["conclusions"] += 1
                n["introduced"] += var
                self.rules.add(rule)
                return None
        if events and (pair is None or pair[0] is None) and ot != -1 and st != sel[2]:
            return None         # predicted, not inferred here
        prem = "%s%s" % (show(sel[0]), " and " + show(pair[0]) if pair and pair[0] else "")
        return Violation("unlicensed", "%r does not follow from %s %r%s" % (line, prem, pair[3] if pair else sel[2], ": expected " + " or ".join(sorted(set(why))) if why else ""))

    def missing(self, pair, got, seen, n):
        if not pair or not pair[4]:
            return []
        other, lic, sel, stamp, room, cp = pair
        for x in lic:
            if x is None:
                return []
        for c, v, var, spec, rule in lic:
            if var:
                c = introduced(c)
                if c is None:
                    continue
            elif not plain(c):
                continue
            if v[1] < .0101 or N.exp(v) * sel[4] * (cp or 1.0) < 1e-4:
                continue
            if c in got:
                continue
            was = seen.get(c, [])
            if any(set(x[3]) == set(stamp) or (sel[3] == -1 and x[1] >= v[1] - EPS) for x in was):
                continue
            if sel[3] == -1 and was:
                continue        # believed already, maybe with more confidence than was printed
            n["required"] += 1
            if c not in got:
                return [Violation("missing", "%s%s should give %s %r %r" % (show(sel[0]), " and " + show(other) if other else "", show(c), v, stamp))]
        n["required"] += sum(1 for x in lic if x[0] in got)
        return []


def complexity(t):
    if isinstance(t, str):
        return 1
    return 1 + complexity(t[1]) + complexity(t[2])


def show(t):
    return N.show(untree(t)) if t else ""
