"""Small executable reference model: terms as printed by the system, unification, truth values.

A term is a str (atom) or a tuple (head, child, ...).  Statements and binary compounds: (copula, left, right);
sets: ('{', items...) and ('[', items...); unary forms: (copula, child).
"""
import functools

COPS = {"-->", "<->", "==>", "<=>", "=/>", "=|>", "|->", "&/", "&|", "*", "&", "|", "&&", "||", "!", "+", "=", "-", "~", "/1", "/2", "\\1", "\\2", ":", ".", "^", "@", "%", "'", "!!"}
OPEN, CLOSE = "<({[", ">)}]"


def tokens(s):
    out = []
    for w in s.split():
        if w in COPS:
            out.append(("c", w)); continue
        while w and w[0] in OPEN:
            out.append(("o", w[0])); w = w[1:]
            if w in COPS and w not in ("",):
                break
        if w in COPS:
            out.append(("c", w)); continue
        tail = []
        while w and w[-1] in CLOSE:
            tail.append(("x", w[-1])); w = w[:-1]
        if w:
            out.append(("a", w))
        out += reversed(tail)
    return out


@functools.lru_cache(maxsize=200000)
def parse(s):
    t = tokens(s)
    r, i = _term(t, 0)
    if i != len(t):
        raise ValueError("cannot read term %r" % s)
    return r


def _term(t, i):
    k, w = t[i]
    if k == "a":
        return w, i + 1
    if k != "o":
        raise ValueError("unexpected %r" % (w,))
    close = CLOSE[OPEN.index(w)]
    i += 1
    items = []
    while t[i] != ("x", close):
        if t[i][0] == "c":
            items.append(("\0", t[i][1])); i += 1
        else:
            x, i = _term(t, i); items.append(x)
    i += 1
    if w in "{[":
        return (w,) + tuple(items), i
    cop = [x[1] for x in items if isinstance(x, tuple) and x and x[0] == "\0"]
    args = [x for x in items if not (isinstance(x, tuple) and x and x[0] == "\0")]
    if len(cop) != 1:
        raise ValueError("not exactly one copula: %r" % (items,))
    return (cop[0],) + tuple(args), i


def show(t):
    if isinstance(t, str):
        return t
    h = t[0]
    if h in "{[":
        return h + " ".join(show(x) for x in t[1:]) + CLOSE[OPEN.index(h)]
    if len(t) == 2:
        return "(%s %s)" % (h, show(t[1]))
    o, c = ("<", ">") if h in ("-->", "<->", "==>", "<=>", "=/>", "=|>", "|->") else ("(", ")")
    return "%s%s %s %s%s" % (o, show(t[1]), h, show(t[2]), c)


def is_var(x, kinds="$#?"):
    return isinstance(x, str) and len(x) > 1 and x[0] in kinds


@functools.lru_cache(maxsize=100000)
def atoms(t):
    if isinstance(t, str):
        return frozenset((t,))
    return frozenset().union(*[atoms(x) for x in t[1:]]) if len(t) > 1 else frozenset()


def fits(t, size=64, i=1):
    """does a term fit the array a term is stored in? None = not known"""
    if i > size:
        return False
    if isinstance(t, str):
        return True
    if t[0] in "{[":
        if len(t) > 2:
            return None
        return fits(t[1], size, 2 * i) and 2 * i + 1 <= size
    r = [fits(x, size, 2 * i + k) for k, x in enumerate(t[1:])]
    return False if False in r else None if None in r else True


@functools.lru_cache(maxsize=200000)
def has_var(t, kinds="$#?"):
    return any(is_var(x, kinds) for x in atoms(t))


def unify(general, specific, query_only=False, near=None):
    """bindings of the variables of general, or None; near(a, b) tells whether two different atoms may stand for each other"""
    b = {}

    def go(g, s):
        if isinstance(g, str) and is_var(g, "?" if query_only else "$#?"):
            head = s if isinstance(s, str) else None
            if g[0] == "?" and head is not None and is_var(head):
                return False
            if g in b and b[g] != s:
                return False
            b[g] = s
            return True
        if isinstance(g, str) or isinstance(s, str):
            return g == s or (near is not None and isinstance(g, str) and isinstance(s, str) and near(g, s))
        if g[0] != s[0] or len(g) != len(s):
            return False
        return all(go(x, y) for x, y in zip(g[1:], s[1:]))
    return b if go(general, specific) else None


def subst(t, b):
    if isinstance(t, str):
        return b.get(t, t)
    return (t[0],) + tuple(subst(x, b) for x in t[1:])


# ------------------------------------------------------------------ truth values: (frequency, confidence)
HORIZON, DECAY, MAXC = 1.0, 0.8, 0.99
RELIANCE = (1.0, 0.9)


def w2c(w):
    return w / (w + HORIZON)


def c2w(c):
    return HORIZON * c / (1 - c)


def exp(t):
    return t[1] * (t[0] - .5) + .5


def revision(a, b):
    w1, w2 = c2w(a[1]), c2w(b[1])
    w = w1 + w2
    if w == 0:
        return a
    return (min(1.0, (w1 * a[0] + w2 * b[0]) / w), max(min(MAXC, w2c(w)), a[1], b[1]))


def deduction(a, b):
    f = a[0] * b[0]
    return (f, a[1] * b[1] * f)


def abduction(a, b):
    return (b[0], w2c(a[0] * a[1] * b[1]))


def induction(a, b):
    return abduction(b, a)


def intersection(a, b):
    return (a[0] * b[0], a[1] * b[1])


def negation(a):
    return (1 - a[0], a[1])


def eternalize(a):
    return (a[0], w2c(a[1]))


def projection(a, t0, t1):
    return a if t0 == -1 else (a[0], a[1] * DECAY ** abs(t1 - t0))


def goal_deduction(g, imp):
    r1 = deduction(g, imp)
    r2 = negation(deduction(negation(g), imp))
    return r1 if r1[1] >= r2[1] else r2


def zip_stamp(a, b, n=10):
    out = []
    i = 0
    while len(out) < n and (i < len(a) or i < len(b)):
        if i < len(a):
            out.append(a[i])
        if i < len(b) and len(out) < n:
            out.append(b[i])
        i += 1
    return out


def close(x, y, tol=1e-9):
    return abs(x - y) <= tol


def tclose(a, b, tol=1e-9):
    return close(a[0], b[0], tol) and close(a[1], b[1], tol)
