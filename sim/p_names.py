"""Names carry no meaning: what the reasoner does depends on which names are the same, not on what they are."""
import re
from core import Prop, Violation
import gen
from p_shell import kv, lines, first_diff, op_of

ODD = ["dt", "Priority", "Truth", "Input", "e", "E1", "inf", "nan", "true", "false", "quit2", "line", "stats", "reset", "concepts", "S", "M", "P", "0", "7", "00", "1e5", "self", "Self", "SELFx", "xSELF",
       "op_1", "left", "Answer", "None", "None2", "occurrenceTime", "frequency", "expectation"]


def names(rng, n):
    """n different legal names, many of them alike"""
    out = []
    style = rng.choice(["prefix", "long", "short", "odd", "case", "tail", "anagram"])
    stem = "".join(rng.choice("qzjk") for _ in range(28))
    while len(out) < n:
        k = rng.random()
        if style == "prefix":
            w = stem[:rng.randint(1, 28)] + rng.choice(["", "1", "2", "_"])
        elif style == "long":
            w = stem + "%03d" % rng.randrange(1000)
        elif style == "tail":
            w = rng.choice("abcdefghijklmnopqrstuvwxyz") + "%s" % stem[:rng.choice([3, 6, 7, 14, 15, 23, 28, 30])]
        elif style == "odd" and k < .7:
            w = rng.choice(ODD)
        elif style == "case":
            w = "".join(rng.choice([c, c.upper()]) for c in stem[:rng.choice([3, 5, 9])])
        elif style == "anagram":
            c = list("abcdefgh" * rng.choice([1, 2, 3])); rng.shuffle(c)
            w = "".join(c)
        else:
            w = "".join(rng.choice("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_") for _ in range(rng.choice([1, 2, 3, 8, 31])))
            w = rng.choice("qZ7k") + w[:30]
        if w not in out:
            out.append(w)
        elif style != "odd":
            stem = stem[1:] + rng.choice("qzjkw")
    return out


def legal(rng, n, maxlen=31):
    out = []
    while len(out) < n:
        for w in names(rng, n):
            w = w[-maxlen:]
            if w not in out and w[0] != "_":
                out.append(w)
    return out[:n]


def rename(text, m, ops):
    """every name of m in the text, also with a measured value attached, and every operator of ops"""
    r = re.compile(r"(?<![A-Za-z0-9_^$#?*])(%s)(?=_[0-9]+[.][0-9]|[^A-Za-z0-9_]|$)" % "|".join(sorted(m, key=len, reverse=True)))
    t = r.sub(lambda k: m[k.group(1)], text)
    return re.sub(r"\^([A-Za-z0-9]+)", lambda k: "^" + ops.get(k.group(1), k.group(1)), t)


class A01(Prop):
    id = "A01"
    variants = ("mid", "tiny", "small")
    quick_cases = 2000
    thorough_cases = 40000
    rule = ("a session is given again with every name (of terms, measurements, operators and their arguments) consistently replaced by another one - alike in all but a letter, prefixes of each "
            "other, as long as allowed, words of the output language - and has to lead to the same output in these names; non-trivial when at least ten cycles ran and five lines were derived or executed")

    def gen(self, rng, i, tier):
        lang = gen.Lang(rng)
        lang.args = ["{xa}", "{ya}", "{za}"]
        meas = []
        sets = []
        if rng.random() < .45:
            meas = ["bright", "hue"][:rng.randint(1, 2)]
            for m in meas:
                if rng.random() < .3:
                    sets.append("*space 10 " + m)
                    lang.atoms += ["%s_%.1f" % (m, k / 10) for k in range(0, 10, 3)]
                else:
                    for k in rng.sample(range(100), 3):
                        sets.append("*setvalue 0.%02d 100 %s" % (k, m)); lang.atoms.append("%s_0.%02d" % (m, k))
        ls = gen.session(rng, rng.choice([5, 15, 30, 60]), lang)
        vals = [a for a in lang.atoms if "." in a]
        if len(meas) > 1 and rng.random() < .6:
            # what was learned of one measurement, then a decision in view of values of either
            v = rng.sample(vals, min(2, len(vals)))
            op = lang.op(False) if lang.nops else "^left"
            for _ in range(rng.randint(1, 3)):
                ls += ["%s. :|:" % v[0], "%s. :|:" % op, "gx. :|:", "20"]
            ls += ["*motorbabbling=false"] + ["%s. :|:" % x for x in v[1:]] + ["gx! :|:", "5"]
            lang.atoms.append("gx")
        if not ("volume" in " ".join(ls)) and rng.random() < .8:
            ls.insert(0, "*volume=100")
        for _ in range(rng.choice([0, 1, 2])):
            ls.insert(rng.randrange(len(ls) + 1), rng.choice(["*concepts", "*opconfig", "*cycling_belief_events", "*cycling_goal_events"]))
        opn = {"left": "ba1", "right": "ba2", "up": "ba3", "down": "ba4", "say": "ba5", "pick": "ba6", "drop": "ba7", "go": "ba8", "activate": "ba9", "deactivate": "ba10"}
        ren = rng.random() < .5
        if ren:
            ls = [re.sub(r"\^([a-z]+)", lambda k: "^" + opn.get(k.group(1), k.group(1)), l) for l in ls]
            sets = ["*setopname %d ^ba%d" % (k, k) for k in range(1, 11)] + sets
        base = sorted(set(a.partition("_")[0] for a in lang.atoms) | {"xa", "ya", "za"} | set(meas))
        tgt = legal(rng, len(base), 20 if meas or "setvalue" in " ".join(ls) else 31)
        if rng.random() < .2:
            tgt = base[:]; rng.shuffle(tgt)     # a permutation of the same names
        over = {}
        if not meas and "setvalue" not in " ".join(ls) and rng.random() < .3:
            # longer than what is kept of a name
            for k in rng.sample(range(len(tgt)), rng.choice([1, 2, len(tgt)])):
                w = (tgt[k] + "".join(rng.choice("abcxyz019") for _ in range(31)))[:31]
                if w not in tgt:
                    tgt[k] = w
                    over[w] = w + "".join(rng.choice("abcxyz019") for _ in range(rng.choice([1, 1, 2, 9, 30])))
        return {"params": {"prng": rng.randrange(1, 1 << 30)}, "over": over, "variant": rng.choice(["mid", "tiny", "small"]), "ops": sets + ls, "map": dict(zip(base, tgt)),
                "opmap": dict(zip(["ba%d" % k for k in range(1, 11)], [w[:20] for w in legal(rng, 10, 20)])) if ren else {}}

    def execute(self, case, R):
        m, om, over = case["map"], case["opmap"], case.get("over", {})
        head = ["mode shell"] + kv(case["params"])
        rn = lambda l: rename(l, m, om)
        given = lambda l: rename(l, {k: over.get(w, w) for k, w in m.items()}, om)
        tail = ["line *concepts", "line *opconfig", "line *cycling_belief_events", "line *cycling_goal_events"]
        a = R.run(case["variant"], head + lines(case["ops"]) + tail)
        b = R.run(case["variant"], head + lines([given(l) for l in case["ops"]]) + tail)
        vs = []
        strip = lambda s: re.sub(r"Maximum chain length in (atoms|concept) hashtable: \d+", "", s)
        ea, eb = a.bad_end(), b.bad_end()
        if ea and eb and ea.startswith("EXIT") and ea == eb:
            pass
        elif ea or eb:
            vs.append(Violation("died", "original names: %s, other names: %s" % (ea, eb)))
        ta = strip(rn(a.text()))
        tb = strip(b.text())
        if not vs and ta != tb:
            vs.append(Violation("output", "with other names the session leads to something else: " + first_diff(ta, tb, "expected", "found")))
        n = sum(1 for k, t in a.recs if k == ">" and (t.startswith("Derived:") or t.startswith("Revised:") or "executed with" in t))
        return vs, {"sig": a.hash(), "nontrivial": a.stats().get("cycles", 0) >= 10 and n >= 5}
