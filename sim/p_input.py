"""Input that is not well-formed."""
import re
from core import Prop, Violation
import gen

SPECIAL = ["<", ">", "(", ")", "{", "}", "[", "]", "-->", "<->", "==>", "=/>", "<=>", "|->", "&/", "&&", "||", "&", "|", "~", "-", "*", "/1", "/2", "\\1", "\\2", "--", "!", ".", "?", ":|:", ":/:", ":\\:", ":|", "@",
           "+", "=", ":", ";", ",", "'", '"', "_", "%", "#", "$", "^", "$1", "#1", "?1", "$0", "$10", "$", "^op", "^left", "{SELF}", "SELF", "dt=", "dt=1.5 ", "{1.0 0.9}", "{0.5}", "{ }", "{}", "%1.0;0.9%", "%0.5%", "%%", "%;%",
           "{nan 0.9}", "{1 nan}", "{-1 0.5}", "{2 0.5}", "{0.5 -0.5}", "{inf 0.3}", " ", "  ", "\t", "\x7f", "\\", "/", "//", "\xe9", "\xff", "0", "1", "999999999999999999999", "-1", "1e308"]
COMMANDS = ["*setopname", "*setoparg", "*setopstdin", "*setvalue", "*space", "*query", "*volume=", "*stampid=", "*stampimport=[", "*currenttime=", "*motorbabbling=", "*babblingops=", "*decisionthreshold=", "*anticipationconfidence=",
            "*similaritydistance=", "*questionpriming=", "*concurrent", "*stats", "*concepts", "*reset", "*opconfig", "*inverted_atom_index", "*cycling_goal_events", "*cycling_belief_events", "*restrictedconceptcreation=", "*unknown"]


def deep(rng, n):
    """a term with one branch of depth n"""
    if n <= 0:
        return rng.choice("abcd")
    x, y = deep(rng, n - 1), rng.choice("abcd")
    if rng.random() < .5:
        x, y = y, x
    k = rng.random()
    return "<%s %s %s>" % (x, rng.choice(["-->", "==>", "=/>", "<->"]), y) if k < .4 else "(%s %s %s)" % (x, rng.choice(["*", "&/", "&&", "&", "|", "/1"]), y) if k < .8 else rng.choice(["{%s}", "[%s]", "(! %s)", "(%s)", "{%s z}", "(*, %s)"]) % x


def edge(rng):
    """a term whose deepest components are around the last place of the array, a line around the longest possible"""
    k = rng.random()
    n = rng.choice([4, 5, 6, 6, 6, 7])
    if k < .5:
        sides = rng.choice(["L" * n, "R" * n, "L" * (n - 1) + "R", "R" * (n - 1) + "L"])
        t = rng.choice(["a", "{a}", "[a]", "(a * b)", "<a --> b>"])
        for c in sides:
            t = "(%s %s b)" % (t, rng.choice(["*", "&/", "&&", "&"])) if c == "L" else "(b %s %s)" % (rng.choice(["*", "&/", "&&", "&"]), t)
        return t
    n = rng.choice([1070, 1075, 2130, 2140, 2143, 2144, 2145, 2146, 2147, 2148, 2149, 2160, 3000])
    return rng.choice(["a" * n, "[" * n, "{" * n, "(" * n, "<" * n, ">" * n, "a " * (n // 2), "[a] " * (n // 4), "<a --> " + "b" * (n - 9) + ">", "-->" * (n // 3), ")(" * (n // 2)])


def command(rng):
    """commands whose arguments are at or just beyond their limits, or missing"""
    n = lambda: rng.choice([1, 2, 9, 10, 10, 11, 11, 12, 0, -1, 1000000])
    t = lambda: rng.choice(["{x}", "(a * {x})", "a", "", "<a --> b>", "(", ")", "<", "n" * 31, "n" * 33, edge(rng)])
    s = rng.choice([lambda: "*setoparg %d %d %s" % (n(), n(), t()), lambda: "*setoparg %d %s" % (n(), t()), lambda: "*setopname %d %s" % (n(), rng.choice(["^x", "x", "^" + "n" * 30, "^" + "n" * 31, "^" + "n" * 60, "", "^", "^left"])),
                    lambda: "*setopname ^x 1", lambda: "*setvalue %s %s %s" % (rng.choice(["0.5", "x", "", "1e300", "-1e30", "nan", "0.123456"]), rng.choice(["1", "10", "100", "1000", "1001", "0", "x"]), "v" * rng.choice([0, 1, 20, 26, 27, 28, 29, 31, 32, 40])),
                    lambda: "*space %s %s" % (rng.choice(["1", "10", "40", "1001", "x", ""]), "v" * rng.choice([0, 1, 26, 28, 31, 32, 40])), lambda: "*query %s %s" % (rng.choice(["0.5", "1.0", "1.1", "x", "", "nan"]), rng.choice(["<a --> b>?", "<a --> b>", "", "?", "a?", "<?1 --> b>? :|:", "n" * rng.choice([2140, 2144, 2145, 2146, 2147, 2148]) + "?"])),
                    lambda: "*stampimport=[%s%s" % (",".join(["7"] * rng.choice([0, 1, 9, 10, 11, 12, 20, 100, 400])), rng.choice(["]", "]", "", "]]"])), lambda: "*stampimport=[%s]" % ("1" * rng.choice([997, 998, 999, 1000, 1001, 1002])),
                    lambda: "*babblingops=%d" % n(), lambda: "*volume=%d" % n(), lambda: "*currenttime=%s" % rng.choice(["x", "", "12"]), lambda: "*motorbabbling=%s" % rng.choice(["x", "1.0", "2", "-1", "nan", "true "]), lambda: "*stampid=%s" % rng.choice(["0", "-1", "x", "", "1e3", "5000"])])()
    return s


def wide(rng, n):
    xs = [rng.choice("abcdefg") + rng.choice(["", "1", "x"]) for _ in range(n)]
    return rng.choice(["{%s}" % " ".join(xs), "[%s]" % ",".join(xs), "(%s)" % " * ".join(xs), "(*, %s)" % ", ".join(xs), "(&/, %s)" % ", ".join(xs), "(%s)" % " &/ ".join(xs), "<%s --> z>" % " ".join(xs)])


class X01(Prop):
    id = "X01"
    variants = ("asan", "mid")
    quick_cases = 2000
    thorough_cases = 60000
    rule = "each case is a session with malformed lines among well-formed ones, run with several contents of dead memory; it counts if a malformed line was read"

    def gen(self, rng, i, tier):
        lang = gen.Lang(rng)
        w = dict(lang.weights(), concurrent=0)
        if sum(w.values()) <= 0:
            w = dict(belief=1)

        def line():
            return lang.line(w)

        def bad():
            k = rng.random()
            if k < .12:
                t = (edge(rng) if rng.random() < .5 else rng.choice([deep, wide])(rng, rng.choice([3, 5, 6, 7, 8, 12, 20])))
                return t + rng.choice([".", "!", "?", ". :|:", "! :|:", "? :|:", ". {0.5 0.5}", ""])
            if k < .2:
                return rng.choice(["dt=%s " % rng.choice(["5", "1.5", "x", "", "-3", "1e3", "0." + "1" * rng.choice([20, 26, 27, 30, 100])]), "dt=", "dt=%s" % ("9" * rng.choice([3, 30, 60]))]) + rng.choice([line(), "<a =/> b>.", "", "<<a --> b> =/> c>. {0.9 0.8}"])
            if k < .27:
                return rng.choice(["", " ", "a", "<a --> b>", "^left"]) + rng.choice([".", "!", "?", "", " "]) + rng.choice(["", " :|:", " :|", ":|:", " :/:", " :\\:"]) + rng.choice(["", " ", "{1.0 0.9}", " {1.0}", " {0.5 0.5 0.5}", " {}", " %1.0;0.9%", " %0.3%", " %", " }", "}", " {a b}", " %a;b%"])
            if k < .4:
                return command(rng)
            if k < .45:
                c = rng.choice(COMMANDS)
                a = [rng.choice(["1", "2", "10", "0", "-1", "11", "99999999999", "0.5", "x", "", "^op", "{x}", "(a * {x})", "a" * 40, "n" * 900, "<a --> b>?", "<a --> b>.", "true", "]", "1,2,3]", ",,]", "[", "1e999", "nan"]) for _ in range(rng.choice([0, 1, 1, 2, 3]))]
                if c == "*reset":
                    a = a or ["x"]
                s = c + rng.choice([" ", "", " "]) + " ".join(a)
                return s
            if k < .5:
                return rng.choice(["12a", "007", "+5", "1 2", "1.5", "0x10", "quit ", "quitx", "/", "* ", "*", "\\", "//", "/ /", "''", "-", "()", "<>", "{}", "[]", "(((", ")))", "<<<<<", ">>>>"]) + rng.choice(["", ".", "?", "!", ". :|:"])
            s = line() if rng.random() < .8 else rng.choice(["<(a * b) --> ^left>! :|:", "<(<$1 --> a> &/ <($1 * {SELF}) --> ^go>) =/> <b --> $1>>.", "(&/, a, b, ^left).", "<{a} |-> [b]>. :|:", "((a & b) | (c ~ d)).", "(--, <a --> b>)."])
            for _ in range(rng.choice([1, 1, 2, 4])):
                p = rng.randint(0, len(s))
                m = rng.random()
                if m < .35:
                    s = s[:p] + rng.choice(SPECIAL) + s[p:]
                elif m < .6:
                    s = s[:p] + s[p + rng.choice([1, 1, 2, 5]):]
                elif m < .7:
                    q = rng.randint(0, len(s))
                    s = s[:p] + s[min(p, q):max(p, q)] * rng.choice([1, 2]) + s[p:]
                elif m < .8:
                    s = s[:p]
                elif m < .85:
                    s = s[p:]
                elif m < .95:
                    s = s[:p] + chr(rng.choice([9, 27, 34, 39, 92, 127, 128, 200, 255] + list(range(33, 127)))) + s[p + 1:]
                else:
                    s = s[:p] + "n" * rng.choice([31, 32, 33, 64, 500, 1100]) + s[p:]
            return s
        ls, nbad = [], 0
        for _ in range(rng.choice([2, 4, 8])):
            if rng.random() < .35:
                ls.append(line())
            else:
                ls.append("\u0001" + bad().replace("\n", " ").replace("\x00", ""))
        for _ in range(rng.choice([0, 1, 3])):
            ls.append(line())
        if rng.random() < .3:
            ls.append(rng.choice(["*concepts", "*stats", "3", "*opconfig"]))
        steps = re.compile(r"^\s*\d{4,}\s*$")
        ls = [l for l in ls if not steps.match(l.lstrip("\u0001")) and not l.lstrip("\u0001").startswith("*setopstdin")]
        return {"params": {"prng": rng.randrange(1, 1 << 30)}, "variant": "asan" if i % 4 else "mid", "ops": ls}

    def execute(self, case, R):
        vs, hs = [], []
        plan = ["mode shell", "prng %d" % case["params"]["prng"], "line *motorbabbling=false"]
        nb = 0
        for l in case["ops"]:
            if l.startswith("\u0001"):
                nb += 1
                l = l[1:]
            plan.append("line " + l)
        for poison in (0, 165, 255):
            h = R.run(case["variant"], plan[:2] + ["poison %d" % poison, "poison-lines 1", "imported-stamps 1", "inv-every 1"] + plan[2:])
            hs.append(h)
            vs += [Violation("ub", x) for _, x in h.kinds("UB")][:1]
            be = h.bad_end() or ""
            if be.startswith("EXIT"):
                if h.abort_reason() is None:
                    vs.append(Violation("silent", "stopped without saying why: %s" % be))
            elif be and not be.startswith("OUTPUTLIMIT"):
                vs.append(Violation("died", be))
            if vs:
                break
        if not vs:
            for a, b in zip(hs, hs[1:]):
                x, y = [r for r in a.recs if r[0] != "END"], [r for r in b.recs if r[0] != "END"]
                if x != y:
                    d = next((p for p in zip(x, y) if p[0] != p[1]), (x[-1], y[-1]))
                    vs.append(Violation("dead-memory", "what happens depends on the contents of dead memory: %r or %r" % (d[0], d[1])))
                    break
        return vs[:1], {"sig": hs[0].hash(), "nontrivial": nb > 0, "malformed": nb, "refused": int(bool((hs[0].bad_end() or "").startswith("EXIT")))}
