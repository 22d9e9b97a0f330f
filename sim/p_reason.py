"""Properties about reasoning: answers, evidence, time, learning, decisions."""
import re
from core import Prop, Violation
import gen
import narsese as N

TRUTH = r"Truth: frequency=([-0-9.naif]+), confidence=([-0-9.naif]+)"
ANSWER = re.compile(r"Answer: (.*)\. (?::\|: occurrenceTime=(-?\d+) )?creationTime=(-?\d+) Stamp=\[([0-9,]*)\] " + TRUTH)


def stamp(s):
    return [int(x) for x in s.split(",") if x]


def died(h):
    e = h.bad_end()
    return [Violation("died", "%s %s" % (e, h.abort_reason()))] if e else []


def seg_states(recs):
    import json
    return [json.loads(t) for k, t in recs if k == "S"]


def generalize(rng, t, vars=("?1", "?1", "?2")):
    """put query variables at random places"""
    paths = []

    def walk(x, p):
        if p and not (isinstance(x, str) and x.startswith("^")):
            paths.append(p)
        if not isinstance(x, str) and x[0] not in "{[":
            for i, y in enumerate(x[1:], 1):
                walk(y, p + (i,))
    walk(t, ())
    if not paths:
        return t

    def put(x, p, v):
        return v if not p else tuple(put(y, p[1:], v) if i == p[0] else y for i, y in enumerate(x))
    k = 0
    for _ in range(rng.choice([1, 1, 1, 2])):
        p = rng.choice(paths)
        if any(q == p[:len(q)] or p == q[:len(p)] for q in ([] if not k else [last])):
            continue
        t = put(t, p, vars[k] if k < len(vars) else "?1"); last = p; k += 1
        if rng.random() < .6:
            break
    return t


class Q01(Prop):
    id = "Q01"
    title = "Questions get the best answer memory holds"
    variants = ("tiny", "small")
    quick_cases = 3000
    thorough_cases = 200000
    rule = "each case is a seeded session with questions and queries; a case counts if a question matched at least two candidate answers"

    def gen(self, rng, i, tier):
        lang = gen.Lang(rng, natoms=rng.choice([2, 3, 4, 6, 10]))
        w = dict(belief=4, atombelief=1, event=5, temporal=3, cycles=1, concurrent=.3, opevent=1, goal=.5)
        w = {k: v * rng.choice([0, 1, 1, 2]) for k, v in w.items()}
        w["belief"] = max(w["belief"], 1)
        lines = [l for l in gen.config(rng, lang) if not l.startswith("*volume")]
        if rng.random() < .3:
            lines.append("*questionpriming=%s" % rng.choice(["0.0", "0.3", "0.9"]))
        seen = []
        n = rng.choice([8, 15, 30, 60])
        for k in range(n):
            if rng.random() < .7 or not seen:
                l = lang.line(w)
                if l == "*concurrent" and not (lines and ". :|:" in lines[-1]):
                    l = "1"
                lines.append(l)
                m = re.match(r"(.*?)[.!]( :\|:)?( \{.*\})?$", l)
                if m and not l.startswith("*"):
                    try:
                        seen.append(N.parse(m.group(1).strip()))
                    except Exception:
                        pass
            else:
                t = rng.choice(seen[-12:])
                if rng.random() < .12:
                    t = "?1"
                elif rng.random() < .8:
                    t = generalize(rng, t)
                s = N.show(t)
                head = t if isinstance(t, str) else t[0]
                tense = ""
                if head not in ("=/>", "==>"):
                    tense = rng.choice(["", "", " :|:", " :\\:", " :/:"])
                if rng.random() < .2:
                    lines.append("*query %s %s?%s" % (rng.choice(["0.0", "0.5", "0.6", "0.9"]), s, tense))
                else:
                    lines.append(s + "?" + tense)
        return {"params": {"variant": rng.choice(["tiny", "small"]), "prng": rng.randrange(1, 1 << 30)}, "ops": lines}

    def execute(self, case, R):
        p = case["params"]
        plan = ["mode shell", "prng %d" % p["prng"]]
        for l in case["ops"]:
            q = "?" in l and (l.startswith("*query ") or not l.startswith("*")) and not l.startswith("//")
            q = q and re.search(r"\?( :[|\\/]:)?$", l)
            if q:
                plan.append("state")
            plan.append("line " + l)
            if q:
                plan.append("state")
        h = R.run(p["variant"], plan)
        vs = died(h)
        nq = multi = 0
        # walk: state, IN question, output, state
        st = None
        import json
        cur = None
        for k, t in h.recs:
            if k == "S":
                s = json.loads(t)
                if cur is not None:
                    v, m = self.judge(cur[0], cur[1], st, s)
                    nq += 1
                    multi += m
                    vs += v
                    cur = None
                st = s
            elif k == "IN":
                l = t.partition(" ")[2]
                cur = (l, []) if re.search(r"\?( :[|\\/]:)?$", l) and (l.startswith("*query ") or l[0] not in "*/") else None
            elif cur is not None and k == ">":
                cur[1].append(t)
        return vs[:3], {"sig": h.hash(), "nontrivial": multi > 0, "questions": nq, "contested": multi}

    def judge(self, line, out, before, after):
        vs = []
        thr = None
        if line.startswith("*query "):
            thr = float(line.split()[1])
        o = [x for x in out if x.startswith("Input: ")]
        if len(o) != 1:
            return [Violation("no-echo", "question %r printed %r" % (line, out[:3]))], 0
        m = re.match(r"Input: (.*)\?( :[|\\/]:)?$", o[0])
        q = N.parse(m.group(1))
        tense = {None: 0, " :|:": 1, " :\\:": 2, " :/:": 3}[m.group(2)]
        head = q if isinstance(q, str) else q[0]
        now = before["t"]
        cands = []   # (score, occurrence, event, term, concept)
        for c in before["concepts"]:
            ct = N.parse(c["term"])
            if head == "==>":   # answered from the links kept with the consequence
                if N.unify(q[2], ct, True) is None:
                    continue
                for im in c["links"]:
                    if N.unify(q, N.parse(im["term"]), True) is not None:
                        cands.append((N.exp((im["f"], im["c"])), -1, im, im["term"], None))
            if N.unify(q[2] if head == "=/>" else q, ct, True) is None:
                continue
            if head == "=/>":
                for op, tab in c["imps"]:
                    for im in tab:
                        if N.unify(q, N.parse(im["term"]), True) is not None:
                            cands.append((N.exp((im["f"], im["c"])), -1, im, im["term"], None))
            elif tense:
                for key, ok in (("bs", tense in (1, 2)), ("pb", tense in (1, 3))):
                    e = c[key]
                    if e and ok:
                        cands.append((N.exp(N.projection((e["f"], e["c"]), e["ot"], now)), e["ot"], e, e["term"], c))
            elif c["b"]:
                cands.append((N.exp((c["b"]["f"], c["b"]["c"])), -1, c["b"], c["b"]["term"], c))
        ans = [x for x in out if x.startswith("Answer: ")]

        def same(a, cd):
            m = ANSWER.match(a)
            if not m:
                return False
            e = cd[2]
            return (m.group(1) == cd[3] and (m.group(2) is None) == (cd[1] == -1) and (m.group(2) is None or int(m.group(2)) == cd[1])
                    and int(m.group(3)) == e["ct"] and stamp(m.group(4)) == e["st"]
                    and abs(float(m.group(5)) - e["f"]) < 1e-6 and abs(float(m.group(6)) - e["c"]) < 1e-6)

        def dominated(cd):
            for x in cands:
                if x[0] > cd[0] + 1e-12 or (x[0] == cd[0] and x[1] > cd[1]):
                    return x
            return None
        best = [cd for cd in cands if dominated(cd) is None]
        if thr is not None:
            want = [cd for cd in cands if cd[0] > thr + 1e-12]
            maybe = [cd for cd in cands if abs(cd[0] - thr) <= 1e-12]
            left = list(ans)
            for cd in want:
                hit = next((a for a in left if same(a, cd)), None)
                if hit is None:
                    vs.append(Violation("query-missing", "t=%d %r should list %s %s but printed %r" % (now, line, cd[3], cd[2], ans[:4])))
                    break
                left.remove(hit)
            for a in left:
                if not any(same(a, cd) for cd in maybe):
                    vs.append(Violation("query-extra", "t=%d %r listed %r, which is no match above the threshold" % (now, line, a)))
                    break
        else:
            if len(ans) != 1:
                vs.append(Violation("answers", "question %r got %d answers" % (line, len(ans))))
            elif not cands:
                if ans[0] != "Answer: None.":
                    vs.append(Violation("answer-from-nowhere", "%r answered %r but nothing in memory matches" % (line, ans[0])))
            elif not any(same(ans[0], cd) for cd in best):
                k = [cd for cd in cands if same(ans[0], cd)]
                b = best[0]
                vs.append(Violation("not-best" if k else "wrong-answer", "t=%d %r answered %r%s; memory holds %s %r (expectation %.9f)" % (
                    now, line, ans[0], " (expectation %.9f)" % k[0][0] if k else ", which memory does not hold", b[3],
                    {x: b[2][x] for x in ("f", "c", "st", "ct")}, b[0])))
        # nothing else happens: only the concept the answer came from is primed
        qp = before["cfg"]["qp"]
        b2 = {k: v for k, v in before.items() if k != "concepts"}
        a2 = {k: v for k, v in after.items() if k != "concepts"}
        if b2 != a2:
            vs.append(Violation("question-side-effect", "%r changed %s" % (line, [k for k in b2 if b2[k] != a2.get(k)])))
        ids = {cd[4]["id"] for cd in (cands if head == "==>" else best) if cd[4] is not None}
        changed = [(x, y) for x, y in zip(before["concepts"], after["concepts"]) if x != y]
        if len(before["concepts"]) != len(after["concepts"]):
            vs.append(Violation("question-side-effect", "%r changed the number of concepts" % line))
        for x, y in changed:
            w = dict(x)
            if qp > 0 and x["id"] in ids:
                w["pr"] = max(x["pr"], qp); w["lu"] = now; w["uc"] = y["uc"] if y["uc"] > x["uc"] else -1
            if w != y:
                vs.append(Violation("question-side-effect", "%r changed concept %s: %s" % (line, x["term"], {k: (w[k], y[k]) for k in w if w[k] != y.get(k)})))
        if qp > 0 and ids and not changed and head != "==>":
            vs.append(Violation("no-priming", "%r: the answering concept was not used" % line))
        if len(changed) > 1:
            vs.append(Violation("question-side-effect", "%r changed %d concepts" % (line, len(changed))))
        return vs, 1 if len(cands) > 1 else 0


ECHO = re.compile(r"Input: (?:dt=(\S+) )?(.*?)([.!]) (?::\|: occurrenceTime=(-?\d+) )?Priority=\S+ Stamp=\[([0-9,]*)\] " + TRUTH + "$")


class T01(Prop):
    id = "T01"
    title = "Logical time advances exactly as the input says"
    variants = ("tiny", "small")
    quick_cases = 1500
    thorough_cases = 100000
    rule = "each case is a seeded session with clock commands and operations; it counts if at least one operation fed back an event"

    def gen(self, rng, i, tier):
        lang = gen.Lang(rng)
        lang.nops = rng.choice([0, 1, 2, 5])
        lines = [l for l in gen.config(rng, lang) if not l.startswith("*volume")]
        w = lang.weights()
        if rng.random() < .5:
            w["goal"] = 4
        for _ in range(rng.choice([6, 15, 40])):
            k = rng.random()
            if k < .07:
                l = "*currenttime=%d" % rng.choice([1, 5, 100, 1000, 10 ** 6, 2 ** 31, 10 ** 12, 0, 0])
            elif k < .1:
                l = "*reset"
            elif k < .16:
                l = rng.choice(["*stats", "*concepts", "*opconfig", "*cycling_belief_events", "*volume=100", "*questionpriming=0.2", "*inverted_atom_index"])
            elif k < .2:
                l = "// %d" % rng.randrange(100)
            elif k < .26:
                l = str(rng.choice([0, 1, 7, 30, 100]))
            elif k < .3:
                if rng.random() < .4:
                    lines.append("*currenttime=%d" % rng.choice([0, 0, 1, 2, 50]))
                lines += [lang.atom() + ". :|:", "*concurrent"]
                l = lang.atom() + ". :|:"
            else:
                l = lang.line(w)
            if l == "*concurrent" and not (lines and ". :|:" in lines[-1]):
                l = ""
            lines.append(l)
        scripted = [("".join(rng.choice(".x") for _ in range(40)) if rng.random() < .4 else "") for _ in range(lang.nops)] if rng.random() < .5 else []
        return {"params": {"variant": rng.choice(["tiny", "small"]), "prng": rng.randrange(1, 1 << 30), "ops": scripted}, "ops": lines}

    def execute(self, case, R):
        p = case["params"]
        plan = ["mode shell", "prng %d" % p["prng"]]
        for k, sc in enumerate(p["ops"]):
            plan.append("addop %d %s %s" % (k, gen.OPS[k], sc))
        plan.append("light")
        for l in case["ops"]:
            plan += ["line " + l, "light"]
        h = R.run(p["variant"], plan)
        vs = died(h)
        st = None
        cur = None
        fbs = 0
        for k, t in h.recs:
            if k == "S":
                import json
                s = json.loads(t)
                s = (s["t"], s["base"])
                if cur is not None and not vs:
                    v, fb = self.judge(cur[0], cur[1], st, s, p["ops"])
                    vs += v; fbs += fb
                st, cur = s, None
            elif k == "IN":
                cur = (t.partition(" ")[2], [])
            elif cur is not None and k in (">", "OP"):
                cur[1].append(t)
        return vs[:3], {"sig": h.hash(), "nontrivial": fbs > 0, "feedback_events": fbs}

    def judge(self, l, out, st, s, scripted):
        t0, base = st
        cycles = inputs = 0
        echoes = [m for m in map(ECHO.match, out) if m]
        own = False
        if l == "":
            cycles = 1
        elif l.isdigit():
            cycles = int(l)
        elif l == "*reset":
            t0, base = 1, 1
        elif l.startswith("*currenttime="):
            t0 = int(l.split("=")[1])
        elif l == "*concurrent":
            t0 -= 1
        elif l.startswith("*") or l.startswith("//") or re.search(r"\?( :[|\\/]:)?$", l):
            pass
        else:
            cycles = inputs = 1
            own = True
        ex = [x for x in out if " executed with args " in x]
        nfail = sum(1 for x in out if re.match(r"\d+ fails args", x))
        fb = len(ex) - nfail
        # echoes of implications may come twice (implication and its concept), those are still the one input
        mine = [m for m in echoes if own and m.group(5) == str(base)]
        fed = [m for m in echoes if not (own and m.group(5) == str(base))]
        if fb and not cycles:
            return [Violation("acted-without-cycle", "%r executed %r" % (l, ex))], fb
        if len(fed) != fb:
            return [Violation("feedback-count", "%r: %d operations succeeded, %d events fed back" % (l, fb, len(fed)))], fb
        want = (t0 + cycles + fb, base + inputs + fb)
        if s != want:
            return [Violation("clock", "%r at time %d with evidence counter %d: expected time %d and counter %d, found %d and %d" % ((l,) + st + want + s))], fb
        for m in mine:
            if m.group(4) is not None and int(m.group(4)) != t0:
                return [Violation("event-time", "%r entered at %d: %r" % (l, t0, m.group(0)))], fb
        last = t0
        for m in fed:
            o = int(m.group(4) or -2)
            if not (last <= o < want[0]):
                return [Violation("feedback-time", "%r entered at %d, ended %d: %r" % (l, t0, want[0], m.group(0)))], fb
            last = o + 1
        return [], fb


class E02(Prop):
    id = "E02"
    title = "Observed and believed values follow from the inputs exactly"
    variants = ("small",)
    quick_cases = 1200
    thorough_cases = 100000
    rule = "each case is a seeded sequence of events and beliefs about a few atoms; it counts if a belief was revised"

    def gen(self, rng, i, tier):
        A = ["e%d" % k for k in range(rng.choice([1, 2, 3, 5]))]
        lines = ["*babblingops=1", "*motorbabbling=false"]
        for _ in range(rng.choice([8, 20, 50, 100])):
            k = rng.random()
            tv = " {%s %s}" % (rng.choice(["1.0", "0.0", "%.3f" % rng.random()]), rng.choice(["0.9", "0.99", "0.5", "0.005", "0.01", "%.3f" % (rng.random() * .999)])) if rng.random() < .6 else ""
            a = rng.choice(A)
            if k < .55:
                lines.append("%s. :|:%s" % (a, tv))
            elif k < .72:
                lines.append("%s.%s" % (a, tv))
            elif k < .8 and ". :|:" in lines[-1]:
                lines.append("*concurrent")
                lines.append("%s. :|:%s" % (a, tv))
            elif k < .84:
                lines.append("*currenttime=%d" % rng.choice([1, 3, 10, 40, 100, 100000]))
            else:
                lines.append(rng.choice(["", "1", "2", "5", "25"]))
        return {"params": {"prng": rng.randrange(1, 1 << 30)}, "ops": lines}

    def execute(self, case, R):
        p = case["params"]
        plan = ["mode shell", "prng %d" % p["prng"], "state"]
        for l in case["ops"]:
            plan += ["line " + l, "state"]
        h = R.run("small", plan)
        vs = died(h)
        M = {}        # term -> [belief, spike], each [truth, stamp, ot]
        E = {}        # stamp id -> event
        st = cur = None
        rev = 0
        import json
        for k, t in h.recs:
            if k == "IN":
                cur = (t.partition(" ")[2], [])
            elif k == ">" and cur:
                cur[1].append(t)
            elif k == "S":
                s = json.loads(t)
                if cur and not vs:
                    l, out = cur
                    m = re.match(r"(e\d+)\.( :\|:)?(?: \{(\S+) (\S+)\})?$", l)
                    now = st["t"]
                    if m:
                        tv = (float(m.group(3)), float(m.group(4))) if m.group(3) else (1.0, .9)
                        if tv[1] >= .01:
                            ev = [tv, [st["base"]], now if m.group(2) else -1]
                            E[st["base"]] = (m.group(1), ev)
                            b, sp = M.get(m.group(1), [None, None])
                            et = [N.eternalize(tv), ev[1], -1] if m.group(2) else ev
                            nb = self.rac(b, et)
                            rev += b is not None and nb[1] != b[1]
                            shown = [x for x in out if re.match(r"Revised: e\d+\.", x)]
                            want = [nb] if not m.group(2) and b is not None and not set(b[1]) & set(ev[1]) else []
                            got = [self.shown(x, m.group(1)) for x in shown]
                            if len(got) != len(want) or any(g is None or abs(g[0][0] - w[0][0]) > 2e-6 or abs(g[0][1] - w[0][1]) > 2e-6 or g[1] != w[1] for g, w in zip(got, want)):
                                vs.append(Violation("shown", "after %r at %d the revised beliefs shown are %s, they are %s" % (l, now, shown, want)))
                            M[m.group(1)] = [nb, self.rac(sp, ev) if m.group(2) else sp]
                    # events selected for processing become the concept's current event if they are later
                    tt = now
                    for x in out:
                        q = re.match(r"Selected: (e\d+)\. :\|: occurrenceTime=(-?\d+) .*Stamp=\[(\d+)\]", x)
                        if q:
                            term, ev = E[int(q.group(3))]
                            if ev[2] != int(q.group(2)) or term != q.group(1):
                                vs.append(Violation("selected", "line %r: %r is not event %r" % (l, x, ev)))
                            # the cycle of selection is not printed; within 20 cycles events are processed
                            sp = M[term][1]
                            cyc = s["t"] - now
                            if ev[2] > sp[2] and (cyc <= 1 or s["t"] - ev[2] <= 20):
                                if now - ev[2] < 20:
                                    M[term][1] = ev
                            elif ev[2] > sp[2]:
                                M[term][1] = ev if self.conc(s, term)["ot"] == ev[2] else sp
                    for term, (b, sp) in M.items():
                        c = self.conc(s, term, None)
                        if c is None:
                            vs.append(Violation("forgotten", "%s has no concept" % term)); break
                        for name, w, g in (("belief", b, c["b"]), ("event", sp, c["bs"])):
                            if (w is None) != (g is None) or w is not None and not (
                                    N.tclose(w[0], (g["f"], g["c"]), 1e-9) and w[1] == g["st"] and w[2] == g["ot"]):
                                vs.append(Violation(name, "after %r at %d: %s of %s should be %r, is %r" % (
                                    l, now, name, term, w, g and [(g["f"], g["c"]), g["st"], g["ot"]])))
                st, cur = s, None
        return vs[:2], {"sig": h.hash(), "nontrivial": rev > 0, "revisions": rev}

    @staticmethod
    def shown(x, term):
        q = re.match(r"Revised: %s\. Priority=\S+ Stamp=\[([0-9,]*)\] Truth: frequency=(\S+), confidence=(\S+)$" % re.escape(term), x)
        return q and ((float(q.group(2)), float(q.group(3))), [int(y) for y in q.group(1).split(",")])

    def conc(self, s, term, key="bs"):
        for c in s["concepts"]:
            if c["term"] == term:
                return c[key] if key else c
        return None

    def rac(self, ex, inc):
        if ex is None:
            return inc
        later = max(ex[2], inc[2])
        eu, iu = N.projection(ex[0], ex[2], later), N.projection(inc[0], inc[2], later)
        if set(ex[1]) & set(inc[1]) or (ex[2] != -1 and ex[2] != inc[2]):
            return inc if iu[1] > eu[1] else ex
        return [N.revision(eu, iu), N.zip_stamp(ex[1], inc[1]), later]


class E01(Prop):
    id = "E01"
    title = "Conclusions never outrun the evidence they rest on"
    variants = ("tiny", "small")
    quick_cases = 1500
    thorough_cases = 100000
    rule = "each case is a seeded session; it counts if it derived at least ten beliefs"

    def gen(self, rng, i, tier):
        lines = gen.session(rng)
        return {"params": {"variant": rng.choice(["tiny", "small", "small"]), "prng": rng.randrange(1, 1 << 30), "every": rng.choice([1, 1, 3])}, "ops": lines}

    def execute(self, case, R):
        p = case["params"]
        plan = ["mode shell", "prng %d" % p["prng"], "snap-full 1", "inv-every 1", "inv-level 1", "inv-mask 2"]
        for k, l in enumerate(case["ops"]):
            plan.append("line " + l)
            if k % p["every"] == 0:
                plan.append("state")
        plan.append("state")
        h = R.run(p["variant"], plan)
        vs = [Violation(t.split()[0], t) for k, t in h.kinds("INV")]
        if not vs:
            vs = died(h)
        import json
        ev = {}      # evidence id -> (atoms, confidence)
        prev = {}
        tainted = False
        repeated = None
        derived = 0
        setv = any("setvalue" in l for l in case["ops"])
        before = ""
        for k, t in h.recs:
            if k == ">":
                # shown as revised: pooled with something
                if t.startswith("Revised: ") and before.partition(": ")[2] == t[9:] and before[:7] in ("Input: ", "Derived") and not vs:
                    q = re.search(r"confidence=(\S+)$", t)
                    if q and float(q.group(1)) < .989:
                        vs.append(Violation("revised-nothing", "%r is the very same as was just entered or derived" % t))
                before = t
                m = t.startswith("Input: ") and ECHO.match(t)
                if m:
                    ids = stamp(m.group(5))
                    if len(ids) == 1:
                        a = N.atoms(N.parse(m.group(2)))
                        o = ev.get(ids[0])
                        # as entered
                        ev[ids[0]] = (a | (o[0] if o else set()), max(float(m.group(7)) + 5e-7, o[1] if o else 0), m.group(2))
            if k != "S" or vs:
                continue
            s = json.loads(t)
            cur = {}
            full = {}

            def cap(e):
                """most confidence the listed evidence can justify; None if the list may be incomplete"""
                key = tuple(e["st"])
                if key not in full:
                    if not key or len(key) >= 10 or any(x not in ev for x in key):
                        full[key] = None
                    else:
                        w = sum(N.c2w(min(ev[x][1], .999999)) for x in set(key))
                        full[key] = (N.w2c(w), set().union(*[ev[x][0] for x in key]))
                return full[key]
            for c in s["concepts"]:
                for im in c["links"]:
                    x = cap(im)
                    if len(set(im["st"])) < len(im["st"]):
                        repeated = repeated or Violation("repeated-evidence", "implication %s of confidence %.6f lists evidence %s, counting some twice" % (im["term"], im["c"], im["st"]))
                        tainted = True   # nothing can be said about what follows from it
                    elif x is not None and not tainted and im["c"] > x[0] + 1e-9:
                        vs.append(Violation("overconfident", "implication %s: confidence %.9f, but evidence %s supports at most %.9f" % (im["term"], im["c"], im["st"], x[0])))
                    elif x is None:
                        tainted = True
            for c in s["concepts"]:
                for name in ("b", "bs", "pb"):
                    e = c[name]
                    if not e:
                        continue
                    if name == "b":
                        cur[(c["slot"], c["id"])] = e["c"]
                        q = prev.get((c["slot"], c["id"]))
                        if q is not None and e["c"] < q - 1e-12:
                            vs.append(Violation("confidence-lost", "belief %s had confidence %.9f and now %.9f" % (e["term"], q, e["c"])))
                    x = cap(e)
                    if x is None or tainted:
                        continue
                    derived += 1
                    if name != "pb" and e["c"] > x[0] + 1e-9:
                        vs.append(Violation("overconfident", "%s of %s: confidence %.9f, but evidence %s supports at most %.9f" % (
                            {"b": "belief", "bs": "event"}[name], e["term"], e["c"], e["st"], x[0])))
                    if not setv and name != "pb":
                        extra = {a for a in N.atoms(N.parse(e["term"])) if not N.is_var(a)} - x[1] - {"SELF"}
                        if extra and not any(N.is_var(a) for a in x[1]):   # statements with variables apply to everything matching
                            vs.append(Violation("ungrounded", "%s claims evidence %s, which says nothing about %s" % (e["term"], e["st"], sorted(extra))))
            prev = cur
        return vs[:3] + ([repeated] if repeated else []), {"sig": h.hash(), "nontrivial": derived >= 10, "beliefs_checked": derived}
