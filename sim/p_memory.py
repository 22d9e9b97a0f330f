"""Properties about memory: structure, bounds, forgetting."""
import hashlib
from core import Prop, Violation
import gen


def sh(case_lines, params, head=()):
    return ["%s %s" % kv for kv in params.items()] + list(head)


class M01(Prop):
    id = "M01"
    title = "Memory stays structurally sound"
    variants = ("tiny", "small", "asan")
    quick_cases = 1200
    thorough_cases = 60000
    rule = ""

    def gen(self, rng, i, tier):
        v = ["tiny", "tiny", "tiny", "small", "asan"][i % 5]
        lines = gen.session(rng, lang=None)
        if rng.random() < .3:
            lines.insert(rng.randrange(len(lines) + 1), "*reset")
        return {"params": {"variant": v, "prng": rng.randrange(1, 1 << 30), "poison": rng.choice([0, 165, 255])}, "ops": lines}

    def execute(self, case, R):
        p = case["params"]
        plan = ["mode shell", "prng %d" % p["prng"], "poison %d" % p["poison"], "inv-every 1", "inv-level 2", "inv-mask 3"]
        plan += ["line " + l for l in case["ops"]] + ["inv"]
        h = R.run(p["variant"], plan)
        vs = []
        for k, t in h.kinds("INV"):
            vs.append(Violation(t.split()[0], t))
        if h.bad_end() and not h.bad_end().startswith("INVSTOP"):
            vs.append(Violation("died", "%s %s" % (h.bad_end(), h.abort_reason())))
        for k, t in h.kinds("UB"):
            vs.append(Violation("ub", t))
        st = h.stats()
        return vs, {"sig": h.hash()}


import json, re
from collections import Counter
import narsese as N
import p_nal
from p_reason import died

DUR, CDUR, BOOST = .9999, .9, 1000000


def ekey(x):
    e = x["e"]
    return (e["term"], e["type"], e["f"], e["c"], tuple(e["st"]), e["ot"], e["dt"])


class M02(Prop):
    id = "M02"
    variants = ("tiny", "small")
    quick_cases = 700
    thorough_cases = 40000
    rule = "each case is a session in memory of 24 or 96 concepts, looked at before and after every cycle; it counts if a concept or a waiting event was forgotten"

    def gen(self, rng, i, tier):
        lang = gen.Lang(rng)
        ls = [l for l in gen.session(rng, rng.choice([15, 30, 60, 120]), lang) if not l.startswith("*restricted")]
        p = {"prng": rng.randrange(1, 1 << 30), "variant": "tiny" if rng.random() < .7 else "small"}
        if rng.random() < .3:
            for _ in range(rng.choice([1, 5])):
                ls.insert(rng.randrange(len(ls) + 1), rng.choice(["50", "7", "%s. :|:" % lang.op(True), "<%s --> ?1>?" % lang.atom(), "%s?" % lang.atom(), "<%s --> new%d>." % (lang.atom(), rng.randrange(50)), "<fresh%d --> %s>. :|:" % (rng.randrange(50), lang.atom())]))
        return {"params": p, "ops": ls}

    def execute(self, case, R):
        p = case["params"]
        size, nbel, ngoal = (24, 8, 10) if p["variant"] == "tiny" else (96, 40, 60)
        h = R.run(p["variant"], ["mode shell", "prng %d" % p["prng"], "snap-every 1", "snap-ends 2"] + ["line " + l for l in case["ops"]])
        vs = died(h)
        n = dict(forgotten_concepts=0, forgotten_events=0, steps=0, boosted=0)
        prev, tag, said, entered, open_ = None, None, [], [], []
        for k, t in h.recs:
            if vs:
                break
            if k in ("CYC", "CYCE"):
                tag = k
            elif k == "IN" and t.partition(" ")[2].startswith("*reset"):
                prev = None
            elif k == "IN" and re.search(r"\.( \{[^{}]*\})?$", t):
                entered.append("Input: " + re.sub(r"( \{[^{}]*\})?$", "", t.partition(" ")[2]) + " ")
            elif k == ">":
                said.append(t)
            elif k == "S" and tag:
                cur = json.loads(t)
                if tag == "CYC":
                    open_.append(cur["t"])
                now = open_.pop() if tag == "CYCE" and open_ else cur["t"]
                if prev is not None:
                    vs += self.step(prev, cur, pt, tag, min(open_ + [now, prev["t"]]), now, said, entered, size, nbel, ngoal, n)
                prev, pt, tag, said, entered = cur, tag, None, [], []
        return vs[:2], dict(n, sig=h.hash(), nontrivial=n["forgotten_concepts"] + n["forgotten_events"] > 0)

    def step(self, a, b, atag, btag, since, now, said, entered, size, nbel, ngoal, n):
        n["steps"] += 1
        out = []
        end = btag == "CYCE"
        head = "t=%d..%d: " % (a["t"], b["t"])
        A, B = {c["id"]: c for c in a["concepts"]}, {c["id"]: c for c in b["concepts"]}
        if len(A) != len(a["concepts"]) or len(B) != len(b["concepts"]):
            return [Violation("ids", head + "two concepts share an id")]
        gone, stay = [c for i, c in A.items() if i not in B], [c for i, c in A.items() if i in B]
        new = [c for i, c in B.items() if i not in A]
        n["forgotten_concepts"] += len(gone)
        # what is forgotten
        if gone:
            if b["n"] < size:
                out.append(Violation("forgotten", head + "concept %s was forgotten although there was room for %d" % (gone[0]["term"], size - b["n"])))
            w = max(gone, key=lambda c: c["us"])
            s = min(stay, key=lambda c: c["us"]) if stay else None
            if s is not None and w["us"] > s["us"]:
                out.append(Violation("useful", head + "concept %s of usefulness %.9f was forgotten while %s of %.9f was kept" % (w["term"], w["us"], s["term"], s["us"])))
        for c in new:
            if c["id"] < a["cid"]:
                out.append(Violation("ids", head + "new concept %s has the id of an earlier one" % c["term"]))
        # usage and attention
        boosted = set()
        for l in said + entered:
            m = re.match(r"(Input|Answer): (?:dt=\S+ )?(.*?[^\s(])\. (?!:\|:)", l)
            if m:
                t = N.parse(m.group(2))
                boosted.add(t)
                if t[0] in ("=/>", "==>"):
                    boosted |= {t[1], t[2]}
                    if t[0] == "=/>":
                        x = t[1]
                        while not isinstance(x, str) and x[0] == "&/" and isop(x[2]):
                            x = x[1]
                            boosted.add(x)
        for c in b["concepts"]:
            o = A.get(c["id"])
            uc, lu, pr = (o["uc"], o["lu"], o["pr"]) if o else (0, None, 0.0)
            d = c["uc"] - uc
            if d < 0 or d == 0 and (c["lu"] != lu) or d > 0 and not since <= c["lu"] <= b["t"] + 1:
                out.append(Violation("usage", head + "usage of %s went from %s to %d, last used %s to %d" % (c["term"], uc, c["uc"], lu, c["lu"])))
            if d >= BOOST // 2:
                n["boosted"] += 1
                if N.parse(c["term"]) not in boosted:
                    out.append(Violation("boost", head + "%s counts as entered by the user" % c["term"]))
            low = pr * (CDUR if end else 1)
            if c["pr"] < low - 1e-12 * max(1, low) or d == 0 and c["pr"] > low + 1e-12 * max(1, low):
                out.append(Violation("attention", head + "priority of concept %s went from %.12g to %.12g%s" % (c["term"], pr, c["pr"], "" if d else " without being used")))
            if end:
                x = c["uc"] / (max(0, now - c["lu"]) + 1.0)
                if abs(c["us"] - x / (x + 1)) > 1e-12:
                    out.append(Violation("usefulness", head + "usefulness of %s, used %d times, last at %d, is %.12g" % (c["term"], c["uc"], c["lu"], c["us"])))
            elif o and c["us"] != o["us"]:
                out.append(Violation("usefulness", head + "rank of %s changed from %.12g to %.12g within a cycle" % (c["term"], o["us"], c["us"])))
        # what the user entered is remembered as such
        if btag == "CYC" and atag == "CYCE":
            byterm = {c["term"]: c for c in b["concepts"]}
            for l in said:
                m = re.match(r"Input: (?:dt=\S+ )?(.*?[^\s(])\. (:\|: )?", l)
                if not m:
                    continue
                t = N.parse(m.group(1))
                ts = {t} if t[0] not in ("=/>", "==>") else {t[2]} | ({t} if t[0] == "==>" else set())
                for x in ts:
                    c = byterm.get(N.show(x))
                    if c is None and len(said) == 1 and t[0] not in ("=/>", "==>"):
                        out.append(Violation("input", head + "%s was entered and is not remembered" % N.show(x)))
                    elif c is not None and not m.group(2) and len(said) == 1:
                        o = A.get(c["id"])
                        if c["uc"] - (o["uc"] if o else 0) < BOOST or c["lu"] != b["t"] and c["lu"] != a["t"]:
                            out.append(Violation("input", head + "%s was entered as knowledge but counts as used %d times, last at %d" % (N.show(x), c["uc"], c["lu"])))
                if len(said) == 1 and m.group(2) and t[0] not in ("=/>", "==>", "|->"):
                    if not any(x["e"]["term"] == N.show(t) and x["p"] == 1.0 for x in b["bev"]):
                        out.append(Violation("input", head + "event %s was entered and does not wait with the highest urgency" % N.show(t)))
        # waiting events
        ga, gb = dict((l, q) for l, q in a["gev"]), dict((l, q) for l, q in b["gev"])
        for name, layer, qa, qb, cap in [("event", 0, a["bev"], b["bev"], nbel)] + [("goal", l, ga.get(l, []), gb.get(l, []), ngoal) for l in sorted(set(ga) | set(gb))]:
            d = DUR if end else 1
            if len({ekey(x) for x in qb}) != len(qb):
                out.append(Violation("duplicates", head + "the same %s waits twice" % name))
            ka, kb = {ekey(x): x for x in qa}, {ekey(x): x for x in qb}
            if name == "goal" and any(" executed with args" in l for l in said):
                continue            # what was waited for is dealt with, all goals are dropped
            lost = sorted((x for k, x in ka.items() if k not in kb), key=lambda x: -x["p"])
            rest = [x["p"] for x in qb]
            if lost and (atag == "CYC" or name == "goal"):
                # the most urgent one was selected
                sel, lost = lost[0], lost[1:]
            for x in lost:
                n["forgotten_events"] += 1
                if len(qb) < cap - (1 if name == "goal" else 0):
                    out.append(Violation("dropped", head + "waiting %s %s of urgency %.9f was forgotten although there was room for %d" % (name, x["e"]["term"], x["p"], cap - len(qb))))
                elif rest and not (name == "goal" and layer == 29) and x["p"] * d > min(rest) * (1 + 1e-9):
                    out.append(Violation("dropped", head + "waiting %s %s of urgency %.9f was forgotten while one of %.9f was kept" % (name, x["e"]["term"], x["p"], min(rest) / d)))
            for k, x in kb.items():
                if k in ka and abs(x["p"] - ka[k]["p"] * d) > 1e-12:
                    if not (atag == "CYC" or name == "goal"):   # else it can have been selected and come up again
                        out.append(Violation("urgency", head + "urgency of waiting %s %s went from %.12g to %.12g" % (name, x["e"]["term"], ka[k]["p"], x["p"])))
        return out[:2]

    def sample(self, case):
        return {"params": case["params"], "ops": case["ops"][:12]}


def isop(t):
    return isinstance(t, str) and t[0] == "^" or not isinstance(t, str) and t[0] == "-->" and isinstance(t[2], str) and t[2][0] == "^" and len(t[2]) > 1
