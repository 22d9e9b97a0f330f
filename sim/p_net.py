"""The UDP service: its threads, datagrams, clock and lifecycle."""
import hashlib, re
from core import Prop, Violation
import gen

HALF_LIFE = ["threads", "clock", "network"]


def dgram(i, t, text):
    if isinstance(text, str):
        text = text.encode("latin-1")
    return {"id": i, "t": t, "x": text.hex()}


def sched_params(rng):
    """how the scheduler preempts and which faults are enabled in this run (swarm)"""
    p = {"simseed": rng.randrange(1, 1 << 30), "prng": rng.randrange(1, 1 << 30), "poison": rng.choice([0, 0xA5, 0xFF, 0x41]),
         "p-switch": rng.choice([1, 2, 3, 8, 30]), "cycle-cost": rng.choice([0, 1000, 100000, 3000000])}
    if rng.random() < .5:
        p["spurious"] = rng.choice([1, 2, 4])
    if rng.random() < .4:
        p["oversleep"] = rng.choice([2, 5, 20])
    if rng.random() < .15:
        p["mac-shutdown"] = 1
    if rng.random() < .2:
        p["sendto-fails"] = rng.choice([1, 2, 7])
    if rng.random() < .1:
        p["socket-zero"] = 1
    return p


def mask_schedule(case, R_bins, known, kind, execute):
    pass


class NetProp(Prop):
    shrink_lists = ("dgrams", "recverrs", "sps", "ops")

    def plan(self, case, extra=()):
        p = [] if case.get("sps") is None else ["sched-explicit 1"] + ["sp %d %d" % tuple(x) for x in case["sps"]]
        p += ["mode udp"] + ["%s %s" % kv for kv in case["params"].items() if kv[0] not in ("variant",)]
        p += ["dgram %d %d %s" % (d["id"], d["t"], d["x"]) for d in case.get("dgrams", [])]
        p += ["recverr %d %d" % tuple(x) for x in case.get("recverrs", [])]
        return p + list(extra) + list(case["ops"])

    def explicit(self, case, kind, bins, known):
        """replace the seeded schedule by the explicit list of its preemptions, if the violation survives"""
        import core
        runs = []

        class Rec(core.Runner):
            def run(self, variant, plan, timeout=120):
                h = core.Runner.run(self, variant, plan, timeout)
                if "udp" in h.plan.split("\n", 1)[0] + h.plan:
                    runs.append(h)
                return h
        self.execute(case, Rec(bins))
        if not runs:
            return case
        c = dict(case)
        c["sps"] = [[int(x) for x in t.split()] for k, t in runs[0].recs if k == "SP"][:4000]
        try:
            v, _ = self.execute(c, core.Runner(bins))
        except Exception:
            return case
        return c if any(x[0] == kind for x in core.unknown(self.id, v, known)) else case

    def sample(self, case):
        return {"params": case["params"], "ops": case["ops"], "datagrams": [dict(t=d["t"], text=bytes.fromhex(d["x"]).decode("latin-1")[:60]) for d in case.get("dgrams", [])[:8]]}

    def simplify(self, case):
        for k in ("spurious", "oversleep", "mac-shutdown", "sendto-fails", "socket-zero", "socket-fails", "rq-max"):
            if k in case["params"]:
                c = dict(case); c["params"] = {a: b for a, b in case["params"].items() if a != k}
                yield c


def lin_ops(h):
    """[(kind, arg, begin index, end index, thread)] of the whole operations the service threads performed"""
    ops, open_ = [], {}
    for i, (k, t) in enumerate(h.recs):
        if k == "LB":
            f = t.split()
            o = dict(th=f[0], kind=f[1], arg=f[2] if len(f) > 2 and not f[2].startswith("t=") else "", b=i, e=None)
            ops.append(o); open_[f[0]] = o
        elif k == "LE":
            o = open_.get(t.split()[0])
            if o:
                o["e"] = i
                o["rc"] = t.partition("rc=")[2]
    return ops


def strip_service(text):
    return text.replace("//UDPNAR started!\n", "").replace("//UDPNAR started!", "")


class N01(NetProp):
    id = "N01"
    title = "Concurrent UDP service equals some serial execution"
    variants = ("instr",)
    shrink_lists = ("dgrams", "recverrs", "sps")
    quick_cases = 260
    thorough_cases = 30000
    rule = ("each case is a swarm of datagrams (Narsese, commands, resets; duplicated, reordered, dropped), a timestep and a preemption rate; "
            "non-trivial when at least one datagram was processed while the reasoner thread was running and the scheduler switched threads")
    assumptions = ["preemption is possible at every function entry, lock operation, sleep, send and receive of the repository's code, not between single machine instructions",
                   "sequentially consistent memory: reorderings by the hardware are not simulated"]

    def gen(self, rng, i, tier):
        p = sched_params(rng)
        p["p-instr"] = rng.choice([20, 100, 300, 1000, 5000, 20000])
        p["print-derivations"] = rng.choice([0, 1, 1])
        ts = rng.choice([0, 10000, 1000000, 10000000, 100000000])
        if ts <= 10000:
            p["cycle-cost"] = max(p["cycle-cost"], 100000)
        lang = gen.Lang(rng)
        lines = [l for l in gen.session(rng, rng.choice([4, 8, 14, 25]), lang) if not l.startswith("*setval")]
        t, d = 1000000, []
        gap = rng.choice([1000, 300000, 3000000, 30000000])
        for k, l in enumerate(lines):
            if l.isdigit():
                l = str(min(int(l), 3))
            t += rng.randrange(gap)
            if rng.random() < .06:
                l = "*reset"
            x = (l + rng.choice(["", "", "\n", " \n"])).encode("latin-1")
            at = t + (rng.randrange(5 * gap) if rng.random() < .1 else 0)
            if rng.random() < .05:
                continue  # lost
            d.append(dgram(k, at, x))
            if rng.random() < .06:
                d.append(dgram(1000 + k, at + rng.randrange(3 * gap), x))
        p["record"] = 1
        p["time-limit-s"] = 4000
        ops = ["udpstart 127.0.0.1 50000 %d" % ts, "nanosleep %d" % (rng.choice([0, t, t, 2 * t])), "drain %d" % rng.choice([20000000, 2000000000]), "udpstop", "digest"]
        return {"params": p, "dgrams": d, "recverrs": [[rng.randrange(1, 20), rng.choice([4, 11, 104, 111])] for _ in range(rng.choice([0, 0, 1, 3]))], "ops": ops, "sps": None}

    def execute(self, case, R):
        h = R.run("instr", self.plan(case))
        vs = []
        b = h.bad_end()
        ops = lin_ops(h)
        hist = [o["kind"] for o in ops]
        npr = hist.count("P")
        info = dict(sig=h.stats().get("schedhash", h.hash()), nontrivial=npr > 0 and h.stats().get("switches", 0) > 4, operations=len(ops), datagrams_processed=npr,
                    overlapping=sum(1 for a, c in zip(ops, ops[1:]) if a["e"] is None or c["b"] < a["e"]))
        if b and (b.startswith("STEPLIMIT") or b.startswith("TIMELIMIT") or b.startswith("OUTPUTLIMIT")):
            return vs, dict(info, nontrivial=False, capped=1)
        # what the service printed while its threads ran
        last = max([o["e"] or len(h.recs) for o in ops], default=0)
        end = last
        joined = [i for i, (k, t) in enumerate(h.recs) if k == "JOINED"]
        if len(joined) >= 2:
            end = max(end, joined[1])
        first = next((i for i, (k, t) in enumerate(h.recs) if k == "CALL" and t.startswith("start")), 0)
        text = strip_service(_text(h.recs[first:end + 1]))
        dig = h.first("DIGEST")
        if not b and not dig:
            return vs, dict(info, nontrivial=False)
        if b and not b.startswith("EXIT"):
            s = self.serial(case, ops, R)
            if not s.bad_end():
                return [Violation("abnormal", "the service ended with %s; the same operations one after the other do not" % b)], info
            return vs, info
        orders = [sorted(ops, key=lambda o: o["b"])]
        if info["overlapping"]:
            orders.append(sorted(ops, key=lambda o: o["e"] if o["e"] is not None else 1 << 60))
        why = ""
        for order in orders:
            s = self.serial(case, order, R)
            stext = _text(s.recs)
            if b:
                if s.bad_end() and stext[:len(stext) - 200].startswith(text[:max(0, len(text) - 200)]):
                    return vs, info
                why = "the service aborted (%s, %s); the same operations one after the other do not" % (b, h.abort_reason())
                continue
            if stext == text and s.first("DIGEST") == dig:
                return vs, info
            why = _diff(text, stext) if stext != text else "same output, but memory ends in a different state"
        return [Violation("not-serialisable", "%d operations; %s" % (len(ops), why))], info

    def serial(self, case, ops, R):
        p = case["params"]
        plan = ["mode api", "prng %d" % p["prng"], "poison 0", "init", "set-printderivations %d" % p.get("print-derivations", 1), "r"]
        for o in ops:
            plan.append("cycles %s" % (o["arg"] or 1) if o["kind"] == "C" else ("p " + (o["arg"] or "") if o["kind"] == "P" else "r"))
        return R.run("instr", plan + ["digest"])


def _text(recs):
    return "".join(t + ("\n" if k == ">" else "") for k, t in recs if k in (">", ">~"))


def _diff(a, b):
    A, B = a.split("\n"), b.split("\n")
    for i in range(max(len(A), len(B))):
        x, y = (A[i] if i < len(A) else "<nothing>"), (B[i] if i < len(B) else "<nothing>")
        if x != y:
            return "output line %d: concurrent %r, serial %r" % (i, x[:160], y[:160])
    return "?"


ALPHA = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 .,:;<>()[]{}!?-_=+*&^%$#@~'"


class N02(NetProp):
    id = "N02"
    title = "Every received datagram is one input, processed once, in order"
    variants = ("mid", "instr")
    quick_cases = 700
    thorough_cases = 60000
    shrink_lists = ("dgrams", "recverrs", "sps")
    rule = ("datagrams of 0..3000 arbitrary bytes without NUL or with a newline at the end, interleaved with failing receives and queue overflows; "
            "non-trivial when at least two datagrams of different length were received")
    assumptions = ["a datagram that still waits in the receive queue when the stop is requested may remain unprocessed"]

    def gen(self, rng, i, tier):
        p = sched_params(rng)
        p["variant"] = "instr" if i % 4 == 0 else "mid"
        if p["variant"] == "instr":
            p["p-instr"] = rng.choice([30, 300, 3000])
        p["cycle-cost"] = rng.choice([0, 1000, 100000])
        p["print-derivations"] = rng.choice([0, 1])
        p["time-limit-s"] = 4000
        ts = rng.choice([1000000, 5000000, 20000000])
        if rng.random() < .3:
            p["rq-max"] = rng.choice([1, 2, 4])
        d, t = [], 1000000
        for k in range(rng.choice([2, 4, 8, 16, 30])):
            t += rng.choice([0, 1000, 1000000, 30000000])
            kind = rng.random()
            if kind < .55:
                n = rng.choice([1, 2, 5, 20, 60, 200, 700, 2000, 2146, 2147, 2148, 3000]) if rng.random() < .6 else rng.randrange(1, 80)
                body = "".join(rng.choice(ALPHA) for _ in range(max(0, n - 2)))
                x = "//" + body
            elif kind < .8:
                x = "<d%d --> q%s>." % (k, "x" * rng.choice([0, 0, 5, 25]))
            elif kind < .88:
                x = ""
            elif kind < .91:
                x = "*reset"
            elif kind < .96:
                x = rng.choice(["*opconfig", "*opconfig", "0", "//again", "quit"])
            else:
                x = "<d%d --> q>?" % rng.randrange(30)
            if rng.random() < .3 and len(x) < 1900:
                x += rng.choice(["\n", "\r\n", "  ", "\t\n"])
            if rng.random() < .05 and len(x) < 1900:
                x += "\0<stale --> junk>."
            d.append(dgram(k, t, x))
            while rng.random() < .2:     # the same once more is one more input
                t += rng.choice([0, 1000, 1000000])
                d.append(dgram(1000 + len(d), t, x))
        ops = ["udpstart 127.0.0.1 50000 %d" % ts, "nanosleep %d" % (t + 1000000), "drain 3000000000", "nanosleep 300000000", "udpstop"]
        return {"params": p, "dgrams": d, "recverrs": [[rng.randrange(1, 40), rng.choice([4, 11, 104, 111])] for _ in range(rng.choice([0, 0, 0, 2, 6]))], "ops": ops, "sps": None}

    def execute(self, case, R):
        h = R.run(case["params"]["variant"], self.plan(case))
        b = h.bad_end()
        if b:
            return [Violation("ended", "the service ended with %s %s" % (b, h.abort_reason() or ""))], {}
        d = {x["id"]: bytes.fromhex(x["x"]).decode("latin-1") for x in case["dgrams"]}
        want, lens, received = [], set(), 0
        stop_at = next((i for i, (k, t) in enumerate(h.recs) if k == "CALL" and t.startswith("stop")), len(h.recs))
        for k, t in h.recs[:stop_at]:
            if k == "RECV":
                x = d[int(re.match(r"id=(-?\d+)", t).group(1))]
                received += 1
                lens.add(len(x))
                full, x = x, x[:2147].split("\0")[0].rstrip(" \t\r\n\v\f")
                if x.startswith("//"):
                    want.append(("Comment: " + x[2:], len(full) > 2140))
                elif x in ("*opconfig", "0"):
                    want.append(("//*opconfig" if x != "0" else "performing 0 inference steps:", False))
                elif x and x != "quit" and not x.startswith("*"):
                    want.append(("Input: " + x, "prefix"))
        got = [l for l in strip_service(h.text()).split("\n") if l.startswith(("Comment: ", "Input: ", "//*opconfig", "performing "))]
        left = h.first("DRAINED")
        queued = sum(1 for k, t in h.recs if k == "NETDROP")
        vs = []
        n = max(len(got), len(want))
        for i in range(n):
            if i >= len(want):
                vs.append(Violation("extra-input", "processed %r, which no datagram contained (or one twice)" % got[i][:200])); break
            if i >= len(got):
                vs.append(Violation("lost-input", "datagram %r was received but never processed" % want[i][0][:200])); break
            w, mode = want[i]
            ok = got[i] == w
            if mode == "prefix":
                ok = got[i] == w or got[i].startswith(w + " ")
            elif mode:  # at the length limit a datagram may be cut, nothing else
                ok = w.startswith(got[i][:2150]) and len(got[i]) >= 2100 and len(got[i]) <= len(w) + 1
            if not ok:
                vs.append(Violation("wrong-input", "input %d: datagram was %r, processed as %r" % (i, w[:200], got[i][:200]))); break
        if left and "left=0" not in left:
            vs.append(Violation("stuck", "datagrams still unread after 3 simulated seconds: " + left))
        if left and received + queued != len(d):
            vs.append(Violation("unreceived", "%d datagrams sent, %d received, %d dropped by the network" % (len(d), received, queued)))
        return vs, {"sig": h.hash(), "nontrivial": len(lens) > 1, "received": received, "dropped": queued}


class N03(NetProp):
    id = "N03"
    title = "The UDP service starts as configured and stops for good"
    variants = ("mid", "instr")
    shrink_lists = ("dgrams", "recverrs", "sps")
    quick_cases = 700
    thorough_cases = 60000
    rule = ("start with a random address, port, timestep and print setting, random traffic and receive errors, stop at a random time (also immediately, also in the middle of a burst); "
            "non-trivial when the service reached its stop with a context switch in between")
    assumptions = ["starting a service a second time in one process is outside the contract (the program itself never does)"]

    def gen(self, rng, i, tier):
        p = sched_params(rng)
        p["variant"] = "instr" if i % 3 == 0 else "mid"
        if p["variant"] == "instr":
            p["p-instr"] = rng.choice([30, 300, 3000])
        p["print-derivations"] = rng.choice([0, 1])
        p["time-limit-s"] = 4000
        p["record"] = 1
        p["trash-stack"] = 1
        if rng.random() < .1:
            p["bind-fails"] = 1
        ts = rng.choice([0, 1000, 1000000, 5000000, 50000000, 999999999, 1000000000, 2500000000, rng.randrange(1, 3000000000)])
        if ts < 100000:
            p["cycle-cost"] = max(p["cycle-cost"], 100000)
        stop = rng.choice([0, 0, 1000, 1000000, 30000000, 300000000, rng.randrange(400000000)])
        d, t = [], 0
        for k in range(rng.choice([0, 1, 3, 10])):
            t += rng.choice([0, 1000, 1000000, 20000000])
            d.append(dgram(k, t, rng.choice(["<a --> b>.", "<b --> c>.", "<c --> d>.", "<a --> c>?", "*reset", "", "3", "a. :|:", "b. :|:", "b! :|:"])))
        ops = ["udpstart %s %d %d" % (rng.choice(["127.0.0.1", "10.1.2.3"]), rng.choice([50000, 1, 65535, rng.randrange(1, 65536)]), ts),
               "nanosleep %d" % stop, "udpstop", "nanosleep 5000000000"]
        return {"params": p, "dgrams": d, "recverrs": [[rng.randrange(1, 20), rng.choice([4, 11, 104, 111])] for _ in range(rng.choice([0, 0, 1, 3]))], "ops": ops, "sps": None}

    def execute(self, case, R):
        h = R.run(case["params"]["variant"], self.plan(case))
        vs = []
        b = h.bad_end()
        st = h.stats()
        info = {"sig": st.get("schedhash", h.hash()), "nontrivial": st.get("switches", 0) > 3}
        if b:
            if b.startswith("OUTPUTLIMIT") or b.startswith("STEPLIMIT"):
                return vs, {"nontrivial": False, "capped": 1}
            what = "stop was requested and never returned" if h.first("CALL") and any(k == "CALL" and t.startswith("stop") for k, t in h.recs) else "start never returned" if not any(k == "RET" for k, t in h.recs) else "the service died"
            return [Violation("no-" + ("stop" if "stop" in what else "start" if "start" in what else "run"), "%s: %s %s" % (what, b, h.abort_reason() or ""))], info
        ip, port, ts = case["ops"][0].split()[1:]
        ts = int(ts)
        idx = {}
        for i, (k, t) in enumerate(h.recs):
            if k in ("CALL", "RET"):
                idx[k + t.split()[0]] = i
        if not case["params"].get("bind-fails"):
            bd = h.first("BIND") or "nothing"
            if "port=%s " % port not in bd + " " or "addr=%s" % ip not in bd:
                vs.append(Violation("address", "asked to listen on %s:%s, bound %s" % (ip, port, bd)))
        sl = [re.search(r"co=(\d+) (?:ns=(\d+)|invalid)", t) for k, t in h.recs if k == "SLEEP"]
        bad = [m.group(2) for m in sl if m and (m.group(2) is None or int(m.group(2)) != ts)]
        if bad:
            vs.append(Violation("timestep", "asked for a timestep of %d ns, a thread paused for %s" % (ts, bad[0] or "an invalid time")))
        n = h.text().count("//UDPNAR started!")
        if n != 1:
            vs.append(Violation("announce", "//UDPNAR started! printed %d times" % n))
        after = [(k, t) for k, t in h.recs[idx.get("RETstop", len(h.recs)):] if k in ("LB", "LE", "RECV") or (k == ">" and t)]
        if after:
            vs.append(Violation("zombie", "after the stop had returned: %s %s" % after[0]))
        if sum(1 for k, t in h.recs[:idx.get("RETstop", 0)] if k == "JOINED") < 2:
            vs.append(Violation("threads", "stop returned without waiting for both threads"))
        tt = {k: int(re.search(r"t=(\d+)", h.recs[i][1]).group(1)) for k, i in idx.items()}
        cost = case["params"].get("cycle-cost", 0)
        if "RETstop" in tt and tt["RETstop"] - tt["CALLstop"] > ts + 50000000 + 20 * cost + 30000000:
            vs.append(Violation("slow-stop", "stop took %d ns with a timestep of %d" % (tt["RETstop"] - tt["CALLstop"], ts)))
        if not case["params"]["print-derivations"]:
            der = [l for l in strip_service(h.text()).split("\n") if l.startswith(("Derived:", "Revised:", "Selected:"))]
            if der:
                vs.append(Violation("print-setting", "derivations were switched off, printed %r" % der[0][:200]))
        else:
            # with printing on, every selected or derived belief is shown: at least the selection of the first input
            ins = [l for l in h.text().split("\n") if l.startswith("Input: <") and ">. " in l]
            if ins and not [l for l in h.text().split("\n") if l.startswith(("Derived:", "Selected:"))] and sum(1 for k, t in h.recs if k == "LB" and " C " in t) > 8 and False:
                vs.append(Violation("print-setting", "derivations were switched on, none printed"))
        return vs, info


class N04(NetProp):
    id = "N04"
    title = "The UDP service reasons once per timestep and answers promptly"
    variants = ("mid",)
    shrink_lists = ("dgrams", "recverrs", "sps")
    quick_cases = 700
    thorough_cases = 60000
    rule = ("random timesteps from 0.1 ms to 3 s, random traffic, oversleeping and receive errors; non-trivial when the reasoner ran at least four cycles")
    assumptions = ["simulated time passes in sleeps, in sends (the cost of a cycle) and in failing receives only"]

    def gen(self, rng, i, tier):
        p = sched_params(rng)
        p["record"] = 1
        p["time-limit-s"] = 8000
        p["print-derivations"] = 0
        ts = rng.choice([100000, 1000000, 5000000, 50000000, 999999999, 1000000000, 1000000001, 2500000000, rng.randrange(100000, 3000000000)])
        p["cycle-cost"] = rng.choice([1000, 10000, 100000])
        total = ts * rng.choice([5, 10, 25])
        d = []
        for k in range(rng.choice([0, 2, 6, 15])):
            d.append(dgram(k, rng.randrange(total), rng.choice(["<a --> b>.", "<b --> c>.", "<c --> d>.", "<a --> c>?", "", "2", "a. :|:", "b. :|:", "//hello"])))
        ops = ["udpstart 127.0.0.1 50000 %d" % ts, "nanosleep %d" % total, "udpstop"]
        return {"params": p, "dgrams": d, "recverrs": [[rng.randrange(1, 20), rng.choice([4, 11, 104, 111])] for _ in range(rng.choice([0, 0, 1, 3]))], "ops": ops, "sps": None}

    def execute(self, case, R):
        h = R.run("mid", self.plan(case))
        vs = []
        b = h.bad_end()
        if b:
            return [Violation("died", b)], {}
        ts = int(case["ops"][0].split()[3])
        cost = case["params"]["cycle-cost"]
        over = 50000000 if case["params"].get("oversleep") else 0
        total = int(case["ops"][1].split()[1])
        c = []     # begin times of the reasoner's cycles
        other = []  # times at which the receiver worked
        start = stop = None
        pend = None
        reasoner = None
        for k, t in h.recs:
            m = re.search(r"t=(\d+)", t) if k in ("LB", "RECV", "CALL", "RET") else None
            if k == "RET" and t.startswith("start"):
                start = int(m.group(1))
            elif k == "CALL" and t.startswith("stop"):
                stop = int(m.group(1))
            elif k == "LB":
                f = t.split()
                if f[1] == "C":
                    n = int(f[2])
                    if reasoner is None:
                        reasoner = f[0]
                    (c if f[0] == reasoner else other).append((int(m.group(1)), n))
                else:
                    if f[1] == "P" and pend is not None:
                        if stop is None and int(m.group(1)) - pend > 2000000 + 4 * cost:
                            vs.append(Violation("slow-input", "a datagram received at %d ns was taken up only at %d ns" % (pend, int(m.group(1)))))
                        pend = None
                    x = bytes.fromhex(f[2]).decode("latin-1").strip() if len(f) > 2 and not f[2].startswith("t=") else ""
                    other.append((int(m.group(1)), int(x) if x.isdigit() else 1))
            elif k == "RECV" and stop is None:
                pend = int(m.group(1))
        if start is None or stop is None:
            return vs, {"nontrivial": False}
        for (a, n), (e, _) in zip(c, c[1:]):
            if n != 1:
                vs.append(Violation("batch", "the reasoner performed %d cycles in one step" % n)); break
            if e - a < ts:
                vs.append(Violation("too-fast", "two reasoning steps %d ns apart, the timestep is %d ns" % (e - a, ts))); break
            slack = ts + over + 3000000 + cost * (2 + sum(k + 1 for t0, k in other if a - 5000000 <= t0 <= e))
            if e - a > slack and e < stop:
                vs.append(Violation("too-slow", "two reasoning steps %d ns apart, the timestep is %d ns" % (e - a, ts))); break
        if len(c) > 1 and total > 2 * (ts + over) + 10000000 and stop - c[-1][0] > 2 * (ts + over) + 10000000 + cost * (4 + sum(k + 1 for t0, k in other)):
            vs.append(Violation("stalled", "no reasoning in the last %d ns before the stop, the timestep is %d ns" % (stop - c[-1][0], ts)))
        if not c and total > 10 * cost + 3000000:
            vs.append(Violation("stalled", "the reasoner never ran"))
        return vs, {"sig": h.stats().get("schedhash"), "nontrivial": len(c) > 3, "reasoner_cycles": len(c), "inputs": len(other)}


class N05(NetProp):
    id = "N05"
    title = "Metrics reporting never influences reasoning"
    variants = ("mid",)
    quick_cases = 300
    thorough_cases = 30000
    shrink_lists = ("ops",)
    rule = "a session is run with a healthy metrics socket and again under socket and send failures; non-trivial when a failure fired and at least 10 cycles ran"

    def gen(self, rng, i, tier):
        p = {"prng": rng.randrange(1, 1 << 30), "poison": rng.choice([0, 165])}
        f = {}
        if rng.random() < .5:
            f["socket-fails"] = rng.choice([1, 2, 5, 1000000])
        if rng.random() < .6:
            f["sendto-fails"] = rng.choice([1, 2, 3, 7])
        if rng.random() < .4:
            f["socket-zero"] = 1
        return {"params": p, "faults": f, "ops": [l for l in gen.session(rng, rng.choice([5, 15, 30])) if not l.startswith("*concurrent")]}

    def execute(self, case, R):
        base = ["mode shell"] + ["%s %s" % kv for kv in case["params"].items()]
        ops = ["line " + l for l in case["ops"]] + ["digest"]
        a = R.run("mid", base + ops)
        b = R.run("mid", base + ["%s %s" % kv for kv in case["faults"].items()] + ops)
        vs = []
        if a.bad_end():
            return [Violation("died", "%s %s" % (a.bad_end(), a.abort_reason()))] if not a.bad_end().startswith("EXIT") else [], {"nontrivial": False}
        for h, what in ((a, "healthy"), (b, "faulty")):
            st = h.stats()
            if not h.bad_end() and st["sendto"] != st["ctime"] - 1:
                vs.append(Violation("count", "%d metric messages for %d cycles (%s socket)" % (st["sendto"], st["ctime"] - 1, what)))
            for k, t in h.recs:
                if k == "SENDTO" and ("text=NARNode.Cycle:1|c " not in t + " " or "addr=127.0.0.1:8125" not in t):
                    vs.append(Violation("message", "sent %s" % t)); break
        for h, what in ((a, "healthy"), (b, "faulty")):
            if h.first("SOCKCLOSE"):
                vs.append(Violation("socket-closed", "the metrics socket was closed while the process went on (%s socket)" % what)); break
        allowed = 1 + case["faults"].get("socket-fails", 0)
        if a.stats().get("sockets", 0) > 1 or b.stats().get("sockets", 0) > allowed:
            vs.append(Violation("socket-leak", "%s sockets opened (%s under failures %s)" % (a.stats().get("sockets"), b.stats().get("sockets"), case["faults"])))
        if b.bad_end():
            vs.append(Violation("died", "metrics failures %s: %s %s" % (case["faults"], b.bad_end(), b.abort_reason() or "")))
        elif a.text() != b.text() or a.first("DIGEST") != b.first("DIGEST"):
            vs.append(Violation("influence", "under metrics failures %s the output or memory differs: %s" % (case["faults"], _diff(b.text(), a.text()))))
        return vs, {"sig": a.hash() + str(case["faults"]), "nontrivial": bool(case["faults"]) and a.stats().get("cycles", 0) >= 10}
