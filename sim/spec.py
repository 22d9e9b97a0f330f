#!/usr/bin/env python3
"""The properties (single source of properties.jsonl and MANIFEST.json).  `python3 sim/spec.py` rewrites both files."""
import json, os, sys

P = []          # claimed
NA = []         # listed, not decided by simulation


def prop(id, title, statement, over, text, why, files, mechanism, observe=None, state=None, level_note="", technique="", na=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism]))
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe:
        d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = None
    P.append((d, level_note, technique, na))


TRUST = ("Trusted: the simulator's model of the operating system (sim/sim.c), gcc, and the reduced memory sizes standing for the shipped ones. "
         "Sampling over seeds, not a proof.")

# ------------------------------------------------------------------------------------------------ network service
prop("N01", "Concurrent UDP service equals some serial execution",
     "While the UDP service runs, its effects - everything it prints and everything it remembers - are those of performing each received input, each reset and each timed reasoning cycle as a whole, one after the other in some order. This holds for every interleaving of the receiving thread and the reasoning thread.",
     ["schedules", "inputs", "fault_sequences"], "every interleaving of receiver and reasoner, every sequence of datagrams including *reset and commands, receive errors, delays and duplicates",
     "the repository's tests only run the single-threaded shell; the UDP service and its lock are never exercised, and a data race shows under rare schedules only",
     ["src/NetworkNAR/UDPNAR.c", "src/NetworkNAR/UDPNAR.h", "src/Shell.c", "src/NAR.c"],
     [("one mutex around processing of a datagram, reset and the timed cycle", "src/NetworkNAR/UDPNAR.c")],
     observe=["standard output", "digest of the whole memory"],
     level_note="Two real service threads run as coroutines with preemption at every function entry, lock, sleep and socket call; each run's history is re-executed serially and compared exactly. " + TRUST,
     technique="deterministic simulation of thread schedules, linearisability check by serial re-execution")

prop("N02", "Every received datagram is one input, processed once, in order",
     "The UDP service processes exactly the text of each datagram it receives: no input is processed twice, skipped, merged with another, or extended with bytes of an earlier datagram, and inputs are processed in the order received. Failed receives and datagrams lost by the network cause no input, and text after a NUL byte or beyond the maximum input length is ignored.",
     ["inputs", "fault_sequences", "schedules"], "every sequence of datagrams of any length and content, with receive errors, signals and queue overflow in between",
     "no test sends a datagram; stale buffer contents need two datagrams of particular lengths or a failing receive",
     ["src/NetworkNAR/UDPNAR.c", "src/NetworkNAR/UDP.c"],
     [("buffer termination and error handling in the receive loop", "src/NetworkNAR/UDPNAR.c"), ("bounded receive", "src/NetworkNAR/UDP.c")],
     observe=["echo of inputs and comments on standard output"],
     level_note="Simulated network with loss, delay, duplication, reordering, queue overflow, receive errors. " + TRUST,
     technique="deterministic simulation of the network with fault injection, history check against the sent datagrams")

prop("N03", "The UDP service starts as configured and stops for good",
     "Starting the UDP service makes it listen on the given address and port, reason with the given timestep and honour the given setting for printing derivations, whatever the caller does with its stack afterwards. Stopping it, at any moment and under any interleaving, returns within a bounded time after both threads ended, and nothing is received, reasoned or printed by the service after that.",
     ["schedules", "configurations", "crash_points"], "every moment of stopping, every interleaving, every address, port, timestep and print setting, receive errors and a bind failure",
     "start and stop are not called by any test; a hang or a use of a dead stack frame depends on the schedule",
     ["src/NetworkNAR/UDPNAR.c", "src/NetworkNAR/UDP.c", "src/main.c"],
     [("parameters handed to the threads, stop flag, socket shutdown and joins", "src/NetworkNAR/UDPNAR.c")],
     observe=["bind call", "sleep durations", "standard output", "return of the stop call"],
     level_note="Lifecycle driven with randomised stop times and schedules, both real threads under the simulated scheduler. " + TRUST,
     technique="deterministic simulation of threads and clock, lifecycle history check")

prop("N04", "The UDP service reasons once per timestep and answers promptly",
     "With a timestep T the running UDP service performs exactly one timed reasoning cycle per pause of T: never two cycles closer together than T, and - as long as the system is not overloaded - never much further apart, for timesteps below and above a second alike. A received input is taken up without waiting for the next timestep.",
     ["schedules", "configurations", "fault_sequences"], "every timestep, every arrival pattern, delayed wake-ups and receive errors",
     "timing of the service is not tested; timesteps of a second or more need a real clock and minutes to try",
     ["src/NetworkNAR/UDPNAR.c"],
     [("pause between cycles, lock held only while working", "src/NetworkNAR/UDPNAR.c")],
     observe=["begin times of cycles and inputs on the simulated clock"],
     level_note="Simulated clock; slack proportional to the simulated cost of a cycle. " + TRUST,
     technique="deterministic simulation of the clock, timing history check")

prop("N05", "Metrics reporting never influences reasoning",
     "For every cycle performed exactly one counter message is sent to the metrics collector, over one socket kept for the life of the process. Failure or success of creating that socket or of sending changes neither output nor memory of the reasoner.",
     ["fault_sequences", "histories"], "every sequence of failing socket creations and sends, during every session",
     "tests never make the metrics socket fail, nor count its sockets",
     ["src/NetworkNAR/Metric.c", "src/Cycle.c"],
     [("fire-and-forget counter message", "src/NetworkNAR/Metric.c")],
     observe=["socket and send calls", "standard output", "digest of memory"],
     level_note="Same session with and without injected socket failures, compared exactly. " + TRUST,
     technique="deterministic simulation with socket failures injected, differential history check")

# ------------------------------------------------------------------------------------------------ memory
prop("M01", "Memory stays structurally sound",
     "After every cycle of every session all bounded stores hold at most their capacity and their bookkeeping agrees: each concept is found by its term, is listed once under each of its atoms and under no other concept's, forgotten concepts are listed nowhere, no storage slot is lost or held twice, and every priority queue is in heap order. Knowledge is stored where it belongs: an implication lies with the concept of its consequent, under its operation, once, ranked by strength, with valid truth values.",
     ["histories", "inputs", "configurations"], "every session, at every cycle, with memory small enough that concepts and events are recycled constantly",
     "tests look at answers of short sessions with a memory far larger than needed, so that recycling never happens",
     ["src/Memory.c", "src/PriorityQueue.c", "src/InvertedAtomIndex.c", "src/HashTable.c", "src/Table.c", "src/Stack.c", "src/Decision.c"],
     [("eviction keeps queue, hash table and atom index in step", "src/Memory.c"), ("min-max heap", "src/PriorityQueue.c"), ("element pools", "src/Stack.c")],
     observe=["whole memory after every cycle"],
     level_note="Structural invariants checked after every cycle with 24-96 concepts and small queues (also under undefined-behaviour checks). " + TRUST,
     technique="deterministic simulation, invariants after every cycle")

EXTRA = os.path.join(os.path.dirname(os.path.abspath(__file__)), "spec_more.py")
if os.path.exists(EXTRA):
    exec(open(EXTRA).read())


def main():
    here = os.path.dirname(os.path.abspath(__file__))
    root = os.path.dirname(here)
    sys.path.insert(0, here)
    import props
    with open(os.path.join(root, "properties.jsonl"), "w") as f:
        for d, *_ in sorted(P, key=lambda x: x[0]["id"]):
            f.write(json.dumps(d) + "\n")
    checks, na, variants = [], [], set()
    for d, note, tech, why in sorted(P, key=lambda x: x[0]["id"]):
        if why:
            na.append(dict(property=d["id"], reason=why)); continue
        if d["id"] not in props.ALL:
            na.append(dict(property=d["id"], reason="check still under construction")); continue
        variants |= set(props.ALL[d["id"]].variants)
        checks.append(dict(property=d["id"], quick_cmd="python3 sim/check.py %s --tier quick" % d["id"],
                           thorough_cmd="python3 sim/check.py %s --tier thorough" % d["id"],
                           technique=tech or "deterministic simulation with fault injection", level="exploration", level_note=note))
    m = dict(version=1, setup_cmd="python3 sim/build.py " + " ".join(sorted(variants)), checks=checks, not_applicable=na,
             notes="No hooks in /repo: every seam is taken at link time (sim/sim.c). Replay a violation with `python3 sim/check.py replay FILE`.")
    json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(root, "MANIFEST.json"), "a").write("\n")


if __name__ == "__main__":
    main()
