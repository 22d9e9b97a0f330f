# executed by spec.py (same namespace)

# ------------------------------------------------------------------------------------------------ the shell
prop("L01", "The shell treats its input as a stream of lines",
     "A session typed into the shell has the same output and leaves the same memory however its bytes arrive, with whatever white space ends its lines, and with or without a final line break, for lines up to the maximum Narsese length. Every line is answered and all output flushed before the shell waits for the next: comments are echoed unchanged, a number N performs N cycles between its two notices, a question gets exactly one answer, an input is echoed. The shell returns at the end of its input and on quit, performing nothing after that.",
     ["inputs", "fault_sequences", "crash_points"], "every session, every splitting of its bytes into reads, every end of the stream",
     "tests pipe whole files in, so that partial reads, long lines, a missing final newline and unflushed output are invisible",
     ["src/Shell.c", "src/Narsese.c", "src/NAR.c"],
     [("line reading and dispatch", "src/Shell.c")],
     observe=["standard output", "flush state at every wait for input", "digest of memory"],
     level_note="Each session delivered line by line and again in random pieces, compared exactly. " + TRUST,
     technique="deterministic simulation of the input stream with delivery faults, differential history check")

prop("L02", "Operation results are requested, read and fed back correctly",
     "When an operation configured with *setopstdin is executed, the shell prints its execution and then the request for the result product, flushes, and reads exactly two lines: the 0 and the result. If the result unifies with the operation's argument, the operation with exactly the unified argument is fed back as event; if it does not, or there is no result, nothing is fed back. Operations not configured so never read from the input and are fed back as executed.",
     ["histories", "inputs", "fault_sequences"], "every sequence of executions of operations with and without result input, and of matching, mismatching, empty and missing results",
     "only one example uses the protocol, with one matching result",
     ["src/Decision.c", "src/Shell.c"],
     [("request for the result and unification", "src/Decision.c")],
     observe=["standard output and reads of standard input"],
     level_note="Client episodes simulated with missing and wrong results; feedback compared to a small unification model. " + TRUST,
     technique="deterministic simulation of the client protocol, history check against a model")

prop("L03", "The print volume filters output and changes nothing else",
     "Lines about selected, derived and revised tasks are printed if and only if their priority exceeds the threshold set by *volume (volume V shows priorities above 1-V/100). All other output - inputs, answers, executions, decisions, dumps - is printed at every volume, in the same order (knowledge an input revises may be shown with it), and the volume never changes what the system does or remembers.",
     ["histories", "configurations"], "every session at every volume",
     "tests compare answers at one volume",
     ["src/Memory.c", "src/Shell.c"],
     [("print threshold", "src/Memory.c")],
     observe=["standard output", "whole memory"],
     level_note="Each session run at full and at another volume; the latter's output must be the filtered former. " + TRUST,
     technique="deterministic simulation, differential history check")

prop("R01", "The same seed and input give the same run",
     "Output and memory are a function of the input lines and the seed of the random generator alone: not of uninitialised memory, wall clock, speed, or how the input arrives.",
     ["histories", "schedules", "fault_sequences"], "every session and every environment it may run in",
     "a test sees one environment; dependence on stale memory or on time shows elsewhere",
     ["src/Globals.c", "src/NAR.c", "src/Shell.c", "src/Cycle.c"],
     [("seeded generator", "src/Globals.c")],
     observe=["standard output", "digest of memory"],
     level_note="Each session run twice with different stack garbage, clock, speed and chunking. " + TRUST,
     technique="deterministic simulation under two environments, differential history check")

prop("R02", "A reset leaves nothing of the past behind",
     "After *reset an instance behaves exactly like a freshly started one: no concept, event, evidence, time, operator setting, pending import, statistic or counter of the time before influences output or memory. Only the tunables - decision threshold, motor babbling, babbling operations, anticipation confidence, similarity distance, volume, question priming - keep their values.",
     ["histories", "configurations"], "every session before and every session after one or more resets",
     "tests reset between examples, but only look at the answers of the next",
     ["src/NAR.c", "src/Memory.c", "src/Event.c", "src/Cycle.c", "src/Shell.c", "src/Decision.c"],
     [("initialisation functions called on reset", "src/NAR.c")],
     observe=["standard output", "digest of memory"],
     level_note="Session after reset compared exactly with the same session on a fresh instance with the same tunables. " + TRUST,
     technique="deterministic simulation of restarts, differential history check")

prop("R03", "A dumped instance can be restored after a crash",
     "The lines printed by *opconfig and *concepts list every belief and every implication with truth value and time offset, and the operator settings; sent to a fresh instance they are all accepted as what they say - same terms up to the names of variables, truths and offsets to the printed six digits - so that knowledge lost in a crash is restored: every operator with its arguments, every babbling setting, every belief at least as confident as before, and exactly as before where the restored knowledge does not lead to further conclusions. Beliefs of confidence up to 0.01 are too weak to be restored.",
     ["crash_points", "histories"], "every session, crashed after any input",
     "there is no test of restoring a dump",
     ["src/Shell.c", "src/Memory.c", "src/Narsese.c", "src/Variable.c"],
     [("dump commands", "src/Shell.c"), ("print and parse of terms", "src/Narsese.c"), ("normalisation of variables", "src/Variable.c")],
     observe=["standard output", "whole memory of the restored instance"],
     level_note="Process crash after a dump, new process with a different seed, compared term by term. " + TRUST,
     technique="deterministic simulation with process crash and restart, comparison of durable state")

prop("R04", "Imported evidence keeps its identity and is never counted twice",
     "*stampimport gives exactly the next input the listed evidence ids (the first ten), *stampid sets the id the following inputs count up from, and inputs without import each get the next id. A belief entered again with evidence it already rests on never gains confidence from it: the more confident of the two is kept as it is; with disjoint evidence both are pooled by the revision rule.",
     ["histories", "crash_points"], "every sequence of imports, id settings, resets and repeated inputs with overlapping and disjoint evidence",
     "the import protocol used by the persistence layer has no test",
     ["src/Shell.c", "src/Event.c", "src/Inference.c", "src/Stamp.c"],
     [("pending import stamp", "src/Event.c"), ("overlap check before revision", "src/Inference.c")],
     observe=["stamp of the echo", "belief after every line"],
     level_note="Evidence model in the harness, beliefs compared exactly after every line. " + TRUST,
     technique="deterministic simulation, history check against a model of evidence")

prop("C01", "Every command does exactly what it says",
     "Each settings command sets exactly the setting it names to exactly the given value, immediately and until changed: no command touches another setting, concept, event, time or evidence counter, and none prints more than asked. Inspection commands change nothing; the lists of waiting events and goals, the atom index and the counters and time of the statistics are exactly what memory holds. Out-of-range operator and argument numbers, granularities, thresholds and overlong values are refused by ending with a diagnostic, never accepted and never by corrupting memory.",
     ["inputs", "histories", "configurations"], "every sequence of commands with valid and invalid values in every state",
     "tests use a handful of commands with valid values",
     ["src/Shell.c", "src/NAR.c"],
     [("command dispatch", "src/Shell.c")],
     observe=["whole memory and settings before and after every command", "standard output"],
     level_note="State compared before and after every command, also under undefined-behaviour checks. " + TRUST,
     technique="deterministic simulation, history check against a model of the settings")

# ------------------------------------------------------------------------------------------------ reasoning
prop("Q01", "Questions get the best answer memory holds",
     "A question is answered with the matching entry of memory of highest truth expectation - for :|:, :\\: and :/: questions the observed or predicted event whose truth, projected to now, has highest expectation - with exactly the truth, time and evidence memory holds, and with None only if nothing matches. A query variable matches anything but a variable, the same variable only the same term. *query lists exactly the matches above its threshold. Asking changes nothing but the priority and use of the concept the answer came from, and that only with question priming above 0. Implication questions are answered from the implications kept with their consequent.",
     ["inputs", "histories"], "every question in every memory content, with many candidates of similar expectation, recycled concepts and expired events",
     "tests ask few questions with one candidate each; a wrong choice among several shows only with particular contents",
     ["src/NAR.c", "src/Variable.c", "src/Truth.c"],
     [("search for the best candidate", "src/NAR.c"), ("unification with query variables", "src/Variable.c")],
     observe=["Answer line against the memory before and after the question"],
     level_note="Every answer recomputed from a snapshot of the memory by an independent unification and truth model. " + TRUST,
     technique="deterministic simulation, history check against a reference model of question answering")

prop("T01", "Logical time advances exactly as the input says",
     "Every belief, event or goal entered advances time by one step, an empty line by one, a number N by N, *concurrent takes one step back, *currenttime=N (N at least 0) sets time to N, *reset to 1; questions, comments and all other commands take no time. An event entered happens at the current time. Every executed operation that succeeds is fed back as one event of its own and takes one more step; one that fails is not. Each input and each such event gets exactly one next evidence number, and nothing else does.",
     ["histories", "inputs", "fault_sequences"], "every session with clock steps and jumps, operations that succeed or fail, and resets",
     "tests never look at the clock or the evidence counter, and use operations which never fail",
     ["src/NAR.c", "src/Shell.c", "src/Event.c", "src/Decision.c", "src/Cycle.c"],
     [("time step per cycle", "src/NAR.c"), ("feedback of executed operations", "src/Decision.c")],
     observe=["time and evidence counter after every line", "echoed occurrence times and stamps"],
     level_note="Clock and counter predicted for every line; operations scripted to fail. " + TRUST,
     technique="deterministic simulation of clock jumps and failing operations, history check against a model")

prop("E01", "Conclusions never outrun the evidence they rest on",
     "Every belief and event in memory lists evidence that really was entered, each piece once, and its confidence never exceeds what pooling exactly the listed pieces supports; truth values are always valid numbers (frequency in [0,1], confidence in [0,1)). A belief speaks of nothing its evidence does not mention. A concept's belief never loses confidence while its concept is remembered, and nothing is shown as revised that was not pooled with something.",
     ["inputs", "histories"], "every session, every derivation chain through every inference rule, at every cycle",
     "tests compare a few final answers; double counting needs particular overlaps of evidence and shows as slightly too high confidence",
     ["src/Inference.c", "src/Stamp.c", "src/Truth.c", "src/Memory.c", "src/Cycle.c", "src/RuleTable.c", "src/NAL.c"],
     [("evidence overlap checks", "src/Stamp.c"), ("truth functions", "src/Truth.c")],
     observe=["all beliefs and events of all concepts after inputs, invariants after every cycle"],
     level_note="Upper bound recomputed from the recorded inputs for every belief with complete evidence list. " + TRUST,
     technique="deterministic simulation, invariants and history check against the recorded inputs")

prop("E02", "Observed and believed values follow from the inputs exactly",
     "For events and beliefs about single atoms, the concept's belief and its current event are at every moment exactly what the inputs so far imply: an event counts as belief with its eternalised truth; beliefs with disjoint evidence are revised to the evidence-weighted truth with merged evidence; with shared evidence the more confident one stays; the current event is replaced by the more confident of the two after projecting both to the later time, events at the same time are pooled, and the later one takes over when the event is processed. Inputs of confidence below 0.01 are ignored. A belief revised by an eternal input is shown once, as revised.",
     ["inputs", "histories"], "every sequence of events and beliefs with any truth values, times and pauses, also concurrent ones and after clock jumps",
     "tests cover revision of a few pairs of inputs with default truth",
     ["src/Memory.c", "src/Inference.c", "src/Truth.c", "src/Cycle.c", "src/Stamp.c"],
     [("revision and choice", "src/Inference.c"), ("projection and eternalisation", "src/Truth.c")],
     observe=["belief and belief event of every concept after every line"],
     level_note="Small executable model, compared to nine digits after every line. " + TRUST,
     technique="deterministic simulation with clock jumps, refinement check against a reference model")

prop("T02", "What follows what is learned exactly",
     "In each cycle the waiting event of highest priority is processed. With it (unless it is an operation) every earlier event, sequence, or event followed by an operation within the last 20 steps becomes the condition of a temporal implication predicting it, if their evidence is disjoint: its truth is the eternalised induction from the condition projected to the event's time, its time offset their distance, its evidence the merged evidence; repeated observation revises truth and averages the offset by weight. Events become sequences of up to three elements whose time is that of the last. Every processed input checks the implications it is the condition of: those predicting with expectation above 0.501 (or hopeless ones) become the consequent's predicted event at the right time, and lose as much confirmation as *anticipationconfidence says. Nothing else is learned or predicted.",
     ["inputs", "histories"], "every stream of events and operations with any truth values, concurrent events, pauses and clock jumps",
     "tests check that an implication exists after two events; truth values, offsets, evidence, windows and predictions in the middle of longer streams are not checked",
     ["src/Cycle.c", "src/Inference.c", "src/Decision.c", "src/Table.c", "src/OccurrenceTimeIndex.c", "src/Truth.c", "src/Memory.c"],
     [("temporal induction and sequences", "src/Cycle.c"), ("anticipation", "src/Decision.c"), ("table revision", "src/Table.c")],
     observe=["every concept's current and predicted event and implication tables before and after every cycle"],
     level_note="Every cycle's transition recomputed by an independent model from the snapshot before it; events about single atoms and operations without arguments, no goals. " + TRUST,
     technique="deterministic simulation with clock jumps, refinement check of every cycle against a reference model")

prop("T03", "Measured values are compared truly",
     "Events like `<(thing * value) --> attribute>. :|:` (or |->) whose values were declared with *setvalue or *space are compared: of two such events about the same attribute in immediate succession, `<(x * y) --> (+ attribute)>. :|:` is derived for the one with the larger value, or `<(x * y) --> (= attribute)>. :|:` if the values are equal, with merged evidence and the truth of both events together at the time of the later one. Nothing is derived from two events that their values do not support, whatever the things and attributes are, and names without declared values are not compared.",
     ["inputs", "histories"], "every sequence of events, spaces, granularities, values (also negative ones), things and attributes",
     "only examples with frequencies as values are tested",
     ["src/Cycle.c", "src/Narsese.c", "src/Shell.c"],
     [("comparison of values in sequences", "src/Cycle.c"), ("values of atoms", "src/Narsese.c")],
     observe=["every derived comparison and the input events of its evidence; answers to questions about comparisons"],
     level_note="Required only while few other events were derived in between, as the index of recent events is finite. " + TRUST,
     technique="deterministic simulation, history check of derived events against a reference model")

prop("D01", "The best supported operation is executed, and only when it is good enough",
     "When a goal is processed, for every known `<(condition &/ operation) =/> goal>` (also general ones that match) whose condition is currently believed, the desire of the operation follows from goal, implication and the condition projected to now; a condition about a number also counts if the number believed is close to it, with confidence reduced by the distance, unless another of the goal's conditions is closer. The operation of highest desire (the simpler one at a tie) is executed, exactly once and with the arguments the match gives, if its desire reaches *decisionthreshold; the printed reason is the true one. Operations whose known immediate outcomes speak against other recent goals, general knowledge refuted for the very instance, knowledge about forgotten conditions and operations of others than SELF are never chosen. Without such a reason nothing is executed (babbling off).",
     ["inputs", "histories", "fault_sequences"], "every knowledge base, history of events, failing operations and goals, general and specific",
     "tests check that the expected operation comes out in a few scenarios; competition between many implications, conflicting goals, truth values, thresholds and ages are not covered",
     ["src/Decision.c", "src/Cycle.c", "src/Inference.c", "src/Variable.c", "src/Truth.c"],
     [("choice of the best candidate", "src/Decision.c"), ("goal processing", "src/Cycle.c")],
     observe=["decision and execution lines of every processed goal, memory at that moment"],
     level_note="Every goal processed in every cycle is judged by an independent model from the snapshot of memory at that moment; undecided only where equally good outcomes exist or a substitution captures variables. " + TRUST,
     technique="deterministic simulation with failing operations, refinement check of every decision against a reference model")

prop("D03", "Goals become the subgoals that lead to them",
     "In each cycle one goal, the most urgent, is taken from every layer in turn. If no operation is executed, every implication (temporal or ==>) predicting it makes its condition a subgoal in the next layer, with truth by deduction from the concept's current goal, merged evidence, urgency scaled by the expectation and simplicity, unless that goal is there already; a sequence goal also makes its first component not yet believed the subgoal, in the order of time and with the truth the fulfilled ones imply. Concepts' current goals follow revision and choice. Waiting goals lose urgency by the factor 0.9999 per cycle, and all are dropped when an operation is executed. No other goal arises.",
     ["inputs", "histories"], "every knowledge base and history, chains of subgoals through all layers, cyclic knowledge, sequence goals",
     "tests check that a chain of two or three steps leads to the operation; truth, evidence, order, urgency, layers and completeness of subgoals are not checked",
     ["src/Cycle.c", "src/Memory.c", "src/Inference.c", "src/PriorityQueue.c", "src/Truth.c"],
     [("subgoal derivation and goal layers", "src/Cycle.c"), ("goal queues", "src/Memory.c")],
     observe=["all waiting goals and all current goals at each goal selection and at the end of every cycle"],
     level_note="Every step of goal processing is recomputed from the snapshot before it and compared to all queues in the next one. " + TRUST,
     technique="deterministic simulation with failing operations, refinement check of every step against a reference model")

prop("D02", "Exploration stays within its settings",
     "An operation nothing speaks for is executed only by chance: with the probability set by *motorbabbling each time a goal is considered, never with 0 or false, and never when an operation with desire above 0.55 is suggested for the goal. It is one of the first *babblingops registered operations, each of them equally, and is executed with one of exactly the arguments *setoparg gave it, or none if it was given none.",
     ["inputs", "histories", "random_choices", "fault_sequences"], "every history of goals and settings, every random choice, failing operations",
     "tests switch exploration off, or look at one random sequence",
     ["src/Decision.c", "src/Shell.c"],
     [("motor babbling", "src/Decision.c"), ("settings", "src/Shell.c")],
     observe=["every executed operation against the model's decision, frequencies over many goals"],
     level_note="Executions not explained by the decision model of D01 must be allowed exploration; frequencies are bounded statistically per session (error below 1e-6). " + TRUST,
     technique="deterministic simulation with seeded random choices and failing operations, history check against a model")

prop("M03", "Knowledge about forgotten concepts is not used, and comes back when re-entered",
     "When memory is full and the concept of an implication's condition has been forgotten, the implication no longer leads to decisions, subgoals or considerations of outcomes, whatever has taken the concept's place; it is never applied to a different concept than the one its condition names. Knowledge entered (again) belongs to the condition's present concept and is used as long as that one is remembered.",
     ["histories", "fault_sequences", "inputs"], "every history that exhausts memory any number of times, at every goal and after every input",
     "tests never fill memory",
     ["src/Memory.c", "src/Table.c", "src/Decision.c", "src/Cycle.c", "src/Inference.c"],
     [("source concept of an implication", "src/Memory.c"), ("use of implications", "src/Decision.c")],
     observe=["all implications with the concept they belong to, decisions and subgoals at each selected goal"],
     level_note="Memory of 24 or 96 concepts, exhausted many times; goals judged by the model of D01 and D03. " + TRUST,
     technique="deterministic simulation with memory exhaustion, refinement check against a reference model")

prop("I02", "Conditions serving one goal by one operation are found to go together",
     "When an operation is executed because an implication without variables says it leads to the goal from the present condition, every other condition that the same operation is known to lead to the same goal from, also without variables and resting on no shared evidence, is concluded to go together with it: <A ==> B> with the truth of induction and <B ==> A> with that of abduction of the two implications, both with the merged evidence and the present time. Of two sequences only the parts that differ are compared, and only if equally long. It is not concluded when either condition is known to be followed by the other (expectation above 0.5). The general form is concluded too, with variables in the place of shared subjects. Nothing else is concluded from executing an operation.",
     ["inputs", "histories", "fault_sequences"], "every set of procedural knowledge about a goal with any truths and shared or separate evidence, every execution",
     "the shipped examples never look at these conclusions",
     ["src/Decision.c", "src/Variable.c", "src/Truth.c", "src/Stamp.c"],
     [("functional equivalence", "src/Decision.c Decision_Execute"), ("variable introduction", "src/Variable.c")],
     observe=["every line between a decision and the execution, against the memory at the moment the goal was selected"],
     level_note="Not judged where more than one decision would be right or a conclusion was known before (then it may be revised or refused as present). " + TRUST,
     technique="deterministic simulation with failing operations, refinement check against a reference model")

prop("I01", "Conclusions follow from their premises by the inference rules",
     "Whenever a belief event is combined with a related belief, the two share no evidence, and what is derived is exactly what the rules of NAL 1-6 give for these premises in either order (and those with one premise): the conclusion's term, after reductions and with variables introduced or eliminated where the rule says so, its truth by the rule's truth function (with a current event of the other concept projected to the time of the first), the merged evidence, the time of the first and the priority. A conclusion none of the filters can object to is not left out, and nothing else is derived.",
     ["inputs", "histories", "random_choices"], "every pair of premises that comes up from any input, also derived ones of derived ones, eternal and events, all truth values",
     "tests look for one expected conclusion each; which others appear, and with which truth and evidence, is not looked at",
     ["src/NAL.h", "src/NAL.c", "src/Truth.c", "src/Cycle.c", "src/Variable.c", "src/Stamp.c", "src/Term.c", "src/Narsese.c"],
     [("rule table", "src/NAL.h"), ("truth functions", "src/Truth.c"), ("variables", "src/Variable.c"), ("premise selection", "src/Cycle.c")],
     observe=["every derived line against the premises in use when it was printed, the other concept's beliefs at that moment"],
     level_note="Every derivation is compared to an independently written rule base and truth functions; completeness is required for conclusions no filter can concern. Control information is switched on (compile-time setting) to see the premises. " + TRUST,
     technique="deterministic simulation, history check of every derivation against an independent rule base")

prop("X01", "Malformed input is understood or refused, without any damage",
     "Whatever line is given to the shell - truncated or garbled sentences and commands, unbalanced or empty compounds, terms nested too deeply, overlong names and lines, missing or wrong numbers and indexes, any bytes - it is either taken, or the system stops with a diagnostic (exit status 1). It never writes or reads out of bounds, never crashes or hangs, never violates the invariants of its memory, and what happens never depends on the contents of dead memory.",
     ["inputs", "random_choices"], "every sequence of lines, well-formed or not, up to and beyond the longest line",
     "tests only give well-formed input",
     ["src/Narsese.c", "src/Shell.c", "src/NAR.c", "src/Variable.c", "src/Term.c", "src/Globals.c"],
     [("parser", "src/Narsese.c"), ("command processing", "src/Shell.c"), ("input", "src/NAR.c")],
     observe=["end of the process, diagnostics, bounds violations (instrumented), memory invariants after every cycle, outputs under different contents of dead stack"],
     level_note="Bounds are checked by compiler instrumentation (arrays of known size); each session runs three times with different dead stack contents. Lines contain no newline or NUL; huge cycle counts are left out. " + TRUST,
     technique="deterministic simulation with malformed input and poisoned dead memory, differential and instrumented runs")

prop("P01", "Narsese is understood as written and shown so that it reads back",
     "Every sentence whose term is an atom, or built from compounds of one or two components and fits the term size, is taken for what it says in each accepted spelling - infix or prefix, < > or ( ), commas or blanks, any number of blanks, -- or !, truth as {f c}, %f;c% or %f%, with or without dt= - and leads to the same output and memory as its canonical spelling. It is echoed in canonical spelling, after reduction and with variables numbered in order. Every term shown reads back as that term. Sentences with unbalanced brackets, with compounds without copula or component or with too many, or with more than a term are refused.",
     ["inputs", "histories"], "every well-formed sentence, in every spelling, and every sentence with one of these faults",
     "tests use one spelling of a few dozen sentences",
     ["src/Narsese.c", "src/Narsese.h", "src/Variable.c", "src/NAR.c", "src/NAL.c", "src/Memory.c"],
     [("parser and printer", "src/Narsese.c"), ("variable normalisation", "src/Variable.c"), ("echo", "src/NAR.c")],
     observe=["echo of each sentence against an independent model of reading and printing", "all output and memory of the session in canonical and in free spelling", "every term printed by the session, entered in a fresh instance"],
     level_note="Sentences and spellings are sampled. Infix copulas of more characters than one that begin like a copula (&|) are taken for the first character by design and not judged. " + TRUST,
     technique="deterministic simulation, differential sessions in different spellings and a reference reader")

prop("G01", "What was demonstrated is put to use",
     "The reasoner learns from experience and acts on it: after an operation was demonstrated at least twice to lead from a situation to an outcome - with at least 30 cycles between the episodes, in any order, mixed with fruitless attempts and unrelated events, while memory is not exhausted - then in that situation, given the outcome as goal, it executes just this operation at once (in the cycle of the goal or the next), also when several situations, operations and outcomes were demonstrated. When the goal is up to three demonstrated steps away it executes the first step, and when something was demonstrated on at least two objects it does it with another one. Without any situation that makes an operation useful it does nothing.",
     ["histories", "inputs", "random_choices"], "every such environment, every order and timing of demonstrations and tasks",
     "the example tests fix a few environments and only look at averages or printed scores",
     ["src/Cycle.c", "src/Decision.c", "src/Memory.c", "src/Variable.c", "src/Inference.c", "src/Table.c", "src/OccurrenceTimeIndex.c", "src/Truth.c"],
     [("temporal induction", "src/Cycle.c"), ("goal propagation", "src/Cycle.c"), ("decision", "src/Decision.c"), ("anticipation", "src/Decision.c"), ("variable introduction", "src/Variable.c")],
     observe=["executions after each goal, answered by the environment"],
     level_note="Closed loop between the whole reasoner and a simulated environment; progress is required within two cycles. Exploration is switched off, repeated use of a chain (which teaches shortcuts) is not judged. " + TRUST,
     technique="deterministic simulation of the reasoner in a simulated environment, bounded liveness")

prop("M02", "Only the least useful is forgotten",
     "A concept is forgotten only when memory is full, and a waiting event or goal only when its queue is full, and then only the least useful concept (by how often and how recently it was used) and the least urgent waiting one. Knowledge entered by the user is always remembered and marked as more useful than all else, an entered event waits with the highest urgency, and nothing not entered or confirmed by an answer gets that mark. Use counts, time of last use and attention change only by use, attention otherwise decaying at the set rate each cycle. The same event never waits twice.",
     ["histories", "inputs", "configurations"], "every history that exhausts memory or queues any number of times, before and after every cycle",
     "tests never fill memory or queues",
     ["src/Memory.c", "src/PriorityQueue.c", "src/Usage.c", "src/Cycle.c", "src/NAR.c", "src/Event.c"],
     [("forgetting", "src/Memory.c"), ("queues", "src/PriorityQueue.c"), ("usage", "src/Usage.c"), ("decay", "src/Cycle.c")],
     observe=["all concepts, waiting events and goals at the begin and end of every cycle"],
     level_note="Each step between snapshots at begin and end of cycles is judged. The concept an entered implication starts from can give way to the implication's own, and the deepest goal layer, which feeds itself, is not ranked. " + TRUST,
     technique="deterministic simulation with memory exhaustion, history check of every step")

prop("A01", "Names carry no meaning",
     "What the reasoner does depends on which names are the same, not on what they are: when the names of terms, measurements, operators and arguments in a session are consistently replaced by other legal names - different ones by different ones - the session leads to the same output, dumps, decisions and executions, in the new names, however alike, long or odd they are. Legal names start with a letter or digit, consist of letters, digits and underscores, and differ within their first 31 characters.",
     ["inputs", "histories", "configurations"], "every session, every consistent choice of names",
     "tests use a handful of short, clearly different names",
     ["src/Narsese.c", "src/Shell.c", "src/NAR.c", "src/Variable.c", "src/InvertedAtomIndex.c", "src/HashTable.c"],
     [("table of names", "src/Narsese.c"), ("names in commands", "src/Shell.c"), ("measurement names compared", "src/Variable.c"), ("atoms that index concepts", "src/InvertedAtomIndex.c")],
     observe=["output of the session in the original and in the other names"],
     level_note="Each session is run with two sets of names and the same seed; the performance figures about hash chains are left out of the comparison. " + TRUST,
     technique="deterministic simulation, metamorphic comparison of sessions under renaming")

# ------------------------------------------------------------------------------------------------ the Python clients
prop("K01", "The Python client hands back what belongs to each input",
     "AddInput of misc/Python/NAR.py sends the given text to the given reasoner and returns what this reasoner printed for it, and nothing that belongs to an earlier input or another reasoner: inputs, derivations (derived and revised), answers, selections and executions, each with term, punctuation, occurrence time, evidence, priority and truth as printed, the arguments of executions, the last reason, the raw output, and whether an operation asks for its result - however the output arrives. For *stats it returns the statistics. Print decides whether the raw output is also printed. When the reasoner has ended it raises an error: it never waits for it and never returns a cut off answer. Exit makes the reasoner quit.",
     ["inputs", "histories", "fault_sequences", "crash_points"], "every sequence of inputs (other than a bare 0, the client's own delimiter) to any of several reasoners, every splitting of the pipes, every moment the reasoner may end",
     "the scripts run through the client by the tests look at a few executions, with a reasoner that always answers",
     ["misc/Python/NAR.py", "src/Shell.c"],
     [("reading output up to the delimiter", "misc/Python/NAR.py"), ("parsing of tasks, reasons and executions", "misc/Python/NAR.py")],
     observe=["return values, printed text and exceptions of the client", "bytes sent to the reasoner"],
     level_note="The client's code runs against simulated pipes to simulated reasoners, which are killed at any byte; results compared with an independent reading of the reasoner's own output. " + TRUST,
     technique="deterministic simulation of the client protocol with pipe and crash faults, history check against a model")

prop("K02", "The persistent client's memory survives crashes and counts evidence once",
     "What misc/Python/persistentNAR.py has shown of eternal knowledge when it asks for the next line - inputs, answers and derivations - is in its file mem.json, each with truth and evidence as shown and never replaced by a less confident version. Wherever the client is killed, its reasoner lost or the disk full, the file holds everything that was in it before, and the client starts again from it. A new life gives no evidence number that remembered knowledge rests on, enters remembered knowledge again with its own evidence only, and answers questions about it with at least the remembered confidence (with a variable: with the best remembered match).",
     ["crash_points", "fault_sequences", "histories", "inputs"], "every history of inputs and questions over several lives, every point of a crash in reading, reasoning and writing the file",
     "no test starts the persistent client",
     ["misc/Python/persistentNAR.py", "misc/Python/NAR.py", "src/NAR.c", "src/Shell.c"],
     [("saving after every line", "misc/Python/persistentNAR.py"), ("retrieval with imported evidence", "misc/Python/persistentNAR.py")],
     observe=["the file after every line and every crash", "output of the client", "what the client sends to the reasoner and what that prints"],
     level_note="Client, pipes and disk simulated in one process; crashes at every operation on the file, short writes, full disk, lost reasoner. A killed process keeps what it wrote; power failure is not simulated. " + TRUST,
     technique="deterministic simulation of client, disk and reasoner with crash and disk faults, invariants on durable state")
