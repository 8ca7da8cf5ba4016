"""What each check explores and reports (no pybbn imports here)."""
ALL = "pybbn (all of it, from /repo's working tree), numpy, CPython"
SETS = "set iteration order in pybbn's graph, node and join tree modules (seeded permutation)"
STEPS = "interrupts, time limits and failing allocations (raised by the simulator before a chosen executed line)"
THREADS = "thread scheduler (real threads, one at a time, handed over at chosen lines or bytecode instructions); threading locks"
BASE = ["numpy and CPython are right", "the brute-force reference in sim/nets.py is right",
        "exploration: only the seeded plans were executed; networks have at most a dozen variables (joint tables of a few thousand cells)"]
TRACE = "faults strike between executed Python lines (or bytecode instructions for schedules) of pybbn, not inside C functions or other libraries"
DIST = "sha256 over "


def meta(quick, thorough, rule, faults, probes, distinct, stub, more=()):
    return {"runs": {"quick": quick, "thorough": thorough}, "rule": rule, "faults": faults, "probes": probes,
            "distinct": DIST + distinct, "real": [ALL], "stub": stub, "assumptions": BASE + list(more)}


CUTS = ["interrupt", "timeout", "nomem"]
META = {}
META["C01"] = meta(
    20000, 400000,
    "One run: a random network (11 kinds of structure, ids and insertion orders of several kinds, tables with zeros, certainties and tiny entries), a "
    "join tree, and a history of 1 to 34 (3 %: 60 to 259) evidence operations and queries under seeded visiting orders that change during the run; after every operation the "
    "answers are compared with brute-force enumeration (4 %: networks of 13 to 29 variables, four of whose marginals are checked by elimination). Non-trivial: an operation was made and a defined posterior compared.",
    ["message reordering (seeded visiting order)"],
    ["retraction", "toggled off", "impossible evidence in force", "checked after impossible evidence", "disconnected network", "several cliques",
     "op update", "op set", "op unobs", "op unobs_all", "op query", "very long histories", "networks of more than twelve variables",
     "evidence objects held", "evidence objects altered by their owner afterwards"],
    "the structure, the cardinalities and the sequence of operations with their values, of runs that ended without violation", [SETS])
META["C02"] = meta(
    7000, 200000,
    "One run: a join tree and a history of evidence operations of which about half are made to fail: cut short at a chosen line by an interrupt, time limit or "
    "failed allocation, fed invalid evidence at some place of the batch, or failed by a listener; some are repeated. Model: the set of evidence states that the "
    "failures so far allow (all or nothing per operation); each query must fit one of them and narrows it. Non-trivial: an operation failed or was cut short.",
    CUTS + ["invalid evidence", "listener failure"], ["failed operations", "retried", "query cut short", "retried with the same evidence objects"],
    "the places at which operations were cut (function and step), the operations and the structure", [SETS, STEPS], [TRACE])
META["C03"] = meta(
    5000, 150000,
    "One run: several callers with trees of one network (made by building, copying, re-applying, restoring; before or after evidence) whose operations are "
    "interleaved in a seeded order, or line by line (sometimes instruction by instruction) in threads; every answer is compared with brute force for that "
    "caller's own history. Non-trivial: the callers really alternated.",
    ["preemption"], ["threaded runs", "bytecode-level runs", "op make by apply", "op make by deepcopy", "op make by reapply", "op make by serde",
                     "earlier trees checked again", "op edit", "callers that share evidence objects"],
    "the order of turns or the sequence of hand-overs (thread and function), the operations and the structure", [SETS, THREADS], [TRACE])
META["C04"] = meta(
    5000, 250000,
    "One run: a network grown by edits (nodes, edges, tables, removals; a join tree is built in between, sometimes cut short) under a seeded visiting order; "
    "after each stage the tree is checked: cliques cover families, are not nested, acyclic, connected like the network, running intersection, separators are "
    "intersections, tables and posteriors are right. Non-trivial: a tree with several cliques or an interrupted build.",
    CUTS + ["message reordering (seeded visiting order)"], ["edit node", "edit edge", "edit cpt", "edit remove", "several cliques", "fill-in", "forests", "look-alike networks used before"],
    "structure, insertion order, edits and cuts", [SETS, STEPS], [TRACE])
META["C05"] = meta(
    14000, 250000,
    "One run: one to three saves (JSON, CSV, generated straight to a file, join tree; of new networks, of one that was edited since, or over the file of one much like it) over a simulated file system that splits, interrupts and fails writes, "
    "flushes, closes and reads according to the plan, each loaded by a process that has seen only the disk. A save or load that met an error must raise; a clean "
    "one must give the network bit for bit. Non-trivial: at least one fault or restart happened.",
    ["short write", "short read", "eintr", "ENOSPC", "EDQUOT", "EIO", "EPIPE", "close EIO", "close ENOSPC", "EIO on read", "restart"],
    ["exact round trips (csv)", "exact round trips (json)", "overwrites", "reported failures", "restored join trees", "networks refused by CSV",
     "tables that do not quite add up", "networks saved again", "networks saved again after edits"],
    "format, kind, number of writes, fault plan and the shape of the network",
    ["raw file I/O below Python's own buffering (short, interrupted and failing read, write, close)", "process restart (fork of a process that made no runs)"],
    ["buffering and text encoding are CPython's own and real"])
META["C06"] = meta(
    6000, 200000,
    "One run: a network is saved over none, another or a similar older file while the process crashes, loses power (unsynced data cut), meets a full disk or is "
    "interrupted at a chosen point, or another process reads in the middle; the file left behind is loaded by a fresh process. Non-trivial: a torn or "
    "intermediate file was loaded.",
    ["crash", "power loss", "concurrent read", "ENOSPC", "eintr", "short write", "short read", "interrupt", "timeout", "nomem", "restart"],
    ["torn files loaded", "torn file rejected", "new network loaded", "previous network loaded"],
    "format, place of the cut, state of the older file and the outcome",
    ["raw file I/O below Python's own buffering", "crash and power loss (what reached the raw layer, or a part of it, survives)", STEPS], [TRACE])
META["C07"] = meta(
    40000, 600000,
    "One run: calls of one or two samplers for a random network whose uniform draws come from a script: fair draws mixed with hostile ones (borders of the "
    "cumulative tables, their neighbours, 0 and the largest number below 1), some calls cut short and repeated. Every sample is checked against the tables, the "
    "evidence and the number asked for, the number of draws is bounded, arguments and network stay as they were. Non-trivial: hostile draws were served and samples checked.",
    ["hostile draw"] + CUTS, ["samples", "calls with evidence", "unlikely evidence", "sampling cut short"],
    "the structure, the calls and the script of draws", ["numpy's random source (scripted)", STEPS], [TRACE])
META["C08"] = meta(
    6000, 60000,
    "One run: 400 to 4500 samples of a random network with evidence, drawn with numpy's own generator from seeds of the plan; chi-square test of the complete "
    "assignments against the conditional joint. A p-value below 1e-4 is only a suspicion: the run then draws six more seeds with more samples and fails below 1e-9. "
    "Non-trivial: samples were tested.",
    [], ["samples", "with evidence", "parents added out of order"],
    "structure, evidence and seeds", ["nothing: numpy's generators are real, seeded from the plan"],
    ["no fault applies: this property is about the fair random source; hostile sources are C07", "chance of a false alarm below 1e-12 per campaign"])
META["C09"] = meta(
    10000, 250000,
    "One run: samplers with seeds in threads, scheduled line by line against callers that seed, draw from, save and restore numpy's and Python's global "
    "generators or build and generate networks; results must equal those of the same call alone, prefixes included. Non-trivial: hand-overs happened or foreign draws were made.",
    ["preemption", "foreign draw"], ["context switches"],
    "the sequence of hand-overs, the jobs and the noise", [THREADS], [TRACE])
META["C10"] = meta(
    24000, 500000,
    "One run: one or two generated networks of 1 to 60 nodes with numpy's random source replaced by a script (extreme, repeating, ascending integers and borders of "
    "the unit interval, then fair draws). Structure, tables, JSON and conversion are checked against the definition, inference against brute force; draws are bounded. "
    "Non-trivial: hostile draws were served.",
    ["hostile draw"], ["networks singly", "networks multi", "single node", "undirected cycles", "inference compared", "inference accepted"],
    "the sizes, limits and the generated edges", ["numpy's random source (scripted; Dirichlet rows from scripted gamma draws)"])
META["C11"] = meta(
    11000, 400000,
    "One run: two to four threads, each with up to six read-only calls on the same network, join tree, sampler, graph, causal graph or saved dictionary, handed over at chosen lines or bytecode "
    "instructions; every answer must equal that of the same call alone (and, where plain, the structure's), and the public state is the same afterwards. "
    "Non-trivial: at least one hand-over happened.",
    ["preemption"], ["query bbn", "query jt", "query sampler", "query ug", "query dag", "query pdag", "query cg", "queries about nobody"],
    "the sequence of hand-overs and the queries", [SETS, THREADS], [TRACE])
META["C12"] = meta(
    3000, 150000,
    "One run: one to five questions to two estimators of one network, some cut short at a chosen line and perhaps repeated, or from two threads under a seeded "
    "schedule, after arbitrary other use of the estimator's join tree; every effect is compared with the truncated factorisation. Non-trivial: an effect was compared.",
    ["preemption"] + CUTS, ["effects compared", "several parents", "questions cut short", "estimator's tree used before"],
    "questions, cuts, hand-overs and the structure", [SETS, THREADS, STEPS],
    [TRACE, "only asked where each value of the cause is possible under every possible combination of its parents"])
META["C13"] = meta(
    3000, 60000,
    "One run: the same questions (posteriors, saved texts, samples and generated networks for a seed, networks learned from data, join tree, paths and adjustment sets, causal effects) in "
    "several simulated processes: with the visiting order of sets of hash-randomised elements permuted by a seed, and in real interpreters with other "
    "PYTHONHASHSEEDs. Non-trivial: at least two worlds were compared.",
    ["set order permuted", "process with another hash seed"],
    ["topic posteriors", "topic files", "topic samples", "topic generated", "topic tree", "topic do", "topic ace", "topic learned"],
    "names, topics and worlds", ["visiting order of sets with hash-randomised elements (seeded permutation), in the simulated worlds; nothing in the real interpreters"],
    ["permuted order covers `set(...)`; set displays and comprehensions are covered by the real interpreters (4 hash seeds per quick run, 12 per thorough one)"])
META["C14"] = meta(
    36000, 1000000,
    "One run: 2 to 39 edits (nodes, edges in both directions and kinds, repeats, removals, equal ids in other objects) of an undirected, directed, partially "
    "directed or Bayesian graph, many of them cut short one to three times and then repeated; after each edit every view of the graph is compared with a model. "
    "Non-trivial: an edge was accepted.",
    CUTS, ["edges accepted", "edges refused", "edges repeated", "cycles refused", "nodes removed", "absent nodes removed", "edits cut short", "edits repeated later",
             "edits of graphs of 60 to 400 nodes"],
    "the edits and the places of the cuts", [STEPS], [TRACE])
META["C15"] = meta(
    5000, 150000,
    "One run: a family of join trees grown by re-applying tables and by serialising and restoring (as objects, as text, several times, in another process) from any "
    "member at any point of its life, with evidence before and after, derivations cut short or given invalid tables; all members are compared with brute force "
    "after each event. Non-trivial: a tree was derived.",
    CUTS + ["invalid tables", "restart"], ["trees by reapply", "trees by serde", "reapply cut short", "serde cut short", "made from a tree with evidence", "answers compared",
                                                      "look-alike networks used before", "networks of more than twelve variables"],
    "the events, the cuts and the structure", [SETS, STEPS, "process restart (fork of a process that made no runs)"], [TRACE])
META["C16"] = meta(
    40000, 600000,
    "One run: a family of beliefs grown from one or two Gaussian models by one or more callers (threads under a seeded schedule), in random batches and orders, with "
    "invalid observations, cuts and other uses in between; every belief is compared with the closed-form conditional of all its observations, and all earlier beliefs "
    "stay bit for bit as they were. Non-trivial: at least two beliefs were compared.",
    CUTS + ["preemption", "invalid observations"], ["beliefs compared", "inferences cut short"],
    "the observations (names, grouping, order), cuts and hand-overs", [THREADS, STEPS],
    [TRACE, "covariances are well conditioned (smallest eigenvalue at least 0.3)",
     "while the listed finding mean-sign stands, means are compared with the mirrored recursion along the same history"])
META["C17"] = meta(
    14000, 400000,
    "One run: a family of graphs (undirected, directed, partially directed, Bayesian) grown from one by deep copies - also cut short, made at the same time in two threads, or made "
    "of a graph whose last edit was cut short - and 3 to 15 uses of any member: edits, tables, values and marks changed in place or replaced, pieces copied out and changed, "
    "inference, the join tree of which is copied too and the copy used up. After each operation every member is compared with its own model. Non-trivial: a copy was made.",
    CUTS + ["preemption"], ["members made", "edits cut short", "copies cut short", "copies of half-edited graphs", "copies made at the same time", "pieces copied", "inference on members", "join trees copied"],
    "the operations, the cuts and the hand-overs", [STEPS, THREADS], [TRACE])
META["C18"] = meta(
    8000, 200000,
    "One run: one to three callers (threads under a seeded schedule) infer, draw samples of 0 to 3000 and read summaries of a family of Gaussian beliefs, spoil what they "
    "were given, and use and seed the shared random source in between; some uses are cut short and repeated. Summaries agree with each other and with the belief; samples "
    "are counted and compared with the normal distributions summarised (distance, mean, variance and tails, by bounds that hold for every size; further looks at 60000 samples when suspicious); beliefs stay bit for bit. "
    "Non-trivial: samples were drawn.",
    CUTS + ["preemption"], ["draws", "distributions compared", "observed variables sampled", "uses cut short", "draws repeated with a seed", "draws told apart"],
    "the events, the cuts and the hand-overs", ["numpy's random source (seeded)", THREADS, STEPS], [TRACE, "numpy's normal variates are fair"])
META["C19"] = meta(
    4000, 120000,
    "One run: two to four callers (threads under a seeded schedule, switched by line, bytecode or I/O call) save networks and join trees they share to files of their own, whose names "
    "differ in directory, stem or extension only, and load them and a common file, over a simulated file system that splits and interrupts calls and fails one in a third of the runs. "
    "What was loaded, all files in the end and the shared networks are compared with the networks saved. Non-trivial: a switch happened and a file was compared.",
    ["preemption", "short write", "short read", "eintr", "EIO", "ENOSPC"], ["context switches", "files compared", "networks compared", "uses that failed"],
    "the events, the hand-overs and the files", [THREADS, "file system (simulated)"], [TRACE])
